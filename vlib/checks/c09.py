"""Docstrings are preserved and never become doctests."""
import functools, re, subprocess
from .. import build, expect, flat, model, rust
from .common import *

WS = "\t\n\x0b\x0c\r \x85\xa0\u1680" + "".join(map(chr, range(0x2000, 0x200b))) + "\u2028\u2029\u202f\u205f\u3000"
FRAGMENTS = ["Returns the value.", "word", "a b", "x = f(1)", ">>> f(1)", "```", "```rust", "```python", "````", "~~~", "~~~rust", "~~~~", "` `` ```", "- item", "-\titem", "1. one", "1.\tone",
             "> quote", "> ```", "> ~~~", "* ```", "-     code", "    assert!(true);", "\tfn main() {}", "\t\tx", "        deep", "# Heading", "===", "---", "| a | b |", "<pre>", "</code>", "<!--", "[link]: x",
             "\\", "back\\slash", "\\n", "\"quoted\"", "'single'", "\"#", "{braces} {}", "{0!r:>10}", "*/", "/*", "//", "///", "//!", "/", "a /", "/ / /", "ünï ☃ 𝄞", "\xa0\xa0nbsp\xa0\xa0x", "\u3000wide",
             "\u2028line", "\x85next", "\x00nul", "\x1b[0m", "\r", "a\rb", "a\r\n", "tab\tstop\t\tx", "a  b   c", "\x0b\x0cff", "#![feature(x)]", "#[test]", "r#\"raw\"#", "$var", "%s", "~", "`", "~`~`~", "",
             "None", ":param x: y", "Args:", "    x: first", "e\u0301 \ufeff \u200b", "\u202e rtl", "Ω" * 30, "!", "0", ".. code-block:: rust", "    let x = 5;", "doc = \"x\"", "]", ")]"]


def doc(g):
    if g.i(4) == 0:
        return None
    if g.one_in(12):
        return g.pick(["", " ", "\n", "\n\n\n", "/", "///", " / \n / ", "`", "~~~~~~", "\t", "\x85"])
    s = ""
    for i in range(1 + g.i(6)):
        s += (g.pick(["\n", "\n", "\n", "\n\n", "\n\n\n", "\r\n", " ", "\n    ", "\n\t", "\n  "]) if i else g.pick(["", "", "", "\n", "    ", "\n\n  "])) + g.pick(FRAGMENTS)
    return s + g.pick(["", "", "", "\n", "\n    ", "/", " //", "\n\n", "```"])


def norm(text):
    """Lines of words."""
    text = (text or "").rstrip(WS + "/")
    lines = [[re.sub("`+", "`", re.sub("~+", "~", w)) for w in re.split(f"[{re.escape(WS)}]+", l) if w] for l in text.split("\n")]
    while lines and not lines[0]:
        lines.pop(0)
    while lines and not lines[-1]:
        lines.pop()
    return lines


def doc_of(e):
    it = e.get("item")
    if it and it.get("form") == "builtin":
        return expect.builtin_obj(it["builtin"]).__doc__
    if it and it.get("form") == "partial":
        return functools.partial.__doc__
    return e.get("doc")


class C09(Check):
    id = "C09"
    technique = "property-based testing: generated docstrings against the bindings' documentation, on/off comparison, doctests listed by rustdoc"
    rule = ("A case is a generated package whose modules, classes, functions, methods and properties carry docstrings composed of Markdown, reStructuredText, code fences, "
            "indented blocks, control characters, unusual whitespace, quotes and slashes. Non-trivial: at least two items have a docstring with two lines.")
    assumptions = ["Lines are separated by line feeds; leading and trailing empty lines do not count.", "Class attributes and module attributes have no docstring of their own."]
    examples = {"quick": 150, "thorough": 6000}

    def strategy(self, tier):
        return model.strategy(model.package, model.Opts(doc=doc, max_mods=5, min_items=1, max_items=5, mix={"plain": 10, "keyword": 1, "camel": 1, "clash": 2},
                                                        kinds={"func": 5, "class": 4, "attr": 1, "imp": 1}))

    def fixed(self, tier):
        out = []
        for i, f in enumerate(FRAGMENTS):
            for form in ("{}", "text\n\n{}\n", "    {}\n    more", "{}\nlet x: () = 1;\n{}"):
                t = form.replace("{}", f)
                out.append((f"fragment {i}", {"mods": [{"path": ["pkg"], "pkg": True, "doc": t, "all": None, "items": [
                    {"k": "func", "n": "f", "form": "def", "params": [], "ret": None, "doc": t, "style": "pep"},
                    {"k": "class", "n": "A", "bases": [], "doc": t, "members": [{"k": "prop", "n": "p", "ann": None, "setter": True, "sann": None, "style": "pep", "doc": None, "sdoc": t}]}]}],
                    "main": 1}))
        return out if tier != "quick" else out[::3]

    def run(self, spec, ctx):
        d = written(ctx, spec)
        name = root_of(spec)
        a = request(ctx, d, [by_name(name), by_name(name, {"generate_docs": False})])
        f, f0 = bindings(a[0]), bindings(a[1], "generation without documentation")
        exp = expect.Expect(spec)
        many = 0
        for k, e in exp.keys.items():
            h = f.keys.get(k)
            if h is None or k[0] in ("use", "type"):
                continue
            want = doc_of(e)
            have = "\n".join(h["docs"])
            many += bool(want) and len(norm(want)) > 1
            if not want:
                if h["docs"]:
                    raise Violation(f"undocumented: {k} has no docstring but the documentation {h['docs']}"[:800])
            elif norm(want) != norm(have):
                raise Violation(f"documentation: {k} has the docstring {want!r} but the documentation {have!r}"[:1500])
            if k in f0.keys and f0.keys[k]["docs"]:
                raise Violation(f"off: {k} has documentation although it is disabled: {f0.keys[k]['docs']}"[:800])
        ctx.nontrivial = many > 1
        for k, h in f0.keys.items():
            if h.get("docs") and k not in exp.keys and not expect.tolerated(k):
                raise Violation(f"off: {k} has documentation although it is disabled: {h['docs']}"[:800])
        msg = flat.diff(f.keys, f0.keys, what=("sig", "code", "origin", "leaves", "macros", "name"))
        if msg:
            raise Violation(f"code: the code differs without documentation: {msg}")
        docs = [h["docs"] for h in f.keys.values() if h.get("docs")]
        for h in f.keys.values():
            if re.search("~~~|```", "\n".join(h.get("docs") or ())):
                ctx.label("fence left")
        if docs:
            bad = doctests(d, docs)
            if bad:
                raise Violation(f"doctest: rustdoc would compile code of the documentation: {bad}")

    def signature(self, msg):
        return msg.split(":")[0]


def rust_lit(s):
    return '"' + "".join(c if c.isascii() and c.isprintable() and c not in '"\\' else f"\\u{{{ord(c):x}}}" for c in s) + '"'


def doctests(dir, docs):
    """What rustdoc takes for Rust code in these documentations."""
    src = os.path.join(dir, "docs.rs")
    with open(src, "w", encoding="utf-8") as f:
        for i, lines in enumerate(docs):
            f.write("".join(f"#[doc = {rust_lit(l)}]\n" for l in lines) + f"pub fn f{i}() {{}}\n")
    r = subprocess.run([build.rustdoc(), "--edition", "2021", "--test", src, "--test-args", "--list", "--cap-lints", "allow"], cwd=dir, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120, env={"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "TMPDIR": dir})
    if r.returncode != 0 or "tests, 0 benchmarks" not in r.stdout and "test, 0 benchmarks" not in r.stdout:
        raise Inconclusive("rustdoc: " + (r.stderr or r.stdout)[-300:])
    m = re.search(r"^(\d+) tests?, ", r.stdout, re.M)
    if m.group(1) == "0":
        return None
    named = [docs[int(n)] for n in re.findall(r" - f(\d+) \(line", r.stdout) if int(n) < len(docs)]
    return r.stdout[:300] + (f" {named[0]!r}"[:600] if named else "")


CHECK = C09()
