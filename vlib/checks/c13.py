"""Embedded source reproduces the module exactly."""
import copy
from .. import drive, expect, flat, model
from . import c07, c09
from .common import *

NAMES = ["emb", "struct2", "fn", "größe", "emb.sub", "ns1.inner.deep", "type", "Emb", "e2", "_priv"]
TEXT = [f for f in c09.FRAGMENTS if "\0" not in f] + ["'''", '"""', "\\", "\\\\", "\\\n", "\r\n", "\r", "\t", "\x0c", "{", "}", "{{}}", "\"#", "\"##", "r##\"", "${x}", "%d", "\\x41", "\\u{41}", "\\0", "𝄞🐍", "\ufeff", "\u2028", "\x7f", "\x01", "//", "/*", "*/",
                                                  " ", "  ", "\n\n\n", "concat!()", "\\N{DASH}", "`", "#[x]", "b''", "é", "e\u0301"]
CODE = ["if True:\n\t_t1 = 1\n\n\n", "_l = [1,\n   2, # c\n\n 3]", "_a9 = 1; _b9 = 2;", "_x = \\\n    3", "\x0c", "# coding: utf-8", "#!shebang", "    # indented comment", "_s = 'a' 'b' \\\n 'c'", "@(lambda f: f)\ndef _deco(): pass",
        "_f = f'{1 + 1!r:>4}{{}}'", "_r = r'\\n'", "def _g():\n  'doc'\n  return 1\n", "class _K:\n\tx = 1\n\tdef m(self):\n\t\treturn 2", "for _i in (): pass\nelse: pass", "assert __name__ == __spec__.name if __spec__ else True",
        "_n = __name__", "try:\n    _q = 1\nfinally:\n    pass", "_long = '" + "x" * 3000 + "'", "import json as _json", "_fi = __file__", "_w = '''\n  line\n\tline\n'''", "global _gg\n_gg = 1", "_lam = lambda: (yield)", "_e = ...",
        "_u = '\\ud800'", "_big = 10 ** 30", "type _Al = int", "_ö = 1", "_fn2 = __import__('os').path.dirname(__file__)"]
BAD = ["def (:", "x = ", "  x = 1", "raise RuntimeError('no')", "import zz_missing", "raise SystemExit(3)", "1/0", "x = 1\0", "'", "\"\"\"", "return 1", "x = (", "\tif 1:\n  2", "raise KeyboardInterrupt", "class A(A): pass", "await x", "raise type('E', (BaseException,), {})",
       "# coding: zz\nx = 1", "assert 0", "def f(a, a): pass", "exit(1)", "raise type('E', (Exception,), {'__str__': lambda s: 5})"]


def literal(t):
    return "'''" + t.replace("\\", "\\\\").replace("'", "\\'") + "'''"


def renumber(x, i):
    """The description of a module as number `i`."""
    if isinstance(x, dict):
        return {k: ([i, v[1]] if k == "inst" and v else [[i, b[1]] for b in v] if k == "bases" else renumber(v, i)) for k, v in x.items()}
    if isinstance(x, list):
        if len(x) == 3 and x[0] == "cls" and isinstance(x[1], int):
            return ["cls", i, x[2]]
        return [renumber(y, i) for y in x]
    return x


def one(g, name, i):
    pkg = drive.tame(model.package(g, drive.opts(max_mods=1, min_items=1, max_items=4, max_members=3, kinds={"func": 3, "class": 2, "attr": 3}, docs=g.flag(), root_names=["x"])))
    m = renumber(pkg["mods"][0], i)
    m["path"] = name.split(".")
    return m


def case(g):
    n = 1 + g.i(3)
    names = g.perm(NAMES)[:n]
    if "emb.sub" in names and "emb" in names:
        names.remove("emb")
    mods, raws = [], []
    for i, name in enumerate(names):
        m = one(g, name, i)
        if g.flag():
            m["doc"] = "".join(g.pick(TEXT) for _ in range(g.i(4)))
        for j in range(g.i(5)):
            code = g.pick([None, None, g.pick(CODE)]) or (f"zzv{j} = " + literal("".join(g.pick(TEXT) for _ in range(1 + g.i(5)))) if g.flag() else
                                                          "# " + g.pick(TEXT).replace("\n", " ").replace("\r", " ").replace("\x0c", ""))
            m["items"].insert(g.i(len(m["items"]) + 1), {"k": "raw", "n": f"zzr{j}", "code": code})
        if i and g.one_in(3):
            m["items"].append({"k": "raw", "n": "zzimp", "code": f"_other = _il.import_module({names[i - 1]!r}).__name__"})
        mods.append(m)
    files = 0
    for i in range(g.i(2)):
        mods.append(one(g, f"filed{i}", len(mods)))
        files += 1
    spec = {"mods": mods, "main": len(mods), "root": 0}
    exp = expect.Expect(spec)
    plans = []
    for k, e in exp.keys.items():
        if k[0] == "fn" and e["item"]["k"] == "func":
            plans.append(["fn", drive.call_plan(g, k, e)])
        elif k[0] == "fn" and e.get("acc") == "get":
            plans.append(["get", list(k)])
        elif k[0] in ("cfn", "cmeth") and "acc" not in e:
            plans.append(["method", drive.method_plan(g, k, e)])
    plans = [p for p in plans if p[1] and not (p[1] if p[0] == "get" else p[1]["key"])[1].startswith("_")][:24]
    styles = [[g.pick(["\n", "\n", "\r\n"]), g.one_in(6), g.pick(["", "", "", "", "\n", "\n\n", "   ", "# end", "\\\n"])] for _ in range(n)]
    order = list(range(len(mods)))
    if not any(it["n"] == "zzimp" for m in mods for it in m["items"]):
        order = g.perm(order)
    bad = [g.pick(["broken", "fn", "broken.sub"]), g.pick(BAD), g.flag()] if g.one_in(4) else None
    return {"pkg": spec, "files": files, "plans": plans, "styles": styles, "order": order, "bad": bad, "missing": g.flag(), "early": g.i(len(names)) if g.one_in(5) else None, "stale": g.i(len(names)) if g.one_in(5) else None}


HELP = '''
import sys as _sys
def strip(c):
    return c.replace(co_filename="", co_consts=tuple(strip(x) if type(x) is type(c) else x for x in c.co_consts))
def emb_ok(name, src):
    m = _sys.modules.get(name)
    if m is None or m.__name__ != name or not isinstance(m, type(_sys)):
        return False
    return strip(m._zzcode) == strip(compile(src.encode("utf-8", "surrogatepass"), "x", "exec", dont_inherit=True))
'''


def source(spec, i):
    nl, bom, end = spec["styles"][i]
    s = model.module_src(spec["pkg"], i) + "_zzcode = __import__('sys')._getframe().f_code" + end
    if nl != "\n":
        s = s.replace("\r\n", "\n").replace("\n", nl)
    return ("\ufeff" if bom else "") + s


def early_source(spec, i):
    """Another source under the name of the module, given before the actual one."""
    return "".join(f"def {x['n']}(*args): return 'early'\n" if x["k"] == "func" else f"{x['n']} = 'early'\n" for x in spec["pkg"]["mods"][i]["items"] if x["k"] in ("func", "attr"))


class C13(Check):
    id = "C13"
    technique = "property-based testing: generated sources embedded by compiled drivers, compared with the code compiled by Python and exercised through the bindings"
    needs = ("vgen", "rt")
    rule = ("A case is one to three modules given as generated source text (quotes, escapes, control characters, Unicode, BOM, CRLF, tabs, continuation lines; dotted and keyword names), "
            "mixed with modules from files, embedded by a compiled driver in an interpreter without these modules. The code object of the executed module is compared with the one "
            "Python compiles from the source, and up to 24 planned uses of the bindings follow. Some cases add source that is not valid, or give another source under the same name before (to the same or to another generator in the process). Non-trivial: at least one planned use.")
    assumptions = ["The parent packages of modules with dotted names can be imported, as Python requires it.", "The source is valid UTF-8; parts of the source that Python itself drops (comments, line end style) are observed through positions in the compiled code only."]
    examples = {"quick": 60, "thorough": 2500}

    def strategy(self, tier):
        return model.strategy(case)

    def fixed(self, tier):
        empty = {"path": ["emb"], "pkg": True, "doc": None, "all": None, "items": []}
        out = []
        for b in BAD:
            out.append((f"invalid source {b[:20]!r}", {"pkg": {"mods": [dict(empty)], "main": 1}, "files": 0, "plans": [], "styles": [["\n", False, ""]], "order": [0], "bad": ["broken", b, False], "missing": False}))
        items = [{"k": "raw", "n": f"r{j}", "code": f"zzv{j} = " + literal(t)} for j, t in enumerate(TEXT)] + [{"k": "raw", "n": f"c{j}", "code": c} for j, c in enumerate(CODE)]
        for nl in ("\n", "\r\n"):
            for bom in (False, True):
                out.append(("all texts", {"pkg": {"mods": [dict(empty, items=items)], "main": 1}, "files": 0, "plans": [["get", ["fn", "emb.zzv0"]]], "styles": [[nl, bom, ""]], "order": [0], "bad": None, "missing": False}))
        return out

    def run(self, spec, ctx):
        pkg = spec["pkg"]
        n = len(pkg["mods"]) - spec["files"]
        d = ctx.case_dir()
        for i in range(n, len(pkg["mods"])):
            with open(os.path.join(d, pkg["mods"][i]["path"][0] + ".py"), "w", encoding="utf-8") as f:
                f.write(model.module_src(pkg, i))
        names = names_of(pkg)
        for m in names[:n] + ([spec["bad"][0]] if spec["bad"] else []):  # what is imported as part of a package needs the package
            for i in range(1, m.count(".") + 1):
                p = os.path.join(d, *m.split(".")[:i])
                os.makedirs(p, exist_ok=True)
                open(os.path.join(p, "__init__.py"), "w").close()
        steps = [{"t": "str", "v": names[i], "code": source(spec, i)} if i < n else {"t": "name", "v": names[i]} for i in spec["order"]]
        if spec.get("early") is not None:
            ctx.label("name given twice")
            steps.insert(0, {"t": "str", "v": names[spec["early"]], "code": early_source(spec, spec["early"])})
        if spec["bad"]:
            name, code, first = spec["bad"]
            b = {"t": "str", "v": name, "code": code}
            a = request(ctx, d, [gen_op([b] + steps if first else steps + [b])])[0]
            if "err" not in a:
                raise Violation(f"invalid: source {code!r} does not give an error but {bad(a) or 'bindings'}")
            ctx.label("invalid source")
        before = []
        if spec.get("stale") is not None:
            ctx.label("name used before in the process")
            before = [gen_op([{"t": "str", "v": names[spec["stale"]], "code": early_source(spec, spec["stale"]) + "def zzstale(): pass\n"}])]
        a = request(ctx, d, before + [gen_op(steps, out="tree text")])[-1]
        try:
            for i in range(n):
                compile(source(spec, i).encode(), "x", "exec", dont_inherit=True)
        except (SyntaxError, ValueError) as e:
            if "err" not in a:
                raise Violation(f"invalid: source with {e} does not give an error but {bad(a) or 'bindings'}")
            return
        f = bindings(a)
        if set(f.embeds) != set(names[:n]):
            raise Violation(f"embedding functions: there are some in {sorted(f.embeds)} although {names[:n]} were given as source")
        stale = [k for k in f.keys if k[-1].endswith("zzstale")]
        if stale:
            raise Violation(f"bindings: {stale} although the source does not define it")
        exp = expect.Expect(pkg)
        drv = drive.Driver(pkg, exp, f)
        seen = set()
        gets = {}
        for kind, p in spec["plans"]:
            if kind == "get":
                k = tuple(p)
                if k in exp.keys:
                    gets.setdefault(exp.keys[k]["mod"], k)
        for i in range(n):
            ctx.label("name:" + ("dotted" if "." in names[i] else "keyword" if names[i] in ("fn", "type") else "plain"))
            if spec["missing"] and i in gets:
                b = drv.builder()
                drv.step(f"let r = {drive.rpath(gets[i][1])}(py)?;\nOk(r.to_object(py))", b, err="type(exc) is ModuleNotFoundError", pre=HELP)
                ctx.label("used before")
            b = drv.builder()
            drv.step(f"{drive.rpath(names[i])}::{flat.EMBED}(py)?;\nOk(py.None())", b, log="[]", pre=HELP + f"assert {names[i]!r} not in _sys.modules\n", post=f"emb_ok({names[i]!r}, {source(spec, i)!r})")
        made = {}
        for kind, p in spec["plans"]:
            k = tuple(p if kind == "get" else p["key"])
            if k not in f.keys:
                raise Violation(f"no binding for {k}")
            if kind == "fn":
                drive.add_call(drv, p)
            elif kind == "method":
                drive.add_method(drv, p, made)
            elif k in exp.keys:
                e = exp.keys[k]
                b = drv.builder()
                drv.step(f"let r = {drive.rpath(k[1])}(py)?;\nOk(r.to_object(py))", b, log="[]",
                         res=f"same(res, {b.back(c07.attr_type(e['item']), 'getattr(_il.import_module(%r), %r)' % (names[e['mod']], e['py']))})")
        ctx.nontrivial = bool(spec["plans"])
        msg = drv.run(ctx.products, d, a["text"])
        if msg:
            raise Violation(msg)

    def signature(self, msg):
        return msg.split(" at step")[0][:50]


CHECK = C13()
