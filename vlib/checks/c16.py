"""build() writes complete bindings or nothing."""
from .. import hostile, model, stdlib
from .c15 import ABSENT, BEFORE, FAULT, content
from .common import *

PLACES = ["{abs}/out.rs", "out.rs", "./sub/out.rs", "{abs}/sub/../out.rs", "{abs}/ünï code.rs", "{abs}/link.rs", "out", "{abs}//sub//out.rs"]
UNWRITABLE = ["sub", "{abs}/sub/", "missing/out.rs", "{abs}/missing/a/out.rs", "file/out.rs", "/dev/full", "", "{abs}/" + "n" * 300, "out\0.rs", "loop", "{abs}/dangling/x.rs"]

def case(g):
    pkg = model.package(g, hostile.opts(ann_depth=1, deps=g.one_in(3), max_items=3))
    if g.flag():
        pkg = hostile.infest(g, pkg, odd=g.one_in(3))
    pool = names_of(pkg)
    names = [pool[0]] if g.flag() else [g.pick(pool) for _ in range(1 + g.i(3))]
    if g.one_in(4):
        names.insert(g.i(len(names) + 1), g.pick(stdlib.FAST + stdlib.SUB))
    steps = [{"t": g.pick(["name", "module", "names"]), "v": n} for n in names]
    for s in steps:
        if s["t"] == "names":
            s["v"] = [s["v"]]
    if g.one_in(4):
        steps.append({"t": "str", "v": "emb", "code": g.pick(["x = 1\ndef f(a): 'doc \"\"\" \\\\ \\u2603'\n", "", "class A:\n  '''a\\n\\nb'''\n", "s = '\\u2603 ☃ \\x00'"])})
    k = g.i(8)
    if k == 7:
        steps = []
    elif k == 6:
        steps.insert(g.i(len(steps) + 1), {"t": "name", "v": g.pick(ABSENT + [pool[0] + ".zzfaulty"]).format(root=pool[0])})
    elif k == 5:
        steps.append({"t": "str", "v": "emb2", "code": g.pick(sorted(FAULT.values()))})
    return {"pkg": pkg, "steps": steps, "cfg": hostile.config(g), "fault": g.pick(sorted(FAULT)), "out": g.pick(PLACES) if g.i(4) else g.pick(UNWRITABLE), "before": g.pick(BEFORE), "at": g.i(1000)}


class C16(Check):
    id = "C16"
    technique = "property-based testing: generated modules, configurations and output paths, comparison with generate() and with the file before"
    rule = ("A case is a list of modules (generated, often hostile, from the standard library, from source, missing, failing, none at all), a configuration and an output path (new, existing "
            "with unrelated content or content derived from the bindings: equal, of equal length, one byte changed or left out, cut, extended; a link, not writable). Non-trivial: a file was written, or existed and generation failed.")
    assumptions = ["Paths given to build() are UTF-8."]
    examples = {"quick": 300, "thorough": 20000}

    def strategy(self, tier):
        return model.strategy(case)

    def fixed(self, tier):
        e = hostile.empty_package()
        return [(f"{n} steps, {b}", {"pkg": e, "steps": [{"t": "name", "v": "math"}] * n, "cfg": None, "fault": "raises", "out": "out.rs", "before": b, "at": 500}) for n in (0, 1) for b in BEFORE]

    def run(self, spec, ctx):
        d = ctx.case_dir()
        lib, work = os.path.join(d, "lib"), os.path.join(d, "work")
        os.makedirs(lib)
        os.makedirs(os.path.join(work, "sub"))
        model.write(spec["pkg"], lib)
        with open(os.path.join(lib, names_of(spec["pkg"])[0], "zzfaulty.py"), "w") as f:
            f.write(FAULT[spec["fault"]] + "\n")
        with open(os.path.join(work, "file"), "w") as f:
            f.write("x")
        for a, b in (("nowhere", "dangling"), ("loop", "loop"), ("sub/target.rs", "link.rs")):
            os.symlink(a, os.path.join(work, b))
        want = request(ctx, lib, [gen_op(spec["steps"], spec["cfg"], out="text")])[0]
        if bad(want):
            ctx.label("generate: " + bad(want)[:5])
            return
        if not spec["steps"] and "err" not in want:
            raise Violation("no module: generate() gives bindings although no module was added")
        out = spec["out"].replace("{abs}", work)
        unwritable = spec["out"] in UNWRITABLE
        path, old = os.path.join(work, out), None
        if not unwritable and spec["before"] != "none":
            old = content(spec["before"], want.get("text", "x").encode(), spec["at"])
            with open(path, "wb") as f:
                f.write(old)
            os.utime(path, ns=(10 ** 18, 10 ** 18))
        tree = lambda: sorted(os.path.join(a, x) for a, b, c in os.walk(work) for x in b + c)
        before = tree()
        ops = [{"op": "py", "code": f"import os\nos.chdir({work!r})"}, gen_op(spec["steps"], spec["cfg"], build=out)]
        got = request(ctx, lib, ops)[1]
        now = None
        if not unwritable and os.path.exists(path):
            with open(path, "rb") as f:
                now = f.read()
        ctx.label("bindings" if "text" in want else "error", "unwritable" if unwritable else "writable", "before: " + spec["before"])
        if "panic" in got or "crash" in got or "exit" in got:
            raise Violation(f"panic: build() to {spec['out']!r}: {got}"[:600])
        if "text" not in want or unwritable:
            ctx.nontrivial = old is not None or "text" in want
            if "err" not in got:
                raise Violation(f"error: build() to {spec['out']!r} succeeds although {'it cannot be written' if unwritable else want['err'][:200]}")
            if now != old:
                raise Violation(f"untouched: the file was {'created' if old is None else 'changed'} although generation failed ({got['err'][:100]})")
            if old is not None and os.stat(path).st_mtime_ns != 10 ** 18:
                raise Violation("untouched: the file was written again although generation failed")
            if tree() != before:
                raise Violation(f"untouched: files appeared although build() failed: {sorted(set(tree()) ^ set(before))}"[:400])
            return
        ctx.nontrivial = True
        if "err" in got:
            raise Violation(f"error: build() to {spec['out']!r} fails although generate() succeeds: {got['err'][:300]}")
        text = want["text"].encode()
        if now is None:
            raise Violation("file: nothing was written")
        if now != text:
            i = next((i for i, (x, y) in enumerate(zip(now, text)) if x != y), min(len(now), len(text)))
            raise Violation(f"content: differs from generate() at byte {i} of {len(now)}/{len(text)}: {now[max(0, i - 60):i + 60]!r} instead of {text[max(0, i - 60):i + 60]!r}")
        extra = set(tree()) - set(before) - {os.path.normpath(path), os.path.realpath(path)}
        if extra:
            raise Violation(f"file: build() left other files: {sorted(extra)}"[:400])

    def signature(self, msg):
        return msg.split(":")[0]


CHECK = C16()
