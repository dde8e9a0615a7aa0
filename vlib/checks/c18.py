"""import_python! expands to the engine's bindings."""
import subprocess
from .. import build, hostile, model, rust, stdlib
from .c15 import ABSENT, FAULT, NOISE
from .common import *


def literal(name, form):
    if form == 1:
        return f'r"{name}"'
    if form == 2:
        return f'r##"{name}"##'
    if form == 3:
        return '"' + "".join("\\u{%x}" % ord(c) for c in name) + '"'
    return '"' + name.replace("\\", "\\\\").replace('"', '\\"').replace("\u2028", "\\u{2028}") + '"'


def case(g):
    pkg = model.package(g, hostile.opts(ann_depth=2, deps=g.one_in(3), max_items=4))
    if g.flag():
        pkg = hostile.infest(g, pkg, odd=g.one_in(3))
    if g.one_in(3):
        pkg["mods"][0]["items"].insert(0, {"k": "raw", "n": "zznoise", "code": g.pick(NOISE)})
    pool = names_of(pkg)
    names = [g.pick(pool) if g.i(3) else pool[0] for _ in range(1 + g.i(3))]
    if g.one_in(4):
        names.insert(g.i(len(names) + 1), g.pick(stdlib.FAST + stdlib.SUB))
    fault = None
    if g.one_in(4):
        fault = g.pick(sorted(FAULT))
        names = [g.pick(["faulty", pool[0] + ".zzfaulty"])]
    elif g.one_in(5):
        names = [g.pick(ABSENT).format(root=pool[0])]
    return {"pkg": pkg, "names": names, "fault": fault, "forms": [g.i(4) for _ in names], "nested": g.flag(), "compile": g.one_in(6)}


class C18(Check):
    id = "C18"
    technique = "property-based testing: generated modules, differential comparison of the expansion with the engine's bindings in one compiler"
    needs = ("vgen", "cli", "rt")
    rule = ("A case is a crate with one to four import_python! of modules of generated (often hostile) packages and of the standard library, or of one module that is missing or cannot be "
            "imported; it is expanded by rustc and compared with the expansion of the engine's bindings at the same places. Non-trivial: bindings with at least one item, or a module that cannot be bound.")
    assumptions = ["rustc -Zunpretty=expanded shows all items of a crate."]
    examples = {"quick": 90, "thorough": 4000}

    def strategy(self, tier):
        return model.strategy(case)

    def fixed(self, tier):
        e = hostile.empty_package()
        mods = stdlib.MODULES + stdlib.SUB if tier == "thorough" else ["json", "math", "html.parser", "collections", "sys", "os.path", "typing"]
        return [("module " + m, {"pkg": e, "names": [m], "fault": None, "forms": [0], "nested": False, "compile": False}) for m in mods]

    def expand(self, ctx, d, lib, name, source, emit=False):
        f, out = os.path.join(d, name + ".rs"), os.path.join(d, name + ".out")
        with open(f, "w", encoding="utf-8") as fh:
            fh.write(source)
        p = ctx.products
        env = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "LANG": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPATH": lib, "RUSTC_BOOTSTRAP": "1", "TMPDIR": d, "RUST_BACKTRACE": "0"}
        args = [build.rustc(), *rust._flags(p), "--crate-type", "lib", "--crate-name", "macro_user", "--extern", "pyo3_bindgen_macros=" + p["cli"]["macros"], "-o", out, f]
        args += ["--emit", "metadata"] if emit else ["-Zunpretty=expanded"]
        try:
            r = subprocess.run(args, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
        except subprocess.TimeoutExpired:
            raise Inconclusive("timeout")
        err = r.stderr.decode(errors="replace")
        text = None
        if r.returncode == 0 and not emit:
            with open(out, encoding="utf-8") as fh:
                text = fh.read()
        if r.returncode not in (0, 1):
            err = f"rustc ended with {r.returncode}: " + err
        return r.returncode, text, err

    def run(self, spec, ctx):
        d = ctx.case_dir()
        lib = os.path.join(d, "lib")
        os.makedirs(lib)
        model.write(spec["pkg"], lib)
        if spec["fault"]:
            for f in ("faulty.py", os.path.join(names_of(spec["pkg"])[0], "zzfaulty.py")):
                with open(os.path.join(lib, f), "w") as fh:
                    fh.write(FAULT[spec["fault"]] + "\n")
        names = spec["names"]
        a = request(ctx, lib, [by_name(n, None, out="text") for n in names])  # one after another in one process, as in the compiler
        if any(bad(x) for x in a) or (len(names) > 1 and any("text" not in x for x in a)):
            ctx.label("engine: no bindings")
            return
        fails = "text" not in a[0]
        use = ["pyo3_bindgen_macros::import_python!", "::pyo3_bindgen_macros::import_python!"]
        place = lambda i, t: (f"pub mod inner{i} {{ pub mod deep {{ {t} }} }}\n" if spec["nested"] else f"pub mod m{i} {{ {t} }}\n") if len(names) > 1 or spec["nested"] else t + "\n"
        macro = "".join(place(i, f"{use[f % 2]}({literal(n, f)});") for i, (n, f) in enumerate(zip(names, spec["forms"])))
        rc, have, err = self.expand(ctx, d, lib, "macro", macro)
        ctx.label("error" if fails else "bindings")
        if fails:
            ctx.nontrivial = True
            if rc == 0:
                raise Violation(f"error: import_python!({names[0]!r}) compiles although the engine fails: {a[0]['err'][:200]}")
            if rc != 1:
                raise Violation(f"crash: {err[:500]}")
            told = "\n".join(l for l in err.splitlines() if "import_python!" not in l)
            if names[0].strip(". ") and names[0] not in told and repr(names[0]) not in told:
                raise Violation(f"error: does not name the module {names[0]!r}: {told[:600]}")
            return
        rc2, want, err2 = self.expand(ctx, d, lib, "text", "".join(place(i, x["text"]) for i, x in enumerate(a)))
        if rc2:
            raise Inconclusive("the engine's bindings do not expand")
        if rc:
            raise Violation(f"expansion: import_python! of {names} does not compile: {err[:800]}")
        ctx.nontrivial = any("fn " in x["text"] or "struct " in x["text"] for x in a)
        if have != want:
            x, y = have.splitlines(), want.splitlines()
            i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            raise Violation(f"expansion: import_python! of {names} differs at line {i} of {len(x)}/{len(y)}: {x[max(0, i - 2):i + 4]} instead of {y[max(0, i - 2):i + 4]}"[:1500])
        if spec["compile"]:
            rc2, _, err2 = self.expand(ctx, d, lib, "text", "".join(place(i, x["text"]) for i, x in enumerate(a)), emit=True)
            rc, _, err = self.expand(ctx, d, lib, "macro", macro, emit=True)
            ctx.label("compiled")
            if rc2 == 0 and rc:
                raise Violation(f"compilation: import_python! of {names} does not compile: {err[:800]}")

    def signature(self, msg):
        return msg.split(":")[0]


CHECK = C18()
