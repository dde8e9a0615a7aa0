"""The CLI emits the library's bindings."""
import subprocess
from .. import hostile, model, stdlib
from .common import *

FAULT = {"raises": "raise RuntimeError('no')", "exits": "raise SystemExit(0)", "syntax": "def (:", "interrupt": "raise KeyboardInterrupt", "missing import": "import zz_missing", "exit": "import sys\nsys.exit(0)",
         "prints": "print('text')\nprint('more', end='')\nraise ValueError", "removed": "import sys\ndel sys.modules[__name__]\nraise ImportError"}
ABSENT = ["zz_no_such_module", "{root}.zz_no_such_module", "", ".", "zz no such", "{root}.", ".{root}", "os.path.zz", "{root}\u2028"]
PLACES = ["out.rs", "./out.rs", "a/out.rs", "a/b/c/ünï code.rs", "{abs}/x/y/out.rs", "{abs}/out.rs", "a/../out.rs", "out", "existing/out.rs", "link.rs", "a/b\udcff/out.rs", "-", "--m.rs", "a//b///out.rs"]
UNWRITABLE = ["existing", "file/out.rs", "file/a/b/out.rs", "{abs}/existing/", "/dev/full", "dangling/x.rs", "", "."]
NOISE = ["print('on import')", "import sys\nsys.stderr.write('err')\nsys.stdout.write('out')", "def __getattr__(n):\n    print('attr', n)\n    raise AttributeError(n)"]


BEFORE = ["none", "short", "long", "same", "empty", "length", "prefix", "longer", "byte", "gap", "spaces", "lines", "binary"]


def content(kind, text, at):
    """What is in the file before: related to the bindings or not."""
    i = len(text) * at // 1000
    return {"short": b"//", "long": b"// old\n" * 30000, "same": text, "empty": b"", "length": b"/" * len(text), "prefix": text[:i], "longer": text + text[i:],
            "byte": text[:i] + bytes([text[i] ^ 1]) + text[i + 1:] if text else b"", "gap": text[:i] + text[i + 1:], "spaces": text.replace(b" ", b"\t"), "lines": text.replace(b" ; ", b" ;\n"),
            "binary": b"\xff\xfe\x00" + text}[kind]


def case(g):
    roots = []
    pkg = model.package(g, hostile.opts(ann_depth=1, deps=g.one_in(3), max_items=3))
    if g.flag():
        pkg = hostile.infest(g, pkg, odd=g.one_in(3))
    if g.one_in(3):
        pkg["mods"][0]["items"].insert(0, {"k": "raw", "n": "zznoise", "code": g.pick(NOISE)})
    pool = names_of(pkg)
    names = [pool[0]] if g.flag() else [g.pick(pool) for _ in range(1 + g.i(3))]
    if g.one_in(4):
        names.insert(g.i(len(names) + 1), g.pick(stdlib.FAST + stdlib.SUB))
    fault = None
    if g.one_in(3):
        fault = g.pick(sorted(FAULT))
        names.insert(g.i(len(names) + 1), g.pick(["faulty", pool[0] + ".zzfaulty"]))
    elif g.one_in(4):
        names.insert(g.i(len(names) + 1), g.pick(ABSENT).format(root=pool[0]))
    where = None
    if g.i(3):
        where = g.pick(PLACES) if g.i(5) else g.pick(UNWRITABLE)
    return {"pkg": pkg, "names": names, "fault": fault, "out": where, "before": g.pick(["none"] * 6 + BEFORE), "at": g.i(1000), "form": [g.i(4), g.i(4), g.flag()]}


class C15(Check):
    id = "C15"
    technique = "property-based testing: differential runs of the command-line tool against the library"
    needs = ("vgen", "cli")
    rule = ("A case is a command line naming modules of generated (often hostile) packages and of the standard library, some missing or failing, and the standard output or an output file (new, "
            "existing, in missing directories, not writable). Non-trivial: the tool wrote bindings or had to fail without touching an existing file.")
    assumptions = ["The formatted bindings are those of the library as printed by prettyplease.", "Modules do not write to file descriptor 1 behind Python's back."]
    examples = {"quick": 200, "thorough": 6000}

    def strategy(self, tier):
        return model.strategy(case)

    def fixed(self, tier):
        e = hostile.empty_package()
        mods = stdlib.MODULES if tier == "thorough" else ["json", "math", "email", "collections"]
        out = [("module " + m, {"pkg": e, "names": [m], "fault": None, "out": "a/out.rs" if i % 2 else None, "before": "long", "at": 0, "form": [i % 4, i % 4, True]}) for i, m in enumerate(mods)]
        return out + [("no module", {"pkg": e, "names": [], "fault": None, "out": "out.rs", "before": "long", "at": 0, "form": [0, 0, False]})]

    def run(self, spec, ctx):
        d = ctx.case_dir()
        lib, work = os.path.join(d, "lib"), os.path.join(d, "work")
        os.makedirs(lib)
        os.makedirs(os.path.join(work, "existing"))
        model.write(spec["pkg"], lib)
        root = names_of(spec["pkg"])[0]
        if spec["fault"]:
            for f in ("faulty.py", os.path.join(root, "zzfaulty.py")):
                with open(os.path.join(lib, f), "w") as fh:
                    fh.write(FAULT[spec["fault"]] + "\n")
        with open(os.path.join(work, "file"), "w") as f:
            f.write("x")
        os.symlink("nowhere", os.path.join(work, "dangling"))
        names = spec["names"]
        want = request(ctx, lib, [gen_op([{"t": "names", "v": names}], None, out="pretty")])[0] if names else {"err": "usage"}
        if bad(want):
            ctx.label("library: " + bad(want)[:5])
            return
        if spec["fault"] and "pretty" in want:
            raise Violation("library: bindings although a module cannot be imported")
        a, b, spread = spec["form"]
        m = ["-m", "--module-name", "-m", "--module-name"][a]
        args = []
        fresh = True
        for n in names:
            if n == "" or n.startswith("-"):
                args.append("--module-name=" + n)
                fresh = True
                continue
            if fresh or (a > 1 and spread):
                args.append(m)
            args.append(n)
            fresh = False
        out, path = spec["out"], None
        if out is not None:
            out = out.replace("{abs}", work)
            path = os.path.join(work, out)
            o = [["-o", out], ["--output", out], ["--output=" + out], ["-o=" + out]][b]
            if out.startswith("-") and b < 2 or out == "":
                o = ["--output=" + out]
            args = o + args if spread else args + o
            if out == "link.rs":
                os.symlink("existing/target.rs", path)
        real = os.path.realpath(path) if path else None
        unwritable = spec["out"] in UNWRITABLE
        old = None
        if path and not unwritable and spec["before"] != "none":
            old = content(spec["before"], want.get("pretty", "x").encode(), spec["at"])
            os.makedirs(os.path.dirname(real), exist_ok=True)
            with open(real, "wb") as f:
                f.write(old)
            os.utime(real, ns=(10 ** 18, 10 ** 18))
        if out and out.startswith("a/.."):
            os.makedirs(os.path.join(work, "a"), exist_ok=True)
        env = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "LANG": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPATH": lib}
        try:
            r = subprocess.run([ctx.products["cli"]["cli"], *args], cwd=work, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        except subprocess.TimeoutExpired:
            raise Inconclusive("timeout")
        ctx.label("file" if path else "standard output", "bindings" if "pretty" in want else "error", "unwritable" if unwritable else "writable")
        shown = [x.replace(work, "{abs}") for x in args]
        now = None
        if path and not unwritable and os.path.exists(path):
            with open(path, "rb") as f:
                now = f.read()
        if "pretty" not in want or unwritable:
            ctx.nontrivial = old is not None or "pretty" in want
            if r.returncode == 0:
                raise Violation(f"status: success for {shown} although {'the output cannot be written' if unwritable else str(want)[:200]}")
            if r.stdout:
                raise Violation(f"standard output: {r.stdout[:100]!r} for {shown} although it fails")
            if now != old:
                raise Violation(f"untouched: the output file was {'created' if old is None else 'changed'} by {shown} although it fails: {r.stderr[-200:]!r}")
            if old is not None and os.stat(path).st_mtime_ns != 10 ** 18:
                raise Violation(f"untouched: the output file was written again by {shown} although it fails")
            return
        ctx.nontrivial = True
        if r.returncode:
            raise Violation(f"status: {r.returncode} for {shown} although the library generates bindings: {r.stderr[-300:]!r}")
        text = want["pretty"].encode()
        if path and r.stdout:
            raise Violation(f"standard output: {r.stdout[:100]!r} for {shown} although a file is given")
        have = now if path else r.stdout
        if have is None:
            raise Violation(f"file: nothing at the output path for {shown}")
        if have != text:
            i = next((i for i, (x, y) in enumerate(zip(have, text)) if x != y), min(len(have), len(text)))
            raise Violation(f"output: differs from the library's bindings at byte {i} of {len(have)}/{len(text)} for {shown}: {have[max(0, i - 60):i + 60]!r} instead of {text[max(0, i - 60):i + 60]!r}")

    def signature(self, msg):
        return msg.split(":")[0]


CHECK = C15()
