"""Python output is suppressed as configured and streams are restored."""
import re
from .. import model
from .common import *

LOGGER = '''
import sys
LOG, OFF, N = [], False, [0]
def emit(stream, how):
    if OFF:
        return 0
    N[0] += 1
    text = f"<{N[0]}{stream}>"
    LOG.append(text)
    s = sys.stdout if stream == "o" else sys.stderr
    if how == 0:
        print(text, file=s)
    elif how == 1:
        s.write(text)
    elif how == 2:
        for c in text:
            print(c, end="", file=s, flush=True)
    elif how == 3:
        s.writelines([text, "\\n"])
        s.flush()
    elif how == 4 and stream == "e":
        import warnings
        warnings.warn(text)
    elif how == 5 and stream == "e":
        import logging
        logging.getLogger("zz").error(text)
    elif how == 6:
        import contextlib
        with contextlib.redirect_stdout(sys.stderr) if stream == "e" else contextlib.redirect_stderr(sys.stdout):
            print(text, file=sys.stdout)
    elif how == 7:
        print(text + "\\u2603\\U0001f600 \\ud800".encode("utf-8", "replace").decode(), file=s)
    elif how == 8:
        if s.isatty():
            print("terminal", file=s)
        print(text, file=s)
    else:
        print(text, file=s)
    return 0
'''
CALL = "__import__('zzlog').emit({s!r}, {how})"
SITES = {
    "import": "{e}",
    "module getattr": "def __dir__(): return [n for n in globals() if n != '__dir__'] + ['{n}_dyn']\ndef __getattr__(n):\n    {e}\n    if n == '{n}_dyn': return 3\n    raise AttributeError(n)",
    "dir": "def __dir__():\n    {e}\n    return [n for n in globals() if n != '__dir__']",
    "descriptor": "class _D{n}:\n    def __get__(self, o, t=None):\n        {e}\n        return 3\nclass {n}:\n    a = _D{n}()\n    def m(self): pass",
    "metaclass": "class _M{n}(type):\n    def __dir__(c):\n        {e}\n        return ['m']\nclass {n}(metaclass=_M{n}):\n    def m(self): pass",
    "annotation": "class _A{n}:\n    def __str__(self):\n        {e}\n        return 'int'\n    __repr__ = __str__\ndef {n}(a: _A{n}()): pass",
    "default": "class _A{n}:\n    def __eq__(self, o):\n        {e}\n        return False\n    __hash__ = None\ndef {n}(a=_A{n}()): pass",
    "signature": "class _S{n}:\n    @property\n    def __signature__(self):\n        {e}\n        raise AttributeError\n    def __call__(self, a): pass\n{n} = _S{n}()",
    "docstring": "class _M{n}(type):\n    @property\n    def __doc__(c):\n        {e}\n        return 'text'\nclass {n}(metaclass=_M{n}):\n    pass",
    "value": "class _V{n}:\n    @property\n    def __module__(self):\n        {e}\n        return 'zz'\n{n} = _V{n}()",
    "lazy dependency": "class {n}:\n    pass\n{n}.__module__ = 'zzlazy{k}'",
    "replaces": "import sys, io\n{r}\n{n} = 1",
    "plain": "def {n}(): pass",
    "raises in getattr": "def __getattr__(n):\n    {e}\n    raise RuntimeError(n)",
}
FAIL = ["", "raise RuntimeError('no')", "raise SystemExit(3)", "raise KeyboardInterrupt", "import zz_missing", "1 / 0"]


def case(g):
    suppress = [g.i(4) > 0, g.i(4) > 0] if g.i(3) else [g.flag(), g.flag()]
    mods = []
    for i in range(1 + g.i(4)):
        sites = []
        for j in range(1 + g.i(3)):
            sites.append([g.pick(sorted(SITES)), g.pick("oe"), g.i(9)])
        mods.append({"sites": sites, "sub": i > 0 and g.i(3) > 0, "fail": g.pick(FAIL) if g.one_in(3) else ""})
    deps = [[g.pick("oe"), g.i(9), g.pick(FAIL[:2])] for _ in range(3)]
    steps, top = [], [i for i, m in enumerate(mods) if not m["sub"]]
    left = g.perm(top)
    while left:
        t = g.pick(["name", "name", "names", "module", "str"])
        k = 1 if t != "names" else 1 + g.i(len(left))
        steps.append([t, left[:k]])
        left = left[k:]
    streams = [g.pick(["text", "text", "minimal", "none"]), g.pick(["text", "text", "minimal", "none"])]
    return {"mods": mods, "deps": deps, "steps": steps, "suppress": suppress, "streams": streams, "generate_dependencies": g.flag(), "traverse": g.i(4) > 0, "bad_step": g.one_in(6)}


STREAMS = '''
import sys, io
class Minimal:
    def __init__(self): self.t = []
    def write(self, s): self.t.append(s)
    def getvalue(self): return "".join(self.t)
    def flush(self): pass
    def writelines(self, l): self.t.extend(l)
    def isatty(self): return False
def make(k):
    return io.StringIO() if k == "text" else Minimal() if k == "minimal" else None
SAVED = sys.stdout, sys.stderr
'''


class C14(Check):
    id = "C14"
    technique = "property-based testing: generated code that writes while it is imported and inspected, recorded streams, comparison with a silent twin"
    rule = ("A case is a package and modules (from files and from source) that write in many ways to sys.stdout and sys.stderr while they are imported or inspected (module __getattr__ and __dir__, "
            "descriptors, metaclasses, annotations, signatures, docstrings, lazily imported dependencies), some failing or replacing the streams, generated with each combination of "
            "suppression and with streams of several types. Non-trivial: something was written.")
    assumptions = ["Python code does not itself replace a stream whose suppression is off, nor close the streams.", "Modules passed as objects were imported before the generation."]
    examples = {"quick": 600, "thorough": 30000}

    def strategy(self, tier):
        return model.strategy(case)

    def source(self, spec, i):
        m = spec["mods"][i]
        sup = spec["suppress"]
        s = ""
        for j, (site, stream, how) in enumerate(m["sites"]):
            if site == "replaces":
                stream = "o" if sup[0] else "e" if sup[1] else None
                r = "pass" if stream is None else f"sys.{'stdout' if stream == 'o' else 'stderr'} = io.StringIO()"
                stream = stream or "o"
            else:
                r = ""
            s += SITES[site].format(n=f"x{j}", k=i % 3, r=r, e=CALL.format(s=stream, how=how)) + "\n"
        return s + m["fail"] + "\n"

    def run(self, spec, ctx):
        d = ctx.case_dir()
        mods = spec["mods"]
        names = [f"pkg.sub{i}" if m["sub"] else "pkg" if i == 0 else f"top{i}" for i, m in enumerate(mods)]
        os.makedirs(os.path.join(d, "pkg"))
        strs = {i for t, ids in spec["steps"] for i in ids if t == "str"}
        with open(os.path.join(d, "zzlog.py"), "w") as f:
            f.write(LOGGER)
        for k, (stream, how, fail) in enumerate(spec["deps"]):
            with open(os.path.join(d, f"zzlazy{k}.py"), "w") as f:
                f.write(CALL.format(s=stream, how=how) + "\nclass x0: pass\nclass x1: pass\nclass x2: pass\n" + fail + "\n")
        for i, n in enumerate(names):
            if i in strs and i:
                continue
            f = os.path.join(d, "pkg", "__init__.py") if i == 0 else os.path.join(d, *n.split(".")) + ".py"
            with open(f, "w", encoding="utf-8") as fh:
                fh.write(self.source(spec, i))
        steps, pre = [], []
        for t, ids in spec["steps"]:
            if t == "str":
                steps.append({"t": "str", "v": names[ids[0]], "code": self.source(spec, ids[0])})
            elif t == "names":
                steps.append({"t": "names", "v": [names[i] for i in ids]})
            else:
                steps.append({"t": t, "v": names[ids[0]]})
                if t == "module":
                    if mods[ids[0]]["fail"]:
                        steps[-1]["t"] = "name"
                    else:
                        pre.append(names[ids[0]])
        if spec["bad_step"]:
            steps.append({"t": "name", "v": "zz_no_such_module"})
        cfg = {"suppress_python_stdout": spec["suppress"][0], "suppress_python_stderr": spec["suppress"][1], "generate_dependencies": spec["generate_dependencies"], "traverse_submodules": spec["traverse"]}
        kinds = [k if k != "none" or s else "text" for k, s in zip(spec["streams"], spec["suppress"])]
        setup = STREAMS + "".join(f"try:\n    __import__({n!r})\nexcept BaseException: pass\n" for n in pre)
        setup += "import zzlog\nsys.stdout, sys.stderr = SAVED\nzzlog.LOG.clear()\n" + f"A, B = make({kinds[0]!r}), make({kinds[1]!r})\nsys.stdout, sys.stderr = A, B\n"
        view = "[sys.stdout is A, sys.stderr is B, A and A.getvalue(), B and B.getvalue(), zzlog.LOG]"
        ops = [{"op": "py", "code": setup}, gen_op(steps, cfg, out="text"), {"op": "py", "eval": view}]
        r = request(ctx, d, ops)
        if isinstance(r[0], dict) and ("crash" in r[0] or "exit" in r[0]):
            raise Violation(f"crash: the process ended with {r[0]}")
        if "pyerr" in r[0] or "pyerr" in r[2]:
            raise Violation(f"streams: they cannot be used afterwards: {r[0]} {r[2]}")
        out, err, a, b, log = r[2]["val"]
        if not out or not err:
            raise Violation(f"restored: sys.{'stderr' if out else 'stdout'} is another object after generation ({str(r[1])[:80]})")
        ctx.nontrivial = bool(log)
        ctx.label("suppress %s" % spec["suppress"], "error" if "err" in r[1] else "bindings")
        for t in {t for m in mods for t, _, _ in m["sites"]}:
            ctx.label("site:" + t)
        for which, text, stream, sup in (("stdout", a, "o", spec["suppress"][0]), ("stderr", b, "e", spec["suppress"][1])):
            text = re.sub(r"\s", "", text or "")
            have = re.findall(r"<\d+[oe]>", text)
            have = [h for i, h in enumerate(have) if i == 0 or have[i - 1] != h]  # warnings show the source line too
            want = [] if sup else [t for t in log if t[-2] == stream]
            if have != want:
                raise Violation(f"{which}: received {have[:6]} instead of {want[:6]} although its suppression is {'on' if sup else 'off'}")
        # the twin that does not print
        quiet = setup.replace("zzlog.LOG.clear()", "zzlog.LOG.clear(); zzlog.OFF = True").replace("import sys, io\n", "import sys, io, zzlog\nzzlog.OFF = True\n", 1)
        q = request(ctx, d, [{"op": "py", "code": quiet}, gen_op(steps, cfg, out="text")])
        if bad(q[1]) or bad(r[1]):
            raise Violation(f"generation: {bad(q[1]) or bad(r[1])}")
        if q[1].get("text") != r[1].get("text"):
            if ("text" in q[1]) != ("text" in r[1]):
                raise Violation(f"differently: with output {str(r[1])[:200]}, without {str(q[1])[:200]}")
            from .c10 import difference
            raise Violation("differently: " + difference(r[1], q[1]))

    def signature(self, msg):
        return msg.split(":")[0]


CHECK = C14()
