"""An attribute that cannot be bound costs only itself."""
import shutil, subprocess
from .. import flat, gadgets, hostile, model
from .common import *

# attributes of modules that raise when accessed and the like, for names starting with zz only
DYNAMIC = [
    "def __dir__(): return [n for n in globals() if n not in ('__dir__', '__getattr__')] + ['zz_dynamic']\ndef __getattr__(n):\n    raise {exc}",
    "def __getattr__(n):\n    if n.startswith('__'): raise AttributeError(n)\n    raise {exc}\ndef __dir__(): return ['zz_one', 'zz_two'] + [n for n in globals() if not n.startswith('__')]",
    "def __dir__(): return [n for n in globals() if n != '__dir__'] + ['zz_gone', 'zz gone']",
    "class _MZ(type(_sys)):\n    @property\n    def zz_prop(s): raise {exc}\n_sys.modules[__name__].__class__ = _MZ",
    "class _MZ(type(_sys)):\n    def __getattribute__(s, n):\n        if n.startswith('zz'): raise {exc}\n        return _b.type(_sys).__getattribute__(s, n)\n_sys.modules[__name__].__class__ = _MZ\nzz_x = zz_y = 1",
]
EXC = ["RuntimeError(n)", "AttributeError(n)", "SystemExit(n)", "KeyError(n)", "KeyboardInterrupt", "ImportError(n)", "type('E', (BaseException,), {})()", "RecursionError"]


def case(g):
    mix = {"plain": 8, "camel": 2, "keyword": 2, "unicode": 1, "private": 1, "clash": 2, "nonraw": 1}
    pkg = model.package(g, model.Opts(mix=mix, max_mods=6, max_items=5, max_members=4, min_items=1, ann_depth=1, deps=g.one_in(4), all=False))
    bad = hostile.infest(g, pkg, n_max=5, odd=False, files=True)
    if g.one_in(3):
        m = bad["mods"][g.i(bad["main"])]
        m["items"].append({"k": "raw", "n": "zzdyn", "code": g.pick(DYNAMIC).replace("{exc}", g.pick(EXC).replace("(n)", "('zz')"))})
    cfg = hostile.config(g, private=False, deps=False)
    return {"good": pkg, "bad": bad, "cfg": cfg, "name": g.pick(names_of(pkg)) if g.one_in(4) else names_of(pkg)[0], "step": g.pick(["name", "names", "module"])}


def marked(k):
    return any(s.lstrip("_").startswith(("zz", "set_zz", "get_zz", "1zz")) or "zz" in s for p in k[1:] for s in p.split("."))


def imports(path, mods):
    """Whether Python imports all modules."""
    code = "import importlib,sys\nfor m in sys.argv[1:]: importlib.import_module(m)"
    env = {"PATH": os.environ.get("PATH", ""), "PYTHONPATH": path, "PYTHONDONTWRITEBYTECODE": "1"}
    return subprocess.run([shutil.which("python3", path="/usr/bin") or "python3", "-c", code] + mods, env=env, cwd=path, stdin=subprocess.DEVNULL,
                          stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode == 0


class C19(Check):
    id = "C19"
    technique = "property-based testing: metamorphic comparison of a package with and without things that cannot be bound"
    rule = ("A case is a generated package and the same package with one to five additions that cannot be bound or only partly (attributes that raise when accessed or inspected, names that are no "
            "identifiers, failing, exiting or unusable submodules, descriptors and signatures that cannot be inspected); everything else has to be bound identically. "
            "Non-trivial: at least three bindings besides the additions.")
    assumptions = ["Preludes, which depend on the set of public names, are the subject of C22 and not compared.", "The additions do not change other names or modules, nor end the process."]
    examples = {"quick": 250, "thorough": 10000}

    def strategy(self, tier):
        return model.strategy(case)

    def fixed(self, tier):
        e = {"mods": [{"path": ["pkg"], "pkg": True, "doc": None, "all": None, "items": [{"k": "attr", "n": "x", "v": "3"}, {"k": "class", "n": "C", "bases": [], "doc": "text", "members": [{"k": "cattr", "n": "a", "v": "1"}]},
                      {"k": "func", "n": "f", "form": "def", "params": [], "ret": None, "doc": None, "style": "pep"}]},
                      {"path": ["pkg", "sub"], "pkg": False, "doc": None, "all": None, "items": [{"k": "attr", "n": "y", "v": "3"}]}], "main": 2, "files": []}
        import copy
        def with_(f):
            s = copy.deepcopy(e)
            f(s)
            return {"good": e, "bad": s, "cfg": None, "name": "pkg", "step": "name"}
        out = [(f"module gadget {i}", with_(lambda s, c=c: s["mods"][0]["items"].insert(1, {"k": "raw", "n": "zza", "code": c.format(n="zza")}))) for i, c in enumerate(gadgets.MODULE)]
        out += [(f"class gadget {i}", with_(lambda s: s["mods"][0]["items"][1]["members"].insert(0, {"k": "raw", "n": "zza", "code": c.format(n="zza")}))) for i, c in enumerate(gadgets.CLASS)]
        out += [(f"submodule {k}", with_(lambda s: s["files"].append([0, f.format(n="a"), c]))) for k, (f, c) in gadgets.PACKAGE.items()]
        out += [(f"dynamic {i} {x}", with_(lambda s: s["mods"][0]["items"].append({"k": "raw", "n": "zza", "code": c.replace("{exc}", x.replace("(n)", "('zz')"))}))) for i, c in enumerate(DYNAMIC) for x in EXC]
        return out

    def run(self, spec, ctx):
        d = ctx.case_dir()
        try:
            self.compare(spec, ctx, d)
        except Violation:
            mods = [".".join(m["path"]) for m in spec["bad"]["mods"]]
            if not imports(os.path.join(d, "bad"), mods):
                raise Inconclusive("an addition keeps the modules from being imported at all")
            raise

    def compare(self, spec, ctx, d):
        res = []
        for w in ("good", "bad"):
            p = os.path.join(d, w)
            os.makedirs(p)
            model.write(spec[w], p)
            v = [spec["name"]] if spec["step"] == "names" else spec["name"]
            res.append(request(ctx, p, [gen_op([{"t": spec["step"], "v": v}], spec["cfg"])])[0])
        a, b = res
        if "tree" not in a:
            raise Inconclusive("the package itself has no bindings")
        if "tree" not in b:
            raise Violation(f"generation: fails because of the additions: {bad(b) or b.get('err')}"[:800])
        x, y = flat.Flat(a["tree"]), flat.Flat(b["tree"])
        keep = {k for k in x.keys if k[0] != "prelude"}
        ctx.nontrivial = len(keep) >= 3
        for k in ("raw", "files"):
            if k == "files" and spec["bad"].get("files"):
                ctx.label("unusable submodule")
        msg = flat.diff({k: x.keys[k] for k in keep}, {k: h for k, h in y.keys.items() if k[0] != "prelude"}, ignore=marked)
        if msg:
            raise Violation("bindings: " + msg)
        if y.problems and not x.problems:
            raise Violation("bindings: " + "; ".join(y.problems[:3]))

    def signature(self, msg):
        return msg[:40]


CHECK = C19()
