"""Generating dependencies only adds modules."""
from .. import expect, flat, hostile, model
from .common import *

# things from outside that cannot be bound; `x` is imported by the target
UNUSABLE = [
    "def {n}(): pass\n{n}.__module__ = 'zznone'",
    "def {n}(): pass\n{n}.__module__ = 'zznone.sub.mod'",
    "class {n}: pass\n{n}.__module__ = 'zz.none'",
    "def {n}(): pass\n{n}.__module__ = 'zz none'",
    "def {n}(): pass\n{n}.__module__ = '.'",
    "def {n}(): pass\n{n}.__module__ = '..x'",
    "def {n}(): pass\n{n}.__module__ = None",
    "class {n}: pass\n{n}.__module__ = 5",
    "def {n}(): pass\n{n}.__module__ = 'zz\\nnone'",
    "def {n}(): pass\n{n}.__module__ = 'zzraises'",
    "class {n}: pass\n{n}.__module__ = 'zzraises.sub'",
    "def {n}(): pass\n{n}.__module__ = 'zzexits'",
    "def {n}(): pass\n{n}.__module__ = 'zzsyntax'",
    "{n} = _b.type(_sys)('zznope')",
    "{n} = _b.type(_sys)('zznope.sub')",
    "_sys.modules['zz-dep'] = {n} = _b.type(_sys)('zz-dep')",
    "_sys.modules['zz-dep2'] = _b.type(_sys)('zz-dep2')\ndef {n}(): pass\n{n}.__module__ = 'zz-dep2'",
    "class _D{n}(_b.type(_sys)):\n    def __dir__(s): raise RuntimeError('dir')\n_sys.modules['zzdir'] = {n} = _D{n}('zzdir')",
    "class _N{n}(_b.type(_sys)):\n    @property\n    def __name__(s): raise RuntimeError('name')\n_sys.modules['zzname'] = {n} = _N{n}('zzname')",
    "{n} = _b.type(_sys)('zznamed')\ndel {n}.__name__",
    "{n} = _b.type(_sys)('')",
]
FILES = {"zzraises.py": "raise RuntimeError('import')\n", "zzexits.py": "import sys\nsys.exit(3)\n", "zzsyntax.py": "def (:\n"}


def case(g):
    mix = {"plain": 8, "camel": 2, "keyword": 2, "unicode": 1, "private": 1, "clash": 2, "nonraw": 1}
    spec = model.package(g, model.Opts(mix=mix, max_mods=5, max_items=5, min_items=1, max_members=3, ann_depth=1, deps=1 + g.i(2), all=g.one_in(4),
                                       kinds={"func": 3, "class": 3, "attr": 1, "tvar": 1, "imp": 6}))
    out = list(range(spec["main"], len(spec["mods"])))
    for i, m in enumerate(spec["mods"]):
        if g.one_in(3):
            j = g.pick([x for x in out if x > i] or [out[-1]])
            if j > i:
                n = f"zzmod{i}"
                m["items"].append({"k": "raw", "n": n, "mod": j, "code": f"{n} = _il.import_module({'.'.join(spec['mods'][j]['path'])!r})"})
            # a module whose type is defined in a private module, as of lazy imports
            if j > i and g.one_in(5):
                spec["mods"][j]["items"].append({"k": "raw", "n": "zzclass", "code": "class _MZ(_b.type(_sys)):\n    __module__ = '_zz.impl'\n_sys.modules[__name__].__class__ = _MZ"})
    if g.one_in(6):
        model.replace_submodule(g, spec, g.i(spec["main"]))
    spec["raises"] = g.one_in(3)
    if spec["raises"]:
        for i in range(spec["main"]):
            for k in range(g.i(3)):
                n = f"zz{i}{k}"
                its = spec["mods"][i]["items"]
                its.insert(g.i(len(its) + 1), {"k": "raw", "n": n, "code": g.pick(UNUSABLE).format(n=n)})
    cfg = hostile.config(g, private=False, deps=False) or {}
    cfg.pop("generate_imports", None)
    names = [".".join(m["path"]) for m in spec["mods"][:spec["main"]] if not any(s.startswith("_") for s in m["path"])]
    return {"pkg": spec, "cfg": cfg, "name": g.pick(names) if g.one_in(4) else names[0], "step": g.pick(["name", "names", "module"])}


class Visible(expect.Expect):
    """Only the rules about what is hidden."""
    def __init__(self, spec, blocked):
        self.spec, self.blocked = spec, blocked

    def vis(self, n):
        return not n.startswith("_") and n not in expect.FORBIDDEN and n not in self.blocked


def origins(spec, cfg, name):
    """The modules outside of the target that it imports public modules, classes or functions from."""
    blocked = cfg.get("blocklist_names", ["builtins", "testing", "tests", "test"])
    v = Visible(spec, blocked)
    root = name.split(".")
    out = []
    for m in spec["mods"][:spec["main"]]:
        p = m["path"]
        if any(p[:len(o)] == o and len(root) < len(o) for o in spec.get("over", ())):
            continue
        if p[:len(root)] != root or not all(s not in expect.NON_RAW for s in p):
            continue
        rest = p[len(root):]
        if rest and cfg.get("traverse_submodules") is False or not all(v.vis(s) for s in rest):
            continue
        for it in m["items"]:
            j = it.get("mod")
            if j is None or not v.vis(it["n"]):
                continue
            src = spec["mods"][j]["path"]
            if src[0] == p[0]:
                continue
            names = list(src)
            if it["k"] == "imp":
                names.append(expect.origin_name(spec, it))
            if not all(v.vis(s) for s in names):
                continue
            if ".".join(src) not in out:
                out.append(".".join(src))
    return out


class C21(Check):
    id = "C21"
    technique = "property-based testing: differential against naming the dependencies, metamorphic comparison with and without the flag"
    rule = ("A case is a generated package that imports classes, functions and modules from one or two other packages (and, in a third of the cases, from origins that do not exist, cannot be "
            "imported or cannot be bound), a configuration and the target. With the flag, every binding made without it has to be there and the bindings have to be the same as those of the "
            "target together with the modules it imports from. Non-trivial: at least one such module.")
    assumptions = ["Preludes are the subject of C22.", "Modules that import from modules imported by the target are not dependencies of the target (only direct ones are)."]
    examples = {"quick": 250, "thorough": 10000}

    def strategy(self, tier):
        return model.strategy(case)

    def run(self, spec, ctx):
        d = written(ctx, spec["pkg"])
        for n, c in FILES.items():
            with open(os.path.join(d, n), "w") as f:
                f.write(c)
        cfg, name = spec["cfg"], spec["name"]
        deps = origins(spec["pkg"], cfg, name)
        def make(names, **kw):
            steps = [{"t": "name" if spec["step"] == "name" else "names" if spec["step"] == "names" else "module", "v": [n] if spec["step"] == "names" else n} for n in names]
            return request(ctx, d, [gen_op(steps, dict(cfg, **kw))])[0]
        without = make([name])
        if "tree" not in without:
            raise Inconclusive("no bindings without the flag")
        with_ = make([name], generate_dependencies=True)
        if "tree" not in with_:
            raise Violation(f"generation: fails with the flag: {bad(with_) or with_.get('err')}"[:800])
        x, y = flat.Flat(without["tree"]), flat.Flat(with_["tree"])
        ctx.nontrivial = bool(deps)
        ctx.label(f"dependencies:{min(len(deps), 4)}")
        for k, e in x.keys.items():
            if k[0] == "prelude":
                continue
            h = y.keys.get(k)
            if h is None:
                raise Violation(f"lost: {k} is only there without the flag")
            if [p[0] for p in e.get("params", ())] != [p[0] for p in h.get("params", ())] or e.get("docs") != h.get("docs") or e.get("origin") != h.get("origin"):
                raise Violation(f"changed: {k} differs with the flag: {e} vs {h}"[:1500])
        both = make([name] + deps)
        if "tree" not in both:
            raise Inconclusive("no bindings of target and dependencies")
        z = flat.Flat(both["tree"])
        msg = flat.diff({k: h for k, h in y.keys.items() if k[0] != "prelude"}, {k: h for k, h in z.keys.items() if k[0] != "prelude"})
        if msg:
            raise Violation(f"dependencies: not as with all of {[name] + deps} named: {msg}")
        if y.problems and not z.problems:
            raise Violation("dependencies: " + "; ".join(y.problems[:3]))

    def signature(self, msg):
        return msg[:12]


CHECK = C21()
