"""Each configuration flag removes exactly its category."""
from .. import expect, flat, hostile, model, stdlib
from .c11 import module_of
from .common import *

FLAGS = ["generate_classes", "generate_functions", "generate_properties", "generate_type_vars", "generate_imports", "generate_preludes", "generate_docs"]
MIX = dict(hostile.MIX, private=1, reserved=1)


def case(g):
    off = g.subset(FLAGS) if g.i(3) == 0 else [g.pick(FLAGS)] if g.flag() else [f for f in FLAGS if g.flag()]
    if g.one_in(8):
        return {"names": [g.pick(stdlib.FAST + stdlib.SUB)], "off": off, "traverse": True, "cfg": {}}
    pkg = model.package(g, hostile.opts(mix=MIX, mod_mix={"plain": 6, "keyword": 2, "unicode": 1, "private": 2, "blocked": 1, "shadow": 1}, ann_depth=1, deps=g.one_in(4), min_items=1, max_items=6,
                                        max_mods=6, kinds={"func": 4, "class": 3, "attr": 3, "tvar": 2, "imp": 5}))
    mods = names_of(pkg)
    traverse = g.i(3) > 0
    names = [mods[0]]
    if not traverse:
        names = list(dict.fromkeys([g.pick(mods) for _ in range(1 + g.i(3))] + (mods[:1] if g.flag() else [])))
    elif len(mods) > pkg["main"] and g.flag():
        names.append(mods[pkg["main"]])
    cfg = {}
    if g.one_in(5):
        cfg["include_private"] = True
        cfg["blocklist_names"] = ["__annotations__", "__warningregistry__"]
    return {"pkg": pkg, "names": names, "off": off, "traverse": traverse, "cfg": cfg}


def category(k):
    return {"class": "generate_classes", "cfn": "generate_classes", "cmeth": "generate_classes", "type": "generate_type_vars", "use": "generate_imports",
            "prelude": "generate_preludes"}.get(k[0])


class C12(Check):
    id = "C12"
    technique = "property-based testing: generated packages and combinations of flags, metamorphic comparison with the bindings of all categories"
    rule = ("A case is a generated package (or a module of the standard library) with items of every category and a combination of disabled flags, or disabled traversal and a list of "
            "explicitly named modules. Non-trivial: something is removed and something is left.")
    assumptions = ["Where classes are removed (generate_classes or traverse_submodules off), annotations that refer to them become plain objects; the code of what is left is compared where no class is removed."]
    examples = {"quick": 130, "thorough": 6000}

    def strategy(self, tier):
        return model.strategy(case)

    def fixed(self, tier):
        mods = stdlib.MODULES if tier == "thorough" else ["os", "json", "typing", "datetime", "email"]
        out = []
        for m in mods:
            for f in FLAGS:
                out.append((f"{m} without {f}", {"names": [m], "off": [f], "traverse": True, "cfg": {}}))
        return out

    def run(self, spec, ctx):
        pkg = spec.get("pkg")
        d = written(ctx, pkg) if pkg else []
        ask = lambda names, off: request(ctx, d, [gen_op([{"t": "names", "v": names}], dict(spec["cfg"], **{f: False for f in off}))])[0]
        roots = list(dict.fromkeys(n.split(".")[0] for n in spec["names"])) if pkg else spec["names"]
        a = ask(roots, [])
        if "tree" not in a and not pkg:
            return
        full = bindings(a)
        one = {f: bindings(ask(roots, [f]), f"generation without {f}").keys for f in spec["off"]}
        is_fn = None
        if pkg:
            is_fn = self.functions(pkg, spec["cfg"])
        # each flag alone
        for f, keys in one.items():
            for k in full.keys:
                there, c = k in keys, category(k)
                if c == "generate_imports" and f != "generate_imports":
                    r = full.resolve(module_of(k), full.keys[k]["origin"])
                    want = r is None or r in keys
                elif c == "generate_preludes" and f != "generate_preludes":
                    want = bool(self.leaves(full, k, keys))
                elif k[0] == "fn" and f in ("generate_functions", "generate_properties"):
                    if is_fn is None or k[1] not in is_fn:
                        continue
                    want = is_fn[k[1]] != (f == "generate_functions")
                else:
                    want = c != f
                if there != want:
                    raise Violation(f"{f}: {k} is {'kept' if there else 'removed'} by disabling {f}")
            for k in keys:
                if k not in full.keys:
                    raise Violation(f"{f}: {k} is added by disabling {f}")
            if f == "generate_docs" and any(h.get("docs") for h in keys.values()):
                raise Violation(f"{f}: documentation is left")
            self.same(full.keys, keys, f, docs=f != "generate_docs")
        if "generate_functions" in one and "generate_properties" in one:
            for k in full.keys:
                if k[0] == "fn" and (k in one["generate_functions"]) == (k in one["generate_properties"]):
                    raise Violation(f"generate_functions: {k} is neither a function nor an accessor or both")
        # all of them together
        off = spec["off"]
        if len(off) > 1:
            r = bindings(ask(roots, off), f"generation without {off}").keys
            want = set(full.keys).intersection(*[set(k for k in keys) for keys in one.values()])
            for k in sorted(want ^ set(r), key=str):
                if k[0] == "prelude" and k not in r and not self.leaves(full, k, r):
                    continue
                if k[0] == "use" and k not in r and full.resolve(module_of(k), full.keys[k]["origin"]) not in r:
                    continue
                raise Violation(f"combination: {k} is {'kept' if k in r else 'removed'} by disabling {off}")
            self.same(full.keys, r, f"without {off}", docs="generate_docs" not in off)
            ctx.nontrivial = 1 < len(r) < len(full.keys)
            ctx.label("combination")
        elif off:
            ctx.nontrivial = 1 < len(one[off[0]]) < len(full.keys)
            ctx.label(off[0])
        if not spec["traverse"]:
            ctx.label("traversal off")
            self.traversal(spec, ctx, ask, full)

    def traversal(self, spec, ctx, ask, full):
        pkg, names = spec["pkg"], spec["names"]
        off = ["traverse_submodules"] + spec["off"]
        names = [n for n in names if not any(s in expect.NON_RAW for s in n.split("."))]
        r = bindings(ask(names, ["traverse_submodules"]), f"generation of {names} without traversal").keys
        parents = {".".join(n.split(".")[:i]) for n in names for i in range(1, len(n.split(".")))}
        for n in sorted(set(names) | parents):
            if ("mod", n) not in r:
                raise Violation(f"traverse_submodules: no module {n} although {names} were named")
        for k in r:
            if k[0] == "mod" and k[1] not in names and k[1] not in parents:
                raise Violation(f"traverse_submodules: {k} is bound although only {names} were named")
            m = self.scope(k, r)
            if k[0] != "mod" and m not in names:
                raise Violation(f"traverse_submodules: {k} is bound although only {names} were named")
            if k not in full.keys and ("mod", m) in full.keys:
                raise Violation(f"traverse_submodules: {k} is added by disabling the traversal")
        for k in full.keys:
            m = self.scope(k, full.keys)
            if k[0] == "mod" or m not in names:
                continue
            want = True
            if k[0] == "use":
                t = full.resolve(module_of(k), full.keys[k]["origin"])
                want = t is None or t in r
            elif k[0] == "prelude":
                want = bool(self.leaves(full, k, r))
            if want != (k in r):
                raise Violation(f"traverse_submodules: {k} is {'kept' if k in r else 'removed'} although {names} were named")
        self.same(full.keys, r, f"without traversal but {names}")
        if spec["off"]:
            both = bindings(ask(names, off), f"generation of {names} without {off}").keys
            if set(both) - set(r):
                raise Violation(f"traverse_submodules: {sorted(set(both) - set(r), key=str)[:4]} added by disabling {off}")
        ctx.nontrivial = ctx.nontrivial or len(names) > 1

    @staticmethod
    def scope(k, keys):
        """The module of a binding, also of class members."""
        p = k[1]
        if k[0] in ("cfn", "cmeth"):
            p = p.rpartition(".")[0]
            return p
        return module_of(k)

    @staticmethod
    def leaves(full, k, keys):
        """What of a prelude is left."""
        out = []
        for o, n in full.keys[k]["leaves"]:
            n = o.split("::")[-1]
            n = n[2:] if n.startswith("r#") else n
            if any((kind, f"{k[1]}.{n}") in keys for kind in ("fn", "class", "type", "mod")):
                out.append(o)
        return sorted(out)

    def same(self, a, b, what, docs=True):
        """What both have is equal."""
        classes = lambda m: {k for k in m if k[0] == "class"}
        fields = ("docs",) if docs else ()
        if classes(a) == classes(b):
            fields += ("sig", "code", "origin", "macros", "attrs")
        for k in b:
            if k not in a:
                continue
            for w in fields:
                if a[k].get(w) != b[k].get(w):
                    raise Violation(f"{what}: {k} changes in {w}: {str(a[k].get(w))[:200]} becomes {str(b[k].get(w))[:200]}")
            if k[0] in ("fn", "cfn", "cmeth") and [p[0] for p in a[k]["params"]] != [p[0] for p in b[k]["params"]]:
                raise Violation(f"{what}: {k} changes its parameters")
            if k[0] == "prelude":
                have = sorted(o for o, _ in b[k]["leaves"])
                if have != self.leaves(flat_view(a), k, b):
                    raise Violation(f"{what}: the prelude of {k[1]} has {have}")

    @staticmethod
    def functions(pkg, cfg):
        """{Rust path: whether it is a function (or else an accessor)}"""
        e = expect.Expect(dict(pkg, main=len(pkg["mods"])), cfg.get("include_private", False), cfg.get("blocklist_names", expect.DEFAULT_BLOCKLIST))
        return {k[1]: "acc" not in v for k, v in e.keys.items() if k[0] == "fn"}

    def signature(self, msg):
        return msg.split(":")[0]


class flat_view:
    def __init__(self, keys):
        self.keys = keys


CHECK = C12()
