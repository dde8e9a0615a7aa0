"""Combining modules is a set union."""
from .. import flat, hostile, model, stdlib
from .c10 import entry
from .common import *


def case(g):
    if g.one_in(8):
        pool = [g.pick(stdlib.FAST + stdlib.SUB + stdlib.SUB) for _ in range(1 + g.i(3))]
        pool += [n.rpartition(".")[0] for n in pool if "." in n and g.flag()]
        spec = {}
    else:
        pkg = model.package(g, hostile.opts(ann_depth=1, deps=g.one_in(3), min_items=1, max_items=4, max_mods=7, depth=4, mod_mix={"plain": 6, "keyword": 2, "unicode": 1, "private": 1, "shadow": 1}))
        if g.one_in(3):
            pkg = hostile.infest(g, pkg, odd=False, files=hostile.PLAIN_FILES)
        pool = names_of(pkg)
        spec = {"pkg": pkg}
    names = [g.pick(pool) for _ in range(1 + g.i(4))]
    if g.one_in(4):
        names = pool[:1] + names
    cfg = hostile.config(g, private="pkg" in spec, deps=False)
    if cfg and cfg.get("include_private"):
        cfg["blocklist_names"] = cfg.get("blocklist_names", []) + ["__annotations__", "__warningregistry__"]
    return dict(spec, steps=entry(g, names), names=names, again=entry(g, g.perm(names + g.subset(names))), cfg=cfg)


def under(path, root):
    return path == root or path.startswith(root + ".")


def module_of(k):
    """The module a binding is in."""
    p = k[1]
    return p if k[0] in ("mod", "prelude") else p.rpartition(".")[0] if k[0] in ("fn", "class", "type", "use") else p.rpartition(".")[0]


class C11(Check):
    id = "C11"
    technique = "property-based testing: metamorphic relations between generations (permutation, repetition, union of parts)"
    rule = ("A case is a list of modules of generated packages or the standard library (a package with some of its submodules, unrelated modules, repetitions) given through generated "
            "entry points. Non-trivial: at least two different modules.")
    assumptions = ["Types in signatures may name more classes in the union than in the parts, so unions are compared by the names bound (re-exports appear where the original is present); repetitions and orders are compared completely."]
    examples = {"quick": 150, "thorough": 6000}

    def strategy(self, tier):
        return model.strategy(case)

    def run(self, spec, ctx):
        d = []
        if "pkg" in spec:
            d = written(ctx, spec["pkg"])
        ask = lambda steps: request(ctx, d, [gen_op(steps, spec["cfg"])])[0]
        names = list(dict.fromkeys(spec["names"]))
        ctx.nontrivial = len(names) > 1
        alone = {}
        for n in names:
            a = ask([{"t": "name", "v": n}])
            if "tree" not in a:
                ctx.label("a module cannot be bound")
                return
            alone[n] = flat.Flat(a["tree"])
        a, b = ask(spec["steps"]), ask(spec["again"])
        fa, fb = bindings(a, "combining: generation of several modules"), bindings(b, "combining: generation in another order")
        for f in (fa, fb):
            if f.problems:
                raise Violation("duplicates: " + "; ".join(f.problems[:4]))
        msg = flat.diff(fa.keys, fb.keys)
        if msg:
            raise Violation(f"order: {spec['steps']} and {spec['again']} differ: {msg}")
        want = set().union(*(f.keys for f in alone.values()))
        # a re-export whose original is in another one of the modules is only possible in the union
        late = {k for k in set(fa.keys) - want if k[0] == "use" and fa.resolve(module_of(k), fa.keys[k]["origin"]) and
                not any(under(module_of(k), n) and f.resolve(module_of(k), fa.keys[k]["origin"]) for n, f in alone.items())}
        if late:
            ctx.label("re-export across the parts")
            want |= late
        msg = "; ".join([f"missing: {k}" for k in sorted(want - set(fa.keys), key=str)][:4] + [f"not in the parts: {k}" for k in sorted(set(fa.keys) - want, key=str)][:4])
        if msg:
            raise Violation(f"union: {names}: {msg}")
        for k, h in fa.keys.items():
            parts = [f.keys[k] for f in alone.values() if k in f.keys]
            for w in ("name", "docs", "macros", "origin"):
                if w in h and k not in late and not any(h.get(w) == p.get(w) for p in parts):
                    raise Violation(f"union: {k} has {w} {h[w]} but in the parts {[p.get(w) for p in parts]}"[:800])
            if k[0] in ("fn", "cfn", "cmeth") and not any(h["params"] == p["params"] and h["ret"] == p["ret"] for p in parts):
                # only names of classes may be additional
                if not any([x[0] for x in h["params"]] == [x[0] for x in p["params"]] for p in parts):
                    raise Violation(f"union: {k} has the parameters {h['params']} but in the parts {[p['params'] for p in parts]}"[:800])
        traverse = (spec["cfg"] or {}).get("traverse_submodules", True)
        for n, f in alone.items():
            segs = n.split(".")
            if ("mod", n) not in f.keys and "pkg" not in spec:  # os.path is posixpath
                continue
            for k, h in f.keys.items():
                m = module_of(k)
                if k[0] == "mod" and n.startswith(k[1] + "."):
                    ctx.label("parents")
                elif not under(m, n):
                    raise Violation(f"parents: {k} although only {n} was named")
            for i in range(1, len(segs) + 1):
                if ("mod", ".".join(segs[:i])) not in f.keys:
                    raise Violation(f"parents: no module {'.'.join(segs[:i])} for {n}")
        if traverse and "pkg" in spec:
            # a package contains what its submodules contain
            for n in names:
                for m in names:
                    if m != n and under(m, n) and ("mod", m) in alone[n].keys:
                        ctx.label("package and submodule")
                        x = {k for k in alone[n].keys if under(module_of(k), m)}
                        y = {k for k in alone[m].keys if under(module_of(k), m)}
                        if x != y:
                            raise Violation(f"nesting: {m} within {n} has other bindings than alone: only within {sorted(x - y, key=str)[:4]}, only alone {sorted(y - x, key=str)[:4]}")
            top = [n for n in names if not any(m != n and under(n, m) for m in names)]
            if len(top) < len(names) and all(any(under(n, t) and ("mod", n) in alone[t].keys for t in top) for n in names):
                f = bindings(ask([{"t": "names", "v": top}]), "combining: generation of the packages")
                msg = flat.diff(f.keys, fa.keys)
                if msg:
                    raise Violation(f"submodules: adding submodules to {top} changes the bindings: {msg}")

    def signature(self, msg):
        return msg.split(":")[0]


CHECK = C11()
