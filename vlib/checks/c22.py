"""Preludes re-export what `__all__` lists."""
from .. import expect, flat, hostile, model
from .common import *

LISTS = ["{!r}", "tuple({!r})", "iter({!r})", "dict.fromkeys({!r})", "(x for x in {!r})", "{!r} + ['missing', 'no such name']", "{!r} * 2", "['_il'] + {!r}", "set({!r})", "{!r} + ['super']", "list({!r}) + [3]", "[type('S', (str,), {{}})(x) for x in {!r}]"]
ONCE = {2, 4}  # exhausted after the first look at them


def case(g):
    mix = {"plain": 8, "camel": 2, "keyword": 3, "unicode": 2, "private": 2, "clash": 3, "nonraw": 2, "blocked": 1}
    spec = model.package(g, model.Opts(mix=mix, max_mods=6, max_items=6, min_items=1, max_members=2, ann_depth=1, deps=g.one_in(3), docs=False, kinds={"func": 4, "class": 3, "attr": 2, "tvar": 2, "imp": 4}))
    foreign = [(j, x["n"]) for j in range(spec["main"], len(spec["mods"])) for x in spec["mods"][j]["items"] if x["k"] == "class" and not x["n"].startswith("_")]
    for m in spec["mods"][:spec["main"]] if foreign else ():
        if g.one_in(3) and not any(x["n"] == "foreign" for x in m["items"]):
            m["items"].append({"k": "attr", "n": "foreign", "v": None, "inst": list(g.pick(foreign))})
    for i, m in enumerate(spec["mods"]):
        subs = [x["path"][-1] for x in spec["mods"] if x["path"][:-1] == m["path"]]
        own = sorted({x["n"] for x in m["items"]})
        how = g.i(6)
        if how == 0:
            continue
        names = own if how == 1 else [n for n in own if not n.startswith("_")] if how == 2 else g.subset(own) if how == 3 else g.subset(own + subs)
        names = g.perm(list(dict.fromkeys(names))) if len(names) < 9 else names
        x = g.i(len(LISTS)) if g.flag() else 0
        if x not in ONCE:
            m["items"].append({"k": "raw", "n": "__all__", "how": x, "names": names, "code": "__all__ = " + LISTS[x].format(names).replace("type(", "_b.type(").replace("dict.", "_b.dict.").replace(" str,", " _b.str,").replace("(str,", "(_b.str,")
                               .replace("tuple(", "_b.tuple(").replace("set(", "_b.set(").replace("list(", "_b.list(")})
    if g.one_in(6):
        model.replace_submodule(g, spec, g.i(spec["main"]))
    cfg = hostile.config(g, private=False, deps=False) or {}
    cfg["generate_dependencies"] = g.one_in(3)
    names = [".".join(m["path"]) for m in spec["mods"][:spec["main"]] if not any(s.startswith("_") for s in m["path"])]
    return {"pkg": spec, "cfg": cfg, "name": g.pick(names) if g.one_in(4) else names[0]}


def listed(it):
    return it["names"] + {5: ["missing", "no such name"], 7: ["_il"], 9: ["super"], 10: ["3"]}.get(it["how"], [])


def about_root(spec, i, it):
    """Whether the value of the item says it is from the package itself (None if this does not matter)."""
    root = spec["mods"][i]["path"][0]
    if it["k"] == "imp":
        j = it["mod"]
        return about_root(spec, j, expect.find(spec, j, it["name"])) if spec["mods"][j]["path"][0] == root else False
    if it["k"] == "class":
        return True
    if it["k"] == "func":
        return expect.alias_target(spec["mods"][i], it)["form"] not in ("partial", "builtin")
    if it["k"] == "tvar":
        return it["how"] in ("TypeVar", "ParamSpec", "NewType", "typealias")
    if it.get("inst"):
        return spec["mods"][it["inst"][0]]["path"][0] == root
    return False


class C22(Check):
    id = "C22"
    technique = "property-based testing: generated packages with generated indices against a model of preludes"
    rule = ("A case is a generated package with a generated `__all__` (in various forms, with names that are missing, private, submodules, imports) in most modules, and a configuration. Every module with an index that differs from "
            "its public names needs a prelude of exactly the listed names that are defined and bound there. Non-trivial: at least one module with such a prelude.")
    assumptions = ["Names re-exported from submodules may or may not be in the prelude (the module itself re-exports them).", "An index that can only be iterated once is left out."]
    examples = {"quick": 700, "thorough": 20000}

    def strategy(self, tier):
        return model.strategy(case)

    def run(self, spec, ctx):
        pkg, cfg, name = spec["pkg"], spec["cfg"], spec["name"]
        d = written(ctx, pkg)
        a = request(ctx, d, [by_name(name, cfg)])[0]
        if "tree" not in a:
            raise Inconclusive("no bindings")
        f = flat.Flat(a["tree"])
        blocked = cfg.get("blocklist_names", ["builtins", "testing", "tests", "test"])
        wanted = {}
        uses = {k[1] for k in f.keys if k[0] == "use"}
        bound = {k[1] for k in f.keys if k[0] in ("fn", "class", "type", "mod")}
        for i, m in enumerate(pkg["mods"]):
            path = ".".join(m["path"])
            idx = [it for it in m["items"] if it["n"] == "__all__"]
            if ("mod", path) not in f.keys or not idx or not cfg.get("generate_preludes", True):
                continue
            if not (path + ".").startswith(name + "."):
                continue
            subs = {x["path"][-1] for x in pkg["mods"] if x["path"][:-1] == m["path"]}
            items = {it["n"]: it for it in m["items"] if it["n"] != "__all__"}
            names = listed(idx[0])
            public = {n for n in items if not n.startswith("_")}
            if {n for n in names if n in items or n == "_il"} == public:
                ctx.label("index of all public names")
                continue
            must, may = set(), set()
            for n in names:
                if n.startswith("_") or n in blocked or n in expect.FORBIDDEN or n in expect.NON_RAW or any(s.startswith("_") for s in m["path"]):
                    continue
                p = f"{path}.{n}"
                if p in uses:
                    may.add(n)
                elif p in bound:
                    if n in subs and n not in items:
                        (must if cfg["generate_dependencies"] else may).add(n)
                    elif n in items and (cfg["generate_dependencies"] or about_root(pkg, i, items[n])):
                        must.add(n)
            wanted[path] = must, may
        for path, (must, may) in wanted.items():
            h = f.keys.get(("prelude", path))
            have = [flat.raw(l[1]) for l in h["leaves"]] if h else []
            if len(set(have)) != len(have) or not must <= set(have) <= must | may:
                raise Violation(f"prelude of {path}: has {sorted(have)}, needs {sorted(must)}" + (f" and may have {sorted(may)}" if may else ""))
            if h and h["vis"] != ["pub"] * len(h["vis"]):
                raise Violation(f"prelude of {path}: not public")
            if must:
                ctx.nontrivial = True
                ctx.label("prelude", "dependencies" if cfg["generate_dependencies"] else "no dependencies")
        for k in f.keys:
            if k[0] == "prelude" and k[1] not in wanted and (k[1] + ".").startswith(name + "."):
                raise Violation(f"prelude of {k[1]}: not expected, has {f.keys[k]['leaves']}")

    def signature(self, msg):
        return msg[:10]


CHECK = C22()
