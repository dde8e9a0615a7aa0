"""Generation is deterministic and history-independent."""
from .. import hostile, model, stdlib
from .common import *

OTHER = stdlib.FAST


def entry(g, names):
    """Steps naming exactly these modules in this order."""
    out, left = [], list(names)
    while left:
        t = g.pick(["name", "names", "module", "modules"])
        if t in ("name", "module"):
            out.append({"t": t, "v": left.pop(0)})
        else:
            n = 1 + g.i(len(left))
            out.append({"t": t, "v": left[:n]})
            left = left[n:]
    return out


def case(g):
    if g.one_in(6):
        names = list(dict.fromkeys(g.pick(stdlib.FAST + stdlib.SUB) for _ in range(1 + g.i(2))))
        spec = {"std": True}
        pool = OTHER
    else:
        pkg = model.package(g, hostile.opts(ann_depth=2, deps=g.one_in(3), min_items=1, max_items=6))
        if g.i(3):
            pkg = hostile.infest(g, pkg, odd=False, files=hostile.PLAIN_FILES)
        mods = names_of(pkg)
        names = [mods[0]] if g.flag() else g.subset(mods) or [mods[0]]
        spec = {"pkg": pkg}
        pool = mods * 2 + OTHER[:12]
    cfg = hostile.config(g, private="pkg" in spec)
    if cfg and cfg.get("include_private"):  # Python creates __annotations__ of a class when it is first looked at
        cfg["blocklist_names"] = cfg.get("blocklist_names", []) + ["__annotations__", "__warningregistry__"]
    history = [{"steps": [{"t": g.pick(["name", "module"]), "v": g.pick(pool)} for _ in range(1 + g.i(2))], "cfg": hostile.config(g, private=False)} for _ in range(g.i(3))]
    if g.one_in(3):
        history.append({"steps": [{"t": "names", "v": names}], "cfg": cfg})
    return dict(spec, names=names, cfg=cfg, entry=[entry(g, names), entry(g, names)], history=history, seed=g.i(1000))


class C10(Check):
    id = "C10"
    technique = "property-based testing: differential runs across processes, hash seeds, directories, entry points and histories"
    rule = ("A case is a generated (often hostile) package or some modules of the standard library, bound in three processes with different hash seeds, locations of the package, "
            "entry points naming the same modules, and with other modules generated before. Non-trivial: the outputs compared are bindings of a package or of at least two modules.")
    assumptions = ["Modules are named in the same order (the order is the subject of C11).",
                   "Importing a module does not rename or replace modules nor change other modules' public attributes (then what is imported before matters by design).",
                   "__annotations__ of classes, which Python creates when it is first accessed, and __warningregistry__, which Python adds to a module when a warning is first raised, are blocklisted where private names are included."]
    examples = {"quick": 70, "thorough": 3000}

    def strategy(self, tier):
        return model.strategy(case)

    def fixed(self, tier):
        mods = ["os", "json", "math", "collections", "typing", "email"] + (stdlib.MODULES if tier == "thorough" else [])
        return [("module " + m, {"std": True, "names": [m], "cfg": None, "entry": [[{"t": "module", "v": m}], [{"t": "names", "v": [m]}]],
                                 "history": [{"steps": [{"t": "name", "v": "json"}], "cfg": None}], "seed": i}) for i, m in enumerate(mods)]

    def run(self, spec, ctx):
        d = ctx.case_dir()
        dirs = [[], [], []]
        if "pkg" in spec:
            dirs = [os.path.join(d, x) for x in ("a", "some where/else ünïcode", "c")]
            for x in dirs:
                os.makedirs(x)
                model.write(spec["pkg"], x)
        base = gen_op([{"t": "names", "v": spec["names"]}], spec["cfg"], out="text")
        a = request(ctx, dirs[0], [base])[0]
        others = [("other hash seed, place and entry point", ctx.server(str(1 + spec["seed"] % 3)), dirs[1], [gen_op(spec["entry"][0], spec["cfg"], out="text")])]
        history = [gen_op(h["steps"], h["cfg"], out="x") for h in spec["history"]]
        others.append(("after other modules", ctx.server("random"), dirs[2], history + [gen_op(spec["entry"][1], spec["cfg"], out="text")]))
        if "text" in a:
            ctx.nontrivial = "pkg" in spec or len(spec["names"]) > 1
            ctx.label("std" if "std" in spec else "package", "history" if history else "no history")
        for what, server, path, ops in others:
            b = request(ctx, path, ops, server)[-1]
            if b.get("kind") == "Import" or bad(a) or bad(b):
                continue
            if a.get("text") != b.get("text") or ("err" in a) != ("err" in b):
                raise Violation(f"{what}: {difference(a, b)}")

    def signature(self, msg):
        return msg.split(":")[0]


def difference(a, b):
    if "text" not in a or "text" not in b:
        return f"{str(a)[:200]} instead of {str(b)[:200]}"
    x, y = a["text"].split(), b["text"].split()
    i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
    return f"token {i} of {len(x)}/{len(y)}: ... {' '.join(x[max(0, i - 12):i + 20])} ... instead of ... {' '.join(y[max(0, i - 12):i + 20])}"[:900]


CHECK = C10()
