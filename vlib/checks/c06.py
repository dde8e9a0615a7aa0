"""Class bindings construct, call and dispatch like the Python class."""
from .. import drive, expect, model
from .common import *

MIX = {"plain": 10, "camel": 2, "keyword": 3, "unicode": 1, "clash": 2, "nonraw": 1}


def case(g):
    spec = drive.tame(model.package(g, drive.opts(kinds={"func": 1, "class": 8, "imp": 2}, min_items=1, max_items=3, max_mods=3, max_members=5, member_mix=MIX)))
    exp = expect.Expect(spec)
    uses = []
    for k, e in exp.keys.items():
        if k[0] in ("cfn", "cmeth") and "acc" not in e:
            for _ in range(1 + g.one_in(3)):
                uses.append(drive.method_plan(g, k, e))
    if len(uses) > 24:
        uses = uses[-24:]
    return {"pkg": spec, "uses": g.perm(uses) if len(uses) < 12 else uses}


class C06(Check):
    id = "C06"
    technique = "property-based testing: generated classes, compiled drivers, recorded calls"
    needs = ("vgen", "rt")
    rule = ("A case is a generated package of classes with inheritance, constructors, __call__, instance, class and static methods that record their calls, and up to "
            "24 planned uses of their bindings in generated order on instances from Python, instances from the constructor binding and instances of a dynamic subclass. "
            "Non-trivial: at least one class use.")
    assumptions = ["Static or class method __call__ is left out (known finding)."]
    examples = {"quick": 60, "thorough": 2500}

    def strategy(self, tier):
        return model.strategy(case)

    def run(self, spec, ctx):
        if not spec["uses"]:
            return
        d = written(ctx, spec["pkg"])
        a = request(ctx, d, [by_name(root_of(spec["pkg"]), out="tree text")])[0]
        f = bindings(a)
        exp = expect.Expect(spec["pkg"])
        drv = drive.Driver(spec["pkg"], exp, f)
        made = {}
        for c in spec["uses"]:
            k = tuple(c["key"])
            e = exp.keys[k]
            if k not in f.keys or [p[0] for p in f.keys[k]["params"]] != ([] if k[0] == "cmeth" else ["py"]) + e["params"]:
                raise Violation(f"no binding for {k} with the parameters {e['params']}: {f.keys.get(k, {}).get('params')}")
            drive.add_method(drv, c, made)
            ctx.label("member:" + e["item"]["k"], "inherited" if e["owner"] != (e["mod"], e["cls"]) else "own", "on:" + c["mode"])
        ctx.nontrivial = True
        msg = drv.run(ctx.products, d, a["text"])
        if msg:
            raise Violation(msg)

    def signature(self, msg):
        return msg.split(" at step")[0][:50]


CHECK = C06()
