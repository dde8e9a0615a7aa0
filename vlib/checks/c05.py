"""Calling a generated function performs exactly that Python call."""
import copy
from .. import drive, expect, model
from .common import *


def case(g):
    spec = drive.tame(model.package(g, drive.opts(kinds={"func": 8, "class": 1, "imp": 3, "attr": 1}, max_items=5)))
    exp = expect.Expect(spec)
    calls = []
    for k, e in exp.keys.items():
        if k[0] == "fn" and e["item"]["k"] == "func":
            for _ in range(1 + g.one_in(3)):
                calls.append(drive.call_plan(g, k, e))
        elif k[0] == "use" and e["origin"][0] == "fn":
            c = drive.call_plan(g, e["origin"], exp.keys[e["origin"]])
            if c:
                c["key"] = list(k)
            calls.append(c)
    calls = [c for c in calls if c]
    if len(calls) > 24:
        calls = calls[-24:]
    return {"pkg": spec, "calls": g.perm(calls) if len(calls) < 12 else calls}


class C05(Check):
    id = "C05"
    technique = "property-based testing: generated packages, compiled drivers, recorded calls"
    needs = ("vgen", "rt")
    rule = ("A case is a generated package whose functions (def, async def, lambda, builtin, partial, wrapped, generator, alias; all parameter kinds) record their "
            "calls, and up to 24 planned calls with generated arguments through the compiled bindings in a fresh interpreter, directly or through re-exports. "
            "Non-trivial: at least one call with at least one argument.")
    assumptions = ["bytes, paths, frozensets and variadic tuples nested inside of other parameters are left out (known finding of C08)."]
    examples = {"quick": 60, "thorough": 2500}

    def strategy(self, tier):
        return model.strategy(case)

    def run(self, spec, ctx):
        if not spec["calls"]:
            return
        d = written(ctx, spec["pkg"])
        a = request(ctx, d, [by_name(root_of(spec["pkg"]), out="tree text")])[0]
        f = bindings(a)
        exp = expect.Expect(spec["pkg"])
        drv = drive.Driver(spec["pkg"], exp, f)
        for c in spec["calls"]:
            k = tuple(c["key"])
            e = exp.keys[exp.keys[k]["origin"]] if k[0] == "use" else exp.keys[k]
            if k not in f.keys or (k[0] == "fn" and [p[0] for p in f.keys[k]["params"]] != ["py"] + e["params"]):
                raise Violation(f"no binding for {k} with the parameters {e['params']}: {f.keys.get(k, {}).get('params')}")
            drive.add_call(drv, c)
            ctx.label("form:" + e["item"]["form"], "kind:" + k[0])
            for p in expect.function_params(e["item"]):
                ctx.label("param:" + p["k"])
            ctx.nontrivial |= bool(c.get("args"))
        msg = drv.run(ctx.products, d, a["text"])
        if msg:
            raise Violation(msg)

    def signature(self, msg):
        return msg.split(" at step")[0][:50]


CHECK = C05()
