"""Annotated types map to Rust types that carry the values faithfully."""
from .. import drive, expect, model, rusttypes
from . import c07
from .common import *


def has(t, tags):
    """Whether one of the tags occurs in the annotation."""
    return isinstance(t, list) and ((t and t[0] in tags) or any(has(x, tags) for x in t))


def case(g):
    kinds = {"func": 8, "class": 2, "attr": 1}
    spec = model.package(g, drive.opts(kinds=kinds, forms=["def"], ann_depth=3, ann_often=True, min_items=2, max_items=5, max_mods=3, max_members=3, mod_mix={"plain": 4, "keyword": 1},
                                       mix={"plain": 6, "camel": 3, "keyword": 1}, scalars=model.SCALARS, compound=model.COMPOUND))
    drive.tame(spec)
    for x in annotated(spec):
        # whether these are recognized in other styles is not documented
        if x["style"] not in ("typing", "ref") and any(has(t, ("module", "mapping")) for t in [x.get("ret"), x.get("ann"), x.get("sann")] + [p["ann"] for p in x.get("params", ())]):
            x["style"] = "typing"
    exp = expect.Expect(spec)
    calls = []
    for k, e in exp.keys.items():
        if k[0] == "fn" and "acc" not in e:
            for _ in range(2 + g.i(2)):
                calls.append(drive.call_plan(g, k, e))
    return {"pkg": spec, "calls": calls[-16:]}


def annotated(spec):
    for m in spec["mods"]:
        for it in m["items"]:
            if it["k"] == "func":
                yield it
            for x in it.get("members", ()):
                if "style" in x:
                    yield x


def want_types(exp, key, e):
    """(types of the Rust parameters, Rust type of the result) as documented, without paths to local items."""
    def cls(m, n):
        p = ".".join(exp.spec["mods"][m]["path"]) + "." + n
        return f"@class:{p}" if ("class", p) in exp.keys else None
    any_own = rusttypes.ANY[0]
    if "acc" in e:
        get, put = c07.accessor_type(e)
        if e["acc"] == "get":
            return [], rusttypes.types(get, cls)[0]
        return [rusttypes.types(put, cls)[1]], "()"
    x = e["item"]
    ps = []
    for p in expect.function_params(x, e["owner"][1] if "owner" in e else None):
        if p["k"] == "va":
            ps.append(rusttypes.types(["tuple0"], cls)[1])
        elif p["k"] == "vk":
            ps.append("::std::option::Option<::pyo3::Bound<'py,::pyo3::types::PyDict>>")
        else:
            ps.append(rusttypes.types(p["ann"], cls)[1] if p["ann"] else rusttypes.ANY[1])
    if x["k"] == "init":
        return ps, "::pyo3::Bound<'py,Self>"
    if x.get("form", "def") in ("async", "generator", "lambda") or x.get("ret") is None:
        return ps, any_own
    return ps, rusttypes.types(x["ret"], cls)[0]


def squeeze(t):
    return t.replace(" ", "").replace("::std::primitive::", "").replace("::core::primitive::", "").replace("?Self", "Self")


class C08(Check):
    id = "C08"
    technique = "property-based testing: generated annotations against the documented mapping; round trips of generated values through compiled bindings"
    needs = ("vgen", "rt")
    rule = ("A case is a generated package whose functions, methods and properties carry annotations nested up to 3 levels (written as objects, typing generics, PEP 585/604 or "
            "strings); the signature of every binding is compared with the documented mapping and up to 16 calls carry generated values in both directions through compiled "
            "bindings. Non-trivial: at least one nested annotation (container of something) and one call.")
    assumptions = ["Integers beyond 64 bits are out of the domain of the documented mapping (i64).", "Mapping and ModuleType are only written as typing generics or objects.",
                   "bytes, paths, frozensets and variadic tuples nested in containers are not passed as arguments (known finding)."]
    examples = {"quick": 60, "thorough": 2500}

    def strategy(self, tier):
        return model.strategy(case)

    def run(self, spec, ctx):
        d = written(ctx, spec["pkg"])
        a = request(ctx, d, [by_name(root_of(spec["pkg"]), out="tree text")])[0]
        f = bindings(a)
        exp = expect.Expect(spec["pkg"])
        for k, e in exp.keys.items():
            h = f.keys.get(k)
            if h is None or k[0] not in ("fn", "cfn", "cmeth"):
                continue
            if e["item"].get("form") in ("builtin", "partial", "wrapped", "alias"):
                continue
            mod = ".".join(spec["pkg"]["mods"][e["mod"]]["path"])
            ps, ret = want_types(exp, k, e)
            have = [squeeze(rusttypes.absolute(f, mod, t)) for _, t in h["params"][0 if k[0] == "cmeth" else 1:]]
            hret = squeeze(rusttypes.absolute(f, mod, h["ret"]))
            want, wret = [squeeze(p) for p in ps], squeeze(f"::pyo3::PyResult<{ret}>")
            for name, x, y in [*zip([p[0] for p in h["params"][0 if k[0] == "cmeth" else 1:]], have, want), ("the result", hret, wret)]:
                if x != y and len(have) == len(want):
                    raise Violation(f"type: {name} of {k} is {x} instead of {y}: {[p['ann'] for p in e['item'].get('params', ())]} -> {e['item'].get('ret')}")
        if spec["calls"]:
            drv = drive.Driver(spec["pkg"], exp, f)
            for c in spec["calls"]:
                if tuple(c["key"]) not in f.keys:
                    continue
                drive.add_call(drv, c)
                it = exp.keys[tuple(c["key"])]["item"]
                ctx.label("style:" + it["style"])
                for t in [it["ret"]] + [p["ann"] for p in it["params"]]:
                    for x in tags(t):
                        ctx.label("type:" + x)
                    ctx.nontrivial |= bool(t) and len(t) > 1
            if drv.fns:
                msg = drv.run(ctx.products, d, a["text"])
                if msg:
                    raise Violation(msg)

    def signature(self, msg):
        return msg.split(" at step")[0][:50] if not msg.startswith("type:") else "type"


def tags(t):
    if not t:
        return []
    out = [t[0]] if isinstance(t[0], str) else []
    for x in t[1:] if out else t:
        if isinstance(x, list):
            out += tags(x)
    return out


CHECK = C08()
