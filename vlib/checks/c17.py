"""Re-exports and cross-module types name the original item."""
import re
from .. import drive, expect, model, rust, rusttypes
from . import c08
from .common import *

MODS = {"few_mods": 6, "keyword": 1, "unicode": 1, "plain": 1}


def case(g):
    mix = {"few": 8, "keyword": 1, "unicode": 1, "plain": 2, "clash": 1, "shadow": 2}
    scalars = ["int", "str", "any", "type", "path"]
    compound = ["list", "opt", "dict", "tuple", "seq", "union", "vtuple"]
    pkg = model.package(g, model.Opts(mix=mix, mod_mix=MODS, max_mods=9, depth=4, min_items=1, max_items=4, max_members=3, docs=False, deps=g.one_in(3), ann_depth=2, ann_often=True, scalars=scalars,
                                      compound=compound, kinds={"func": 3, "class": 5, "attr": 1, "imp": 5, "tvar": 1}, forms=["def", "def", "async", "wrapped", "alias", "lambda", "renamed"], root_names=["pkg", "a", "node"],
                                      param_mix={"plain": 8, "few": 4, "keyword": 1}))
    for f in drive.functions(pkg):
        for p in f["params"]:
            p["ann"] = p["ann"] and rusttypes.canon(p["ann"])
        if f.get("ret") is not None:
            f["ret"] = rusttypes.canon(f["ret"])
    for m in pkg["mods"]:
        for it in m["items"]:
            for x in it.get("members", ()):
                if x["k"] == "prop":
                    x["ann"] = x["ann"] and rusttypes.canon(x["ann"])
                    x["sann"] = x["sann"] and rusttypes.canon(x["sann"])
    if g.one_in(6):
        model.replace_submodule(g, pkg, g.i(pkg["main"]))
    # modules imported under other names
    aliases = []
    for i, m in enumerate(pkg["mods"]):
        below = [x["path"] for x in pkg["mods"] if x["path"][:len(m["path"])] == m["path"] and len(x["path"]) > len(m["path"])]
        over = pkg.get("over", ())
        below = [p for p in below if not any(p[:len(o)] == o and m["path"] != o[:-1] and m["path"][:len(o)] != o for o in over)]
        if below and g.one_in(4):
            n, p = f"zzalias{i}", g.pick(below)
            m["items"].insert(0, {"k": "raw", "n": n, "alias": p, "code": f"{n} = _il.import_module({'.'.join(p)!r})"})
            aliases.append([i, n, p])
    return {"pkg": pkg, "aliases": aliases, "compile": g.one_in(6)}


def references(rust_type):
    return sorted(re.findall(r"@(?:class:|\?)?[^<>,)&]+|\?[^<>,)&]+", rust_type.replace("?Self", "Self")))


class C17(Check):
    id = "C17"
    technique = "property-based testing: generated trees with recurring names, annotations and imports; name resolution in the bindings against the described original; rustc as the judge of identity"
    needs = ("vgen", "rt")
    rule = ("A case is a generated tree (up to 9 modules, 4 levels, partly with a second package) whose modules and classes share few names, with annotations that refer to classes across "
            "modules and with imports of classes, functions and modules under the same or other names. Non-trivial: at least one re-export or reference to a class of another module.")
    assumptions = ["An item imported under the name of a submodule replaces it; annotations that refer to classes of replaced submodules are not considered."]
    examples = {"quick": 300, "thorough": 20000}

    def strategy(self, tier):
        return model.strategy(case)

    def run(self, spec, ctx):
        d = written(ctx, spec["pkg"])
        pkg = dict(spec["pkg"], main=len(spec["pkg"]["mods"]))
        roots = list(dict.fromkeys(m["path"][0] for m in pkg["mods"]))
        a = request(ctx, d, [gen_op([{"t": "names", "v": roots}], None, out="tree text")])[0]
        f = bindings(a)
        exp = expect.Expect(pkg)
        same = []
        for k, e in exp.keys.items():
            if k[0] == "use":
                ctx.nontrivial = True
                h = f.keys.get(k)
                if h is None:
                    raise Violation(f"re-export: {k} of {e['origin']} is missing")
                if h["vis"] != "pub":
                    raise Violation(f"re-export: {k} is not public")
                r = f.resolve(k[1].rpartition(".")[0], h["origin"])
                ctx.label("re-export:" + e["origin"][0], "alias" if k[1].rpartition(".")[2] != e["origin"][1].rpartition(".")[2] else "same name")
                if r != e["origin"]:
                    raise Violation(f"re-export: {k} ({h['origin']}) denotes {r} instead of {e['origin']}")
                if r[0] == "class":
                    same.append((k[1], r[1]))
            elif k[0] in ("fn", "cfn", "cmeth"):
                self.types(ctx, exp, f, k, e)
        for i, n, p in spec["aliases"]:
            m = ".".join(spec["pkg"]["mods"][i]["path"])
            k, origin = ("use", f"{m}.{n}"), ("mod", ".".join(p))
            if ("mod", m) not in exp.keys or origin not in exp.keys:
                continue
            ctx.label("alias of a module")
            h = f.keys.get(k)
            r = h and f.resolve(m, h["origin"])
            if r != origin or h["vis"] != "pub":
                raise Violation(f"re-export: {k} denotes {r} instead of {origin}")
        uses = {k for k in f.keys if k[0] == "use"} - {k for k in exp.keys if k[0] == "use"} - {("use", ".".join(spec["pkg"]["mods"][i]["path"]) + "." + n) for i, n, p in spec["aliases"]}
        for k in uses:
            raise Violation(f"re-export: {k} of {f.keys[k]['origin']} was not imported in Python")
        if spec["compile"] and same:
            ctx.label("compiled")
            main = ["mod b { include!(\"b.rs\"); }"]
            main += [f"fn _t{i}(x: {drive.rpath(p)}) -> {drive.rpath(q)} {{ x }}" for i, (p, q) in enumerate(same)]
            try:
                errs = rust.build_driver(ctx.products, d, {"b.rs": a["text"]}, "\n".join(["#![allow(warnings)]"] + main + ["fn main() {}"]))
            except rust.CompileProblem as p:
                raise Inconclusive(str(p)[:200])
            if errs:
                raise Violation("identity: " + " | ".join(errs[:3]))

    def types(self, ctx, exp, f, k, e):
        h = f.keys.get(k)
        if h is None or len(e["params"]) + (k[0] != "cmeth") != len(h["params"]):
            return  # the subject of C03
        wp, wr = c08.want_types(exp, k, e)
        mod = k[1].rpartition(".")[0]
        have = [t for n, t in h["params"]][0 if k[0] == "cmeth" else 1:]
        for what, want, got in [(n, w, t) for n, w, t in zip(e["params"], wp, have)] + [("result", wr, h["ret"])]:
            want, got = references(want), references(rusttypes.absolute(f, mod, got))
            if want:
                ctx.label("reference: " + ("own module" if all(w[7:].rpartition(".")[0] == mod for w in want) else "other package" if any(w[7:].split(".")[0] != mod.split(".")[0] for w in want) else "other module"))
                ctx.nontrivial |= any(w[7:].rpartition(".")[0] != mod for w in want)
            if want != got:
                raise Violation(f"type: {what} of {k} refers to {got} instead of {want}: {h['sig'][:300]}")

    def signature(self, msg):
        return msg.split(":")[0]


CHECK = C17()
