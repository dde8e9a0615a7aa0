"""Binding generation never panics, and what it returns is valid Rust."""
import copy
from .. import gadgets, hostile, model, stdlib
from .common import *


def case(g):
    if g.one_in(8):
        names = [g.pick(stdlib.FAST + stdlib.SUB) for _ in range(1 + g.i(2))]
        return {"std": True, "steps": hostile.steps(g, names), "cfg": hostile.config(g, private=False)}
    spec = hostile.infest(g, model.package(g, hostile.opts(ann_depth=3, deps=g.one_in(3))))
    names = names_of(spec)
    st = hostile.steps(g, names)
    if g.one_in(5):
        # a module given as source text: the text of one of the modules, under any name
        i = g.i(len(names))
        v = g.pick([names[i], "fresh", "fresh.sub", "struct", "self", "a.self.b", "", "a b", "1", "x..y", "_private", ".", "名前", "pkg.zz"])
        st.insert(g.i(len(st) + 1), {"t": "str", "v": v, "code": ["src", i]})
    return {"pkg": spec, "steps": st, "cfg": hostile.config(g)}


class C01(Check):
    id = "C01"
    technique = "property-based fuzzing: generated hostile packages, configurations and entry points against 'bindings that parse or an error value'"
    rule = ("A case is a generated package infested with hostile Python (names, descriptors, signatures, annotations, module attributes, submodules that "
            "cannot be imported) or some modules of the standard library, with a random configuration and a random sequence of entry points. "
            "Non-trivial: bindings or an error were returned for a case with a gadget, a non-default configuration or several steps.")
    assumptions = ["Python code that ends or blocks the process itself is out of the domain.", "No nesting deeper than 100."]
    examples = {"quick": 170, "thorough": 6000}

    def strategy(self, tier):
        return model.strategy(case)

    def fixed(self, tier):
        out = []
        def add(name, edit, cfg=None, steps=None):
            spec = hostile.empty_package()
            edit(spec)
            out.append((name, {"pkg": spec, "cfg": cfg, "steps": steps or [{"t": "name", "v": "pkg"}]}))
        for i, c in enumerate(gadgets.MODULE):
            add(f"gadget {i}", lambda s: s["mods"][0]["items"].append({"k": "raw", "n": "zzq", "code": c.format(n="zzq")}))
        for i, c in enumerate(gadgets.CLASS):
            add(f"class gadget {i}", lambda s: s["mods"][0]["items"].append(
                {"k": "class", "n": "A", "bases": [], "doc": None, "members": [{"k": "raw", "n": "zzq", "code": c.format(n="zzq")}]}))
        for k, (f, c) in gadgets.PACKAGE.items():
            add(f"file {k}", lambda s: s.update(files=[[0, f.format(n="q"), c]]))
        for i, c in enumerate(gadgets.ODD):
            add(f"odd {i}", lambda s: s["mods"][0].update(odd=[c]))
            add(f"odd {i} with private names", lambda s: s["mods"][0].update(odd=[c]), {"include_private": True, "blocklist_names": []})
        texts = gadgets.mutants()
        for i in range(0, len(texts), 300):
            add(f"annotations from {texts[i]!r}", lambda s: s["mods"][0]["items"].extend(
                {"k": "raw", "n": f"zz{j}", "code": f"def zz{j}(a: {t!r}) -> {t!r}: pass"} for j, t in enumerate(texts[i:i + 300])))
        add("all options", lambda s: None, {"include_private": True, "generate_dependencies": True})
        add("no blocklist", lambda s: None, {"include_private": True, "generate_dependencies": True, "blocklist_names": []})
        add("no module", lambda s: None, None, [{"t": "names", "v": []}])
        add("missing module", lambda s: None, None, [{"t": "name", "v": "zz_missing.x"}])
        add("empty name", lambda s: None, None, [{"t": "name", "v": ""}])
        add("nul in the name", lambda s: None, None, [{"t": "name", "v": "a\0b"}])
        add("nul in the source", lambda s: None, None, [{"t": "str", "v": "fresh", "code": "x = 1\0"}])
        add("nul in the source name", lambda s: None, None, [{"t": "str", "v": "fr\0esh", "code": "x = 1"}])
        add("syntax error in the source", lambda s: None, None, [{"t": "str", "v": "fresh", "code": "def (:"}])
        return out

    def run(self, spec, ctx):
        st = copy.deepcopy(spec["steps"])
        path = []
        if "pkg" in spec:
            path = written(ctx, spec["pkg"])
            for s in st:
                if isinstance(s.get("code"), list):
                    s["code"] = model.module_src(spec["pkg"], s["code"][1])
        a = request(ctx, path, [gen_op(st, spec["cfg"], out="x")])[0]
        if a.get("kind") == "Import":
            raise Inconclusive("the module to pass cannot be imported")
        ctx.label("bindings" if "ok" in a else "error:" + str(a.get("kind")) if "err" in a else "neither")
        for s in st:
            ctx.label("entry:" + s["t"])
        if spec["cfg"]:
            for k, v in spec["cfg"].items():
                ctx.label(f"cfg:{k}")
        ctx.nontrivial = "pkg" in spec or len(st) > 1 or bool(spec["cfg"])
        b = bad(a)
        if b:
            raise Violation(b)

    def signature(self, msg):
        return msg[:80]


CHECK = C01()
