"""Generated bindings always compile."""
from .. import hostile, model, rust, stdlib
from .c01 import CHECK as C01CHECK
from .common import *


def case(g):
    if g.one_in(12):
        names = [g.pick(stdlib.FAST + stdlib.SUB) for _ in range(1 + g.i(2))]
        return {"std": True, "steps": hostile.steps(g, names), "cfg": hostile.config(g, private=False), "nested": g.flag()}
    spec = model.package(g, hostile.opts(ann_depth=3, deps=g.one_in(3)))
    if g.i(3):
        spec = hostile.infest(g, spec)
    names = names_of(spec)
    st = hostile.steps(g, names)
    if len(spec["mods"]) > 1 and g.one_in(8):
        model.replace_submodule(g, spec, g.i(spec["main"]))
        if g.one_in(3) and spec.get("over"):
            names = names[:1] + [n for n in [".".join(spec["over"][0])] if n in names]
            st = hostile.steps(g, names)
    if g.one_in(5):
        i = g.i(len(names))
        st.append({"t": "str", "v": g.pick(["fresh", "fresh.sub", "struct", names[i]]), "code": ["src", i]})
    return {"pkg": spec, "steps": st, "cfg": hostile.config(g), "nested": g.flag()}


def primitives(how):
    """A package in which classes have the names of the primitive types that its functions need."""
    types = [["int"], ["float"], ["bool"], ["str"], ["bytes"], ["list", ["int"]], ["opt", ["float"]], ["dict", ["str"], ["bool"]], ["tuple", [["int"], ["float"]]], ["btuple", 2, ["int"]]]
    fn = lambda n, t: {"k": "func", "n": n, "form": "def", "params": [{"n": "a", "k": "pk", "ann": t, "def": None}, {"n": "b", "k": "ko", "ann": t, "def": "None"}], "ret": t, "doc": None, "style": "pep"}
    cls = lambda n, ms=(): {"k": "class", "n": n, "bases": [], "doc": None, "members": list(ms)}
    fns = [fn(f"fn{i}", t) for i, t in enumerate(types)]
    own = cls("Own", [dict(f, k="meth", selfname="self") for f in fns] + [{"k": "prop", "n": f"p{i}", "ann": t, "setter": True, "sann": t, "style": "pep", "doc": None, "sdoc": None} for i, t in enumerate(types)])
    mods = [{"path": ["pkg"], "pkg": True, "doc": None, "all": None, "items": []}, {"path": ["pkg", "sub"], "pkg": False, "doc": None, "all": None, "items": []}]
    for n in model.PRIMITIVE + ["str", "char"]:
        if how == "defined":
            mods[0]["items"].append(cls(n))
        else:
            x = n if how == "imported" else "C" + n
            mods[1]["items"].append(cls(x))
            mods[0]["items"].append({"k": "imp", "n": n, "mod": 1, "name": x})
    mods[0]["items"] += fns + [own]
    return {"mods": mods, "main": 2}


class C02(Check):
    id = "C02"
    technique = "property-based fuzzing: generated hostile packages and configurations, every result compiled by rustc"
    needs = ("vgen", "rt")
    rule = ("A case is a generated (mostly hostile) package or some modules of the standard library with a random configuration and entry points; the bindings are "
            "compiled by rustc as a crate of their own or inside of a module. Non-trivial: bindings with at least one class or three functions were compiled.")
    assumptions = ["pyo3 0.21.2 with default features except macros, rustc stable as installed; lints are not errors.",
                   "Names for which a known finding is listed are not generated."]
    examples = {"quick": 75, "thorough": 2500}

    def strategy(self, tier):
        return model.strategy(case)

    def fixed(self, tier):
        out = [(n, dict(s, nested=False)) for n, s in C01CHECK.fixed(tier) if "gadget" in n or "options" in n or tier != "quick"]
        out += [("primitive names " + how, {"pkg": primitives(how), "steps": [{"t": "name", "v": "pkg"}], "cfg": None, "nested": False}) for how in ("defined", "imported", "aliased")]
        out += [("module " + m, {"std": True, "steps": [{"t": "name", "v": m}], "cfg": None, "nested": True}) for m in ("builtins", "typing", "_io", "sys")]
        if tier == "thorough":
            out += [("module " + m, {"std": True, "steps": [{"t": "name", "v": m}], "cfg": c, "nested": True}) for m in stdlib.MODULES
                    for c in (None, {"include_private": True}, {"generate_dependencies": True})]
        return out

    def run(self, spec, ctx):
        import copy
        st = copy.deepcopy(spec["steps"])
        d, path = ctx.case_dir(), []
        if "pkg" in spec:
            model.write(spec["pkg"], d)
            path = d
            for s in st:
                if isinstance(s.get("code"), list):
                    s["code"] = model.module_src(spec["pkg"], s["code"][1])
        a = request(ctx, path, [gen_op(st, spec["cfg"], out="pretty text tree")])[0]
        if "ok" not in a:
            if "panic" in a or "crash" in a or "exit" in a or "err" in a:
                raise Inconclusive("no bindings")
            raise Violation("bindings are no Rust: " + str(a)[:500])
        n_cls, n_fn = a["text"].count("pub struct "), a["text"].count("fn ")
        ctx.nontrivial = n_cls > 0 or n_fn >= 3
        ctx.label("nested" if spec["nested"] else "crate root")
        self.compile(ctx, d, a, spec["nested"])

    def compile(self, ctx, d, a, nested):
        out = os.path.join(d, "rs")
        os.makedirs(out, exist_ok=True)
        try:
            e = rust.check_lib(ctx.products, out, a["pretty"], nested)
        except (rust.CompileProblem, TimeoutError) as p:
            raise Inconclusive(str(p)[:200])
        if e:
            raise Violation("does not compile: " + " | ".join(e[:3])[:1500])

    def signature(self, msg):
        import re
        m = re.search(r"error(\[E\d+\])?: [^<`]*", msg)
        return m.group(0) if m else msg[:60]


CHECK = C02()
