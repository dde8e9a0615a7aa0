"""Every public item is bound, once, in a mirrored structure."""
from .. import expect, model
from .common import *


MIX = {"plain": 9, "camel": 2, "keyword": 2, "unicode": 1, "private": 1, "clash": 4, "nonraw": 1, "reserved": 1, "blocked": 1}


def case(g):
    spec = model.package(g, model.Opts(mix=MIX, max_mods=8, max_items=6, depth=4, all=True, docs=False, mod_mix=dict(MIX, clash=1), min_items=1))
    mods = spec["mods"][:spec["main"]]
    fn = lambda n: {"k": "func", "n": n, "form": "def", "params": [], "ret": None, "doc": None, "style": "pep"}
    for m in mods:
        if not g.one_in(6):
            continue
        # names that are invented for the bindings but taken in Python
        its = m["items"]
        have = {x["n"] for x in its} | {x["path"][-1] for x in mods if x["path"][:-1] == m["path"]}
        cls = [x for x in its if x["k"] == "class"]
        what = g.i(4)
        if what == 3:
            model.replace_submodule(g, spec, mods.index(m))
        elif what == 0 and cls:
            c = g.pick(cls)["n"]
            for n in [c + "Methods", c + "Methods1"][:1 + g.i(2)]:
                if n not in have:
                    its.insert(g.i(len(its) + 1), {"k": "class", "n": n, "bases": [], "doc": None, "members": []} if g.flag() else {"k": "tvar", "n": n, "how": "NewType"})
        elif what == 1:
            n = g.pick(model.NON_RAW)
            new = [x for x in (n, "f_" + n, f"f_{n}1") if x not in have]
            for x in g.perm(new):
                its.insert(g.i(len(its) + 1), fn(x))
        elif what == 2 and cls:
            c = g.pick(cls)
            n = g.pick(model.NON_RAW)
            have = {x.get("n") for x in c["members"]}
            for x in g.perm([x for x in (n, "f_" + n) if x not in have]):
                c["members"].append({"k": "static", "n": x, "form": "def", "params": [], "ret": None, "doc": None, "style": "pep"})
    return spec


class C03(Check):
    id = "C03"
    technique = "property-based testing: generated package trees against a reference model of the expected bindings"
    rule = ("A case is a generated package tree (up to 8 modules, 4 levels) of functions in ten forms, classes with inheritance, attributes, type variables "
            "and imports, with keyword, unicode, private, clashing and sanitized names. Non-trivial: at least two modules or one class, and at least 5 expected bindings.")
    assumptions = ["The expected bindings are derived from the description of the generated package by vlib/expect.py."]
    examples = {"quick": 600, "thorough": 20000}

    def strategy(self, tier):
        return model.strategy(case)

    def run(self, spec, ctx):
        classify(ctx, spec)
        d = written(ctx, spec)
        a = request(ctx, d, [by_name(root_of(spec))])[0]
        e = expect.Expect(spec)
        ctx.nontrivial = len(e.keys) >= 5 and (len(e.mods) > 1 or any(k[0] == "class" for k in e.keys))
        f = bindings(a)
        msg = expect.compare(e, f)
        if msg:
            raise Violation("bindings differ: " + msg)

    def signature(self, msg):
        import re
        m = re.search(r"(missing|not expected|parameters|twice|refers|problem|differ in|receiver|two items)[^(]*(\('\w+')?", msg)
        return m.group(0) if m else msg[:40]


CHECK = C03()
