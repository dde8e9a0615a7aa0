"""Property and attribute bindings read and write the live attribute."""
from .. import drive, expect, model, rusttypes
from .common import *

MIX = {"plain": 6, "camel": 1, "keyword": 2, "unicode": 1, "clash": 8, "nonraw": 1, "reserved": 1}
VALUES = {"3": "int", "-1": "int", "'text'": "str", "1.5": "float", "True": "bool", "[1, 2]": "list0", "{'a': 1}": "dict0", "(1, 'x')": "tuple0",
          "{1, 2}": "set0", "frozenset({3})": "frozenset0", "b'xyz'": "bytes", "2j": "complex", "__import__('datetime').date(2020, 1, 2)": "date",
          "[]": "list0", "{}": "dict0", "()": "tuple0", "''": "str", "10**12": "int"}


def attr_type(it):
    """The type of an attribute as its bindings see it: that of the value it has during generation."""
    return ["cls", *it["inst"]] if it.get("inst") else [VALUES.get(it["v"], "any")]


def accessor_type(e):
    """(what the getter gives, what the setter takes)"""
    it = e["item"]
    if it["k"] == "prop":
        get = it["ann"] or ["any"]
        return get, it["sann"] or get
    t = attr_type(it)
    return t, t


def accessors(exp):
    """{what is accessed: [keys of its accessors]}"""
    out = {}
    for k, e in exp.keys.items():
        if "acc" in e:
            out.setdefault((e["mod"], e.get("cls"), e["py"]), {})[e["acc"]] = k
    return out


def case(g):
    spec = drive.tame(model.package(g, drive.opts(mix=MIX, mod_mix={"plain": 4, "keyword": 1}, member_mix=MIX, min_items=1, max_items=5, max_members=6, max_mods=3, ann_depth=2,
                                                  kinds={"func": 1, "class": 5, "attr": 6, "imp": 1}, forms=["def"], min_members=2)))
    exp = expect.Expect(spec)
    acc = accessors(exp)
    names = sorted(acc, key=str)
    uses, state = [], {}
    for _ in range(6 + g.i(19) if names else 0):
        n = g.pick(names)
        ks = acc[n]
        e = exp.keys[next(iter(ks.values()))]
        get, put = accessor_type(e)
        op = {"what": list(n), "k": g.i(2)}
        s = (n, op["k"]) if n[1] else n
        ops = [o for o in (["get", "get", "py"] if "get" in ks else []) + (["set", "set"] if "set" in ks else [])]
        if not ops:
            continue
        op["op"] = g.pick(ops)
        if op["op"] == "set":
            op["v"] = rusttypes.value(g, put)
            state[s] = put == get
        elif op["op"] == "py" or not state.get(s, e["item"]["k"] != "prop"):
            # the getter right after a change from Python
            op["op"] = "get"
            op["v"] = rusttypes.value(g, get)
            op["on"] = g.pick(["class", "inst"]) if e["item"]["k"] == "cattr" else None
            state[s] = True
        uses.append(op)
    return {"pkg": spec, "uses": uses}


class C07(Check):
    id = "C07"
    technique = "stateful property-based testing: generated histories of Rust and Python reads and writes against the live attributes"
    needs = ("vgen", "rt")
    rule = ("A case is a generated package with module attributes, class attributes and properties (with and without setters, names that clash with functions and with each "
            "other's accessors) and a history of up to 24 reads and writes from Rust and Python on several instances. Non-trivial: a history with at least one write.")
    assumptions = ["The type of an attribute's accessors is the type of its value during generation; later values are of the same type."]
    examples = {"quick": 60, "thorough": 2500}

    def strategy(self, tier):
        return model.strategy(case)

    def run(self, spec, ctx):
        exp = expect.Expect(spec["pkg"])
        acc = accessors(exp)
        if not acc:
            return
        d = written(ctx, spec["pkg"])
        a = request(ctx, d, [by_name(root_of(spec["pkg"]), out="tree text")])[0]
        f = bindings(a)
        mine = {k for ks in acc.values() for k in ks.values()}
        spots = set()
        for m, c, n in acc:
            path = ".".join(spec["pkg"]["mods"][m]["path"])
            for x in ([n] if n not in expect.NON_RAW else []) + ["get_" + n, "set_" + n]:
                spots.add(("cmeth", next(k[1] for k in acc[m, c, n].values()), x) if c else ("fn", f"{path}.{x}"))
        msg = expect.compare(exp, f, lambda k: k not in mine and not (k in spots and k not in exp.keys))
        if msg:
            raise Violation("the accessors are not as expected: " + msg)
        drv = drive.Driver(spec["pkg"], exp, f)
        for u in spec["uses"]:
            self.use(drv, exp, acc, u)
            ctx.label("op:" + u["op"] + (" after python" if u["op"] == "get" and "v" in u else ""), "what:" + exp.keys[next(iter(acc[tuple(u["what"])].values()))]["item"]["k"])
            ctx.nontrivial |= "v" in u
        if spec["uses"]:
            msg = drv.run(ctx.products, d, a["text"])
            if msg:
                raise Violation(msg)

    def use(self, d, exp, acc, u):
        m, c, n = u["what"]
        key = acc[m, c, n][u["op"]]
        e = exp.keys[key]
        it = e["item"]
        get, put = accessor_type(e)
        mod = ".".join(d.spec["mods"][m]["path"])
        b = d.builder()
        pre = []
        if c is None:
            target, args = f"_il.import_module({mod!r})", ["py"]
            path = drive.rpath(key[1])
            head = ""
        else:
            target = b.obj(f"inst({mod!r}, {c!r}, {u['k']})")
            trait = "::".join([drive.rpath(key[1].rpartition(".")[0]), drive.ident(d.flat.keys[("class", key[1])]["trait"])])
            path = f"{trait}::{drive.ident(key[2])}"
            head = f'let this = evt::<{drive.rpath(key[1])}>(py, "{target}");\n'
            args = ["&this"]
        live = f"getattr({target}, {n!r})"
        if u["op"] == "set":
            r, p = b.arg(put, u["v"])
            if it["k"] == "prop":
                live = f"{target}.__dict__[{'_v_' + it['n']!r}]"
            d.step(f"{head}let r = {path}({', '.join(args + [r])})?;\nOk(r.to_object(py))", b, post=f"same({live}, {p})", log="[]")
            return
        if "v" in u:
            val, _ = b.ret(get, u["v"])
            o = b.obj(val)
            if it["k"] == "prop":
                pre.append(f"{target}.__dict__[{'_v_' + it['n']!r}] = {o}")
            elif u.get("on") == "inst":
                pre.append(f"{target}.__dict__[{n!r}] = {o}")
            elif u.get("on") == "class":
                pre.append(f"setattr(type({target}), {n!r}, {o})")
            else:
                pre.append(f"setattr({target}, {n!r}, {o})")
        d.step(f"{head}let r = {path}({', '.join(args)})?;\nOk(r.to_object(py))", b, pre="\n".join(pre), res=f"same(res, {b.back(get, live)})", log="[]")

    def signature(self, msg):
        return msg.split(" at step")[0][:50]


CHECK = C07()
