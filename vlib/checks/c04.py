"""Private and blocklisted names stay out; include_private lets them in."""
import re
from .. import expect, flat, model
from .common import *

MIX = {"plain": 7, "camel": 2, "keyword": 1, "private": 4, "clash": 1, "blocked": 2, "reserved": 1}
RAWS = ["{n} = _t.List", "{n} = _t.List[int]", "{n} = _t.Any", "{n} = _t.Optional", "{n} = _t.cast", "{n} = _t.NamedTuple", "{n} = __import__('__future__').annotations",
        "{n} = __import__('__future__').division", "{n} = _t.TYPE_CHECKING and 0 or _t.Generic", "{n} = _t.get_type_hints", "{n} = _t.Protocol", "{n} = _t.NoReturn",
        "{n} = __import__('builtins').type('{n}', (), {{'__module__': '_zz_hidden'}})", "{n} = __import__('builtins').type('{n}', (), {{'__module__': 'zz._impl.x'}})", "{n} = _t.ForwardRef('x').__class__",
        "def {n}(): pass\n{n}.__module__ = '_zz_hidden.y'", "{n} = _t.Union"]
PATHS = ["_zz", "_zz.x", "zz._impl", "zz._impl.x", "zz.a._impl.b", "_zz._impl", "__future__", "zz.__future__.x", "typing", "zz.typing.x"]
for _p in PATHS:  # whatever a private module defines
    RAWS += ["{n} = __import__('builtins').type('T', (), {{'__module__': '%s'}})()" % _p, "def {n}(a=1): pass\n{n}.__module__ = '%s'" % _p, "{n} = __import__('builtins').type('{n}', (), {{'__module__': '%s'}})" % _p]


def case(g):
    spec = model.package(g, model.Opts(mix=MIX, max_mods=7, max_items=6, min_items=1, docs=False, param_mix={"plain": 4, "private": 1}, mod_mix=dict(MIX, private=2)))
    for _ in range(g.i(4)):
        items = spec["mods"][g.i(spec["main"])]["items"]
        n = "zzt" + g.pick("abcdefgh")
        if all(x["n"] != n for x in items):
            items.insert(g.i(len(items) + 1), {"k": "raw", "n": n, "code": g.pick(RAWS).format(n=n)})
    pool = sorted({it["n"] for m in spec["mods"] for it in m["items"] if it["k"] != "raw"} | {m["path"][-1] for m in spec["mods"][1:]} |
                  {x["n"] for m in spec["mods"] for it in m["items"] for x in it.get("members", ()) if "n" in x and x["n"] != "__call__"})
    cfg = {}
    if g.flag():
        cfg["include_private"] = True
    if g.i(3):
        cfg["blocklist_names"] = [g.pick(pool) for _ in range(1 + g.i(4))] if pool and g.i(4) else []
        if g.flag():
            cfg["blocklist_names"] += g.subset(expect.DEFAULT_BLOCKLIST)
        cfg["blocklist_names"] += g.subset(["alph", "lpha", "Alpha2", "x", "", "pkg", "set_value", "*"])
    return {"pkg": spec, "cfg": cfg}


def private_key(k):
    return any(re.match(r"(get_|set_|f_|s_)?_", s) for s in ".".join(k[1:]).split("."))


class C04(Check):
    id = "C04"
    technique = "property-based testing: generated packages and blocklists against a reference model, and metamorphic comparison of configurations"
    rule = ("A case is a generated package in which names of every kind of item and module are private, on the default blocklist, forbidden or plain, with re-exports of typing and "
            "__future__ objects and of items of private modules, bound with the default configuration and with a generated one (include_private, custom blocklist). "
            "Non-trivial: a name was left out by the default or the generated configuration.")
    assumptions = ["With include_private only names with an underscore (and what belongs to them) are additional; which dunder names of classes appear is not specified.",
                   "Blocklisting __init__ or __call__ is not specified."]
    examples = {"quick": 300, "thorough": 12000}

    def strategy(self, tier):
        return model.strategy(case)

    def run(self, spec, ctx):
        pkg, cfg = spec["pkg"], spec["cfg"]
        d = written(ctx, pkg)
        name = root_of(pkg)
        a = request(ctx, d, [by_name(name), by_name(name, cfg)])
        f0, f1 = bindings(a[0]), bindings(a[1], "generation with the configuration")
        e0 = expect.Expect(pkg)
        raws = {it["n"] for m in pkg["mods"] for it in m["items"] if it["k"] == "raw"}
        private = cfg.get("include_private", False)
        e1 = expect.Expect(pkg, private, cfg.get("blocklist_names", expect.DEFAULT_BLOCKLIST))
        loose = expect.Expect(pkg, True, [])
        ctx.nontrivial = len(e0.keys) < len(loose.keys) or len(e1.keys) < len(loose.keys) or bool(raws)
        if private:
            ctx.label("include_private")
        if "blocklist_names" in cfg:
            ctx.label("custom blocklist")
        for k in f0.keys:
            if private_key(k) and not expect.tolerated(k) and k not in e0.keys:
                raise Violation(f"private: {k} is bound by default")
        msg = self.compare(e0, f0, raws, False)
        if msg:
            raise Violation("default configuration: " + msg)
        msg = self.compare(e1, f1, raws if not private else raws, private)
        if msg:
            raise Violation(f"with {cfg}: " + msg)
        # what both configurations bind is bound equally, unless the classes in its types are
        classes = lambda f: {k for k in f.keys if k[0] == "class"}
        same_classes = {k for k in classes(f0) ^ classes(f1) if not private_key(k)} == set()
        if same_classes:
            both = {k for k in set(f0.keys) & set(f1.keys) if k[0] not in ("prelude", "class")}
            meant = lambda e, k: [e.keys.get(k, {}).get(x) for x in ("item", "acc", "origin")]
            both = {k for k in both if meant(e0, k) == meant(e1, k)}  # a name that becomes free may be taken by something else
            msg = flat.diff({k: f0.keys[k] for k in both}, {k: f1.keys[k] for k in both})
            if msg:
                raise Violation(f"with {cfg} other bindings change: {msg}")

    @staticmethod
    def compare(exp, f, raws, private):
        out = []
        for k in sorted(set(exp.keys) - set(f.keys), key=str):
            out.append(f"missing: {k}")
        for k in sorted(set(f.keys) - set(exp.keys), key=str):
            last = k[1].rpartition(".")[2]
            if k[0] == "prelude" or expect.tolerated(k):
                continue
            if private and (private_key(k) or (last in raws or last[4:] in raws)):
                continue
            out.append(f"not expected: {k}")
        return "; ".join(out[:6])

    def signature(self, msg):
        m = re.search(r"(missing|not expected|private|change)[^(]*\('\w+'", msg)
        return m.group(0) if m else msg[:40]


CHECK = C04()
