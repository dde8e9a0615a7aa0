"""What the bindings of a generated package must contain, derived from its description alone (see model.py)."""
import importlib, inspect
from . import model

FORBIDDEN = {"get_type", "obj", "py", "repr", "str"}
DEFAULT_BLOCKLIST = ["builtins", "testing", "tests", "test"]
NON_RAW = {"self", "Self", "super", "crate", "_"}


def visible(name, include_private=False, blocklist=DEFAULT_BLOCKLIST):
    return name not in FORBIDDEN and (include_private or not name.startswith("_")) and name not in blocklist and name not in ("__future__", "typing")


def unused(name, taken):
    n, i = name, 0
    while n in taken:
        i += 1
        n = f"{name}{i}"
    return n


def builtin_obj(name):
    m, _, n = ("builtins." + name if "." not in name else name).rpartition(".")
    return getattr(importlib.import_module(m), n)


def builtin_params(name):
    try:
        return [{"n": p.name, "k": {0: "po", 1: "pk", 2: "va", 3: "ko", 4: "vk"}[int(p.kind)], "ann": None,
                 "def": None if p.default is p.empty else repr(p.default)} for p in inspect.signature(builtin_obj(name)).parameters.values()]
    except ValueError:
        return [{"n": "args", "k": "va", "ann": None, "def": None}, {"n": "kwargs", "k": "vk", "ann": None, "def": None}]


def mangle(name, cls):
    """How Python spells a private name inside of a class."""
    if name.startswith("__") and not name.endswith("__") and cls.strip("_"):
        return "_" + cls.lstrip("_") + name
    return name


def function_params(f, cls=None):
    """The parameters a caller of the function supplies; `cls` is the class whose body defines it."""
    if cls is not None:
        return [dict(p, n=mangle(p["n"], cls)) for p in f["params"]]
    if f.get("form") == "builtin":
        return builtin_params(f["builtin"])
    if f.get("form") == "partial":
        out, left = [], f["bound"]
        for p in f["params"]:
            if left and p["k"] in ("po", "pk"):
                left -= 1
                continue
            out.append(p)
        return out
    return f["params"]


def module_of(spec, path):
    return next(m for m in spec["mods"] if m["path"] == path)


def find(spec, m, name):
    return next(x for x in spec["mods"][m]["items"] if x["n"] == name)


def alias_target(mod, it):
    while it.get("form") == "alias":
        it = next(x for x in mod["items"] if x["n"] == it["of"])
    return it


def class_members(spec, m, name):
    """Members by name, own before inherited: {name: (member, (module, class) that defines it)}."""
    c = find(spec, m, name)
    out = {}
    for b in c["bases"]:
        out.update(class_members(spec, *b))
    for x in c["members"]:
        n = {"init": "__init__", "call": "__call__"}.get(x["k"]) or mangle(x["n"], name)
        out[n] = (x, (m, name))
    return out


def private_path(segs):
    return any(s.startswith("_") for s in segs)


def origin_name(spec, it):
    """The name under which a re-export refers to what it imports: what Python calls it if that is true, otherwise the same name, otherwise the first one."""
    src = spec["mods"][it["mod"]]
    t = alias_target(src, find(spec, it["mod"], it["name"]))
    called = {"lambda": "<lambda>", "renamed": t.get("as")}.get(t.get("form"), t["n"])
    same = [x["n"] for x in src["items"] if x["k"] in ("func", "class") and alias_target(src, x) is t]
    return next(n for n in (called, it["n"], same[0]) if n in same)


class Expect:
    def __init__(self, spec, include_private=False, blocklist=DEFAULT_BLOCKLIST, traverse=True):
        self.spec, self.keys = spec, {}
        self.vis = lambda n: visible(n, include_private, blocklist)
        self.include_private = include_private
        self.traverse = traverse
        # every module of the main tree all of whose path segments are visible and possible in Rust
        self.mods = []
        for i, m in enumerate(spec["mods"][:spec["main"]]):
            if any(m["path"][:len(o)] == o for o in spec.get("over", ())):
                continue  # the package has a type of that name
            if all(self.vis(s) and s not in NON_RAW for s in m["path"][1:]) and (traverse or i == 0):
                self.mods.append(i)
        for i in self.mods:
            self.module(i)
        for i in self.mods:
            self.imports(i)

    def defined(self, segs, i):
        """Whether the item of module `i` is hidden because its defining module is."""
        return self.include_private or not private_path(segs)

    def module(self, i):
        m = self.spec["mods"][i]
        path = ".".join(m["path"])
        self.keys[("mod", path)] = {"doc": m["doc"]}
        funcs, props, classes, imports = [], [], [], []
        direct = {}  # what is imported from a replaced submodule is bound here
        for it in m["items"]:
            if not self.vis(it["n"]):
                continue
            if it["k"] == "func":
                if it.get("form") == "builtin" and not self.defined(getattr(builtin_obj(it["builtin"]), "__module__").split("."), i):
                    continue
                funcs.append(it)
            elif it["k"] == "class":
                classes.append(it)
            elif it["k"] == "attr":
                props.append(it)
            elif it["k"] == "imp":
                if self.import_allowed(it):
                    src = self.spec["mods"][it["mod"]]["path"]
                    if not any(o[:-1] == m["path"] and src[:len(o)] == o for o in self.spec.get("over", ())):
                        imports.append(it)
                        continue
                    if any(s in NON_RAW for s in src[1:]):
                        continue  # like any other import from a module that is impossible in Rust
                    t = find(self.spec, it["mod"], origin_name(self.spec, it))
                    direct[it["n"]] = it["mod"], t["n"]
                    (classes if t["k"] == "class" else funcs).append(dict(t, n=it["n"]))
            elif it["k"] == "tvar":
                if it["n"] not in NON_RAW:
                    self.keys[("type", f"{path}.{it['n']}")] = {"item": it}
        for it in funcs:
            n = unused(f"f_{it['n']}", {x["n"] for x in funcs}) if it["n"] in NON_RAW else it["n"]
            t = alias_target(self.spec["mods"][direct.get(it["n"], (i,))[0]], it)
            self.keys[("fn", f"{path}.{n}")] = {"params": self.names(function_params(t)), "recv": False, "doc": t.get("doc"), "item": t, "mod": i, "py": it["n"]}
        for it in classes:
            self.class_(i, path, it, direct.get(it["n"]))
        taken = [x["n"] for x in funcs] + [x["n"] for x in classes] + [x["n"] for x in imports]
        for it in props:
            self.accessors(it["n"], set(taken) | {x["n"] for x in props if x is not it}, True,
                           lambda n, which: self.keys.__setitem__(("fn", f"{path}.{n}"), {"params": [] if which == "get" else ["p_value"], "recv": False, "doc": None, "item": it, "acc": which, "mod": i, "py": it["n"]}))

    @staticmethod
    def names(ps):
        return ["p_" + p["n"] for p in ps]

    def accessors(self, name, taken, setter, add):
        getter = name
        if name in taken or name in NON_RAW or name in FORBIDDEN:
            getter = "get_" + name
        if not (getter != name and getter in taken) and getter not in FORBIDDEN:
            add(getter, "get")
        if setter and f"set_{name}" not in taken:
            add(f"set_{name}", "set")

    def class_(self, i, path, c, origin=None):
        n = f"s_{c['n']}" if c["n"] in NON_RAW else c["n"]
        p = f"{path}.{n}"
        self.keys[("class", p)] = {"doc": c["doc"], "item": c, "mod": i, "py": c["n"]}
        mem = {k: v for k, v in class_members(self.spec, *(origin or (i, c["n"]))).items() if self.vis(k) or k in ("__init__", "__call__")}
        meths = {k: v for k, v in mem.items() if v[0]["k"] in ("meth", "static", "classm", "init", "call")}
        taken = set(meths)
        for k, (x, owner) in meths.items():
            info = {"params": self.names(function_params(x, owner[1])), "doc": x["doc"], "item": x, "owner": owner, "mod": i, "cls": c["n"], "py": k}
            if k == "__init__":
                self.keys[("cfn", p, unused("new", taken))] = dict(info, recv=False)
            elif k == "__call__":
                self.keys[("cmeth", p, unused("call", taken))] = dict(info, recv=True)
            else:
                name = unused(f"f_{k}", taken) if k in NON_RAW else k
                kind = "cmeth" if x["k"] == "meth" else "cfn"
                self.keys[(kind, p, name)] = dict(info, recv=x["k"] == "meth")
        extra = {unused("new", taken)} if "__init__" in meths else set()
        extra |= {unused("call", taken)} if "__call__" in meths else set()
        props = {k: v for k, v in mem.items() if v[0]["k"] in ("prop", "cattr")}
        for k, (x, owner) in props.items():
            if x["k"] == "prop":
                d = {"get": x["doc"] or (x["sdoc"] if x["setter"] else None), "set": x["sdoc"] or x["doc"]}
            else:
                d = {"get": None, "set": None}
            self.accessors(k, taken | extra | (set(props) - {k}), x["k"] == "prop" and x["setter"],
                           lambda n, which: self.keys.__setitem__(("cmeth", p, n), {
                               "params": [] if which == "get" else ["p_value"], "recv": True, "doc": d[which], "item": x, "acc": which, "owner": owner, "mod": i, "cls": c["n"], "py": k}))

    def import_allowed(self, it):
        """Whether an import is considered at all: the original must not be hidden."""
        m = self.spec["mods"][it["mod"]]
        segs = m["path"] + [origin_name(self.spec, it)]
        return all(self.vis(s) for s in segs)

    def imports(self, i):
        m = self.spec["mods"][i]
        path = ".".join(m["path"])
        for it in m["items"]:
            if it["k"] != "imp" or not self.vis(it["n"]) or not self.import_allowed(it):
                continue
            src = self.spec["mods"][it["mod"]]
            if src["path"][:len(m["path"])] != m["path"]:
                continue
            name = origin_name(self.spec, it)
            if ("use", f"{path}.{it['n']}") in self.keys or any(k in self.keys for k in (("fn", f"{path}.{it['n']}"), ("class", f"{path}.{it['n']}"))):
                continue
            if name in NON_RAW or it["n"] in NON_RAW:
                continue
            kind = "fn" if find(self.spec, it["mod"], name)["k"] == "func" else "class"
            origin = ".".join(src["path"]) + "." + name
            if (kind, origin) in self.keys:
                self.keys[("use", f"{path}.{it['n']}")] = {"origin": (kind, origin), "mod": i}


def tolerated(key):
    """Bindings that exist besides the expected ones: classes without an own `__init__` show the builtin one."""
    return key[0] == "cmeth" and key[2] == "__init__"


def compare(exp, flat, ignore=lambda k: False):
    """Missing, additional or different bindings as text ("" if none)."""
    out = list(flat.problems)
    have = flat.keys
    for k in sorted(set(exp.keys) - set(have), key=str):
        if not ignore(k):
            out.append(f"missing: {k}")
    for k in sorted(set(have) - set(exp.keys), key=str):
        if not tolerated(k) and not ignore(k) and k[0] != "prelude":
            out.append(f"not expected: {k}")
    for k, e in exp.keys.items():
        h = have.get(k)
        if h is None or ignore(k):
            continue
        if k[0] in ("fn", "cfn", "cmeth"):
            ps = [p[0] for p in h["params"]]
            want = list(e["params"])
            if k[0] in ("fn", "cfn"):
                want = ["py"] + want
            if ps != want:
                out.append(f"{k}: parameters {ps} instead of {want}")
            if (h["recv"] is not None) != (k[0] == "cmeth"):
                out.append(f"{k}: receiver {h['recv']}")
            if k[0] != "cmeth" and h["vis"] != "pub":
                out.append(f"{k}: not public")
        if k[0] == "use":
            r = flat.resolve(k[1].rpartition(".")[0], h["origin"])
            if r != e["origin"]:
                out.append(f"{k}: refers to {r} instead of {e['origin']}")
            if h["vis"] != "pub":
                out.append(f"{k}: not public")
    return "; ".join(out[:8])
