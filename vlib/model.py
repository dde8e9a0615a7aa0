"""Generated Python packages: strategies that produce a JSON description ("spec") of a package tree, and the
rendering of that description to files. Modules are numbered in preorder and use only items of modules with a
higher number, so every generated tree imports without cycles."""
import functools, os
from hypothesis import strategies as st

RUST_KEYWORDS = ["struct", "fn", "impl", "mod", "loop", "move", "ref", "use", "where", "enum", "dyn", "box", "final", "macro",
                 "override", "priv", "const", "extern", "let", "mut", "pub", "static", "trait", "unsafe", "virtual", "do", "become",
                 "abstract", "typeof", "unsized", "type", "match"]
NON_RAW = ["self", "Self", "super", "crate"]
RESERVED = ["get_type", "obj", "py", "repr", "str"]
BLOCKED = ["builtins", "testing", "tests", "test"]
PLAIN = ["alpha", "beta", "gamma", "delta", "value", "item", "load", "dump", "size", "width", "area", "name", "data", "node", "kind",
         "x", "y", "a1", "b_2", "cfg", "run", "get", "push", "pop", "open2", "color", "shape", "table", "http", "json2", "parse"]
CAMEL = ["Alpha", "Beta", "Node", "Point", "Shape", "Config", "Reader", "HTTPServer", "Item2", "Tree", "Color", "Frame", "Vec3", "Any2"]
UNICODE = ["größe", "名前", "ñandu", "Ωmega", "été", "пример", "x²".replace("²", "2"), "ªb".replace("ª", "a")]
PRIVATE = ["_hidden", "_x", "__mangled", "_Private", "_p2", "__dun__"]
CLASH = ["set_value", "get_value", "value", "new", "call", "set_x", "x", "get_x", "set_size", "size", "new1", "call1"]
KIN = ["set_%s", "get_%s", "%s1", "%s2", "set_get_%s"]
SHADOW = ["Vec", "Option", "String", "Result", "Ok", "Err", "Box", "std", "core", "alloc", "Into", "Default", "Drop", "From", "Clone",
          "PyAny", "Py", "Bound", "Python", "PyResult", "PyTuple", "PyDict", "IntoPy", "ToPyObject", "args", "kwargs", "cls",
          "HashMap", "HashSet", "u8x", "usize2", "char", "main", "drop", "len", "panic", "vec", "format", "println", "doc", "T", "E", "i128", "u64"]


PRIMITIVE = ["bool", "i64", "f64", "u8", "usize"]


@functools.lru_cache(None)
def _ints(n):
    return st.integers(0, n - 1)


class G:
    """Cheap draws on top of Hypothesis: every choice is an index into a cached integer strategy (0 is the simplest)."""

    def __init__(self, draw):
        self.draw = draw

    def i(self, n):
        return self.draw(_ints(n)) if n > 1 else 0

    def pick(self, seq):
        return seq[self.i(len(seq))]

    def flag(self):
        return self.i(2) == 1

    def one_in(self, n):
        """True once in n draws (False is the simplest)."""
        return self.i(n) == n - 1

    def some(self, seq, lo=0, hi=None):
        """A sub-sequence in order."""
        return [x for x in seq if self.flag()]

    def subset(self, seq):
        """Distinct elements in any order."""
        pool, out = list(seq), []
        for _ in range(self.i(len(pool) + 1)):
            out.append(pool.pop(self.i(len(pool))))
        return out

    def perm(self, seq):
        pool, out = list(seq), []
        while pool:
            out.append(pool.pop(self.i(len(pool))))
        return out


def strategy(fn, *args):
    """Hypothesis strategy running `fn(g, *args)`."""
    @st.composite
    def inner(draw):
        return fn(G(draw), *args)
    return inner()


class Names:
    """Draws unique names; `mix` maps a pool name to its weight."""
    POOLS = {"plain": PLAIN, "camel": CAMEL, "keyword": RUST_KEYWORDS, "nonraw": NON_RAW, "reserved": RESERVED, "blocked": BLOCKED,
             "unicode": UNICODE, "private": PRIVATE, "clash": CLASH, "shadow": SHADOW, "primitive": PRIMITIVE, "dotted": ["weird"], "under": ["_", "_", "__"],
             "few_mods": ["pkg", "a", "b", "node"], "few": ["A", "B", "Pkg", "a", "node", "Node"]}

    def __init__(self, g, mix):
        self.g = g
        self.mix = [p for p, w in mix.items() for _ in range(w)]
        self.kin = mix.get("clash", 0) > 0  # names that the generated accessors and constructors of others have or evade to

    def pick(self, taken, prefer=None, avoid=()):
        base = self.kin and sorted(n for n in taken if not n.startswith("_"))
        if base and self.g.one_in(6):
            n = self.g.pick(KIN) % self.g.pick(base)
            if n not in taken and n not in avoid:
                taken.add(n)
                return n
        pool = self.g.pick(self.mix)
        if prefer and pool in ("plain", "camel"):
            pool = prefer
        n = self.g.pick(self.POOLS[pool])
        if n in avoid:
            n = n + "_"
        base, i = n, 1
        while n in taken:
            i += 1
            n = f"{base}{i}"
        taken.add(n)
        return n


# ---------------------------------------------------------------------------------------------- annotations
# A type is [tag, ...]; see `ann_src` (how it is written in Python) and `rustmap` in types.py (what it means in Rust).
SCALARS = ["int", "float", "bool", "str", "bytes", "bytearray", "complex", "any", "object", "none", "path", "ipv4", "ipv6", "date",
           "datetime", "time", "timedelta", "tzinfo", "slice", "type", "callable", "module", "range", "decimal", "unknown"]


COMPOUND = ["list", "opt", "dict", "tuple", "seq", "set", "frozenset", "mapping", "vtuple", "union", "callable_of", "type_of", "bare", "btuple"]
BARE = ["list0", "dict0", "tuple0", "set0", "frozenset0"]


def types(g, depth=2, classes=(), scalars=SCALARS, compound=COMPOUND):
    """An annotation AST; `classes` is a list of [module index, class name]."""
    if depth == 0 or g.i(5) < 2:
        if classes and g.one_in(3):
            m, n = g.pick(classes)
            return ["cls", m, n]
        return [g.pick(scalars)]
    sub = lambda: types(g, depth - 1, classes, scalars, compound)
    t = g.pick(compound)
    if t == "opt":
        x = sub()
        return [t, x if x[0] not in ("none", "opt") else ["int"]]
    if t in ("list", "seq", "set", "frozenset", "vtuple", "type_of"):
        return [t, sub()]
    if t in ("dict", "mapping"):
        return [t, sub(), sub()]
    if t == "tuple":
        return [t, [sub() for _ in range(1 + g.i(4))]]
    if t == "union":
        xs = [sub() for _ in range(2 + g.i(2))]
        return [t, [["int"] if xs[0][0] == "none" else xs[0]] + xs[1:]]
    if t == "callable_of":
        return [t, [sub() for _ in range(g.i(3))], sub()]
    if t == "btuple":
        return [t, 11 + g.i(4), [g.pick(["int", "str"])]]
    return [g.pick(BARE)]


_BASIC = {"int": "int", "float": "float", "bool": "bool", "str": "str", "bytes": "bytes", "bytearray": "bytearray", "complex": "complex",
          "object": "object", "none": "None", "slice": "slice", "range": "range", "list0": "list", "dict0": "dict", "tuple0": "tuple",
          "set0": "set", "frozenset0": "frozenset", "type": "type"}
_LIB = {"path": ("pathlib", "Path"), "ipv4": ("ipaddress", "IPv4Address"), "ipv6": ("ipaddress", "IPv6Address"), "date": ("datetime", "date"),
        "datetime": ("datetime", "datetime"), "time": ("datetime", "time"), "timedelta": ("datetime", "timedelta"),
        "tzinfo": ("datetime", "tzinfo"), "module": ("types", "ModuleType"), "decimal": ("decimal", "Decimal"), "unknown": ("fractions", "Fraction")}


HERE = [None]  # the module that is being written


def name_here(t, spec):
    """The name by which the module that is being written knows a class, if that name can only be the one of a class."""
    m = spec["mods"][HERE[0]] if HERE[0] is not None else {"items": []}
    names = [t[2]] if t[1] == HERE[0] else [x["n"] for x in m["items"] if x["k"] == "imp" and [x["mod"], x["name"]] == list(t[1:])]
    last = {x["n"]: x for x in m["items"]}
    for n in names:
        if n.isidentifier() and n[0].isupper() and n not in ("Any", "Union", "Optional", "None", "True", "False", "Path", "Sequence", "Callable", "Iterable", "Mapping") and last[n]["k"] in ("class", "imp"):
            return n
    for x in m["items"]:
        if x["k"] == "raw" and x.get("alias") == spec["mods"][t[1]]["path"]:
            return f"{x['n']}.{t[2]}"


def misread(t, spec):
    """Whether a full name in the annotation would denote something else in the module that is being written."""
    if not isinstance(t, (list, tuple)) or HERE[0] is None:
        return False
    if t and t[0] == "cls":
        m = spec["mods"][HERE[0]]
        root = spec["mods"][t[1]]["path"][0]
        return any(x["n"] == root for x in m["items"]) or any(x["path"] == m["path"] + [root] for x in spec["mods"])
    return any(misread(x, spec) for x in t)


def ann_src(t, style, spec, quoted=False):
    """Python source of the annotation `t`. Styles: "typing" (typing generics all the way), "pep" (PEP 585/604 objects), "str" (a string
    of the latter), "name" (a string that calls the classes by their names in the module), "ref" (typing generics of such strings).
    `quoted` is set while inside a string."""
    tag = t[0]
    if style in ("str", "name") and not quoted and misread(t, spec):
        style = "pep"
    if style in ("str", "name") and not quoted:
        return repr(ann_src(t, style, spec, True))
    s = lambda x: ann_src(x, style, spec, quoted)
    b = "" if quoted else "_b."  # the package might define names like `str` or `type`
    typing = "typing." if quoted else "_t."
    old = style in ("typing", "ref")
    if tag in _BASIC:
        return _BASIC[tag] if tag == "none" or quoted else "_b." + _BASIC[tag]
    if tag in _LIB:
        m, n = _LIB[tag]
        return f"{m}.{n}" if quoted else f"__import__({m!r}).{n}"
    if tag == "any":
        return typing + "Any"
    if tag == "callable":
        return typing + "Callable" if old else ("collections.abc.Callable" if quoted else "_cabc.Callable")
    if tag == "cls":
        path = ".".join(spec["mods"][t[1]]["path"])
        if style in ("name", "ref"):
            n = name_here(t, spec)
            if n:
                return n if quoted else repr(n)
        if quoted:
            return f"{path}.{t[2]}"
        return f"_cls({path!r}, {t[2]!r})"
    if tag in ("list", "set", "frozenset", "dict"):
        inner = ", ".join(s(x) for x in t[1:])
        if old:
            return {"list": "_t.List", "set": "_t.Set", "frozenset": "_t.FrozenSet", "dict": "_t.Dict"}[tag] + f"[{inner}]"
        return f"{b}{tag}[{inner}]"
    if tag in ("seq", "mapping"):
        n = {"seq": "Sequence", "mapping": "Mapping"}[tag]
        inner = ", ".join(s(x) for x in t[1:])
        if old:
            return f"_t.{n}[{inner}]"
        return (f"collections.abc.{n}" if quoted else f"_cabc.{n}") + f"[{inner}]"
    if tag == "tuple":
        return ("_t.Tuple" if old else b + "tuple") + "[" + ", ".join(s(x) for x in t[1]) + "]"
    if tag == "btuple":
        return ("_t.Tuple" if old else b + "tuple") + "[" + ", ".join([s(t[2])] * t[1]) + "]"
    if tag == "vtuple":
        return ("_t.Tuple" if old else b + "tuple") + f"[{s(t[1])}, ...]"
    if tag == "opt":
        return f"_t.Optional[{s(t[1])}]" if old else (f"{s(t[1])} | None" if quoted else f"({s(t[1])} | None)")
    if tag == "union":
        if old:
            return "_t.Union[" + ", ".join(s(x) for x in t[1]) + "]"
        j = " | ".join(s(x) for x in t[1])
        return j if quoted else f"({j})"
    if tag == "callable_of":
        inner = "[" + ", ".join(s(x) for x in t[1]) + "], " + s(t[2])
        return (typing + "Callable" if old else ("collections.abc.Callable" if quoted else "_cabc.Callable")) + f"[{inner}]"
    if tag == "type_of":
        return ("_t.Type" if old else "type" if quoted else "_b.type") + f"[{s(t[1])}]"
    raise AssertionError(t)


# ---------------------------------------------------------------------------------------------------- items
DEFAULT_MIX = {"plain": 10, "camel": 2, "keyword": 2, "unicode": 1, "private": 1, "clash": 2}


class Opts:
    def __init__(self, **kw):
        self.mix = dict(DEFAULT_MIX)
        self.mod_mix = None
        self.max_mods, self.max_items, self.depth, self.max_members = 6, 5, 3, 4
        self.min_items = 0
        self.min_members = 0
        self.kinds = {"func": 4, "class": 3, "attr": 3, "tvar": 1, "imp": 2}
        self.docs = True
        self.ann = True          # annotations on parameters and results
        self.ann_depth = 1
        self.scalars = SCALARS
        self.compound = COMPOUND
        self.forms = ["def", "def", "def", "async", "lambda", "partial", "builtin", "alias", "wrapped", "generator", "renamed"]
        self.all_kinds = True    # all parameter kinds
        self.private_modules = True
        self.inherit = True
        self.deps = False        # add a second root package
        self.all = False         # generate __all__
        self.member_mix = None
        self.root_names = ["pkg", "mypkg", "zed"]
        self.param_mix = {"plain": 8, "keyword": 2, "unicode": 1, "private": 1, "shadow": 1, "under": 1}
        self.doc = None          # G -> docstring or None
        self.plain_attr_values = None
        self.instances = True    # attributes that are instances of generated classes
        self.ann_often = False   # four of five parameters and results are annotated
        self.__dict__.update(kw)

    def annotate(self, g):
        return self.ann and (g.i(5) > 0 if self.ann_often else g.flag())


DOC_WORDS = ["Returns the value.", "See `foo`.", "Computes x/y.", "Multi\nline text\n\n    indented block\n", "ünïcode ☃", "'quotes' \"double\"",
             "back\\slash", "```python\n>>> f(1)\n```", "~~~\ncode\n~~~", "trailing ///", "*/ end", "/* start", "# heading\n- list\n", "", " ", "\n", "\n\n\n", " \n\t\n ", "/", "//\n/", "a\n\n\tindented\n", "\t\tx = 1", "a  b\tc", "{braces} {}",
             "None", "\n leading newline", "tab\tstop", "<tag> & [link](x)", "    x = 1", "r#\"raw\"#", "Args:\n    a: first\n    b: second\n"]


def doc(g, opts):
    if not opts.docs:
        return None
    if opts.doc:
        return opts.doc(g)
    n = g.i(4)
    if n == 0:
        return None
    return "\n".join(g.pick(DOC_WORDS) for _ in range(1 if n < 3 else 2))


def ann(g, opts, classes, depth=None):
    return types(g, opts.ann_depth if depth is None else depth, classes, opts.scalars, opts.compound)


def params(g, opts, classes, has_self):
    """Parameters of one function in a valid order: [{"n","k","ann","def"}]."""
    names = Names(g, opts.param_mix)
    taken = {"self", "cls", "Self"} if has_self else {"self"}
    if not opts.param_mix.get("nonraw"):
        taken |= {"super", "crate"}
    n = g.i(5)
    out = []
    ks = sorted((g.pick(["pk", "pk", "pk", "po", "ko"]) for _ in range(n)), key=["po", "pk", "ko"].index) if opts.all_kinds else ["pk"] * n
    seen_default = False
    for k in ks:
        default = g.pick([None, None, "None", "3"]) if k != "ko" else g.pick([None, "None", "'d'"])
        if k in ("po", "pk"):
            if seen_default and default is None:
                default = "None"
            seen_default = seen_default or default is not None
        a = ann(g, opts, classes) if opts.annotate(g) else None
        out.append({"n": names.pick(taken), "k": k, "ann": a, "def": default})
    if opts.all_kinds:
        if g.one_in(4):
            i = next((i for i, p in enumerate(out) if p["k"] == "ko"), len(out))
            nm = next((x for x in ("args", "rest") if x not in taken), None) or names.pick(taken)
            taken.add(nm)
            out.insert(i, {"n": nm, "k": "va", "ann": None, "def": None})
        if g.one_in(4):
            nm = "kwargs" if "kwargs" not in taken else names.pick(taken)
            taken.add(nm)
            out.append({"n": nm, "k": "vk", "ann": None, "def": None})
    return out


STYLES = ["pep", "typing", "str", "name", "ref"]
BUILTINS = ["len", "math.hypot", "operator.add", "print", "time.sleep"]


def func(g, opts, name, classes, method=False):
    form = g.pick(["def", "def", "async"] if method else opts.forms)
    f = {"k": "func", "n": name, "form": form, "params": [], "ret": None, "doc": None, "style": "pep"}
    if form == "builtin":
        f["builtin"] = g.pick(BUILTINS)
        return f
    f["params"] = params(g, opts, classes, method)
    f["style"] = g.pick(STYLES)
    if form == "lambda":
        for p in f["params"]:
            p["ann"] = None
    else:
        if opts.annotate(g):
            f["ret"] = ann(g, opts, classes)
        f["doc"] = doc(g, opts)
    if form == "renamed":
        f["as"] = g.pick(["wrapper", "<lambda>", "_inner"])
    if form == "partial":
        # bind a prefix of the positional parameters to constants
        npos = sum(1 for p in f["params"] if p["k"] in ("po", "pk"))
        f["bound"] = g.i(npos + 1)
        f["doc"] = None
    return f


PLAIN_VALUES = ["3", "-1", "'text'", "1.5", "True", "None", "[1, 2]", "{'a': 1}", "(1, 'x')", "{1, 2}", "frozenset({3})", "b'xyz'", "2j",
                "__import__('datetime').date(2020, 1, 2)", "__import__('pathlib').Path('/x')", "...", "NotImplemented", "range(3)",
                "[]", "{}", "()", "''", "10**12", "__import__('types').SimpleNamespace(a=1)"]


def attr(g, opts, name, classes):
    if classes and opts.instances and g.one_in(6):
        return {"k": "attr", "n": name, "v": None, "inst": list(g.pick(classes))}
    return {"k": "attr", "n": name, "v": g.pick(opts.plain_attr_values or PLAIN_VALUES)}


def tvar(g, name):
    return {"k": "tvar", "n": name, "how": g.pick(["TypeVar", "NewType", "list[int]", "int | None", "ParamSpec", "dict[str, int]", "typealias"])}


def self_in_args(g, f):
    """Sometimes, receive the instance (or class) as the first of `*args`."""
    if f.get("form", "def") == "def" and g.one_in(8):
        f["params"] = [p for p in f["params"] if p["k"] not in ("po", "pk")]
        if not any(p["k"] == "va" for p in f["params"]):
            f["params"].insert(0, {"n": next(x for x in ("args", "rest", "items") if all(x != p["n"] for p in f["params"])), "k": "va", "ann": None, "def": None})
        f["selfname"] = "args"


def members(g, opts, classes):
    names = Names(g, opts.member_mix or opts.mix)
    taken = set()
    out = []
    if g.flag():
        out.append({"k": "init", "params": params(g, opts, classes, True), "doc": doc(g, opts), "style": g.pick(STYLES)})
        if opts.all_kinds:
            self_in_args(g, out[-1])
    if g.one_in(4):
        f = func(g, opts, "__call__", classes, True)
        f.update(k="call", form="def")
        if opts.all_kinds:
            self_in_args(g, f)
        out.append(f)
    for _ in range(opts.min_members + g.i(opts.max_members + 1 - opts.min_members)):
        kind = g.pick(["meth", "meth", "static", "classm", "prop", "prop", "cattr"])
        n = names.pick(taken)
        if kind in ("meth", "static", "classm"):
            f = func(g, opts, n, classes, True)
            f["k"] = kind
            if kind == "meth":
                f["selfname"] = g.pick(["self", "self", "self", "this", "selfpo"])
            if kind != "static" and opts.all_kinds:
                self_in_args(g, f)
            out.append(f)
        elif kind == "prop":
            out.append({"k": "prop", "n": n, "ann": ann(g, opts, classes) if opts.annotate(g) else None,
                        "setter": g.flag(), "sann": ann(g, opts, classes) if opts.annotate(g) else None,
                        "style": g.pick(STYLES), "doc": doc(g, opts), "sdoc": doc(g, opts), "sextra": g.one_in(4)})
        else:
            out.append({"k": "cattr", "n": n, "v": g.pick(opts.plain_attr_values or PLAIN_VALUES)})
    return out


METACLASSES = ["_b.__import__('abc').ABCMeta", "_b.type('M', (_b.type,), {'__repr__': lambda c: 'int'})", "_b.type('M', (_b.type,), {'__repr__': lambda c: '<' + c.__name__ + '>'})"]


def package(g, opts):
    names = Names(g, opts.mix)
    mod_names = Names(g, opts.mod_mix or opts.mix)
    root = g.pick(opts.root_names)
    mods = []

    def tree(path, depth, max_mods):
        pkg = depth == 0 or (depth < opts.depth and g.i(3) > 0)
        m = {"path": path, "pkg": pkg, "doc": doc(g, opts), "all": None, "items": []}
        mods.append(m)
        if pkg:
            taken = set()
            for _ in range(g.i(4)):
                if len(mods) >= max_mods:
                    break
                n = mod_names.pick(taken, avoid=() if opts.private_modules else PRIVATE)
                if not opts.private_modules and n.startswith("_"):
                    n = "m" + n
                    taken.add(n)
                tree(path + [n], depth + 1, max_mods)

    tree([root], 0, opts.max_mods)
    n_main = len(mods)
    for k in range(int(opts.deps)):
        tree([g.pick(["dep", "dependency", "dep_lib", root + "x"]) if k == 0 else f"lib{k}"], 0, len(mods) + 3)
    spec = {"mods": mods, "main": n_main}
    kinds = [k for k, w in opts.kinds.items() for _ in range(w)]
    classes = []  # (module, name) of classes defined so far (higher-numbered modules and earlier items)
    for i in reversed(range(len(mods))):
        m = mods[i]
        subs = {x["path"][-1] for x in mods if x["path"][:-1] == m["path"]}
        taken = set(subs)
        priv_mod = any(s.startswith("_") for s in m["path"])
        for _ in range(opts.min_items + g.i(opts.max_items + 1 - opts.min_items)):
            kind = g.pick(kinds)
            usable = list(classes)
            if kind == "imp":
                cands = [(j, it) for j in range(i + 1, len(mods)) for it in mods[j]["items"] if it["k"] in ("func", "class") and it.get("form") not in ("partial", "builtin")]
                if not cands:
                    kind = "func"
                else:
                    j, it = g.pick(cands)
                    alias = None
                    if it["n"] in taken or g.one_in(4):
                        alias = names.pick(taken, avoid=CLASH)
                        if alias.startswith(("set_", "get_")):
                            alias = "al_" + alias
                    else:
                        taken.add(it["n"])
                    m["items"].append({"k": "imp", "n": alias or it["n"], "mod": j, "name": it["n"]})
                    continue
            n = names.pick(taken, prefer="camel" if kind in ("class", "tvar") else "plain")
            if kind == "func":
                it = func(g, opts, n, usable)
                if it["form"] == "alias":
                    prev = [x for x in m["items"] if x["k"] == "func" and x["form"] in ("def", "async", "lambda", "renamed")]
                    if prev:
                        it["of"] = g.pick(prev)["n"]
                    else:
                        it["form"] = "def"
                if it["form"] == "renamed" and m["items"] and g.flag():
                    it["as"] = g.pick(m["items"])["n"]
                m["items"].append(it)
            elif kind == "class":
                bases = []
                pub = [c for c in classes if not any(s.startswith("_") for s in mods[c[0]]["path"])]
                if opts.inherit and pub and g.one_in(3):
                    bases = [g.pick(pub)]
                c = {"k": "class", "n": n, "bases": [list(b) for b in bases], "doc": doc(g, opts), "members": members(g, opts, usable)}
                if not bases and g.one_in(6):
                    c["meta"] = g.i(len(METACLASSES))
                m["items"].append(c)
                if not priv_mod and not n.startswith("_"):
                    classes.append((i, n))
            elif kind == "attr":
                m["items"].append(attr(g, opts, n, usable))
            elif kind == "tvar":
                m["items"].append(tvar(g, n))
        if opts.all and g.flag():
            pool = sorted({x["n"] for x in m["items"]} | subs)
            if pool:
                m["all"] = {"names": g.subset(pool), "how": g.pick(["list", "list", "tuple"])}
    return spec


def references(x):
    """The numbers of the modules that a description refers to."""
    if isinstance(x, dict):
        if x.get("k") == "imp":
            yield x["mod"]
        for k, v in x.items():
            if k == "bases":
                yield from (b[0] for b in v)
            elif k == "inst" and v:
                yield v[0]
            else:
                yield from references(v)
    elif isinstance(x, list):
        if len(x) == 3 and x[0] == "cls" and isinstance(x[1], int):
            yield x[1]
        for v in x:
            yield from references(v)


def replace_submodule(g, spec, i):
    """Let an import or a type of module `i` replace a submodule of the same name, provided that nothing imports the submodule later."""
    from . import expect
    mods = spec["mods"][:spec["main"]]
    m = mods[i]
    its = m["items"]
    below = lambda x, p: x["path"][:len(p)] == p
    subs = [x["path"] for x in mods if x["path"][:-1] == m["path"] and x["path"][-1] not in {y.get("n") for y in its} | expect.NON_RAW and expect.visible(x["path"][-1])]
    subs = [p for p in subs if not any(y is not m and not below(y, p) and below(spec["mods"][j], p) for y in spec["mods"] for j in references(y["items"]))]
    if not subs:
        return
    p = g.pick(subs)
    imps = [{"k": "imp", "n": p[-1], "mod": j, "name": x["n"]} for j, y in enumerate(mods) if j > i and below(y, m["path"])
            for x in y["items"] if x["k"] in ("func", "class") and x.get("form") not in ("partial", "builtin")]
    imps = [x for x in imps if all(expect.visible(y) for y in mods[x["mod"]]["path"] + [expect.origin_name(spec, x)])]
    inside = [x for x in imps if below(mods[x["mod"]], p)]
    if imps and g.i(4):
        its.append(g.pick(inside if inside and g.i(3) else imps))
    else:
        its.append({"k": "class", "n": p[-1], "bases": [], "doc": None, "members": []} if g.flag() else {"k": "tvar", "n": p[-1], "how": "NewType"})
    spec.setdefault("over", []).append(p)
    # others from the replaced submodule
    have = {x.get("n") for x in its} | {x["path"][-1] for x in mods if x["path"][:-1] == m["path"]}
    for x in inside[:g.i(3)]:
        if x["name"] not in have:
            have.add(x["name"])
            its.insert(g.i(len(its)), dict(x, n=x["name"]))


# ------------------------------------------------------------------------------------------------ rendering
PRELUDE = '''import builtins as _b, typing as _t, functools as _ft, collections.abc as _cabc, importlib as _il, sys as _sys
def _cls(_m, _n):
    return globals()[_n] if _m == __name__ else getattr(_il.import_module(_m), _n)
'''


def sig_src(ps, style, spec, first=None):
    """Python parameter list; `first` is the receiver ("self", "cls", ...)."""
    ps = list(ps)
    parts = []
    if first == "args":
        first = None
    if first:
        posonly_self = first == "selfpo"
        ps = [{"n": "self" if posonly_self else first, "k": "po" if posonly_self or any(p["k"] == "po" for p in ps) else "pk", "ann": None, "def": None}] + ps
    last_po = max((i for i, p in enumerate(ps) if p["k"] == "po"), default=-1)
    star = False
    for i, p in enumerate(ps):
        t = p["n"]
        if p["k"] == "va":
            t = "*" + t
            star = True
        elif p["k"] == "vk":
            t = "**" + t
        elif p["k"] == "ko" and not star:
            parts.append("*")
            star = True
        if p.get("ann") is not None:
            t += ": " + ann_src(p["ann"], style, spec)
        if p.get("def") is not None:
            t += " = " + p["def"]
        parts.append(t)
        if i == last_po:
            parts.append("/")
    return ", ".join(parts)


def doc_src(doc, ind):
    return f"{ind}{doc!r}\n" if doc is not None else ""


def body_src(qual, ind):
    return f"{ind}return __import__('vrec').rec({qual!r}, locals())\n"


def func_src(f, spec, qual, ind="", first=None, deco=""):
    name = f["n"]
    ret = f" -> {ann_src(f['ret'], f['style'], spec)}" if f.get("ret") is not None else ""
    form = f.get("form", "def")
    body = body_src(qual, ind + "    ")
    if form == "async":
        return f"{deco}{ind}async def {name}({sig_src(f['params'], f['style'], spec, first)}){ret}:\n{doc_src(f['doc'], ind + '    ')}{body}"
    if form == "generator":
        return f"{deco}{ind}def {name}({sig_src(f['params'], f['style'], spec, first)}){ret}:\n{doc_src(f['doc'], ind + '    ')}{ind}    yield __import__('vrec').rec({qual!r}, locals())\n"
    if form == "lambda":
        return f"{ind}{name} = lambda {sig_src(f['params'], f['style'], spec)}: __import__('vrec').rec({qual!r}, locals())\n"
    if form == "alias":
        return f"{ind}{name} = {f['of']}\n"
    if form == "builtin":
        b = f["builtin"]
        return f"{ind}{name} = " + (f"__import__({b.rsplit('.', 1)[0]!r}).{b.rsplit('.', 1)[1]}" if "." in b else b) + "\n"
    if form == "partial":
        inner = f"_pf_{name}"
        bound = ", ".join(repr("b%d" % i) for i in range(f["bound"]))
        return (f"{ind}def {inner}({sig_src(f['params'], f['style'], spec)}){ret}:\n{body}"
                f"{ind}{name} = _ft.partial({inner}{', ' + bound if bound else ''})\n")
    if form == "wrapped":
        return (f"{ind}def _mk_{name}(_f):\n{ind}    @_ft.wraps(_f)\n{ind}    def _w(*_a, **_k):\n{ind}        return _f(*_a, **_k)\n{ind}    return _w\n"
                f"{ind}@_mk_{name}\n{ind}def {name}({sig_src(f['params'], f['style'], spec)}){ret}:\n{doc_src(f['doc'], ind + '    ')}{body}")
    after = f"{ind}{name}.__name__ = {name}.__qualname__ = {f['as']!r}\n" if form == "renamed" else ""
    return f"{deco}{ind}def {name}({sig_src(f['params'], f['style'], spec, first)}){ret}:\n{doc_src(f['doc'], ind + '    ')}{body}{after}"


def class_src(c, spec, mod_path):
    qual = ".".join(mod_path) + "." + c["n"]
    bases = ", ".join(f"_cls({'.'.join(spec['mods'][m]['path'])!r}, {n!r})" for m, n in c["bases"])
    if c.get("meta") is not None:
        bases = "metaclass=" + METACLASSES[c["meta"]]
    s = f"class {c['n']}({bases}):\n" if bases else f"class {c['n']}:\n"
    s += doc_src(c["doc"], "    ")
    if c["doc"] is None:
        s += "    pass\n"
    for m in c["members"]:
        k = m["k"]
        if k == "init":
            s += f"    def __init__({sig_src(m['params'], m['style'], spec, m.get('selfname', 'self'))}):\n{doc_src(m['doc'], '        ')}        __import__('vrec').rec({qual + '.__init__'!r}, locals())\n"
        elif k == "call":
            s += func_src(dict(m, n="__call__"), spec, qual + ".__call__", "    ", m.get("selfname", "self"))
        elif k == "meth":
            s += func_src(m, spec, f"{qual}.{m['n']}", "    ", m.get("selfname", "self"))
        elif k == "static":
            s += func_src(m, spec, f"{qual}.{m['n']}", "    ", None, "    @staticmethod\n")
        elif k == "classm":
            s += func_src(m, spec, f"{qual}.{m['n']}", "    ", m.get("selfname", "cls"), "    @classmethod\n")
        elif k == "prop":
            r = f" -> {ann_src(m['ann'], m['style'], spec)}" if m["ann"] is not None else ""
            s += f"    def _g(self){r}:\n{doc_src(m['doc'], '        ')}        return self.__dict__.get({'_v_' + m['n']!r})\n"
            if m["setter"]:
                a = f": {ann_src(m['sann'], m['style'], spec)}" if m["sann"] is not None else ""
                s += f"    def _s(self, value{a}{', note: str = None, *more' if m.get('sextra') else ''}):\n{doc_src(m['sdoc'], '        ')}        self.__dict__[{'_v_' + m['n']!r}] = value\n"
            s += f"    {m['n']} = property(_g{', _s' if m['setter'] else ''})\n"
            s += "    del _g\n" + ("    del _s\n" if m["setter"] else "")
        elif k == "cattr":
            s += f"    {m['n']} = {m['v']}\n"
        elif k == "raw":
            s += f"    {m['code']}\n"
    return s


def item_src(it, spec, i):
    m = spec["mods"][i]
    qual = ".".join(m["path"]) + "." + it["n"]
    k = it["k"]
    if k == "func":
        return func_src(it, spec, qual)
    if k == "class":
        return class_src(it, spec, m["path"])
    if k == "attr":
        if it.get("inst"):
            j, n = it["inst"]
            p = ".".join(spec["mods"][j]["path"])
            return f"{it['n']} = (lambda _c: _c.__new__(_c))(_cls({p!r}, {n!r}))\n"
        return f"{it['n']} = {it['v']}\n"
    if k == "tvar":
        how = it["how"]
        if how in ("TypeVar", "ParamSpec"):
            return f"{it['n']} = _t.{how}({it['n']!r})\n"
        if how == "NewType":
            return f"{it['n']} = _t.NewType({it['n']!r}, int)\n"
        if how == "typealias":
            return f"{it['n']} = _t.TypeAliasType({it['n']!r}, int)\n"
        return f"{it['n']} = {how}\n"
    if k == "imp":
        src = ".".join(spec["mods"][it["mod"]]["path"])
        return f"{it['n']} = _il.import_module({src!r}).{it['name']}\n"
    if k == "raw":
        return it["code"] + "\n"
    raise AssertionError(it)


def module_src(spec, i):
    m = spec["mods"][i]
    HERE[0] = i
    s = doc_src(m["doc"], "")
    s += PRELUDE
    for it in m["items"]:
        s += item_src(it, spec, i)
    for o in m.get("odd", ()):
        s += o + "\n"
    if m.get("all") is not None:
        names = m["all"]["names"]
        s += "__all__ = " + (repr(names) if m["all"]["how"] == "list" else repr(tuple(names))) + "\n"
    return s


def write(spec, root):
    """Write the package tree below the directory `root`."""
    for i, m in enumerate(spec["mods"]):
        d = os.path.join(root, *m["path"])
        if m["pkg"]:
            os.makedirs(d, exist_ok=True)
            f = os.path.join(d, "__init__.py")
        else:
            os.makedirs(os.path.dirname(d), exist_ok=True)
            f = d + ".py"
        with open(f, "w", encoding="utf-8") as fh:
            fh.write(module_src(spec, i))
    for i, name, content in spec.get("files", ()):
        f = os.path.join(root, *spec["mods"][i]["path"], name)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "w", encoding="utf-8") as fh:
            fh.write(content)
