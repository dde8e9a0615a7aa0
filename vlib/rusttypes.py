"""What the annotations of model.py mean in Rust (the documented mapping), and values of them on both sides."""
import json, re

# kind -> (Rust type of pyo3)
BOUND = {"complex": "PyComplex", "slice": "PySlice", "date": "PyDate", "datetime": "PyDateTime", "time": "PyTime", "tzinfo": "PyTzInfo",
         "type": "PyType", "type_of": "PyType", "callable": "PyFunction", "callable_of": "PyFunction", "module": "PyModule"}
PLAIN = {"bool": ("bool", "bool"), "int": ("i64", "i64"), "float": ("f64", "f64"), "str": ("::std::string::String", "&str"),
         "bytes": ("::std::vec::Vec<u8>", "&[u8]"), "bytearray": ("::std::vec::Vec<u8>", "&[u8]"),
         "ipv4": ("::std::net::IpAddr",) * 2, "ipv6": ("::std::net::IpAddr",) * 2, "path": ("::std::path::PathBuf", "&::std::path::Path")}
ANY = ("::pyo3::Bound<'py,::pyo3::types::PyAny>", "impl ::pyo3::IntoPy<::pyo3::Py<::pyo3::types::PyAny>>")
HASHABLE = {"bool", "int", "str", "path", "ipv4", "ipv6"}
OBJECTS = {"any", "object", "none", "timedelta", "range", "decimal", "unknown"}


def canon(t):
    """The annotation with unions flattened and without repeated members, as Python would simplify it."""
    tag = t[0]
    if tag in ("union", "opt"):
        flat = []
        def add(x):
            x = canon(x)
            for y in (x[1] if x[0] == "union" else [x[1], ["none"]] if x[0] == "opt" else [x]):
                if y not in flat:
                    flat.append(y)
        for x in (t[1] if tag == "union" else [t[1], ["none"]]):
            add(x)
        if len(flat) == 1:
            return flat[0]
        if len(flat) == 2 and ["none"] in flat:
            return ["opt", next(x for x in flat if x != ["none"])]
        return ["union", flat]
    if tag in ("tuple",):
        return [tag, [canon(x) for x in t[1]]]
    if tag == "callable_of":
        return [tag, [canon(x) for x in t[1]], canon(t[2])]
    if tag == "btuple":
        return [tag, t[1], canon(t[2])]
    if tag in ("list", "seq", "set", "frozenset", "vtuple", "type_of", "dict", "mapping"):
        return [tag] + [canon(x) for x in t[1:]]
    return t


def types(t, cls, name="PyAny"):
    """(owned, borrowed) Rust types; `cls(m, n)` is the Rust path of a class or None if it has no binding."""
    tag = t[0]
    own = lambda x: types(x, cls)[0]
    b = lambda n, how="&": (f"::pyo3::Bound<'py,::pyo3::types::{n}>", f"{how}::pyo3::Bound<'py,::pyo3::types::{n}>")
    if tag in PLAIN:
        return PLAIN[tag]
    if tag in OBJECTS or tag == "union":
        return ANY
    if tag in BOUND:
        return b(BOUND[tag])
    if tag == "cls":
        p = cls(t[1], t[2])
        return ANY if p is None else (f"::pyo3::Bound<'py,{p}>", f"&::pyo3::Bound<'py,{p}>")
    if tag == "opt":
        return (f"::std::option::Option<{own(t[1])}>",) * 2
    if tag in ("list", "seq", "vtuple"):
        return f"::std::vec::Vec<{own(t[1])}>", f"&[{own(t[1])}]"
    if tag == "list0":
        return f"::std::vec::Vec<{ANY[0]}>", f"&[{ANY[0]}]"
    if tag in ("dict", "mapping") and maps(t, cls):
        return (f"::std::collections::HashMap<{own(t[1])},{own(t[2])}>", f"&::std::collections::HashMap<{own(t[1])},{own(t[2])}>")
    if tag in ("dict", "mapping", "dict0"):
        return b("PyDict")[0], "impl ::pyo3::types::IntoPyDict"
    if tag in ("set", "frozenset") and t[1][0] in HASHABLE:
        return f"::std::collections::HashSet<{own(t[1])}>", f"&::std::collections::HashSet<{own(t[1])}>"
    if tag in ("set", "set0"):
        return b("PySet")
    if tag in ("frozenset", "frozenset0"):
        return b("PyFrozenSet")
    if tag == "tuple" and 2 <= len(t[1]) <= 12:
        return ("(" + ",".join(own(x) for x in t[1]) + ")",) * 2
    if tag == "btuple" and t[1] <= 12:
        return ("(" + ",".join([own(t[2])] * t[1]) + ")",) * 2
    if tag in ("tuple", "btuple", "tuple0"):
        return b("PyTuple")[0], "impl ::pyo3::IntoPy<::pyo3::Py<::pyo3::types::PyTuple>>"
    raise AssertionError(t)


def maps(t, cls):
    return t[1][0] in HASHABLE and "PyAny" not in types(t[2], cls)[0]


def absolute(flat, module, rust):
    """The Rust type with the paths of local classes replaced by what they denote."""
    def f(m):
        r = flat.resolve(module, m.group(1))
        return f"::pyo3::Bound<'py,@{r[0]}:{r[1]}>" if r else f"::pyo3::Bound<'py,?{m.group(1)}>"
    return re.sub(r"::pyo3::Bound<'(?:py|_),([^:<>,][^<>,]*)>", f, rust)


# --------------------------------------------------------------------------------------------------- values
INTS = [0, 1, -1, 7, 255, -256, 2**31, -2**31 - 1, 2**53 + 1, 2**63 - 1, -2**63]
FLOATS = ["0.0", "-0.0", "1.5", "-2.25", "1e308", "5e-324", "float('inf')", "float('-inf')", "float('nan')", "0.1", "3.0"]
STRS = ["", "a", "text", "ünï ☃", "𝄞\U0010ffff", "nul\0byte", "line\nbreak\r\n", "quote\"'\\", "{}", " lead", "None", "e\u0301", "\ufeffbom", "日本語", "x" * 40]
BYTES = [[], [0], [1, 2, 255], [104, 105], [0, 128, 10, 13], list(range(0, 256, 5))]
PATHS = ["a", "/x", "a/b.txt", ".", "/", "ünï/☃", "dir with space/f", "..", "/tmp/../x", "a\\b"]
IP4 = ["127.0.0.1", "0.0.0.0", "255.255.255.255", "10.1.2.3"]
IP6 = ["::1", "::", "2001:db8::1", "fe80::1234:5678", "::ffff:1.2.3.4"]
OBJ = {
    "complex": ["2j", "complex(1.5, -0.0)", "complex(0, float('inf'))"],
    "slice": ["slice(None)", "slice(1, 10, 2)", "slice('a', None, object)"],
    "date": ["__import__('datetime').date(2020, 2, 29)", "__import__('datetime').date.min", "__import__('datetime').datetime(1999, 1, 1, 3)"],
    "datetime": ["__import__('datetime').datetime(2020, 2, 29, 1, 2, 3, 999999)", "__import__('datetime').datetime.max",
                 "__import__('datetime').datetime(2021, 1, 1, tzinfo=__import__('datetime').timezone.utc, fold=1)"],
    "time": ["__import__('datetime').time(1, 2, 3, 4)", "__import__('datetime').time.min"],
    "tzinfo": ["__import__('datetime').timezone.utc", "__import__('datetime').timezone(__import__('datetime').timedelta(hours=5))"],
    "timedelta": ["__import__('datetime').timedelta(days=-1, microseconds=5)", "__import__('datetime').timedelta.max"],
    "type": ["int", "type", "type('Dyn', (), {})", "list"],
    "callable": ["(lambda: 1)", "(lambda *a, **k: (a, k))", "__import__('os').path.join"],
    "module": ["__import__('json')", "__import__('types').ModuleType('made_up')"],
    "range": ["range(3)", "range(10, 0, -3)"],
    "decimal": ["__import__('decimal').Decimal('1.10')", "__import__('decimal').Decimal('-Infinity')"],
    "unknown": ["__import__('fractions').Fraction(1, 3)"],
    "any": ["None", "3", "'text'", "object()", "[1, [2], {'a': None}]", "{1: 2}", "2**70", "(1,)", "b'x'", "...", "NotImplemented", "float('nan')", "{1, 2}", "True", "(lambda: 1)", "int"],
    "object": ["None", "object()", "3", "{'k': []}"],
    "none": ["None"],
    "list0": ["[]", "[1, 'a', None]", "[[1], object()]"],
    "dict0": ["{}", "{'a': 1, 2: [3]}", "{None: None}"],
    "tuple0": ["()", "(1,)", "(1, 'a', None)"],
    "set0": ["set()", "{1, 'a'}", "{None}"],
    "frozenset0": ["frozenset()", "frozenset({1, (2,)})"],
}
OBJ["type_of"], OBJ["callable_of"] = OBJ["type"], OBJ["callable"]
UNHASHABLE = {"list", "list0", "dict", "dict0", "mapping", "set", "set0", "bytearray", "slice", "seq"}


def hashable_value(t):
    tag = t[0]
    if tag in UNHASHABLE or tag in ("any", "object", "union"):
        return False
    if tag in ("opt", "vtuple", "frozenset"):
        return hashable_value(t[1])
    if tag == "tuple":
        return all(hashable_value(x) for x in t[1])
    return tag not in ("tuple0", "frozenset0")


def value(g, t, n_max=3):
    """A value of the annotated type (JSON)."""
    tag = t[0]
    if tag == "bool":
        return g.flag()
    if tag == "int":
        return g.pick(INTS)
    if tag == "float":
        return g.pick(FLOATS)
    if tag == "str":
        return g.pick(STRS)
    if tag in ("bytes", "bytearray"):
        return g.pick(BYTES)
    if tag == "path":
        return g.pick(PATHS)
    if tag in ("ipv4", "ipv6"):
        return g.pick(IP4 if tag == "ipv4" else IP6)
    if tag == "cls":
        return g.i(3)
    if tag == "opt":
        return None if g.i(3) == 0 else [value(g, t[1])]
    if tag == "union":
        i = g.i(len(t[1]))
        return [i, value(g, t[1][i])]
    if tag in ("list", "seq", "vtuple"):
        return [value(g, t[1], 2) for _ in range(g.i(n_max + 1))]
    if tag in ("set", "frozenset"):
        return distinct([value(g, t[1], 2) for _ in range(g.i(n_max + 1))]) if hashable_value(t[1]) else []
    if tag in ("dict", "mapping"):
        ks = distinct([value(g, t[1], 2) for _ in range(g.i(n_max + 1))]) if hashable_value(t[1]) else []
        return [[k, value(g, t[2], 2)] for k in ks]
    if tag == "tuple":
        return [value(g, x, 2) for x in t[1]]
    if tag == "btuple":
        return [value(g, t[2], 1) for _ in range(t[1])]
    return g.i(len(OBJ[tag]))


def distinct(vs):
    out, seen = [], set()
    for v in vs:
        k = json.dumps(v).replace("-0.0", "0.0")
        if k not in seen:
            seen.add(k)
            out.append(v)
    return out


def rust_str(s):
    return '"' + "".join(c if " " <= c <= "~" and c not in '"\\' else "\\u{%x}" % ord(c) for c in s) + '"'


class Builder:
    """Collects the Python objects a step needs; `cls(m, n)` as in `types`, `rust_cls` formats a class path for the driver."""

    def __init__(self, step, spec, cls):
        self.step, self.spec, self.cls = step, spec, cls
        self.pre = []
        self.n = 0

    def obj(self, expr):
        name = f"{self.step}_{self.n}"
        self.n += 1
        self.pre.append(f"O[{name!r}] = {expr}")
        return f"O[{name!r}]"

    def opaque(self, t):
        """Whether the binding handles values of the type as Python objects."""
        own = types(t, self.cls)[0]
        return own.startswith("::pyo3::Bound")

    def py(self, t, v):
        """Python expression; everything without structural equality is a named object."""
        tag = t[0]
        if tag in ("bool", "int", "str"):
            return repr(v)
        if tag == "float":
            return v
        if tag == "bytes":
            return repr(bytes(v))
        if tag == "bytearray":
            return f"bytearray({bytes(v)!r})"
        if tag == "path":
            return f"__import__('pathlib').Path({v!r})"
        if tag in ("ipv4", "ipv6"):
            return f"__import__('ipaddress').ip_address({v!r})"
        if tag == "cls":
            p = ".".join(self.spec["mods"][t[1]]["path"])
            return f"inst({p!r}, {t[2]!r}, {v})"
        if tag == "opt":
            return "None" if v is None else self.py(t[1], v[0])
        if tag == "union":
            return self.py(t[1][v[0]], v[1])
        if tag in ("list", "seq"):
            return "[" + ", ".join(self.py(t[1], x) for x in v) + "]"
        if tag == "vtuple":
            return "(" + "".join(self.py(t[1], x) + ", " for x in v) + ")"
        if tag in ("set", "frozenset"):
            return ("set" if tag == "set" else "frozenset") + "([" + ", ".join(self.py(t[1], x) for x in v) + "])"
        if tag in ("dict", "mapping"):
            return "{" + ", ".join(f"{self.py(t[1], k)}: {self.py(t[2], x)}" for k, x in v) + "}"
        if tag in ("tuple", "btuple"):
            ts = t[1] if tag == "tuple" else [t[2]] * t[1]
            return "(" + "".join(self.py(a, x) + ", " for a, x in zip(ts, v)) + ")"
        return OBJ[tag][v]

    def leafed(self, t, v):
        """Python expression in which the parts the binding treats as objects are named objects (so they can be compared by identity)."""
        if self.opaque(t):
            return self.obj(self.py(t, v))
        tag = t[0]
        if tag == "opt":
            return "None" if v is None else self.leafed(t[1], v[0])
        if tag == "list0":
            return self.obj(OBJ[tag][v])
        if tag in ("list", "seq"):
            return "[" + ", ".join(self.leafed(t[1], x) for x in v) + "]"
        if tag == "vtuple":
            return "(" + "".join(self.leafed(t[1], x) + ", " for x in v) + ")"
        if tag in ("dict", "mapping"):
            return "{" + ", ".join(f"{self.leafed(t[1], k)}: {self.leafed(t[2], x)}" for k, x in v) + "}"
        if tag in ("tuple", "btuple"):
            ts = t[1] if tag == "tuple" else [t[2]] * t[1]
            return "(" + "".join(self.leafed(a, x) + ", " for a, x in zip(ts, v)) + ")"
        return self.py(t, v)

    def owned(self, t, v):
        """(Rust expression of the owned type, Python expression of the value as it arrives)."""
        tag = t[0]
        own = types(t, self.cls)[0]
        if self.opaque(t):
            o = self.obj(self.py(t, v))
            return self.bound(t, o), o
        if tag == "bool":
            return ("true" if v else "false"), repr(v)
        if tag == "int":
            return f"({v}i64)" if v > -2**63 else "i64::MIN", repr(v)
        if tag == "float":
            r = {"float('inf')": "f64::INFINITY", "float('-inf')": "f64::NEG_INFINITY", "float('nan')": "f64::NAN"}.get(v)
            return r or f"({v}f64)", v
        if tag == "str":
            return f"::std::string::String::from({rust_str(v)})", repr(v)
        if tag in ("bytes", "bytearray"):
            return f"(vec![{', '.join('%du8' % x for x in v)}] as ::std::vec::Vec<u8>)", self.py(t, v)
        if tag == "path":
            return f"::std::path::PathBuf::from({rust_str(v)})", self.py(t, v)
        if tag in ("ipv4", "ipv6"):
            return f'"{v}".parse::<::std::net::IpAddr>().unwrap()', self.py(t, v)
        if tag == "opt":
            if v is None:
                return f"(::std::option::Option::None as {self.concrete(own)})", "None"
            r, p = self.owned(t[1], v[0])
            return f"::std::option::Option::Some({r})", p
        if tag == "list0":
            o = self.obj(OBJ[tag][v])
            return f'evt::<::pyo3::types::PyList>(py, "{o}").iter().collect::<::std::vec::Vec<_>>()', o
        if tag in ("list", "seq", "vtuple"):
            xs = [self.owned(t[1], x) for x in v]
            return f"(vec![{', '.join(x[0] for x in xs)}] as {self.concrete(own)})", ("tuple" if tag == "vtuple" else "") + "([" + ", ".join(x[1] for x in xs) + "])"
        if tag in ("set", "frozenset"):
            xs = [self.owned(t[1], x) for x in v]
            return f"[{', '.join(x[0] for x in xs)}].into_iter().collect::<{self.concrete(own)}>()", tag + "([" + ", ".join(x[1] for x in xs) + "])"
        if tag in ("dict", "mapping"):
            xs = [(self.owned(t[1], k), self.owned(t[2], x)) for k, x in v]
            return (f"[{', '.join(f'({k[0]}, {x[0]})' for k, x in xs)}].into_iter().collect::<{self.concrete(own)}>()",
                    "{" + ", ".join(f"{k[1]}: {x[1]}" for k, x in xs) + "}")
        if tag in ("tuple", "btuple"):
            ts = t[1] if tag == "tuple" else [t[2]] * t[1]
            xs = [self.owned(a, x) for a, x in zip(ts, v)]
            return "(" + ", ".join(x[0] for x in xs) + ")", "(" + "".join(x[1] + ", " for x in xs) + ")"
        raise AssertionError(t)

    @staticmethod
    def concrete(rust):
        return rust.replace("'py", "'_")

    def bound(self, t, o):
        own = types(t, self.cls)[0]
        inner = own[len("::pyo3::Bound<'py,"):-1]
        return f'evt::<{inner}>(py, "{o}")'

    def arg(self, t, v):
        """(Rust expression for a parameter, Python expression of what must arrive)."""
        tag = t[0]
        own, bor = types(t, self.cls)
        if self.opaque(t):
            o = self.obj(self.py(t, v))
            if bor.startswith("&"):
                return "&" + self.bound(t, o), o
            if "PyTuple" in bor or "IntoPyDict" in bor:
                return self.bound(t, o), o
            return f'ev(py, "{o}")', o
        if tag == "str":
            return rust_str(v), repr(v)
        if tag in ("bytes", "bytearray"):
            return f"&{[*v]}[..]" if v else "&[]", self.py(t, v)
        if tag == "path":
            return f"::std::path::Path::new({rust_str(v)})", self.py(t, v)
        if tag in ("frozenset", "vtuple"):
            r, p = self.owned(t, v)
            return "&" + r, p
        r, p = self.owned(t, v)
        return ("&" if bor.startswith("&") else "") + r, p

    def ret(self, t, v):
        """(Python expression of the returned value, Python expression of the converted result; RET is the returned value)."""
        e = self.leafed(t, v)
        return e, self.back(t, "RET")

    def back(self, t, e):
        """The value as seen after conversion to Rust and back to Python."""
        tag = t[0]
        if self.opaque(t):
            return e
        if tag in ("bytes", "bytearray"):
            return f"list({e})"
        if tag == "path":
            return f"str({e})"
        if tag == "opt":
            return f"(lambda _x: None if _x is None else {self.back(t[1], '_x')})({e})"
        if tag in ("list", "seq", "vtuple"):
            return f"[{self.back(t[1], '_x')} for _x in {e}]"
        if tag in ("set", "frozenset"):
            return f"set({self.back(t[1], '_x')} for _x in {e})"
        if tag in ("dict", "mapping"):
            return f"dict(({self.back(t[1], '_k')}, {self.back(t[2], '_x')}) for _k, _x in {e}.items())"
        if tag == "tuple":
            return "(" + "".join(self.back(x, f"{e}[{i}]") + ", " for i, x in enumerate(t[1])) + ")"
        return e


WRONG = {"bool": ["3", "'x'", "None"], "int": ["'x'", "None", "2**63", "-2**63 - 1", "1.5", "2**200"], "float": ["'x'", "None", "[]", "10**400"], "str": ["3", "None", "b'x'", "'\\ud800'"],
         "bytes": ["3", "None", "'abc'", "[256]", "[-1]", "['x']", "{}"], "ipv4": ["'not an ip'", "None", "object()"], "path": ["3", "None", "object()"]}
WRONG["bytearray"], WRONG["ipv6"] = WRONG["bytes"], WRONG["ipv4"]


def wrong(t, cls):
    """Python expressions of values that cannot be converted to the Rust type of a result."""
    tag = t[0]
    own = types(t, cls)[0]
    if tag in WRONG:
        return WRONG[tag]
    if own == ANY[0] or tag == "cls":
        return []
    if own.startswith("::pyo3::Bound"):
        return ["object()", "None", "3"]
    if tag == "opt":
        return [w for w in wrong(t[1], cls) if w != "None"]
    if tag in ("list", "seq", "vtuple"):
        return ["3", "None", "'abc'", "object()"] + [f"[{w}]" for w in wrong(t[1], cls)]
    if tag == "list0":
        return ["3", "None", "'abc'", "object()"]
    if tag in ("dict", "mapping"):
        return ["3", "None", "[]", "object()"]
    if tag in ("set", "frozenset"):
        return ["3", "None", "[]", "object()", "{}"]
    if tag in ("tuple", "btuple"):
        ts = t[1] if tag == "tuple" else [t[2]] * t[1]
        return ["3", "None", "()", "(" + "None, " * (len(ts) + 1) + ")", "[" + "None, " * len(ts) + "]"]
    raise AssertionError(t)


LOSSY = {"bytes", "bytearray", "path", "frozenset", "vtuple"}  # inside of containers these arrive as list, str, set (a known finding)


def lossy_inside(t, top=True):
    """Whether a parameter of the type contains something that does not arrive faithfully when nested."""
    tag = t[0]
    if tag in LOSSY and not top:
        return True
    if tag == "opt":
        return lossy_inside(t[1], top)
    if tag in ("list", "seq", "vtuple", "set", "frozenset"):
        return lossy_inside(t[1], False)
    if tag in ("dict", "mapping"):
        return lossy_inside(t[1], False) or lossy_inside(t[2], False)
    if tag == "tuple":
        return any(lossy_inside(x, False) for x in t[1])
    if tag == "btuple":
        return lossy_inside(t[2], False)
    return False
