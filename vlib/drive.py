"""Drivers: Rust programs that call generated bindings step by step while vrec.py watches the Python side."""
import json, os, subprocess
from . import build, expect, model, rust, rusttypes, server

HELPERS = '''
import importlib as _il
_inst = {}
def inst(m, c, k):
    if (m, c, k) not in _inst:
        t = getattr(_il.import_module(m), c)
        _inst[m, c, k] = t.__new__(t)
    return _inst[m, c, k]
def run_coro(c):
    try:
        c.send(None)
    except StopIteration as e:
        return e.value
    raise RuntimeError("the coroutine did not finish")
def is_coro(c):
    return type(c).__name__ == "coroutine"
_undo = []
def restore():
    while _undo:
        _undo.pop()()
def hide(obj, name):
    old = vars(obj)[name]
    delattr(obj, name)
    _undo.append(lambda: setattr(obj, name, old))
def block(mod):
    import sys
    _il.import_module(mod)
    old = sys.modules[mod]
    sys.modules[mod] = None
    _undo.append(lambda: sys.modules.__setitem__(mod, old))
def trap(mod, name):
    m = _il.import_module(mod)
    old = type(m)
    m.__class__ = type("Trap", (old,), {name: property(lambda s: rec("get", {}), lambda s, v: rec("set", {"v": v}))})
    _undo.append(lambda: setattr(m, "__class__", old))
def trapped(t, name):
    c = type("Trapped", (t,), {name: property(lambda s: rec("get", {}), lambda s, v: rec("set", {"v": v}))})
    return c.__new__(c)
'''


def ident(n):
    return n if n in ("self", "super", "crate", "Self", "_") else "r#" + n


def rpath(dotted):
    return "b::" + "::".join(ident(s) for s in dotted.split("."))


def class_path(exp):
    """Rust path of a generated class for `rusttypes` or None if it has no binding."""
    def f(m, n):
        p = ".".join(exp.spec["mods"][m]["path"]) + "." + n
        return rpath(p) if ("class", p) in exp.keys else None
    return f


class Driver:
    def __init__(self, spec, exp, flat):
        self.spec, self.exp, self.flat = spec, exp, flat
        self.cls = class_path(exp)
        self.fns, self.plan = [], {}

    def builder(self):
        return rusttypes.Builder(f"s{len(self.fns)}", self.spec, self.cls)

    def step(self, body, b, **plan):
        """`body`: Rust statements ending in an expression of type PyResult<PyObject>."""
        i = len(self.fns)
        pre = plan.pop("pre", None)
        code = "\n".join(b.pre + ([pre] if pre else []))
        self.fns.append(body)
        self.plan[str(i)] = dict({k: v for k, v in plan.items() if v is not None}, pre=code)
        return i

    def main(self):
        out = ["#![allow(warnings)]", "mod b { include!(\"b.rs\"); }", "use pyo3::prelude::*;", "use vrt::*;"]
        for i, body in enumerate(self.fns):
            out.append(f"fn s{i}<'py>(py: Python<'py>) -> PyResult<PyObject> {{\n{body}\n}}")
        out.append("fn main() { vrt::main(&[" + ", ".join(f'("{i}", s{i})' for i in range(len(self.fns))) + "]) }")
        return "\n".join(out)

    def run(self, products, dir, text, path=None):
        """None if everything was as planned, otherwise what was not."""
        rs = os.path.join(dir, "drv")
        os.makedirs(rs, exist_ok=True)
        try:
            errs = rust.build_driver(products, rs, {"b.rs": text}, self.main())
        except rust.CompileProblem as e:
            raise server.ServerError(str(e))
        if errs:
            return "the bindings cannot be used as planned: " + " | ".join(errs[:3])
        with open(os.path.join(rs, "plan.py"), "w", encoding="utf-8") as f:
            f.write(HELPERS + "PLAN = " + repr(self.plan) + "\n")
        res = os.path.join(rs, "result.json")
        env = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "LANG": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
               "VRT_PATH": (dir if path is None else path) + ":" + os.path.join(build.VERIF, "pyrt"), "VRT_PLAN": os.path.join(rs, "plan.py"), "VRT_RESULT": res}
        r = subprocess.run([os.path.join(rs, "driver")], cwd=rs, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        if r.returncode in (97, 98):
            raise server.ServerError("driver: " + r.stderr.decode(errors="replace")[-800:])
        if r.returncode or not os.path.exists(res):
            return f"the process ended with {r.returncode} while using the bindings: {r.stderr.decode(errors='replace')[-400:]}"
        out = json.load(open(res))
        if out["fails"]:
            f = out["fails"][0]
            i = int(f["id"])
            return f"{f['what']} at step {i} of {len(self.fns)}: {f['detail']} <<{self.fns[i][:500]}>>"
        return None


def call_fn(path, args):
    return f"let r = {rpath(path)}({', '.join(['py'] + args)})?;\nOk(r.to_object(py))"


# ---------------------------------------------------------------------------------------- arguments of a call
KW = ["kw_one", "class", "größe", "not an identifier", "", "fn"]


def draw_args(g, f, params):
    """Values for the parameters of a function: a list parallel to `params`."""
    out = []
    for p in params:
        if p["k"] == "va":
            out.append([g.i(len(rusttypes.OBJ["any"])) for _ in range(g.i(4))])
        elif p["k"] == "vk":
            other = {q["n"] for q in f["params"] if q["k"] != "po"}
            names = [n for n in KW + sorted({q["n"] for q in params if q["k"] == "po"} - set(KW)) if n not in other]
            out.append(None if g.i(3) == 0 else [[n, g.i(len(rusttypes.OBJ["any"]))] for n in g.subset(names)])
        else:
            out.append(rusttypes.value(g, p["ann"] or ["any"]))
    return out


def make_args(b, params, vals):
    """(Rust argument expressions, [(name, Python expression of what must arrive)])."""
    rs, py = [], []
    for p, v in zip(params, vals):
        if p["k"] == "va":
            o = b.obj("(" + "".join(rusttypes.OBJ["any"][x] + ", " for x in v) + ")")
            rs.append(f'evt::<::pyo3::types::PyTuple>(py, "{o}")')
            py.append((p["n"], o))
        elif p["k"] == "vk":
            if v is None:
                rs.append("::std::option::Option::None")
                py.append((p["n"], "{}"))
            else:
                o = b.obj("{" + ", ".join(f"{n!r}: {rusttypes.OBJ['any'][x]}" for n, x in v) + "}")
                rs.append(f'::std::option::Option::Some(evt::<::pyo3::types::PyDict>(py, "{o}"))')
                py.append((p["n"], o))
        else:
            r, e = b.arg(p["ann"] or ["any"], v)
            rs.append(r)
            py.append((p["n"], e))
    return rs, py


def log_of(qual, bound, extra=(), va=None):
    """The call that must be recorded; `va`: the parameter of `*args` that the receiver is the first of."""
    if va is not None:
        (_, this), extra = extra[0], ()
        bound = [(n, f"({this}, *{e})" if n == va else e) for n, e in bound]
    return f"[({qual!r}, {{" + ", ".join(f"{n!r}: {e}" for n, e in [*extra, *bound]) + "})]"


SCALARS = [s for s in model.SCALARS if s != "module"]
COMPOUND = [c for c in model.COMPOUND if c != "mapping"]


def opts(**kw):
    """Options for packages whose bindings are called."""
    o = dict(mix={"plain": 10, "camel": 2, "keyword": 3, "unicode": 1, "nonraw": 1}, scalars=SCALARS, compound=COMPOUND, docs=False, max_mods=4, max_items=4, depth=3,
             private_modules=False, param_mix={"plain": 8, "keyword": 2, "unicode": 1, "private": 1, "shadow": 1, "under": 1})
    o.update(kw)
    return model.Opts(**o)


def functions(spec):
    for m in spec["mods"]:
        for it in m["items"]:
            if it["k"] == "func":
                yield it
            elif it["k"] == "class":
                for x in it["members"]:
                    if "params" in x:
                        yield x


def tame(spec):
    """Simplify annotations as Python does and take out what a known finding covers."""
    for f in functions(spec):
        for p in f["params"]:
            if p["ann"] is not None:
                p["ann"] = rusttypes.canon(p["ann"])
                if rusttypes.lossy_inside(p["ann"]):
                    p["ann"] = ["list", ["str"]]
        if f.get("ret") is not None:
            f["ret"] = None if f.get("form") == "generator" else rusttypes.canon(f["ret"])
    for m in spec["mods"]:
        for it in m["items"]:
            for x in it.get("members", ()):
                if x["k"] == "prop":
                    x["ann"] = x["ann"] and rusttypes.canon(x["ann"])
                    x["sann"] = x["sann"] and rusttypes.canon(x["sann"])
                    takes = x["sann"] or x["ann"]  # a setter without an annotation takes what the getter returns
                    if x["setter"] and takes and rusttypes.lossy_inside(takes):
                        x["sann"] = ["list", ["str"]]
    return spec


BUILTIN = {
    "len": ["[]", "'abc'", "{1: 2}", "range(10**6)"],
    "math.hypot": ["()", "(3, 4)", "(1.5, -2, 2)"],
    "time.sleep": ["0", "0.0", "0.001"],
}


def call_plan(g, key, e):
    """A planned call of a module-level function as JSON."""
    f = e["item"]
    if f.get("form") == "builtin":
        if f["builtin"] not in BUILTIN:
            return None
        return {"key": list(key), "arg": g.i(len(BUILTIN[f["builtin"]]))}
    params = expect.function_params(f)
    ret = ["any"] if f["form"] in ("async", "generator", "lambda") or f.get("ret") is None else f["ret"]
    return {"key": list(key), "args": draw_args(g, f, params), "ret": rusttypes.value(g, ret)}


def add_call(d, plan, raises=None):
    """Add the planned call to the driver."""
    key = tuple(plan["key"])
    e = d.exp.keys[d.exp.keys[key]["origin"]] if key[0] == "use" else d.exp.keys[key]
    f = e["item"]
    b = d.builder()
    if f.get("form") == "builtin":
        n = f["builtin"]
        x = BUILTIN[n][plan["arg"]]
        if n == "len":
            d.step(call_fn(key[1], [f'ev(py, "{b.obj(x)}")']), b, res=f"same(res, len({x}))", log="[]")
        elif n == "math.hypot":
            kw = ["::std::option::Option::None"] if expect.builtin_params(n)[-1]["k"] == "vk" else []
            d.step(call_fn(key[1], [f'evt::<::pyo3::types::PyTuple>(py, "{b.obj(x)}")'] + kw), b, res=f"same(res, __import__('math').hypot(*{x}))", log="[]")
        else:
            o = b.obj(f"({x},)")
            d.step(call_fn(key[1], [f'evt::<::pyo3::types::PyTuple>(py, "{o}")', "::std::option::Option::None"]), b, res="res is None", log="[]")
        return
    params = expect.function_params(f)
    rs, py = make_args(b, params, plan["args"])
    form = f["form"]
    if form == "partial":
        bound = [p for p in f["params"] if p["k"] in ("po", "pk")][:f["bound"]]
        py = [(p["n"], repr("b%d" % i)) for i, p in enumerate(bound)] + py
        qual = f["n"]
    else:
        qual = f["n"]
    log = log_of(".".join(d.spec["mods"][e["mod"]]["path"]) + "." + qual, py)
    any_ret = form in ("async", "generator", "lambda") or f.get("ret") is None
    rexpr, back = b.ret(["any"] if any_ret else f["ret"], plan["ret"])
    code = call_fn(key[1], rs)
    if raises:
        if form in ("async", "generator"):
            return
        d.step(code, b, **{"raise": raises}, log=log, err="exc is EXC")
    elif form == "async":
        d.step(code, b, ret=rexpr, log="[]", res=f"is_coro(res) and same(run_coro(res), RET) and same_calls(LOG, {log})")
    elif form == "generator":
        d.step(code, b, ret=rexpr, log="[]", res=f"(lambda l: len(l) == 1 and same(l[0], RET))(list(res)) and same_calls(LOG, {log})")
    else:
        d.step(code, b, ret=rexpr, log=log, res=f"same(res, {back})")


def method_plan(g, key, e):
    """A planned use of a class binding: constructor, method, class or static method, `__call__`."""
    x = e["item"]
    if x["k"] not in ("init", "call", "meth", "static", "classm"):
        return None
    params = expect.function_params(x, e["owner"][1])
    ret = ["any"] if x["k"] == "init" or x.get("form") == "async" or x.get("ret") is None else x["ret"]
    mode = g.pick(["inst", "inst", "made", "sub"]) if x["k"] in ("meth", "call") else "inst"
    return {"key": list(key), "args": draw_args(g, x, params), "ret": rusttypes.value(g, ret), "mode": mode, "k": g.i(2)}


def add_method(d, plan, made, raises=None):
    """Add the planned use; `made` maps classes to the names of objects constructed so far."""
    key = tuple(plan["key"])
    e = d.exp.keys[key]
    x = e["item"]
    mod = ".".join(d.spec["mods"][e["mod"]]["path"])
    b = d.builder()
    owner = ".".join(d.spec["mods"][e["owner"][0]]["path"]) + "." + e["owner"][1]
    params = expect.function_params(x, e["owner"][1])
    rs, py = make_args(b, params, plan["args"])
    va = next(p["n"] for p in params if p["k"] == "va") if x.get("selfname") == "args" else None
    the_class = f"getattr(_il.import_module({mod!r}), {e['cls']!r})"
    k = x["k"]
    if k == "init":
        name = f"made_{len(d.fns)}"
        code = f"let r = {rpath(key[1])}::{ident(key[2])}({', '.join(['py'] + rs)})?;\nkeep(py, \"{name}\", &r);\nOk(r.to_object(py))"
        log = log_of(owner + ".__init__", py, [("self", "res")], va)
        if raises:
            d.step(code, b, **{"raise": raises}, err="exc is EXC and len(LOG) == 1")
        else:
            made.setdefault((e["mod"], e["cls"]), []).append(name)
            d.step(code, b, ret="None", log=log, res=f"type(res) is {the_class}")
        return
    pyname = e["py"]
    if k in ("static", "classm"):
        code = f"let r = {rpath(key[1])}::{ident(key[2])}({', '.join(['py'] + rs)})?;\nOk(r.to_object(py))"
        log = log_of(f"{owner}.{pyname}", py, [("cls", the_class)] if k == "classm" else [], va if k == "classm" else None)
    else:
        have = made.get((e["mod"], e["cls"]))
        if plan["mode"] == "made" and have:
            this = f"O[{have[plan['k'] % len(have)]!r}]"
        elif plan["mode"] == "alien":
            this = b.obj("object()")
        elif plan["mode"] == "sub":
            this = b.obj(f"(lambda t: t.__new__(t))(type('Sub', ({the_class},), {{{pyname!r}: lambda self, /, *a, **k: rec('sub', {{'self': self, 'a': a, 'k': k}})}}))")
        else:
            this = b.obj(f"inst({mod!r}, {e['cls']!r}, {plan['k']})")
        trait = "::".join([rpath(key[1].rpartition(".")[0]), ident(d.flat.keys[("class", key[1])]["trait"])])
        code = f'let this = evt::<{rpath(key[1])}>(py, "{this}");\nlet r = {trait}::{ident(key[2])}({", ".join(["&this"] + rs)})?;\nOk(r.to_object(py))'
        first = {"this": "this"}.get(x.get("selfname"), "self")
        log = log_of(f"{owner}.{pyname}", py, [(first, this)], va)
        if plan["mode"] == "sub":
            pos = "".join(ex + ", " for (n, ex), p in zip(py, params) if p["k"] in ("po", "pk"))
            pos += "".join(f"*{ex}, " for (n, ex), p in zip(py, params) if p["k"] == "va")
            kws = "".join(f"{n!r}: {ex}, " for (n, ex), p in zip(py, params) if p["k"] == "ko")
            kws += "".join(f"**{ex}, " for (n, ex), p in zip(py, params) if p["k"] == "vk")
            log = log_of("sub", [("self", this), ("a", f"({pos})"), ("k", f"{{{kws}}}")])
    any_ret = x.get("form") == "async" or x.get("ret") is None
    rexpr, back = b.ret(["any"] if any_ret else x["ret"], plan["ret"])
    if raises:
        if x.get("form") == "async" and plan["mode"] != "sub":
            return
        d.step(code, b, **{"raise": raises}, log=log, err="exc is EXC")
    elif x.get("form") == "async" and plan["mode"] != "sub":
        d.step(code, b, ret=rexpr, log="[]", res=f"is_coro(res) and same(run_coro(res), RET) and same_calls(LOG, {log})")
    else:
        d.step(code, b, ret=rexpr, log=log, res=f"same(res, {back})")
