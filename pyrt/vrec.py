"""Recorder of the generated drivers.

Python functions under test report every call here and return (or raise) what the plan says; after each
step the recorded calls, the value that arrived in Rust and any exception are compared with the plan."""
import json, math

LOG, FAILS, O = [], [], {}
NS, PLAN = {}, {}
_now = {"ret": None, "exc": None, "gen": None}
STEPS = [0]


def ev(expr):
    return eval(expr, NS)


def keep(name, obj):
    O[name] = obj


def rec(name, loc):
    LOG.append((name, dict(loc)))
    if _now["exc"] is not None:
        raise _now["exc"]
    return _now["ret"]


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return (math.isnan(a) and math.isnan(b)) or (a == b and math.copysign(1, a) == math.copysign(1, b))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        if len(a) != len(b):
            return False
        for k, v in a.items():
            m = [k2 for k2 in b if same(k, k2)]
            if len(m) != 1 or not same(v, b[m[0]]):
                return False
        return True
    if isinstance(a, (set, frozenset)):
        return len(a) == len(b) and all(any(same(x, y) for y in b) for x in a)
    try:
        return bool(a == b)
    except Exception:
        return False


def same_calls(log, want):
    """The calls that happened are exactly the wanted ones (same order, same names, same bindings)."""
    return len(log) == len(want) and all(
        n == wn and set(d) == set(w) and all(same(d[k], w[k]) for k in w) for (n, d), (wn, w) in zip(log, want))


def load(path):
    with open(path) as f:
        code = f.read()
    NS.update(O=O, LOG=LOG, same=same, same_calls=same_calls, rec=rec, __builtins__=__builtins__)
    exec(compile(code, "plan", "exec"), NS)
    PLAN.update(NS["PLAN"])


def fail(id, what, detail=""):
    FAILS.append({"id": id, "what": what, "detail": str(detail)[:600]})


def short(x):
    try:
        return repr(x)[:300]
    except Exception as e:
        return f"<unrepresentable {type(x).__name__}: {e!r}>"


def before(id):
    STEPS[0] += 1
    p = PLAN[id]
    if p.get("pre"):
        exec(p["pre"], NS)
    _now["ret"] = ev(p["ret"]) if p.get("ret") is not None else None
    _now["exc"] = ev(p["raise"]) if p.get("raise") is not None else None
    NS["RET"], NS["EXC"] = _now["ret"], _now["exc"]
    LOG.clear()


def _calls(id, p):
    if p.get("log") is not None:
        want = ev(p["log"])
        if not same_calls(LOG, want):
            fail(id, "calls", f"expected exactly {short(want)}, observed {short(LOG)}")


def _post(id, p):
    if p.get("post") is not None:
        try:
            good = ev(p["post"])
        except Exception as e:
            good = False
            fail(id, "state", f"{p['post']} raised {e!r}")
            return
        if not good:
            fail(id, "state", f"not true afterwards: {p['post']}")


def ok(id, obj):
    p = PLAN[id]
    if p.get("err") is not None:
        fail(id, "no error", f"expected an Err ({p['err']}), got Ok({short(obj)})")
        return
    NS["res"] = obj
    _calls(id, p)
    if p.get("res") is not None and not ev(p["res"]):
        fail(id, "result", f"not true: {p['res']} with res={short(obj)} RET={short(_now['ret'])}")
    _post(id, p)


def err(id, exc):
    p = PLAN[id]
    if p.get("err") is None:
        fail(id, "error", f"unexpected Err({short(exc)})")
        return
    NS["exc"] = exc
    _calls(id, p)
    if not ev(p["err"]):
        fail(id, "wrong error", f"not true: {p['err']} with exc={short(exc)} EXC={short(_now['exc'])}")
    _post(id, p)


def panic(id, msg):
    fail(id, "panic", msg)


def finish(path):
    with open(path, "w") as f:
        json.dump({"fails": FAILS, "steps": STEPS[0]}, f)
