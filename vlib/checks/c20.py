"""Python exceptions surface as errors."""
from .. import drive, expect, model, rusttypes
from .common import *
from . import c06, c07

EXC = ["ValueError('text', 3)", "KeyError(('a', None))", "TypeError()", "AttributeError('x')", "ImportError('m', name='n', path='p')", "OSError(2, 'no such', 'file')", "RuntimeError('ünï ☃')",
       "StopIteration(5)", "StopAsyncIteration()", "GeneratorExit('g')", "SystemExit(3)", "SystemExit()", "KeyboardInterrupt()", "MemoryError()", "RecursionError('deep')", "BaseException('base')",
       "UnicodeDecodeError('utf-8', b'\\xff', 0, 1, 'bad')", "OverflowError(34, 'range')", "AssertionError([1])", "NotImplementedError", "SyntaxError('s', ('f', 1, 2, 'text'))", "IndexError",
       "ExceptionGroup('group', [ValueError(1), TypeError(2)])", "type('Custom', (Exception,), {})('c', 1)", "type('CustomBase', (BaseException,), {'__str__': lambda s: 1 / 0, '__repr__': lambda s: 1 / 0})(1)",
       "type('Eq', (Exception,), {'__eq__': lambda s, o: 1 / 0, '__hash__': None})()", "type('NoInit', (ValueError,), {'__init__': lambda s, *a: None})(1, 2)", "TimeoutError()", "StopIteration()",
       "(lambda e: (e.add_note('note'), setattr(e, '__cause__', KeyError(1)), e)[-1])(ValueError('chained'))", "type('Bool', (Exception,), {'__bool__': lambda s: False, '__len__': lambda s: 0})()",
       "AttributeError('call'), ", "Warning('w')", "UnicodeEncodeError('ascii', '\u00e9', 0, 1, 'r')", "EOFError()", "ConnectionResetError(104, 'reset')"]
EXC = [e for e in EXC if not e.endswith(", ")]
BUILTIN_ERR = {"len": [("object()", "TypeError"), ("3", "TypeError"), ("type('L', (), {'__len__': lambda s: rec('len', {})})()", None)],
               "math.hypot": [("('x',)", "TypeError"), ("(None, 1)", "TypeError"), ("(type('F', (), {'__float__': lambda s: rec('float', {})})(),)", None)],
               "time.sleep": [("-1", "ValueError"), ("'x'", "TypeError"), ("type('I', (), {'__index__': lambda s: rec('index', {})})()", None)]}


def case(g):
    spec = drive.tame(model.package(g, drive.opts(mix=dict(c06.MIX, clash=3), member_mix=c06.MIX, kinds={"func": 6, "class": 4, "attr": 3, "imp": 2}, min_items=1, max_items=4, max_mods=3, max_members=5, ann_depth=2, depth=2)))
    exp = expect.Expect(spec)
    acc = c07.accessors(exp)
    keys = [k for k, e in exp.keys.items() if (k[0] == "fn" and e["item"]["k"] == "func") or (k[0] == "use" and e["origin"][0] == "fn" and exp.keys[e["origin"]]["item"]["k"] == "func")
            or (k[0] in ("cfn", "cmeth") and "acc" not in e and e["item"]["k"] in ("init", "call", "meth", "static", "classm")) or "acc" in e]
    uses = []
    for _ in range(4 + g.i(21) if keys else 0):
        k = g.pick(keys)
        e = exp.keys[k]
        u = {"key": list(k), "do": g.pick(["raise", "raise", "wrong", "missing", "ok", "module"]), "x": g.i(1000)}
        if "acc" in e:
            get, put = c07.accessor_type(e)
            u["v"] = rusttypes.value(g, put if e["acc"] == "set" else get)
        elif k[0] in ("cfn", "cmeth"):
            u["plan"] = drive.method_plan(g, k, e)
        else:
            o = e["origin"] if k[0] == "use" else k
            u["plan"] = drive.call_plan(g, o, exp.keys[o])
            if u["plan"] is None:
                continue
            u["plan"]["key"] = list(k)
        uses.append(u)
    return {"pkg": spec, "uses": uses}


class C20(Check):
    id = "C20"
    technique = "fault injection by property-based testing: generated histories of raising, mistyped, missing and successful uses of compiled bindings"
    needs = ("vgen", "rt")
    rule = ("A case is a generated package and a history of up to 24 uses of its bindings (functions, constructors, methods, getters, setters), in which the Python side raises one of "
            f"{len(EXC)} exceptions, gives a result that cannot be converted, lacks the attribute or the module, or works. Every failing use has to give exactly that exception as an Err and "
            "every other one has to work. Non-trivial: a history with at least one failing use that is followed by another use.")
    assumptions = ["Results of class types are not checked by the bindings and any object is accepted.", "Panics of pyo3 itself that Python code raises again are left out."]
    examples = {"quick": 60, "thorough": 2500}

    def strategy(self, tier):
        return model.strategy(case)

    def run(self, spec, ctx):
        if not spec["uses"]:
            return
        d = written(ctx, spec["pkg"])
        a = request(ctx, d, [by_name(root_of(spec["pkg"]), out="tree text")])[0]
        f = bindings(a)
        exp = expect.Expect(spec["pkg"])
        drv = drive.Driver(spec["pkg"], exp, f)
        failed, made = False, {}
        for u in spec["uses"]:
            k = tuple(u["key"])
            e = exp.keys[k]
            if k not in f.keys or "params" in e and [p[0] for p in f.keys[k].get("params", ())] != ([] if k[0] == "cmeth" else ["py"]) + e["params"]:
                raise Violation(f"no binding for {k} with the parameters {e.get('params')}: {f.keys.get(k, {}).get('params')}")
            n = len(drv.fns)
            what = self.use(drv, exp, u, made)
            if len(drv.fns) == n:
                continue
            p = drv.plan[str(n)]
            p["pre"] = "restore()\n" + p["pre"]
            ctx.label(f"{what}:{k[0]}" + (":" + e["acc"] if "acc" in e else ""))
            if failed:
                ctx.nontrivial = True
            failed |= what != "ok"
        if drv.fns:
            msg = drv.run(ctx.products, d, a["text"])
            if msg:
                raise Violation(msg)

    # Each of these adds (at most) one step and returns what it does
    def use(self, d, exp, u, made):
        k = tuple(u["key"])
        e = exp.keys[k]
        if "acc" in e:
            return self.access(d, exp, u, k, e)
        o = exp.keys[e["origin"]] if k[0] == "use" else e
        it = o["item"]
        form = it.get("form")
        plan, do = dict(u["plan"]), u["do"]
        mod = ".".join(d.spec["mods"][o["mod"]]["path"])
        if k[0] in ("cfn", "cmeth"):
            lazy = form == "async" and plan["mode"] != "sub"
            typed = None if form == "async" or it.get("ret") is None else it["ret"]
            if do in ("missing", "module") and k[0] == "cmeth":
                do = "alien"
                plan["mode"] = "alien"
            add = lambda: drive.add_method(d, plan, made)
            cmade = {c: list(v) for c, v in made.items()}
        else:
            if form == "builtin":
                return self.builtin(d, u, plan, it, mod, o['py'])
            lazy = form in ("async", "generator")
            typed = None if form in ("async", "generator", "lambda") or it.get("ret") is None else it["ret"]
            add = lambda: drive.add_call(d, plan)
            cmade = None
        wrong = [] if typed is None else rusttypes.wrong(typed, d.cls)
        if do == "raise" and lazy or do == "wrong" and not wrong:
            do = "ok"
        i = len(d.fns)
        add()
        if len(d.fns) == i or do == "ok":
            return "ok"
        if cmade is not None:  # nothing is constructed
            made.clear()
            made.update(cmade)
        p = d.plan[str(i)]
        p.pop("res", None)
        if it["k"] == "init":
            p["log"] = None
        if do == "raise":
            p["raise"] = self.exc(u)
            p["err"] = "exc is EXC" + (" and len(LOG) == 1" if it["k"] == "init" else "")
        elif do == "wrong":
            p["ret"] = wrong[u["x"] % len(wrong)]
            p["err"] = "isinstance(exc, (TypeError, ValueError, OverflowError))" + (" and len(LOG) == 1" if it["k"] == "init" else "")
        else:
            p["log"] = "[]"
            p["err"] = "isinstance(exc, (AttributeError, TypeError))" if do == "alien" else "isinstance(exc, ImportError)" if do == "module" else "isinstance(exc, AttributeError)"
            if do == "module":
                p["pre"] += f"\nblock({mod!r})"
            elif do == "missing":
                p["pre"] += f"\nhide(_il.import_module({mod!r}), {(e['cls'] if k[0] == 'cfn' else o['py'])!r})"
        return do

    def exc(self, u):
        x = EXC[u["x"] % len(EXC)]
        return x if x.endswith(")") else x + "()"

    def builtin(self, d, u, plan, it, mod, name):
        i = len(d.fns)
        do = u["do"]
        n = it["builtin"]
        if do == "wrong":
            do = "raise"
        if do == "raise":
            x, err = BUILTIN_ERR[n][u["x"] % 3]
            i = len(d.fns)
            drive.BUILTIN, keep = {n: [x]}, drive.BUILTIN
            try:
                drive.add_call(d, dict(plan, arg=0))
            finally:
                drive.BUILTIN = keep
            p = d.plan[str(i)]
            p.pop("res", None)
            p["log"] = None
            if err:
                p["err"] = f"type(exc) is {err}"
            else:
                p["raise"], p["err"] = self.exc(u), "exc is EXC and len(LOG) == 1"
            return do
        drive.add_call(d, plan)
        if do == "ok":
            return do
        p = d.plan[str(i)]
        p.pop("res", None)
        p["pre"] += f"\nblock({mod!r})" if do == "module" else f"\nhide(_il.import_module({mod!r}), {name!r})"
        p["err"] = "isinstance(exc, ImportError)" if do == "module" else "isinstance(exc, AttributeError)"
        return do

    def access(self, d, exp, u, key, e):
        it = e["item"]
        get, put = c07.accessor_type(e)
        mod = ".".join(d.spec["mods"][e["mod"]]["path"])
        c, n, do, acc = e.get("cls"), e["py"], u["do"], e["acc"]
        b = d.builder()
        wrong = rusttypes.wrong(get, d.cls) if acc == "get" else []
        if do == "wrong" and not wrong:
            do = "raise"
        if c is None:
            target = f"_il.import_module({mod!r})"
            if do == "missing" and acc == "set":
                do = "raise"
            args, head, path = ["py"], "", drive.rpath(key[1])
        else:
            the_class = f"getattr(_il.import_module({mod!r}), {c!r})"
            if do == "module":
                do = "missing"
            new = "object()" if do == "missing" else f"trapped({the_class}, {n!r})" if do == "raise" else f"(lambda t: t.__new__(t))({the_class})"
            target = b.obj(new)
            trait = "::".join([drive.rpath(key[1].rpartition(".")[0]), drive.ident(d.flat.keys[("class", key[1])]["trait"])])
            path = f"{trait}::{drive.ident(key[2])}"
            head = f'let this = evt::<{drive.rpath(key[1])}>(py, "{target}");\n'
            args = ["&this"]
        pre, plan = "", {"log": "[]"}
        if acc == "set":
            r, py = b.arg(put, u["v"])
            args.append(r)
            slot = f"{target}.__dict__[{'_v_' + it['n']!r}]" if it["k"] == "prop" else f"getattr({target}, {n!r})"
        elif do in ("ok", "wrong"):
            val = wrong[u["x"] % len(wrong)] if do == "wrong" else b.ret(get, u["v"])[0]
            o = b.obj(val)
            slot = f"{target}.__dict__[{('_v_' + it['n'] if it['k'] == 'prop' else n)!r}]"
            pre = f"_undo.append((lambda t, k, v: lambda: t.__dict__.__setitem__(k, v))({target}, {n!r}, {target}.{n}))\n" if c is None and do == "wrong" and n.isidentifier() else ""
            pre += f"{slot} = {o}"
        if do == "raise":
            pre = f"trap({mod!r}, {n!r})" if c is None else ""
            # modules replace an AttributeError of a getter
            x = self.exc(u)
            plan = {"raise": "ValueError('attr')" if c is None and "AttributeError" in x else x, "err": "exc is EXC", "log": f"[('{acc}', {{" + (f"'v': {py}" if acc == "set" else "") + "})]"}
        elif do == "wrong":
            plan["err"] = "isinstance(exc, (TypeError, ValueError, OverflowError))"
        elif do == "missing":
            pre = f"hide({target}, {n!r})" if c is None else ""
            plan["err"] = "isinstance(exc, AttributeError)"
        elif do == "module":
            pre = f"block({mod!r})"
            plan["err"] = "isinstance(exc, ImportError)"
        elif acc == "set":
            plan["post"] = f"same({slot}, {py})"
        else:
            plan["res"] = f"same(res, {b.back(get, slot)})"
        d.step(f"{head}let r = {path}({', '.join(args)})?;\nOk(r.to_object(py))", b, pre=pre, **plan)
        return do

    def signature(self, msg):
        return msg.split(" at step")[0][:50]


CHECK = C20()
