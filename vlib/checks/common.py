import os
from .. import flat, model
from ..runner import Check, Inconclusive, Violation


def names_of(spec):
    return [".".join(m["path"]) for m in spec["mods"]]


def root_of(spec):
    return spec["mods"][0]["path"][0]


def gen_op(steps, cfg=None, out="tree", **kw):
    return dict(op="gen", steps=steps, cfg=cfg, out=out, **kw)


def by_name(name, cfg=None, out="tree", **kw):
    return gen_op([{"t": "name", "v": name}], cfg, out, **kw)


def bad(ans):
    """Whether an answer is neither bindings nor an error value; says what it is."""
    if "panic" in ans:
        return "panic: " + ans["panic"]
    if "invalid" in ans:
        return "invalid Rust: " + ans["invalid"]
    if "crash" in ans:
        return f"crash: signal {ans['crash']}"
    if "exit" in ans:
        return f"crash: the process exited with {ans['exit']}"
    return None


def bindings(ans, what="generation"):
    """The flat bindings of a successful answer."""
    if "tree" not in ans:
        raise Violation(f"{what} did not give bindings: {bad(ans) or ans.get('err')}"[:600])
    return flat.Flat(ans["tree"])


def request(ctx, path, ops, server=None, timeout=120):
    """Answers to the operations; a dead server process is an answer to all of them."""
    ans = (server or ctx.server()).request({"path": [path] if isinstance(path, str) else path, "ops": ops}, timeout)
    if isinstance(ans, dict):
        return [ans] * len(ops)
    return ans


def written(ctx, spec):
    d = ctx.case_dir()
    model.write(spec, d)
    return d


def classify(ctx, spec):
    if spec.get("over"):
        ctx.label("replaced submodule")
    for m in spec["mods"]:
        if len(m["path"]) > 2:
            ctx.label("nested submodule")
        for it in m["items"]:
            ctx.label(it["k"] + (":" + it["form"] if it["k"] == "func" else ""))
            if it["k"] == "class":
                if it["bases"]:
                    ctx.label("class:inherits")
                for x in it["members"]:
                    ctx.label("member:" + x["k"])
            if it["n"] in model.RUST_KEYWORDS:
                ctx.label("name:keyword")
            if it["n"].startswith("_"):
                ctx.label("name:private")
            if it["n"] in model.NON_RAW:
                ctx.label("name:not raw")
            if it["n"] in model.CLASH:
                ctx.label("name:clash pool")
