"""Strategies for hostile packages, configurations and entry points."""
import copy
from . import gadgets, model

FLAGS = ["traverse_submodules", "generate_preludes", "generate_imports", "generate_classes", "generate_type_vars", "generate_functions",
         "generate_properties", "generate_docs"]


def config(g, private=True, deps=True):
    """A configuration; None is the default one."""
    if g.i(3) == 0:
        return None
    cfg = {}
    for f in FLAGS:
        if g.one_in(5):
            cfg[f] = False
    if private and g.one_in(4):
        cfg["include_private"] = True
    if deps and g.one_in(3):
        cfg["generate_dependencies"] = True
    if g.one_in(4):
        cfg["blocklist_names"] = g.subset(["alpha", "value", "x", "Alpha", "builtins", "new", "__init__", "", "Node", "load"])
    for f in ("suppress_python_stdout", "suppress_python_stderr"):
        if g.one_in(5):
            cfg[f] = False
    return cfg


def steps(g, names, codes=()):
    """Entry points naming some of the given modules, in one or several calls."""
    out = []
    pick = [names[0]] + [g.pick(names) for _ in range(g.i(3))] if g.i(3) else [g.pick(names) for _ in range(1 + g.i(3))]
    while pick:
        t = g.pick(["name", "names", "module", "modules"])
        if t in ("name", "module"):
            out.append({"t": t, "v": pick.pop(0)})
        else:
            k = 1 + g.i(len(pick))
            out.append({"t": t, "v": pick[:k]})
            pick = pick[k:]
    return out


PLAIN_FILES = ["raises", "import error", "syntax error", "exits", "bad name", "spaced name", "null bytes", "bad package", "directory"]


def infest(g, spec, n_max=4, odd=True, files=True, classes=True, module=gadgets.MODULE):
    """Add gadgets to a package; `files` may be a list of the file gadgets to use."""
    spec = copy.deepcopy(spec)
    spec["files"] = []
    pkgs = [i for i, m in enumerate(spec["mods"][:spec["main"]]) if m["pkg"]]
    for k in range(1 + g.i(n_max)):
        n = f"zz{g.pick(['a', 'struct', 'Q'])}{k}"
        i = g.i(spec["main"])
        kind = g.pick(["module", "module", "module", "class", "file", "odd"])
        cls = [it for it in spec["mods"][i]["items"] if it["k"] == "class"]
        if kind == "class" and cls and classes:
            members = g.pick(cls)["members"]
            code = g.pick(gadgets.CLASS).format(n=n) if g.i(4) else gadgets.annotated(g, n, True)
            members.insert(g.i(len(members) + 1), {"k": "raw", "n": n, "code": code})
        elif kind == "file" and files:
            name, content = gadgets.PACKAGE[g.pick(sorted(gadgets.PACKAGE) if files is True else files)]
            spec["files"].append([g.pick(pkgs), name.format(n=n), content])
        elif kind == "odd" and odd:
            spec["mods"][i].setdefault("odd", []).append(g.pick(gadgets.ODD))
        else:
            items = spec["mods"][i]["items"]
            items.insert(g.i(len(items) + 1), {"k": "raw", "n": n, "code": g.pick(module).format(n=n) if module is not gadgets.MODULE or g.i(8) else gadgets.annotated(g, n, False)})
    return spec


MIX = {"plain": 6, "camel": 2, "keyword": 2, "unicode": 2, "private": 1, "clash": 3, "nonraw": 2, "reserved": 1, "blocked": 1, "shadow": 3}


def opts(**kw):
    o = dict(mix=dict(MIX, primitive=1), mod_mix=dict(MIX, primitive=1), max_mods=5, max_items=4, max_members=3, all=True, param_mix=dict(MIX, under=1))
    o.update(kw)
    return model.Opts(**o)


def empty_package(n_mods=1):
    return {"mods": [{"path": ["pkg"], "pkg": True, "doc": None, "all": None, "items": []}], "main": 1}
