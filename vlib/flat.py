"""The generated bindings as a flat map from what is bound to how it is bound.

Keys:  ("mod", path)  ("fn", path)  ("class", path)  ("type", path)  ("use", path)  ("prelude", module path)
       ("cfn", class path, name)  associated function   ("cmeth", class path, name)  trait method
Paths are dotted and use the Python spelling of names (no `r#`). Constructors and accessors keep their Rust names."""
import re

EMBED = "pyo3_embed_python_source_code"


def raw(name):
    return name[2:] if name.startswith("r#") else name


def path_raw(p):
    return re.sub(r"\br#", "", p)


class Flat:
    def __init__(self, tree):
        self.keys = {}       # key -> info
        self.problems = []   # structural defects (duplicates, incomplete classes, unknown items)
        self.embeds = {}     # module path -> code of the embedding function
        self._names = set()
        self._module(tree, "")

    def _add(self, key, info, *spaces):
        if key in self.keys:
            self.problems.append(f"bound twice: {key}")
        for s in spaces:
            if s in self._names:
                self.problems.append(f"two items named {s[1]} in one scope")
            self._names.add(s)
        self.keys[key] = info

    @staticmethod
    def _fn(f, **kw):
        return dict(params=[[path_raw(n), t] for n, t in f["params"]], ret=f["ret"], recv=f["recv"], sig=f["sig"], docs=f["docs"],
                    code=f.get("code"), vis=f["vis"], **kw)

    def _module(self, items, path):
        pre = path + "." if path else ""
        classes, traits, impls = {}, {}, []
        for it in items:
            k = it["k"]
            if k == "mod":
                p = pre + raw(it["name"])
                if it["vis"] != "pub":
                    self.problems.append(f"module {p} is not public")
                if it["items"] and all(x["k"] == "use" and all(
                        path_raw(l[0]) == "super::" + raw(l[1]) and raw(l[1]) != raw(it["name"]) for l in x["leaves"]) for x in it["items"]):
                    leaves = [l for x in it["items"] for l in x["leaves"]]
                    self._add(("prelude", path), {"name": raw(it["name"]), "leaves": leaves, "vis": [x["vis"] for x in it["items"]]}, ("t", p))
                    continue
                self._add(("mod", p), {"docs": it["docs"], "attrs": it["attrs"]}, ("t", p))
                self._module(it["items"], p)
            elif k == "fn":
                p = pre + raw(it["name"])
                if raw(it["name"]) == EMBED:
                    if path in self.embeds:
                        self.problems.append(f"two embedding functions in {path}")
                    self.embeds[path] = it["code"]
                    continue
                self._add(("fn", p), self._fn(it), ("v", p))
            elif k == "struct":
                p = pre + raw(it["name"])
                classes[it["name"]] = p
                self._add(("class", p), {"docs": it["docs"], "code": it["code"], "vis": it["vis"], "macros": []}, ("t", p), ("v", p))
            elif k == "trait":
                if raw(it["name"]) in traits:
                    self.problems.append(f"trait {pre}{it['name']} twice")
                traits[raw(it["name"])] = it
                p = pre + raw(it["name"])
                if ("t", p) in self._names:
                    self.problems.append(f"two items named {p} in one scope")
                self._names.add(("t", p))
            elif k == "impl":
                impls.append(it)
            elif k == "type":
                p = pre + raw(it["name"])
                self._add(("type", p), {"docs": it["docs"], "code": it["code"], "vis": it["vis"]}, ("t", p))
            elif k == "use":
                for origin, name in it["leaves"]:
                    p = pre + raw(name)
                    self._add(("use", p), {"origin": path_raw(origin), "vis": it["vis"], "colon": it["colon"]})
            elif k == "macro":
                m = re.match(r"::pyo3::pyobject_native_type_(named|info)!\((.*?)[,)]", it["code"])
                c = m and classes.get(m.group(2))
                if not c:
                    self.problems.append(f"unknown macro in {path}: {it['code'][:80]}")
                else:
                    self.keys[("class", c)]["macros"].append(it["code"])
            else:
                self.problems.append(f"unknown item in {path}: {it['code'][:80]}")
        seen = set()
        for im in impls:
            if im["trait"] is None:
                c = classes.get(im["self"])
                if c is None:
                    self.problems.append(f"impl of unknown type {im['self']} in {path}")
                    continue
                for f in im["items"]:
                    if f["k"] != "fn":
                        self.problems.append(f"unknown item in impl {c}")
                        continue
                    self._add(("cfn", c, raw(f["name"])), self._fn(f), ("m", c, raw(f["name"])))
            else:
                t = traits.get(raw(im["trait"]))
                m = re.match(r"::pyo3::Bound<'_,(.*)>$", im["self"])
                c = m and classes.get(m.group(1))
                if t is None or c is None:
                    self.problems.append(f"unexpected impl {im['trait']} for {im['self']} in {path}")
                    continue
                seen.add(c)
                self.keys[("class", c)]["trait"] = raw(im["trait"])
                if [x.get("sig") for x in t["items"]] != [x.get("sig") for x in im["items"]]:
                    self.problems.append(f"trait and impl of {c} differ")
                if t["vis"] != "pub":
                    self.problems.append(f"trait of {c} is not public")
                for f in im["items"]:
                    if f["k"] != "fn":
                        self.problems.append(f"unknown item in impl {c}")
                        continue
                    self._add(("cmeth", c, raw(f["name"])), self._fn(f), ("m", c, raw(f["name"])))
        for c in classes.values():
            if c not in seen:
                self.problems.append(f"class {c} has no methods trait")

    def resolve(self, module, rust_path):
        """The item a (relative) path used in the given module denotes: (kind, dotted path) or None. Follows `use`."""
        segs = path_raw(rust_path).split("::")
        cur = module.split(".") if module else []
        if segs and segs[0] == "crate":
            return None
        while segs and segs[0] in ("self", "super"):
            if segs[0] == "super":
                if not cur:
                    return None
                cur = cur[:-1]
            segs = segs[1:]
        for _ in range(20):
            if not segs:
                p = ".".join(cur)
                return ("mod", p) if ("mod", p) in self.keys else None
            p = ".".join(cur + [segs[0]])
            if ("mod", p) in self.keys:
                cur, segs = cur + [segs[0]], segs[1:]
                continue
            for kind in ("class", "type", "fn"):
                if (kind, p) in self.keys:
                    return (kind, p) if len(segs) == 1 else None
            if ("use", p) in self.keys:
                r = self.resolve(".".join(cur), self.keys[("use", p)]["origin"])
                if r is None or len(segs) == 1:
                    return r
                if r[0] != "mod":
                    return None
                cur, segs = r[1].split("."), segs[1:]
                continue
            return None
        return None


def diff(a, b, what=("sig", "docs", "code", "origin", "leaves", "attrs", "macros", "name"), ignore=lambda k: False, limit=6):
    """Differences of two flat maps as text ("" if none)."""
    out = []
    for k in sorted(set(a) | set(b)):
        if ignore(k):
            continue
        if k not in b:
            out.append(f"only in the first: {k}")
        elif k not in a:
            out.append(f"only in the second: {k}")
        else:
            for w in what:
                x, y = a[k].get(w), b[k].get(w)
                if w == "leaves" and x and y:
                    x, y = sorted(x), sorted(y)
                if x != y:
                    out.append(f"{k} differs in {w}: {str(x)[:300]} vs {str(y)[:300]}")
                    break
    return "; ".join(out[:limit]) + (f" ... ({len(out)} in all)" if len(out) > limit else "")
