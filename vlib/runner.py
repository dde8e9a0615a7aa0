"""Drives one check: seeded Hypothesis search in parallel workers, shrinking, replay files, evidence."""
import hashlib, importlib, json, multiprocessing as mp, os, shutil, signal, sys, tempfile, time, traceback
from . import build, server

VERIF = build.VERIF
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


class Violation(Exception):
    """The property does not hold for this case."""


class Inconclusive(Exception):
    """This case could not be decided (counted, never reported as a violation)."""


class _Stop(KeyboardInterrupt):
    pass


class Ctx:
    """What a case may use: generation servers (one per environment), the build products and a scratch directory."""

    def __init__(self, products, tag):
        self.products = products
        self.dir = tempfile.mkdtemp(prefix=f"verif-{tag}-", dir=build.scratch_root())
        self._servers = {}
        self.labels = set()
        self.nontrivial = False
        self.n = 0

    def server(self, hashseed="0", key="", **kw):
        k = (hashseed, key)
        if k not in self._servers:
            self._servers[k] = server.Server(self.products["vgen"], hashseed=hashseed, **kw)
        return self._servers[k]

    def case_dir(self):
        """A fresh directory for one case; the previous one is removed."""
        self.n += 1
        d = os.path.join(self.dir, "c%d" % self.n)
        old = os.path.join(self.dir, "c%d" % (self.n - 1))
        shutil.rmtree(old, ignore_errors=True)
        os.makedirs(d)
        return d

    def label(self, *names):
        self.labels.update(names)

    def close(self):
        for s in self._servers.values():
            s.close()
        shutil.rmtree(self.dir, ignore_errors=True)


def load_check(cid):
    return importlib.import_module(f"vlib.checks.{cid.lower()}").CHECK


def products_for(check):
    p = {}
    for need in check.needs:
        p[need] = getattr(build, need)()
    return p


def run_case(check, spec, ctx):
    """None if the property held, otherwise what is wrong."""
    ctx.labels, ctx.nontrivial = set(), False
    try:
        check.run(spec, ctx)
        return None
    except Violation as v:
        return str(v) or "violated"


def _seed(base, cid, worker):
    return int.from_bytes(hashlib.sha256(f"{base}/{cid}/{worker}".encode()).digest()[:8], "big")


def _worker(cid, tier, seed, worker, examples, products, stop, queue, deadline, shrink_s):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    check = load_check(cid)
    ctx = Ctx(products, f"{cid}-{worker}")
    stats = {"evaluations": 0, "inconclusive": 0, "harness": [], "labels": {}, "hashes": set(), "samples": [], "fail": None, "truncated": False}
    try:
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings

        fails = []
        state = {"first": None}

        @hypothesis.seed(_seed(seed, cid, worker))
        @settings(max_examples=examples, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
                  suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink], print_blob=False,
                  verbosity=hypothesis.Verbosity.quiet)
        @given(check.strategy(tier))
        def prop(spec):
            now = time.monotonic()
            if state["first"] is None:
                if stop.is_set():
                    raise _Stop
                if now > deadline:
                    stats["truncated"] = True
                    raise _Stop
            elif now - state["first"] > shrink_s:
                raise _Stop
            stats["evaluations"] += 1
            try:
                msg = run_case(check, spec, ctx)
            except Inconclusive as e:
                stats["inconclusive"] += 1
                stats["labels"]["inconclusive: " + str(e)[:60]] = stats["labels"].get("inconclusive: " + str(e)[:60], 0) + 1
                return
            except (server.ServerError, TimeoutError, OSError) as e:
                stats["harness"].append(repr(e)[:300])
                if len(stats["harness"]) > 20:
                    raise _Stop
                return
            for l in ctx.labels:
                stats["labels"][l] = stats["labels"].get(l, 0) + 1
            if ctx.nontrivial:
                h = hashlib.sha256(json.dumps(spec, sort_keys=True).encode()).hexdigest()[:16]
                stats["hashes"].add(h)
                if len(stats["samples"]) < 2 and stats["evaluations"] > 3:
                    stats["samples"].append(spec)
            if msg is not None:
                if state["first"] is None:
                    state["first"] = time.monotonic()
                    stop.set()
                fails.append((len(json.dumps(spec)), json.dumps(spec), msg))
                raise Violation(check.signature(msg))

        try:
            prop()
        except _Stop:
            pass
        except Violation:
            pass
        except BaseException as e:  # Hypothesis' own errors (e.g. Flaky) when something was found: keep what was found
            if not fails:
                stats["harness"].append("".join(traceback.format_exception(e))[-3000:])
        if fails:
            # Report the smallest case that fails again in a fresh context
            for _, spec, msg in sorted(fails)[:6]:
                c2 = Ctx(products, f"{cid}-{worker}-confirm")
                try:
                    for _ in range(3):
                        try:
                            m2 = run_case(check, json.loads(spec), c2)
                        except Exception:
                            m2 = None
                        if m2 is not None:
                            stats["fail"] = (json.loads(spec), m2)
                            break
                finally:
                    c2.close()
                if stats["fail"]:
                    break
            else:
                stats["harness"].append("not reproducible: " + fails[0][2][:500])
    except BaseException as e:
        stats["harness"].append("".join(traceback.format_exception(e))[-3000:])
    finally:
        ctx.close()
        stats["hashes"] = list(stats["hashes"])
        queue.put((worker, stats))


def known_findings(cid):
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            parts = line.strip().split(" ", 3)
            if parts[0] == "known:" and len(parts) == 4 and parts[1] == f"property={cid}" and parts[2].startswith("case="):
                out.append((os.path.join(VERIF, parts[2][5:]), parts[3]))
    return out


def write_replay(cid, spec, msg):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = json.dumps({"property": cid, "what": msg, "case": spec}, indent=1, sort_keys=True)
    path = os.path.join(d, f"{cid}-{hashlib.sha256(json.dumps(spec, sort_keys=True).encode()).hexdigest()[:12]}.json")
    with open(path, "w") as f:
        f.write(body + "\n")
    return path


def violation(cid, spec, msg):
    path = write_replay(cid, spec, msg)
    print(msg[:3000])
    print(f"VIOLATION property={cid} replay={path}", flush=True)


def main(cid, tier):
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    check = load_check(cid)
    evidence = os.path.join(VERIF, "evidence", f"{cid}.json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    if os.path.exists(evidence):
        os.remove(evidence)
    products = products_for(check)
    build_s = time.monotonic() - t0
    examples = check.examples[tier]
    limit = {"quick": 420, "thorough": 3 * 3600}[tier]
    if os.environ.get("VERIF_EXAMPLES"):
        examples = int(os.environ["VERIF_EXAMPLES"])
    found, harness, evaluations, inconclusive = [], [], 0, 0
    labels, hashes, samples = {}, set(), []

    # 1. fixed cases: regressions and boundary cases, then the listed known findings
    ctx = Ctx(products, cid)
    known_lines = []
    try:
        for name, spec in check.fixed(tier):
            evaluations += 1
            try:
                msg = run_case(check, spec, ctx)
            except Inconclusive:
                inconclusive += 1
                continue
            except (server.ServerError, TimeoutError) as e:
                harness.append(f"{name}: {e!r}")
                continue
            for l in ctx.labels | {"fixed case"}:
                labels[l] = labels.get(l, 0) + 1
            if ctx.nontrivial:
                hashes.add(hashlib.sha256(json.dumps(spec, sort_keys=True).encode()).hexdigest()[:16])
            if msg is not None:
                found.append((spec, f"[{name}] {msg}"))
                break
        for path, what in known_findings(cid):
            k = json.load(open(path))
            try:
                msg = run_case(check, k["case"], ctx)
            except (Inconclusive, server.ServerError, TimeoutError) as e:
                harness.append(f"{path}: {e!r}")
                continue
            if msg is not None:
                if k["expect"] not in msg:
                    found.append((k["case"], msg))
                else:
                    known_lines.append(f"KNOWN-FINDING: property={cid} {what}")
    finally:
        ctx.close()

    # 2. generated cases
    if not found and examples:
        m = mp.get_context("fork")
        stop, queue = m.Event(), m.Queue()
        deadline = time.monotonic() + limit
        shrink_s = 60 if tier == "quick" else 300
        procs = [m.Process(target=_worker, args=(cid, tier, seed, w, examples, products, stop, queue, deadline, shrink_s)) for w in range(WORKERS)]
        for p in procs:
            p.start()
        got = 0
        while got < WORKERS:
            try:
                w, s = queue.get(timeout=5)
            except Exception:
                if not any(p.is_alive() for p in procs):
                    harness.append("a worker died")
                    break
                continue
            got += 1
            evaluations += s["evaluations"]
            inconclusive += s["inconclusive"]
            harness += s["harness"]
            for k, v in s["labels"].items():
                labels[k] = labels.get(k, 0) + v
            hashes.update(s["hashes"])
            samples += s["samples"]
            if s["truncated"]:
                labels["worker stopped by the time limit"] = labels.get("worker stopped by the time limit", 0) + 1
            if s["fail"]:
                found.append(tuple(s["fail"]))
        for p in procs:
            p.join(10)
            if p.is_alive():
                p.kill()

    wall = time.monotonic() - t0
    found.sort(key=lambda f: len(json.dumps(f[0])))
    ev = {
        "property": cid, "tier": tier, "seed": seed, "level": check.level, "wall_s": round(wall, 2),
        "violations": len(found),
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(hashes), "rule": check.rule,
            "samples": [_trim(s) for s in samples[:3]] or [_trim(f[0]) for f in found[:1]],
            "inconclusive": inconclusive, "classes": dict(sorted(labels.items(), key=lambda kv: -kv[1])),
            "workers": WORKERS, "build_s": round(build_s, 1), "known_findings_reported": len(known_lines),
        },
        "assumptions": check.assumptions,
    }
    with open(evidence, "w") as f:
        json.dump(ev, f, indent=1)
    for l in known_lines:
        print(l)
    if found:
        violation(cid, *found[0])
        return 1
    if harness and (len(harness) > max(5, evaluations // 100) or not evaluations):
        print("harness errors:\n" + "\n".join(harness[:5]), file=sys.stderr)
        return 2
    for h in harness[:3]:
        print("note: " + h, file=sys.stderr)
    print(f"{cid}: held on {evaluations} cases ({len(hashes)} distinct non-trivial), {wall:.0f} s")
    return 0


def _trim(s, n=4000):
    t = json.dumps(s)
    return s if len(t) <= n else t[:n] + "..."


def replay(path):
    d = json.load(open(path))
    check = load_check(d["property"])
    ctx = Ctx(products_for(check), "replay")
    try:
        msg = run_case(check, d["case"], ctx)
    except Inconclusive as e:
        print(f"inconclusive: {e}")
        return 2
    finally:
        ctx.close()
    if msg is None:
        print("the property holds for this case")
        return 0
    print(msg)
    print(f"VIOLATION property={d['property']} replay={path}")
    return 1


class Check:
    id = ""
    level = "exploration"
    needs = ("vgen",)
    rule = ""
    assumptions = []
    examples = {"quick": 100, "thorough": 3000}

    def strategy(self, tier):
        raise NotImplementedError

    def fixed(self, tier):
        return []

    def run(self, spec, ctx):
        raise NotImplementedError

    def signature(self, msg):
        """Failures with the same signature are treated as one defect while shrinking."""
        return msg.split(":", 1)[0][:60]
