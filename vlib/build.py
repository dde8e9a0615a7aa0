"""Builds everything the checks need from the current working tree of /repo (offline)."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
PYTHON = "/usr/bin/python3.12"


class BuildError(Exception):
    pass


def env(**extra):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST"))}
    e.update(
        RUSTUP_TOOLCHAIN="stable", RUSTC_WRAPPER="", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
        CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="0", PYO3_PYTHON=PYTHON,
    )
    e["PATH"] = "/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin:" + e.get("PATH", "")
    e.pop("PYTHONPATH", None)
    e.pop("PYTHONHOME", None)
    e.update(extra)
    return e


def source_hash():
    h = hashlib.sha256()
    files = []
    for pat in ("pyo3_bindgen*/**/*.rs", "pyo3_bindgen*/Cargo.toml", "Cargo.toml", "Cargo.lock", ".cargo/*"):
        files += glob.glob(os.path.join(REPO, pat), recursive=True)
    for f in sorted(set(files)):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


REPO_CRATES = ["pyo3_bindgen", "pyo3_bindgen_engine", "pyo3_bindgen_macros", "pyo3_bindgen_cli"]


def _cargo(args, cwd, what):
    r = subprocess.run(["cargo", *args], cwd=cwd, env=env(), stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise BuildError(f"building {what} failed:\n{r.stderr[-4000:]}")
    return r.stdout


def _build(name, manifest, args, marker):
    """Build into BUILD/<name>; forget the crates of /repo first if their content changed since the
    last build there (modification times alone are not trusted)."""
    target = os.path.join(BUILD, name)
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = os.path.join(target, ".stamp")
        want = source_hash()
        have = open(stamp).read() if os.path.exists(stamp) else ""
        if have != want:
            if have:
                for c in REPO_CRATES:
                    subprocess.run(["cargo", "clean", "--offline", "--manifest-path", manifest, "--target-dir", target, "-p", c],
                                   env=env(), cwd=VERIF, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                os.remove(stamp)
        out = _cargo(["build", "--offline", "--manifest-path", manifest, "--target-dir", target, *args], VERIF, name)
        with open(stamp, "w") as f:
            f.write(want)
        return out, target


def vgen():
    _, t = _build("harness", os.path.join(VERIF, "harness/Cargo.toml"), ["--locked"], "vgen")
    return os.path.join(t, "debug/vgen")


def cli():
    """The CLI binary and the proc-macro library, built from /repo's own workspace."""
    out, t = _build("repo", os.path.join(REPO, "Cargo.toml"),
                    ["--locked", "-p", "pyo3_bindgen_cli", "-p", "pyo3_bindgen_macros", "--message-format=json"], "cli")
    res = {}
    for line in out.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            if m["target"]["name"] == "pyo3_bindgen_macros":
                res["macros"] = [f for f in m["filenames"] if f.endswith(".so")][0]
            if m.get("executable") and "pyo3_bindgen" in os.path.basename(m["executable"]):
                res["cli"] = m["executable"]
    if set(res) != {"macros", "cli"}:
        raise BuildError(f"missing artifacts: {res}")
    return res


def rt():
    """pyo3 (as used by generated bindings) and the runtime of the generated drivers; independent of /repo."""
    target = os.path.join(BUILD, "rt")
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        out = _cargo(["build", "--offline", "--locked", "--manifest-path", os.path.join(VERIF, "rt/Cargo.toml"),
                      "--target-dir", target, "--message-format=json"], VERIF, "rt")
    res = {"deps": os.path.join(target, "debug/deps")}
    for line in out.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact" and m["target"]["name"] in ("pyo3", "vrt"):
            for f in m["filenames"]:
                if f.endswith(".rlib"):
                    res[m["target"]["name"]] = f
    if not {"pyo3", "vrt"} <= set(res):
        raise BuildError(f"missing artifacts: {res}")
    return res


_sysroot = None


def rustc():
    """Path of the real rustc (skips the rustup shim)."""
    global _sysroot
    if _sysroot is None:
        _sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=env(), stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
    return os.path.join(_sysroot, "bin/rustc")


def rustdoc():
    rustc()
    return os.path.join(_sysroot, "bin/rustdoc")


def scratch_root():
    """Where the cases put their files: memory if possible."""
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > 2 << 30 else "/tmp"
    return base


if __name__ == "__main__":
    print(vgen())
    print(rt())
    print(cli())
