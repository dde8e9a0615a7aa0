"""Compiling generated bindings and drivers."""
import os, re, subprocess
from . import build


class CompileProblem(Exception):
    pass


def _run(args, cwd, timeout=300):
    e = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "LANG": "C.UTF-8", "RUST_BACKTRACE": "0", "TMPDIR": cwd}
    return subprocess.run(args, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)


def _flags(products):
    rt = products["rt"]
    return ["--edition", "2021", "--cap-lints", "allow", "-C", "debuginfo=0", "-L", "dependency=" + rt["deps"], "--extern", "pyo3=" + rt["pyo3"]]


def errors(stderr):
    """The error messages without locations."""
    out = []
    lines = stderr.splitlines()
    for i, l in enumerate(lines):
        if l.startswith("error"):
            ctx = [x for x in lines[i + 1:i + 8] if re.match(r"\s*\d+ \|", x)]
            out.append(l + (" <<" + ctx[0].split("|", 1)[1].strip()[:160] + ">>" if ctx else ""))
    return [o for o in out if "aborting due to" not in o and "could not compile" not in o]


def check_lib(products, dir, text, nested):
    """Compile bindings as a library (metadata only). Returns the errors."""
    src = os.path.join(dir, "lib.rs")
    if nested:
        with open(os.path.join(dir, "bindings.rs"), "w") as f:
            f.write(text)
        body = 'pub mod outer { include!("bindings.rs"); }\n'
    else:
        body = text
    with open(src, "w") as f:
        f.write(body)
    r = _run([build.rustc(), *_flags(products), "--crate-type", "lib", "--crate-name", "bindings", "--emit", "metadata", "-o", os.path.join(dir, "lib.rmeta"), src], dir)
    return outcome(r)


def outcome(r):
    if r.returncode == 0:
        return []
    if r.returncode == 1:
        e = errors(r.stderr)
        if e:
            return e
    raise CompileProblem(f"rustc ended with {r.returncode}: {r.stderr[-500:]}")


def build_driver(products, dir, files, main):
    """Compile a driver; `files` are written next to it. Returns the errors."""
    for n, t in files.items():
        with open(os.path.join(dir, n), "w") as f:
            f.write(t)
    src = os.path.join(dir, "main.rs")
    with open(src, "w") as f:
        f.write(main)
    r = _run([build.rustc(), *_flags(products), "--extern", "vrt=" + products["rt"]["vrt"], "--crate-type", "bin", "--crate-name", "driver", "-o",
              os.path.join(dir, "driver"), src], dir)
    return outcome(r)
