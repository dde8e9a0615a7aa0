"""Client of the generation server (harness/src/main.rs)."""
import json, os, select, subprocess, time
from . import build


class ServerError(Exception):
    """The harness itself failed (not the code under test)."""


class Server:
    def __init__(self, binary, hashseed="0", cwd="/", extra_env=None):
        self.binary, self.hashseed, self.cwd = binary, hashseed, cwd
        self.extra = extra_env or {}
        self.proc = None

    def _start(self):
        e = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "LANG": "C.UTF-8",
             "PYTHONHASHSEED": self.hashseed, "PYTHONDONTWRITEBYTECODE": "1", "RUST_BACKTRACE": "0"}
        if os.environ.get("VGEN_LOG"):
            e["VGEN_LOG"] = os.environ["VGEN_LOG"]
        e.update(self.extra)
        self.proc = subprocess.Popen([self.binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     stderr=subprocess.DEVNULL, env=e, cwd=self.cwd, start_new_session=True)
        self.buf = b""

    def close(self):
        if self.proc:
            try:
                os.killpg(self.proc.pid, 9)
            except ProcessLookupError:
                pass
            self.proc.wait()
            self.proc.stdin.close()
            self.proc.stdout.close()
            self.proc = None

    def request(self, req, timeout=120):
        if self.proc is None:
            self._start()
        try:
            self.proc.stdin.write(json.dumps(req).encode() + b"\n")
            self.proc.stdin.flush()
        except BrokenPipeError:
            self.close()
            raise ServerError("server died")
        end = time.monotonic() + timeout
        fd = self.proc.stdout.fileno()
        chunks = []
        while True:
            left = end - time.monotonic()
            if left <= 0:
                self.close()
                raise TimeoutError(f"no answer within {timeout} s")
            if not select.select([fd], [], [], left)[0]:
                continue
            c = os.read(fd, 1 << 20)
            if not c:
                self.close()
                raise ServerError("server died")
            chunks.append(c)
            if c.endswith(b"\n"):
                break
        ans = json.loads(b"".join(chunks))
        if isinstance(ans, dict) and "harness" in ans:
            raise ServerError(ans["harness"])
        if isinstance(ans, list):
            for a in ans:
                if isinstance(a, dict) and "harness" in a:
                    raise ServerError(a["harness"])
        return ans
