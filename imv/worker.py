"""Client side of the C++ worker process."""
import subprocess, os, select, struct, tempfile, time
import numpy as np


class WorkerDied(Exception):
    def __init__(self, rc, err, cmd):
        self.rc, self.err, self.cmd = rc, err, cmd
        Exception.__init__(self, "library process ended (status %s) during '%s'; stderr: %s" % (rc, cmd, err[-1500:]))


class WorkerErr(Exception):
    pass


class Worker:
    def __init__(self, exe, env=None, timeout=300):
        self.exe, self.timeout, self.env = exe, timeout, env
        self.p = None
        self.errf = tempfile.TemporaryFile()
        self.idx = 0

    def start(self):
        self.errf.seek(0); self.errf.truncate()
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:allocator_may_return_null=1:abort_on_error=0"
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99"
        env.update(self.env or {})
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf, env=env, bufsize=0)
        self.rbuf = b""

    def stop(self):
        if self.p:
            try:
                self.p.stdin.close(); self.p.kill(); self.p.wait()
                self.p.stdout.close()
            except Exception:
                pass
            self.p = None

    def stderr(self):
        self.errf.seek(0)
        return self.errf.read().decode("latin1")

    def _died(self, cmd):
        try:
            rc = self.p.wait(timeout=20)
        except subprocess.TimeoutExpired:
            self.p.kill(); rc = "timeout"
        err = self.stderr()
        self.p.stdout.close(); self.p = None
        raise WorkerDied(rc, err, cmd)

    def _fill(self, cmd):
        r, _, _ = select.select([self.p.stdout], [], [], self.timeout)
        if not r:
            self.p.kill()
            self._died(cmd + " [no answer within %ds]" % self.timeout)
        d = os.read(self.p.stdout.fileno(), 1 << 20)
        if not d:
            self._died(cmd)
        self.rbuf += d

    def _read(self, n, cmd):
        while len(self.rbuf) < n:
            self._fill(cmd)
        d, self.rbuf = self.rbuf[:n], self.rbuf[n:]
        return d

    def call(self, *args):
        """args: str/int/float tokens; np arrays/lists -> '@'; bytes -> '$'. Returns list of tokens / arrays / bytes."""
        if self.p is None:
            self.start()
        toks, pay = [], []
        for a in args:
            if isinstance(a, (bytes, bytearray)):
                toks.append("$%d" % len(a)); pay.append(bytes(a))
            elif isinstance(a, (np.ndarray, list, tuple)):
                v = np.ascontiguousarray(np.asarray(a, dtype=np.float64).ravel())
                toks.append("@%d" % v.size); pay.append(v.tobytes())
            elif isinstance(a, float):
                toks.append(a.hex() if a == a and abs(a) != float("inf") else str(a))
            else:
                toks.append(str(a))
        msg = (" ".join(toks) + "\n").encode() + b"".join(pay)
        cmd = args[0]
        try:
            mv = memoryview(msg)
            while mv:
                n = self.p.stdin.write(mv)
                mv = mv[n:]
        except (BrokenPipeError, OSError):
            self._died(cmd)
        while b"\n" not in self.rbuf:
            self._fill(cmd)
        head, self.rbuf = self.rbuf.split(b"\n", 1)
        t = head.decode().split(" ")
        out = []
        for x in t[1:]:
            if x.startswith("@"):
                out.append(np.frombuffer(self._read(8 * int(x[1:]), cmd), dtype=np.float64).copy())
            elif x.startswith("$"):
                out.append(self._read(int(x[1:]), cmd))
            elif "0x" in x or x in ("nan", "-nan", "inf", "-inf"):
                out.append(float.fromhex(x) if "0x" in x else float(x.replace("-nan", "nan")))
            else:
                try:
                    out.append(int(x))
                except ValueError:
                    out.append(x)
        if t[0] != "ok":
            raise WorkerErr("%s -> %s" % (cmd, " ".join(str(x) for x in out)))
        return out
