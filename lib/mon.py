"""Client of the explorer process (explore.c)."""
import os, struct, subprocess, numpy as np
from . import common

MAGIC = 0x52325532
LOAD, STEP, BOOL, INT, FLOAT, STR, CLOCK, SOFT, HARD, REPEAT = range(10)
STATUS = {0: "ok", 1: "verdict not in order (repeated or going back)", 2: "verdict late", 3: "step does not terminate", 4: "crash",
          5: "step returned an error status", 6: "verdict for a formula number that does not exist", 7: "verdict flood in one step",
          8: "specification rejected by monitor", 9: "node limit"}


def action(op, mon=0, idx=0, val=0):
    if op == FLOAT: v = struct.pack("<d", float(val))
    elif op == STR: v = str(val).encode()[:8].ljust(8, b"\0")
    else: v = struct.pack("<iI", int(val), 0)
    return struct.pack("<IIII", op, mon, idx, 0) + v


class Result:
    __slots__ = ("status", "mon", "formula", "time", "path", "nodes", "steps", "events", "nleaf", "leaves", "log", "text")
    def __repr__(self):
        return f"<{STATUS.get(self.status)} mon={self.mon} f={self.formula} t={self.time} path={self.path} nodes={self.nodes}>"
    @property
    def why(self): return STATUS.get(self.status, str(self.status))


class Died(Exception):
    pass


class Server:
    def __init__(self, so, asan=False, nmon=1):
        self.so, self.asan, self.nmon, self.p = str(so), asan, nmon, None
        self.exe = str(common.build_explorer(asan))
        self.lasterr = ""

    def start(self):
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:handle_segv=1:allocator_may_return_null=1"
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
        self.errf = open(os.path.join(str(common.BUILD), f".err_{os.getpid()}"), "w+b")
        self.outname = os.path.join(str(common.BUILD), f".out_{os.getpid()}")
        self.p = subprocess.Popen([self.exe, self.so, self.outname], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf, env=env)

    def close(self):
        if self.p:
            try:
                self.p.stdin.close(); self.p.wait(timeout=5)
            except Exception:
                self.p.kill(); self.p.wait()
            self.p.stdout.close(); self.errf.close()
            for n in (self.errf.name, self.outname):
                try: os.unlink(n)
                except OSError: pass
            self.p = None

    def _rd(self, n):
        b = self.p.stdout.read(n)
        if len(b) != n: raise Died()
        return b

    def job(self, specs, pre, letters, depth, nf, deadlines=None, keep=True, log=False, linear=False, maxnodes=0, lenient=False, mw=1, base=0, file=False, order=True):
        """pre: list of packed actions; letters: list of lists of packed actions; nf: formulas per monitor.
        keep -> leaves array (nleaf, sum(nf), 2) of uint64 masks. linear: run `pre` only."""
        if self.p is None or self.p.poll() is not None:
            if self.p is not None: self.close()
            self.start()
        m = [struct.pack("<II", MAGIC, len(specs))]
        for s in specs: m += [struct.pack("<I", len(s)), bytes(s)]
        m += [struct.pack("<I", len(pre))] + pre
        m.append(struct.pack("<I", len(letters)))
        for l in letters: m += [struct.pack("<I", len(l))] + l
        m.append(struct.pack("<III", depth, (1 if keep else 0) | (2 if log else 0) | (4 if linear else 0) | (8 if lenient else 0) | (16 if file else 0) | (0 if order else 32) | (mw << 8), base))
        for k in range(self.nmon):
            n = nf[k] if k < len(nf) else 0
            d = deadlines[k] if deadlines and k < len(deadlines) and deadlines[k] is not None else [-1] * n
            m.append(struct.pack(f"<I{n}i", n, *d))
        m.append(struct.pack("<Q", maxnodes))
        r = Result(); r.text = None
        try:
            self.p.stdin.write(b"".join(m)); self.p.stdin.flush()
            h = struct.unpack("<6I", self._rd(24))
            if h[0] != MAGIC: raise Died()
            r.status, r.mon, r.formula, r.time = h[1:5]
            r.path = list(struct.unpack(f"<{h[5]}I", self._rd(4 * h[5])))
            c = struct.unpack("<6Q", self._rd(48))
            r.nodes, r.steps, r.events, r.nleaf = c[0], c[1], c[2], c[4]
            tot = sum(nf)
            r.leaves = None
            if keep and r.nleaf:
                r.leaves = np.frombuffer(self._rd(r.nleaf * tot * 16 * mw), dtype="<u8").reshape(*((r.nleaf, tot, 2) if mw == 1 else (r.nleaf, tot, 2, mw)))
            ne = c[5]
            r.log = np.frombuffer(self._rd(16 * ne), dtype="<u4").reshape(ne, 4) if ne else np.zeros((0, 4), dtype="<u4")
        except (Died, BrokenPipeError):
            self.close()
            r.status, r.mon, r.formula, r.time, r.path = 4, 0, 0, 0, []
            r.nodes = r.steps = r.events = r.nleaf = 0; r.leaves = None; r.log = np.zeros((0, 4), dtype="<u4")
            return r
        if file and r.status not in (3, 4, 7): r.text = open(self.outname, "rb").read()
        if r.status in (3, 4, 7):
            try:
                self.errf.flush(); self.lasterr = open(self.errf.name, errors="replace").read()[-4000:]
            except Exception: pass
            self.close()
        return r


def bool_letters(n, mon=0, step=True, ids=None, letters=None):
    ids = ids or list(range(n))
    out = []
    for l in (range(1 << n) if letters is None else letters):
        out.append([action(BOOL, mon, ids[i], (l >> i) & 1) for i in range(n)] + ([action(STEP, mon)] if step else []))
    return out
