"""One state of the compiler console, reached by a command path in a forked process: every command of an alphabet is
applied to it in a further fork, and the resulting state, status, messages and files are reported."""
import contextlib, enum, hashlib, io, os, pathlib, pickle, re, shutil, traceback
from . import comp

SKIP = {"loc", "parents", "stats", "replacement"}


def dump(root, extra=()):
    """Canonical text of the object graph below a console: the same for any two consoles that cannot be told apart by
    anything but object identity and source locations. Expressions used as keys are written by their number."""
    num, out, todo_parents = {}, [], []

    def w(o):
        if o is None or isinstance(o, (bool, int, float, str, bytes)):
            out.append(repr(o) if not isinstance(o, bytes) or len(o) < 200 else hashlib.sha256(o).hexdigest()); return
        if isinstance(o, enum.Enum): out.append(str(o)); return
        if isinstance(o, (list, tuple)):
            out.append("[")
            for x in o: w(x); out.append(",")
            out.append("]"); return
        if isinstance(o, dict):
            out.append("{")
            for k, v in o.items(): w(k); out.append(":"); w(v); out.append(",")
            out.append("}"); return
        if isinstance(o, (set, frozenset)):
            out.append("set" + str(len(o))); return
        if isinstance(o, (pathlib.Path, type)) or callable(o): out.append(str(getattr(o, "__name__", o))); return
        if id(o) in num: out.append(f"#{num[id(o)]}"); return
        num[id(o)] = len(num); keep.append(o)
        out.append(f"<{type(o).__name__}")
        d = getattr(o, "__dict__", None) or {s: getattr(o, s) for s in getattr(o, "__slots__", ()) if hasattr(o, s)}
        for k in sorted(d):
            if k in SKIP: continue
            out.append(f" {k}="); w(d[k])
        out.append(">")
        if "parents" in d: todo_parents.append(o)
    keep = []
    for r in root: w(r); out.append("\n")
    for o in todo_parents:
        known = sorted(num[id(p)] for p in o.parents if id(p) in num)
        out.append(f"{num[id(o)]}<-{known};")
    return "".join(out)


def forked(fn, *a):
    r, w = os.pipe()
    p = os.fork()
    if p == 0:
        os.close(r)
        try: res = (True, fn(*a))
        except BaseException: res = (False, traceback.format_exc())
        try:
            with os.fdopen(w, "wb") as f: pickle.dump(res, f)
        finally: os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f: b = f.read()
    os.waitpid(p, 0)
    if not b: return (False, "the process died")
    return pickle.loads(b)


def scratch():
    d = comp.tmpdir() / "s"
    d.mkdir(exist_ok=True)
    return d


def clean(d):
    for x in d.iterdir():
        if not x.name.startswith("o."): continue
        if x.is_dir(): shutil.rmtree(x)
        else: x.unlink()


def sane(t, d):
    t = re.sub(r"0x[0-9a-f]+", "0x", t.replace(str(d), "@"))
    return re.sub(r"[0-9]+\.[0-9]+ ?s(econds)?", "T", t)


class Session:
    def __init__(self, files):
        self.d = scratch()
        clean(self.d)
        for n, t in files.items(): (self.d / n).write_text(t)
        comp.c2log.set_log_level(0)
        self.con = comp.c2main.CommandConsole()

    def fp(self): return dump([self.con.program, self.con.context, self.con.state_stack])

    def text(self): return str(self.con.program) + "\n--\n" + repr(self.con.program)

    def run(self, line):
        """-> dict(rc, exc, out, err, files)"""
        clean(self.d)
        self.con.return_code = comp.c2cmd.ReturnCode.SUCCESS
        so, se, exc = io.StringIO(), io.StringIO(), None
        try:
            with comp.cpu_limit(20.0), contextlib.redirect_stdout(so), contextlib.redirect_stderr(se): self.con.runsource(line.replace("{d}", str(self.d)))
        except SystemExit as e: exc = f"SystemExit {e.code}"
        except comp.Hang: exc = "no result after 20 s of CPU time"
        except Exception as e: exc = f"{type(e).__name__}: {e}"
        files = {x.name: x.read_bytes() for x in sorted(self.d.iterdir()) if x.name.startswith("o.") and x.is_file()}
        return dict(rc=self.con.return_code.value, exc=exc, out=sane(so.getvalue(), self.d), err=sane(se.getvalue(), self.d), files=files)


def observe(S, probes):
    """What can be seen from here: the outcome of every probe (a list of commands), each in a fork."""
    def one(p):
        guard = lambda t: re.sub(r"(guard condition not met for \w+): .*(\n.*consider trying.*)?", r"\1", t)  # which of several it is
        return [(lambda r: (r["rc"], r["exc"], r["out"], guard(r["err"]), sorted((n, hashlib.sha256(b).hexdigest()) for n, b in r["files"].items() if n not in ("o.pickle",))))(S.run(l)) for l in p]
    return [forked(one, p) for p in probes]


def difference(a, b, probes):
    for p, x, y in zip(probes, a, b):
        if x != y: return p, x, y
    return None


def visit(job):
    """job: files, path, alphabet, probes, stack (also check push ... pop around these). -> dict"""
    return forked(_visit, job)


def _visit(job):
    S = Session(job["files"])
    for l in job["path"]: S.run(l)
    F0 = S.fp()
    H = lambda t: hashlib.sha256(t.encode()).hexdigest()
    base = None
    probes = job["probes"]
    res = dict(F=H(F0), steps=[], stack=[], text=S.text()[:600])

    def step(line):
        r = S.run(line)
        F = S.fp()
        r["F"], r["same"] = H(F), F == F0
        if (r["rc"] or r["exc"]) and F != F0 and not r["exc"]:
            r["obs"] = observe(S, probes)
            r["diff"] = first_difference(F0, F)
            sub = job["composite"].get(line)
            if sub: r["fobs"] = F
        return r

    def prefix_states(sub):
        """fingerprints after the successful beginnings of a composite command"""
        fs = []
        for l in sub:
            if S.run(l)["rc"]:
                fs.append(S.fp()); break
            fs.append(S.fp())
        return fs
    for line in job["alphabet"]:
        ok, r = forked(step, line)
        if not ok: res["steps"].append((line, dict(rc=-1, exc="process: " + r, out="", err="", files={}, F="", same=True))); continue
        if "obs" in r:
            sub = job["composite"].get(line)
            if sub and r["fobs"] in forked(prefix_states, sub)[1]: r["obs"] = None
            else:
                if base is None: base = observe(S, probes)
                r["obs"] = difference(base, r["obs"], probes)
            r.pop("fobs", None)
        res["steps"].append((line, r))

    def around(mid):
        """push, the commands, pop: seen from outside, nothing may have happened"""
        for l in ["push"] + mid + ["pop"]:
            r = S.run(l)
            if r["exc"] or (l in ("push", "pop") and r["rc"]): return ("fails", l, r)
        F = S.fp()
        return None if F == F0 else ("differs", first_difference(F0, F), observe(S, probes))

    def ahead():
        """push alone: seen from inside, nothing may have changed"""
        S.run("push")
        S.con.state_stack.pop()
        F = S.fp()
        return None if F == F0 else ("differs", first_difference(F0, F), observe(S, probes))
    for mid in ["push only"] + job["stack"]:
        ok, r = forked(ahead) if mid == "push only" else forked(around, mid)
        if not ok: res["stack"].append((mid, "process: " + r)); continue
        if r is None: res["stack"].append((mid, None)); continue
        if r[0] == "differs":
            if base is None: base = observe(S, probes)
            dd = difference(base, r[2], probes)
            res["stack"].append((mid, dict(diff=r[1], obs=dd) if dd else None))
        else: res["stack"].append((mid, dict(fails=r[1], r=r[2])))
    return res


def first_difference(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return a[max(0, i - 60):i + 60], b[max(0, i - 60):i + 60]
