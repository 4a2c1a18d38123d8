"""Compiles job lists in processes forked from a common parent; prints one digest list per job.
stdin: JSON list of jobs; job = {"runs": [[files, lines], ...], "alloc": n, "cwd": bool, "session": bool}."""
import hashlib, io, json, os, sys, contextlib, pathlib, shutil, tempfile, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from lib import comp  # noqa: E402


def outputs(d, out):
    r = {}
    for n in sorted(os.listdir(d)):
        if n.startswith("o."): r[n] = hashlib.sha256((d / n).read_bytes()).hexdigest()[:16]
    r["stdout"] = hashlib.sha256(out.replace(str(d), "@").encode()).hexdigest()[:16]
    return r


def perform(job, base):
    keep = [object() for _ in range(job.get("alloc", 0))]
    hold = [[i] for i in range(job.get("alloc", 0) // 3)]
    if job.get("alloc", 0): del keep[::2]
    res = None
    con = comp.c2main.CommandConsole() if job.get("session") else None
    for k, (files, lines) in enumerate(job["runs"]):
        d = pathlib.Path(base) / f"r{k}" if job.get("cwd") else pathlib.Path(base) / "r"
        shutil.rmtree(d, ignore_errors=True); d.mkdir()
        for n, t in files.items(): (d / n).write_text(t)
        if job.get("cwd"): os.chdir(d)
        D = "." if job.get("cwd") else str(d)
        so, se = io.StringIO(), io.StringIO()
        exc = None
        c = con or comp.c2main.CommandConsole()
        c.return_code = comp.c2cmd.ReturnCode.SUCCESS
        with contextlib.redirect_stdout(so), contextlib.redirect_stderr(se):
            try:
                for l in lines: c.runsource(l.replace("{d}", D))
            except SystemExit as e: exc = f"exit {e.code}"
            except Exception as e: exc = f"{type(e).__name__}: {e}"
        res = dict(out=outputs(d, so.getvalue()), rc=c.return_code.value, exc=exc, err=(se.getvalue()[:300] if c.return_code.value or exc else ""))
    return res


def main():
    jobs = json.load(sys.stdin)
    for j in jobs:
        r, w = os.pipe()
        p = os.fork()
        if p == 0:
            os.close(r)
            base = tempfile.mkdtemp(prefix="c2d_", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
            try: res = perform(j, base)
            except BaseException as e: res = dict(out={}, rc=-1, exc="harness " + traceback.format_exc()[-400:], err="")
            os.chdir("/"); shutil.rmtree(base, ignore_errors=True)
            os.write(w, json.dumps(res).encode()); os._exit(0)
        os.close(w)
        b = b""
        while True:
            x = os.read(r, 65536)
            if not x: break
            b += x
        os.close(r); os.waitpid(p, 0)
        print(b.decode() or json.dumps(dict(out={}, rc=-2, exc="died", err="")), flush=True)


if __name__ == "__main__": main()
