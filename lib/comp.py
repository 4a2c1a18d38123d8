"""Drives the real C2PO compiler (imported from /repo/compiler) in process."""
import contextlib, io, os, pathlib, shutil, signal, sys, tempfile, atexit
from . import common
sys.dont_write_bytecode = True
_p = str(common.REPO / "compiler")
if _p not in sys.path: sys.path.insert(0, _p)
import c2po.main as c2main  # noqa: E402
import c2po.log as c2log  # noqa: E402
import c2po.cpt as cpt  # noqa: E402
import c2po.command as c2cmd  # noqa: E402

_dir = None


def tmpdir():
    global _dir
    if _dir is None or not _dir[1] == os.getpid():
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        d = tempfile.mkdtemp(prefix="c2v_", dir=base)
        _dir = (pathlib.Path(d), os.getpid())
        from multiprocessing import util as mpu
        mpu.Finalize(None, shutil.rmtree, args=(d, True), exitpriority=10)
        atexit.register(shutil.rmtree, d, True)
    return _dir[0]


class Out:
    __slots__ = ("rc", "binary", "out", "err", "exc", "console")
    @property
    def ok(self): return self.rc == 0 and self.binary is not None and not self.exc
    def __repr__(self): return f"<rc={self.rc} bin={None if self.binary is None else len(self.binary)} exc={self.exc} err={self.err[-300:]!r}>"


DEFAULTS = dict(rewrite=True, cse=True, extops=False, aux=True, bz=False, scq=0, mission=-1)


class Hang(BaseException):
    """The compiler has used far more CPU time than any compilation here needs."""


def _hang(*_): raise Hang()


@contextlib.contextmanager
def cpu_limit(seconds=30.0):
    old = signal.signal(signal.SIGPROF, _hang)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    try: yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def cli(spec, kind="c2po", map_text=None, trace_text=None, rewrite=True, cse=True, extops=False, aux=True, bz=False, scq=0, mission=-1,
        quiet=True, output=True, bounds=None, only_tc=False, eq=None, sat=None):
    """Runs the compiler's command-line entry point (c2po.main.cli) on a specification text. eq: options of equality
    saturation (check, fold, assoc, comm, multi, temporal, time, path)."""
    q = dict(check=False, fold=True, assoc=True, comm=True, multi=True, temporal=True, time=5, path=None, smt="uflia", smt_time=5)
    q.update(eq or {})
    d = tmpdir()
    sp = d / f"spec.{kind}"
    sp.write_text(spec)
    mp = tp = op = None
    if map_text is not None: mp = d / "spec.map"; mp.write_text(map_text)
    if trace_text is not None: tp = d / "trace.csv"; tp.write_text(trace_text)
    ob = d / "out.bin"
    if ob.exists(): ob.unlink()
    bp = None
    if bounds: bp = d / f"bounds{bounds}"; bp.unlink(missing_ok=True)
    r = Out(); r.exc = None; r.console = None
    so, se = io.StringIO(), io.StringIO()
    c2log.set_log_level(0)
    try:
        with cpu_limit(), contextlib.redirect_stdout(so), contextlib.redirect_stderr(se):
            rc = c2main.cli(spec_filename=str(sp), trace_filename=str(tp) if tp else None, map_filename=str(mp) if mp else None,
                            output_filename=str(ob) if output else None, write_bounds_filename=str(bp) if bp else None, quiet=quiet, debug=False,
                            only_parse=False, only_type_check=only_tc, only_compile=False, mission_time=mission, scq_constant=scq,
                            enable_booleanizer=bz, enable_aux=aux, enable_cse=cse, enable_rewrite=rewrite, enable_extops=extops,
                            enable_eqsat=eq is not None, enable_eqsat_equiv_check=q["check"], enable_eqsat_const_folding=q["fold"], enable_eqsat_associative=q["assoc"],
                            enable_eqsat_commutative=q["comm"], enable_eqsat_multi_arity=q["multi"], enable_eqsat_temporal=q["temporal"], eqsat_max_time=q["time"],
                            eqsat_max_memory=0, num_gurobi_threads=0, egglog_path=q["path"], check_sat=sat is not None, smt_theory=sat["theory"] if sat else q["smt"], smt_max_time=sat["time"] if sat else q["smt_time"],
                            smt_max_memory=0, smt_solver_path=sat["path"] if sat else None)
        r.rc = rc.value
    except SystemExit as e:
        r.rc = e.code
    except Hang:
        r.rc, r.exc = 98, "Hang: no result after 30 s of CPU time"
    except Exception as e:  # an uncaught exception of the compiler
        r.rc, r.exc = 99, f"{type(e).__name__}: {e}"
    r.out, r.err = so.getvalue(), se.getvalue()
    r.binary = ob.read_bytes() if ob.exists() else None
    if bp is not None:
        r.console = bp.read_text() if bp.exists() else None
    return r


def script(lines, files=None):
    """Runs compiler commands in a fresh console; files: name -> text, written to the scratch directory (use {d})."""
    d = tmpdir()
    for n, t in (files or {}).items(): (d / n).write_text(t)
    c2log.set_log_level(0)
    con = c2main.CommandConsole()
    r = Out(); r.exc = None; r.console = con; r.binary = None
    so, se = io.StringIO(), io.StringIO()
    try:
        with cpu_limit(), contextlib.redirect_stdout(so), contextlib.redirect_stderr(se):
            for l in lines: con.runsource(l.replace("{d}", str(d)))
        r.rc = con.return_code.value
    except SystemExit as e:
        r.rc = e.code
    except Hang:
        r.rc, r.exc = 98, "Hang: no result after 30 s of CPU time"
    except Exception as e:
        r.rc, r.exc = 99, f"{type(e).__name__}: {e}"
    r.out, r.err = so.getvalue(), se.getvalue()
    ob = d / "out.bin"
    if ob.exists(): r.binary = ob.read_bytes()
    return r


def run_in(con, lines):
    so, se = io.StringIO(), io.StringIO()
    exc = None
    d = tmpdir()
    try:
        with cpu_limit(), contextlib.redirect_stdout(so), contextlib.redirect_stderr(se):
            for l in lines: con.runsource(l.replace("{d}", str(d)))
    except SystemExit as e: exc = f"SystemExit {e.code}"
    except Hang: exc = "Hang: no result after 30 s of CPU time"
    except Exception as e: exc = f"{type(e).__name__}: {e}"
    return so.getvalue(), se.getvalue(), exc


def map_of(n, prefix="a"):
    return "".join(f"{prefix}{i}:{i}\n" for i in range(n))


def spec_of(formulas, natoms, past=False, names=None, extra=""):
    """C2PO text for a list of formula texts."""
    decl = "INPUT\n" + "    " + ",".join(f"a{i}" for i in range(max(natoms, 1))) + ": bool;\n\n"
    sec = "PTSPEC" if past else "FTSPEC"
    body = "".join(f"    {(names[i] + ': ') if names and names[i] else ''}{f};\n" for i, f in enumerate(formulas))
    return decl + extra + sec + "\n" + body
