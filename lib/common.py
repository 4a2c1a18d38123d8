"""Paths, builds of the code under test, evidence, violations, known findings."""
import contextlib, hashlib, json, os, pathlib, shutil, subprocess, sys, tempfile, time, fcntl, contextlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
BUILD = ROOT / "build"
LIB = ROOT / "lib"
CSRC = REPO / "monitors/c/src"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
NPROC = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 4)))
CBASE = ["-std=c99", "-D_POSIX_C_SOURCE=200112L", "-fPIC", "-w"]


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise CheckError(f"command failed: {' '.join(map(str, cmd))}\n{r.stdout[-3000:]}")
    return r.stdout


def tree_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for base in paths:
        base = pathlib.Path(base)
        files = [base] if base.is_file() else sorted(p for p in base.rglob("*") if p.is_file() and "__pycache__" not in p.parts and "target" not in p.parts)
        for f in files:
            h.update(str(f.relative_to(base.parent)).encode()); h.update(f.read_bytes())
    return h.hexdigest()[:20]


@contextlib.contextmanager
def lock(name):
    BUILD.mkdir(exist_ok=True)
    with open(BUILD / f".{name}.lock", "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def _prune(prefix, keep):
    for p in BUILD.glob(prefix + "*"):
        if p.name != keep and not p.name.startswith("."):
            try:
                if time.time() - p.stat().st_mtime > 3600:
                    shutil.rmtree(p, ignore_errors=True) if p.is_dir() else p.unlink()
            except OSError:
                pass


def c_sources(src=None, cli=False):
    src = src or CSRC
    out = []
    for p in sorted(src.rglob("*.c")):
        if not cli and "cli" in p.relative_to(src).parts:
            continue
        out.append(p)
    return out


def build_explorer(asan=False):
    """The explorer executable (independent of /repo)."""
    key = tree_hash([LIB / "explore.c"], "v1" + str(asan))
    out = BUILD / f"explore_{'msan_' if asan == 'msan' else 'asan_' if asan else ''}{key}"
    with lock("explore"):
        if not out.exists():
            tmp = out.with_suffix(".tmp")
            obj = BUILD / f"explore_{key}.o"
            cc = "clang" if asan else "gcc"
            sh([cc, "-O2", "-w", *(["-fsanitize=memory"] if asan == "msan" else []), "-c", str(LIB / "explore.c"), "-o", str(obj)])
            sh([cc, str(obj), "-o", str(tmp), "-ldl"] + (["-fsanitize=memory"] if asan == "msan" else ["-fsanitize=address,undefined"] if asan else []))
            obj.unlink(); tmp.rename(out)
    return out


def build_monitor(variant="plain", nmon=1, src=None, tag=""):
    """Shared object with the real C monitor + shim. variant: plain | aux | asan | asan_aux | msan_aux | debug (rust, rust_checked: the Rust monitor)."""
    if variant.startswith("rust"): return build_rust(checked=variant == "rust_checked")
    src = pathlib.Path(src or CSRC)
    key = tree_hash([src, LIB / "shim.c"], f"v2 {variant} {nmon} {tag}")
    out = BUILD / f"mon_{variant}_{nmon}_{key}.so"
    with lock("mon"):
        if out.exists():
            os.utime(out)
            return out
        _prune("mon_", out.name)
        asan, msan = "asan" in variant, "msan" in variant
        flags = list(CBASE) + [f"-DNMON={nmon}", f"-I{src}"]
        if "aux" in variant: flags.append("-DR2U2_AUX_STRING_SPECS=1")
        cc = "gcc"
        if asan:
            cc = "clang"
            flags += ["-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
        elif msan:
            cc = "clang"
            flags += ["-g", "-O1", "-fsanitize=memory", "-fno-omit-frame-pointer"]
        else:
            flags += ["-O2"]
        with tempfile.TemporaryDirectory(dir=BUILD) as td:
            objs = []
            for i, f in enumerate(c_sources(src) + [LIB / "shim.c"]):
                o = pathlib.Path(td) / f"{i}.o"
                sh([cc, *flags, "-c", str(f), "-o", str(o)])
                objs.append(str(o))
            tmp = pathlib.Path(td) / "m.so"
            sh([cc, "-shared", "-Wl,-z,norelro", "-Wl,-z,now", *(["-fsanitize=address,undefined"] if asan else ["-fsanitize=memory"] if msan else []), *objs, "-lm", "-o", str(tmp)])
            shutil.move(str(tmp), str(out))
    return out


RSRC = REPO / "monitors/rust/r2u2_core"


def _rust_deps():
    """Directory with the stand-ins for the crates the Rust monitor needs."""
    L = LIB / "rust"
    out = BUILD / f"rdeps_{tree_hash([L], 'd1')}"
    if (out / "done").exists():
        os.utime(out)
        return out
    _prune("rdeps_", out.name)
    shutil.rmtree(out, ignore_errors=True)
    out.mkdir(parents=True)
    rc = lambda *a: rustc(out, *a)
    for n in ("vstd_macros", "const_env"): rc("--crate-type", "proc-macro", "--crate-name", n, L / f"{n}.rs")
    rc("--crate-type", "rlib", "--crate-name", "vstd", "--extern", f"vstd_macros={out}/libvstd_macros.so", L / "vstd.rs")
    for n in ("libm", "byteorder", "fixedstr", "libc_print"): rc("--crate-type", "rlib", "--crate-name", n, L / f"{n}.rs")
    (out / "done").touch()
    return out


def rustc(cwd, *a, env=(), opt=2):
    return sh(["rustc", "--edition", "2021", "--cap-lints", "allow", "-C", f"opt-level={opt}", "-L", str(cwd), *map(str, a)], cwd=cwd, env=dict(os.environ, RUSTUP_TOOLCHAIN="stable", **dict(env)))


def build_rust(env=(), checked=False, features=(), exe=False, opt=2, src=None, tmp=False):
    """The real Rust monitor behind the explorer's interface (shared object) or behind lib/rust/driver.rs (exe). checked: arithmetic
    overflow panics, as in a debug build; env: bounds; tmp: a name of its own, for the caller to remove."""
    src = src or RSRC / "src"
    env, features = tuple(sorted(dict(env).items())), tuple(sorted(features))
    key = tree_hash([src, LIB / "rust"], f"r2 {env} {checked} {features} {opt}")
    out = BUILD / (f"rdrv_{key}" if exe else f"rmon_{'checked' if checked else 'rel'}_{key}.so")
    if tmp: out = out.with_name(f"rtmp{os.getpid()}_{out.name}")
    with lock("rdeps"): D = _rust_deps()
    with contextlib.nullcontext() if tmp else lock("rmon"):
        if out.exists():
            os.utime(out)
            return out
        if not tmp: _prune("rdrv_" if exe else "rmon_", out.name)
        L = LIB / "rust"
        with tempfile.TemporaryDirectory(dir=BUILD) as td:
            fs = [x for f in features for x in ("--cfg", f'feature="{f}"')]
            ov = ["-C", f"overflow-checks={'on' if checked else 'off'}", "-L", D]
            rc = lambda *a: rustc(pathlib.Path(td), *ov, *fs, *a, env=env, opt=opt)
            ext = [x for n in ("vstd", "libm", "byteorder", "fixedstr", "libc_print") for x in ("--extern", n)]
            rc("--crate-type", "rlib", "--crate-name", "r2u2_core", *ext, "--extern", f"const_env={D}/libconst_env.so", pathlib.Path(src) / "lib.rs")
            if exe: rc("--crate-type", "bin", "--crate-name", "driver", "--extern", "r2u2_core", L / "driver.rs", "-o", f"{td}/m.so")
            else: rc("-C", "panic=abort", "-C", "relro-level=off", "-C", "link-arg=-Wl,-z,now", "--crate-type", "cdylib", "--crate-name", "rmon", "--extern", "r2u2_core", L / "shim.rs", "-o", f"{td}/m.so")
            shutil.move(f"{td}/m.so", str(out))
    return out


def build_cli(aux=True, defines=(), asan=False):
    """The command-line monitor, built from /repo's sources outside /repo."""
    key = tree_hash([CSRC], f"cli {aux} {asan} {defines}")
    out = BUILD / f"cli_{'aux' if aux else 'plain'}_{'asan' if asan else 'rel'}_{key}"
    with lock("mon"):
        if out.exists():
            os.utime(out)
            return out
        _prune("cli_", out.name)
        flags = ["-std=c99", "-D_POSIX_C_SOURCE=200112L", "-w", f"-I{CSRC}", *defines]
        if aux: flags.append("-DR2U2_AUX_STRING_SPECS=1")
        flags += ["-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"] if asan else ["-O2"]
        tmp = str(out) + ".tmp"
        sh(["clang" if asan else "gcc", *flags, *map(str, c_sources(cli=True)), "-lm", "-o", tmp])
        os.rename(tmp, out)
    return out


def copy_sources(bounds=None):
    """A copy of the monitor sources under build/, with another bounds.h."""
    key = tree_hash([CSRC], f"src {bounds}")
    out = BUILD / f"src_{key}"
    with lock("src"):
        if not out.exists():
            _prune("src_", out.name)
            tmp = pathlib.Path(tempfile.mkdtemp(dir=BUILD, prefix="src_tmp"))
            shutil.copytree(CSRC, tmp / "s")
            if bounds is not None: (tmp / "s/internals/bounds.h").write_text(bounds)
            os.rename(tmp / "s", out)
            shutil.rmtree(tmp, ignore_errors=True)
        os.utime(out)
    return out


def wide_bounds(**kw):
    """The repository's bounds.h with some sizes replaced."""
    t = (CSRC / "internals/bounds.h").read_text()
    import re
    for k, v in kw.items(): t = re.sub(rf"(#define {k}) .*", rf"\1 {v}", t)
    return t


def build_dump(aux=True, bounds=None):
    """The program of dump.c: what the monitor's loader makes of a binary."""
    src = copy_sources(bounds) if bounds is not None else CSRC
    key = tree_hash([CSRC, LIB / "dump.c"], f"dump {aux} {bounds}")
    out = BUILD / f"dump_{key}"
    with lock("mon"):
        if out.exists():
            os.utime(out)
            return out
        _prune("dump_", out.name)
        flags = [*CBASE, f"-I{src}", "-g", "-O1", "-fsanitize=address", "-fno-omit-frame-pointer"]
        if aux: flags.append("-DR2U2_AUX_STRING_SPECS=1")
        tmp = str(out) + ".tmp"
        sh(["clang", *flags, *map(str, c_sources(src)), str(LIB / "dump.c"), "-lm", "-o", tmp])
        os.rename(tmp, out)
    return out


class Known:
    """known_findings.txt: `finding: property=<id> key=<key> <what fails>` / `fixed: property=<id> <commit> <what failed>`"""
    def __init__(self, prop):
        self.prop, self.items, self.hit = prop, {}, set()
        f = ROOT / "known_findings.txt"
        if f.exists():
            for line in f.read_text().splitlines():
                if line.startswith("finding:"):
                    w = line.split(None, 3)
                    if w[1] == f"property={prop}":
                        self.items[w[2].removeprefix("key=")] = w[3] if len(w) > 3 else ""

    def match(self, key):
        if key in self.items:
            self.hit.add(key)
            return True
        return False


class Check:
    """One run of one check."""
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.known = Known(prop)
        self.viol = []
        self.nviol = 0
        self.samples = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0)
        self.assumptions = []
        self.budget = float(os.environ.get("VERIF_BUDGET", "0")) or (3000.0 if THOROUGH else 240.0)

    def left(self):
        return self.budget - (time.time() - self.t0)

    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + int(v)

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def violation(self, key, what, replay=None):
        """key identifies the failing input; what is a short text; replay is JSON-able."""
        if self.known.match(key):
            return
        self.nviol += 1
        if len(self.viol) < 5:
            d = ROOT / "replay"
            d.mkdir(exist_ok=True)
            p = d / f"{self.prop}_{len(self.viol)}.json"
            p.write_text(json.dumps(dict(property=self.prop, key=key, what=what, replay=replay), indent=1, default=str))
            self.viol.append((key, what, p))

    def finish(self):
        for k in sorted(self.known.hit):
            print(f"KNOWN-FINDING: property={self.prop} {k} {self.known.items[k]}")
        cov = dict(self.cov)
        cov["samples"] = self.samples
        ev = dict(property=self.prop, tier="thorough" if THOROUGH else "quick", seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=self.nviol)
        (ROOT / "evidence").mkdir(exist_ok=True)
        (ROOT / "evidence" / f"{self.prop}.json").write_text(json.dumps(ev, indent=1, default=str))
        print(f"{self.prop}: " + ", ".join(f"{k}={v}" for k, v in cov.items() if isinstance(v, (int, bool))) + f", {ev['wall_s']}s")
        for key, what, p in self.viol:
            print(f"  {what} [{key}]")
        for key, what, p in self.viol[:1]:
            print(f"VIOLATION property={self.prop} replay={p}")
        sys.stdout.flush()
        return 1 if self.nviol else 0
