"""P23: monitors built with the size bounds the compiler generates. P24: the monitor under the address, undefined-behaviour
and memory sanitizers with the bounds of the repository."""
import itertools, os, re, shutil, subprocess, time
import numpy as np
from lib import common, mltl, comp, sweep, mon, pool, bz, clirun, families as fam
import bzc, sugar
from multi import program_pool

V = {'p': (0, 1), 'i': (-1, 0, 2), 'x': (-0.5, 0.0, 3.0)}
FAR = (1, 2, 5, 64, 255, 256, 300, 4096, 1 << 20)


def act(kind, j, v):
    return mon.action({'p': mon.BOOL, 'i': mon.INT, 'x': mon.FLOAT}[kind], 0, j, v)


def letters(it):
    """cols: [(kind, column)]; every combination of values (or of two alternating ones when there are many signals),
    every letter also writes a column no signal is bound to."""
    cols = it["cols"]
    last = max([c for _, c in cols], default=-1)
    if len(cols) <= 3: vs = list(itertools.product(*[V[k] for k, _ in cols]))
    else: vs = [[V[k][(i * m + s) % len(V[k])] for i, (k, _) in enumerate(cols)] for m, s in ((0, 0), (0, 1), (1, 0), (3, 2))]
    if len(vs) > it.get("nl", 6): vs = fam.take(vs, it.get("nl", 6), 1)
    out = []
    for n, v in enumerate(vs):
        l = [act(k, c, x) for (k, c), x in zip(cols, v)]
        if it.get("extra", True): l.append([mon.action(mon.BOOL, 0, last + FAR[n % len(FAR)], 1), mon.action(mon.INT, 0, last + FAR[(n + 3) % len(FAR)], 7), mon.action(mon.FLOAT, 0, last + FAR[(n + 1) % len(FAR)], 2.5),
                                            mon.action(mon.STR, 0, last + FAR[(n + 2) % len(FAR)], it.get("str", "1.5"))][n % 4])
        out.append(l + [mon.action(mon.STEP)])
    return out


def B(spec, mp, cols, nf, D, **kw): return dict(spec=spec, map=mp, cols=cols, nf=nf, D=D, **kw)


def pure(fs, past, na, D, ids=None, names=None, extra="", **opts):
    """Boolean specification; ids: column of every atom."""
    ids = ids or list(range(na))
    return B(comp.spec_of([mltl.c2po(f) for f in fs], na, past, names, extra), "".join(f"a{k}:{j}\n" for k, j in enumerate(ids)), [('p', j) for j in ids], len(fs), D, opts=opts)


def items(T, seed):
    out = []
    ch = lambda xs, n: [xs[i:i + n] for i in range(0, len(xs), n)]
    iv = [(0, 0), (0, 1), (1, 2), (2, 5)]
    OPT = [{}, dict(rewrite=False), dict(cse=False), dict(extops=True), dict(aux=False), dict(scq=1), dict(scq=3, cse=False), dict(rewrite=False, cse=False, aux=False)]
    MAPS = [[0, 1, 2], [2, 0, 1], [0, 2, 4], [5, 3, 9], [1, 2, 3], [7, 0, 255], [100, 50, 200]]
    for past in (False, True):
        fs = fam.small(past, 1, iv) + fam.take(fam.small(past, 2, iv[1:3]), 400 if T else 60, seed) + fam.take(fam.pairs(past, [(0, 1), (1, 3)], [(0, 2)]), 400 if T else 60, seed)
        fs = [f for f in fs if mltl.atoms(f)]
        for k, f in enumerate(fam.take(fs, 200 if T else 36, seed)):
            na = fam.na_of([f])
            out.append(pure([f], past, na, 5 if na < 3 else 3, MAPS[k % 7][:na], **OPT[k % 8]))
        for k, c in enumerate(ch(fam.take(fs, 900 if T else 120, seed + 1), 5)):
            out.append(pure(c, past, 3, 3, MAPS[k % 7], names=[f"n{'m' * ((k * 7 + i) % 40)}{i}" if (i + k) % 3 else "" for i in range(len(c))] if k % 2 else None, **OPT[k % 8]))
        bg = fam.big(past) + fam.deep(past)
        for k, f in enumerate(fam.take(bg, 120 if T else 14, seed)):
            na = fam.na_of([f])
            out.append(dict(pure([f], past, na, 3, MAPS[k % 7][:na], **OPT[k % 8]), blocks=True))
        # declared inputs that are not used; atoms used alone, twice, negated
        for k, (n, us) in enumerate([(1, [0]), (3, [2]), (6, [5]), (6, [1, 4]), (40, [39, 3])]):
            t = [f"a{us[0]}", f"!a{us[-1]}", f"{'O' if past else 'F'}[0,2] a{us[0]}"]
            for fs_ in ([t[0]], [t[1]], t):
                for mp in (list(range(n)), [3 * j + 1 for j in range(n)]):
                    if k % 2 and mp[0]: mp = mp[::-1]
                    sp = comp.spec_of(fs_, n, past)
                    out.append(B(sp, "".join(f"a{q}:{mp[q]}\n" for q in range(n)), [('p', mp[u]) for u in us], len(fs_), 4, opts=OPT[(k + len(fs_)) % 8]))
                    if mp[0]: out.append(B(sp, "".join(f"a{q}:{mp[q]}\n" for q in us) + "zz:99\n", [('p', mp[u]) for u in us], len(fs_), 4, opts=OPT[(k + 3) % 8], mayrefuse=True))
    # header instead of a map
    for hdr, us in (("# x,y,a0,a1\n", [2, 3]), ("# a1,x,y,z,w,a0\n", [5, 0])):
        out.append(B(comp.spec_of(["F[0,2] a0", "a0 && a1"], 2), None, [('p', u) for u in us], 2, 4, trace=hdr + "0,0,0,0,0,0\n"))
    # value expressions, previous values, time
    sg = [bzc.I0, bzc.P0]
    es = ["i0 > 0", "prev(1, i0) == i0", "prev(true, p0)", "TAU > i0", "F[0,2] (i0 == 0 && p0)", "p0", "i0 + 2 > prev(-3, i0 * 2)", "true && p0", "i0 == 2147483647", "abs(i0) > 1 U[0,2] p0", "(i0 & 3) == 1", "p0 == prev(false, p0)"]
    BM = [([0, 1]), [1, 0], [3, 8], [60, 2]]
    sel = [[e] for e in es] + [list(c) for c in itertools.combinations(es, 2)][::1 if T else 4] + [es[:6], es[6:], es]
    for k, c in enumerate(sel):
        m = BM[k % 4]
        o = dict(OPT[k % 8], bz=True)
        out.append(B("INPUT i0: int; p0: bool;\nFTSPEC\n" + "".join(f"  {e};\n" for e in c), f"i0:{m[0]}\np0:{m[1]}\n", [('i', m[0]), ('p', m[1])], len(c), 3, opts=o))
    for k, e in enumerate(["x0 > 1.5", "prev(0.5, x0) == x0", "x0 * 2.0 > x1", "O[0,3] (x0 != x1)", "x0 > 0.0 S[1,2] x1 > 0.0"]):
        m = BM[k % 4]
        out.append(B(f"INPUT x0, x1: float;\n{'PTSPEC' if '[' in e else 'FTSPEC'}\n  {e};\n", f"x0:{m[0]}\nx1:{m[1]}\n", [('x', m[0]), ('x', m[1])], 1, 3, opts=dict(OPT[k], bz=True)))
    # many constants, previous values and stores of either type
    for k, (ty, c) in enumerate((t, n) for t in ("int", "float") for n in (2, 3, 7)):
        v = (lambda j: f"{j}.5") if ty == "float" else str
        forms = ["  " + " + ".join(["y0"] + [v(j) for j in range(1, c)]) + " > y1;\n", "".join(f"  y0 > {v(j)};\n" for j in range(c)), "".join(f"  prev({v(j)}, y{j % 2}) == y0;\n" for j in range(c)),
                 "  " + " && ".join(f"y{j % 2} < {v(j)}" for j in range(c)) + ";\n", "  F[0,2] (y0 == " + v(1) + ") -> (y1 == " + v(c) + ");\n"]
        for q, t in enumerate(forms):
            m = BM[(k + q) % 4]
            out.append(B(f"INPUT y0, y1: {ty};\nFTSPEC\n{t}", f"y0:{m[0]}\ny1:{m[1]}\n", [(ty[0].replace("f", "x"), m[0]), (ty[0].replace("f", "x"), m[1])], t.count(";"), 2, opts=dict(OPT[(k + q) % 8], bz=True)))
    # Booleanizer on, nothing but Booleans
    for past in (False, True):
        for k, f in enumerate(fam.take(fam.small(past, 1, iv) + fam.small(past, 2, [(0, 2)]), 60 if T else 12, seed)):
            if not mltl.atoms(f): continue
            na = fam.na_of([f])
            it = pure([f], past, na, 4, MAPS[k % 7][:na], **OPT[k % 8]); it["opts"]["bz"] = True; out.append(it)
    # arrays, sets, structs, enums
    for k, (decl, e, cols) in enumerate([
            ("INPUT A: int[3]; p: bool;\n", "A[2] > 0", [('i', 2)]), ("INPUT A: int[3]; p: bool;\n", "foreach(v: A)(v > 0)", [('i', 0), ('i', 1), ('i', 2)]),
            ("INPUT P: bool[4];\n", "forexactly(v: P, 2)(v)", [('p', j) for j in range(4)]), ("INPUT P: bool[4];\n", "P[3]", [('p', 3)]),
            ("STRUCT Rec: {a: bool; n: int;}; INPUT q, w: bool; m: int;\nDEFINE r := Rec(w, m);\n", "F[0,1] r.a", [('p', 1)]),
            ("STRUCT Rec: {a: bool; n: int;}; INPUT q, w: bool; m: int;\nDEFINE r := Rec(w, m);\n", "r.n > 0 && q", [('p', 0), ('i', 2)]),
            ("ENUM E: {X, Y: 5};\nINPUT z: int; e: E;\n", "e == Y", [('i', 1)])]):
        cn = {1: "A", 2: "A"}
        names = re.findall(r"(\w+(?:, \w+)*): (\w+)(\[\d\])?;", decl.split("INPUT")[1].split("DEFINE")[0])
        mp, j = "", 0
        for ns, ty, arr in names:
            for n in ns.split(", "):
                if arr:
                    for q in range(int(arr[1:-1])): mp += f"{n}[{q}]:{j}\n"; j += 1
                else: mp += f"{n}:{j}\n"; j += 1
        out.append(B(decl + f"FTSPEC\n  {e};\n", mp, cols, 1, 3, opts=dict(OPT[k % 8], bz=True)))
    # labels, contracts, both sections
    both = "FTSPEC\n la: F[0,2] p0;\n c1: p0 => G[0,2] p1;\n lb: la && p1;\n c2: la => lb;\nPTSPEC\n ma: O[0,2] p0;\n c3: p1 => H[1,4] p0;\n p1 S[2,3] p0;\n"
    nfb = 3 + 3 + 1 + 1 + 1 + 1 + 3
    for k, t in enumerate((both, both.replace("p1;", "p0 && p1;"), "PTSPEC\n" + both.split("PTSPEC\n")[1] + both.split("PTSPEC\n")[0])):
        for o in OPT: out.append(B("INPUT p0, p1: bool;\n" + t, "p0:0\np1:1\n", [('p', 0), ('p', 1)], nfb, 4, opts=o))
    for n in (1, 2, 10, 30, 36, 48):
        out.append(B(f"INPUT p0, p1: bool;\nFTSPEC\n {'n' * n}: p0;\n", "p0:0\np1:1\n", [('p', 0), ('p', 1)], 1, 3, opts={}))
        out.append(B(f"INPUT p0, p1: bool;\nFTSPEC\n {'n' * n}: p0;\n {'m' * n}: p0 => p1;\n", "p0:0\np1:1\n", [('p', 0), ('p', 1)], 4, 3, opts={}, mayrefuse=n > 36))
    for n in (3, 12, 40): out.append(B("INPUT p0, p1: bool;\nFTSPEC\n" + "".join(f" {'!' * (k % 3)}p0 U[0,{k}] p1;\n" for k in range(n)), "p0:0\np1:1\n", [('p', 0), ('p', 1)], n, 3, opts={}))
    return out


def compile_item(it):
    o = dict(it.get("opts") or {})
    return comp.cli(it["spec"], map_text=it["map"], trace_text=it.get("trace"), bounds=".h", **o)


# ---- P23 ----------------------------------------------------------------------------------------------------------
_src = {}


def bounded(bounds, asan=True):
    """Monitor built with the given bounds.h, as a shared object in the scratch directory."""
    d = comp.tmpdir()
    if _src.get("d") != d:
        shutil.copytree(common.CSRC, d / "csrc"); _src["d"] = d
    src = d / "csrc"
    (src / "internals/bounds.h").write_text(bounds)
    so = d / "bounded.so"
    cs = [str(p) for p in common.c_sources(src)]
    p = subprocess.run(["clang", *common.CBASE, "-DNMON=1", f"-I{src}", "-DR2U2_AUX_STRING_SPECS=1", "-O0", "-fsanitize=address", "-shared", "-Wl,-z,norelro", "-Wl,-z,now", *cs,
                        str(common.LIB / "shim.c"), "-lm", "-o", str(so)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return (so, "") if p.returncode == 0 else (None, p.stdout[-1500:])


def tree(it, S, binary):
    L = letters(it)
    pre = [mon.action(mon.LOAD)]
    if it.get("blocks"):
        L = [l + [mon.action(mon.STEP)] * (n - 1) for l, n in zip(L + L, (1, 9, 3, 40, 2, 70, 5, 1))]
        return S.job([binary], pre, L[:4], it["D"], [it["nf"]], mw=8)
    return S.job([binary], pre, L, it["D"], [it["nf"]])


def sufficient(it):
    c = compile_item(it)
    if not c.ok:
        if it.get("mayrefuse") and not c.exc: return None, 0, 0, False
        return dict(kind="not compiled", rc=c.rc, exc=c.exc, err=(c.err + c.out)[-300:]), 0, 0, False
    if not c.console: return dict(kind="no bounds written", err=(c.err + c.out)[-300:]), 0, 0, False
    so, msg = bounded(c.console)
    if so is None: return dict(kind="monitor does not build with the generated bounds", err=msg, bounds=c.console), 0, 0, False
    S = mon.Server(so, True, 1)
    try:
        x = tree(it, S, c.binary)
        err = S.lasterr if x.status in (3, 4, 7) else ""
    finally: S.close()
    if x.status: return dict(kind=x.why, path=x.path, formula=x.formula, time=x.time, err=err[-1500:], bounds=c.console), x.nodes, 0, True
    y = tree(it, sweep.srv("aux"), c.binary)
    if y.status: return dict(kind="ample bounds: " + y.why, path=y.path), x.nodes, 0, True
    if not np.array_equal(x.leaves, y.leaves):
        i, k = [int(a[0]) for a in np.nonzero((x.leaves != y.leaves).reshape(x.nleaf, it["nf"], -1).any(axis=2))]
        return dict(kind="other verdicts than with ample bounds", formula=k, leaf=i, got=x.leaves[i, k].tolist(), expected=y.leaves[i, k].tolist(), bounds=c.console), x.nodes, 0, True
    return None, x.nodes, x.nleaf, True


def files(it):
    """The command-line monitor built with the generated bounds on trace files with more columns than the specification knows."""
    c = compile_item(it)
    if not c.ok: return None, 0, 0, False
    d = comp.tmpdir()
    so, msg = bounded(c.console)
    if so is None: return dict(kind="monitor does not build with the generated bounds", err=msg, bounds=c.console), 0, 0, False
    src = d / "csrc"; exe = d / "bounded_cli"
    p = subprocess.run(["clang", "-std=c99", "-D_POSIX_C_SOURCE=200112L", "-w", f"-I{src}", "-DR2U2_AUX_STRING_SPECS=1", "-O0", "-fsanitize=address", *map(str, common.c_sources(src, cli=True)), "-lm", "-o", str(exe)],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: return dict(kind="monitor does not build with the generated bounds", err=p.stdout[-1000:], bounds=c.console), 0, 0, False
    n = 0
    kinds = dict((j, k) for k, j in it["cols"])
    last = max(kinds, default=0)
    for extra in (0, 1, 3, 40, 300):
        rows = "".join(",".join(("%.2f" % V['x'][(r + j) % 3]) if kinds.get(j) == 'x' else str(V[kinds.get(j, 'p')][(r + j) % len(V[kinds.get(j, 'p')])]) for j in range(last + 1 + extra)) + "\n" for r in range(5))
        a = clirun.run(exe, c.binary, rows); b = clirun.run(EXE["ample"], c.binary, rows)
        n += 1
        if a[0] != 0 or b"Sanitizer" in a[2]: return dict(kind="crash", file=rows[:200], extra_columns=extra, rc=a[0], err=a[2].decode("latin1")[:1200], bounds=c.console), n, 0, True
        if a[1] != b[1]: return dict(kind="other verdicts than with ample bounds", file=rows[:200], got=a[1][:200], expected=b[1][:200], bounds=c.console), n, 0, True
    return None, n, n, True


EXE = {}


def report(chk, name, its, fn, frac=1.0, chunk=2):
    end = time.time() + chk.left() * frac
    done = 0
    for it, (e, nodes, leaves, ran) in pool.run(fn, its, chunk=chunk, left=lambda: end - time.time()):
        done += 1
        chk.add(states=nodes, transitions=nodes, programs=int(ran), traces_validated_against_impl=leaves)
        if not ran: chk.add(refused=1)
        if e:
            key = f"{e['kind'].replace(' ', '_')}:{re.sub(chr(92) + 's+', '', it.get('spec', str(it.get('name'))))[:80]}|{it.get('opts', {})}".replace(" ", "")
            chk.violation(key, f"{e['kind']}: {it.get('spec', it.get('name'))!r} map {it.get('map')!r} options {it.get('opts')} " + str({k: v for k, v in e.items() if k != 'kind'})[:700], dict(item=it, error=e))
            if chk.nviol >= 3: break
    chk.cov.setdefault("families", {})[name] = dict(done=done, of=len(its), exhaustive=done == len(its))
    if its: chk.sample(dict(family=name, specification=str(its[len(its) // 2].get("spec", its[len(its) // 2]))[:300]))


def run23(chk):
    common.build_explorer(True)
    sweep.prepare("aux")
    T = common.THOROUGH
    wide = common.wide_bounds(R2U2_MAX_SIGNALS=4096, R2U2_MAX_ATOMICS=4096)
    EXE["ample"] = common.build_cli(aux=True)
    its = items(T, common.SEED)
    report(chk, "explored", its, sufficient, 0.8)
    fl = [i for i in its if max([c for _, c in i["cols"]], default=0) < 60]
    named = [i for i in fl if re.search(r"^ +\w+: ", i["spec"], re.M) and (i.get("opts") or {}).get("aux", True)]
    report(chk, "files", fam.take(named, 300 if T else 24, common.SEED) + fam.take(fl, 300 if T else 12, common.SEED), files, 1.0)
    chk.cov["bounds"] = "one to 40 formulas, intervals up to 128, sparse signal maps up to column 255, complete input trees to depth 3-5, block traces up to 210 steps"
    chk.assumptions += ["monitor built with -O0 and AddressSanitizer; every array of the default monitor is a separate object", "columns no signal is bound to may be written by the caller (trace files may have more columns)"]
    return chk.finish()


# ---- P24 ----------------------------------------------------------------------------------------------------------
def sane(it):
    """Complete input tree with the instrumented monitor."""
    c = compile_item(it)
    if not c.ok:
        if it.get("mayrefuse") and not c.exc: return None, 0, 0, False
        return dict(kind="not compiled", rc=c.rc, exc=c.exc, err=(c.err + c.out)[-300:]), 0, 0, False
    n = k = 0
    for v in it.get("variants", ("asan_aux",)):
        S = sweep.srv(v)
        x = tree(it, S, c.binary)
        n += x.nodes; k += x.nleaf
        if x.status: return dict(kind=x.why, variant=v, path=x.path, formula=x.formula, time=x.time, err=(S.lasterr if x.status in (3, 4, 7) else "")[:1500]), n, 0, True
    return None, n, k, True


def history(it):
    """Several specifications in one monitor with resets in between: every sequence of operations."""
    from multi import PROG, programs, hist_actions
    programs()
    order = it["order"]
    n = 0
    for v in ("asan_aux", "msan_aux"):
        S = sweep.srv(v)
        x = S.job([PROG[p][0] for p in order], hist_actions(it["hist"], order), [], 0, [12], linear=True, lenient=True)
        n += x.steps
        if x.status in (3, 4, 7): return dict(kind=x.why, variant=v, hist=it["hist"], err=S.lasterr[:1500]), n, 0, True
    return None, n, 1, True


def trace_file(it):
    c = compile_item(it)
    if not c.ok: return dict(kind="not compiled", rc=c.rc, exc=c.exc, err=(c.err + c.out)[-300:]), 0, 0, False
    n = 0
    for f in it["files"]:
        rc, out, err = clirun.run(EXE["asan"], c.binary, f, stdin=it.get("stdin", False))
        n += 1
        if b"Sanitizer" in err or b"runtime error" in err or rc == "timeout" or (isinstance(rc, int) and rc < 0):
            return dict(kind="crash" if rc != "timeout" else "does not end", file=f[:300], rc=rc, err=err.decode("latin1")[:1500]), n, 0, True
    return None, n, n, True


def capacity(T):
    """Specifications at the configured bounds: every table exactly full and one short of full."""
    out = []
    b = {k: int(v) for k, v in re.findall(r"#define (R2U2_\w+) (\d+)\s*$", (common.CSRC / "internals/bounds.h").read_text(), re.M)}
    V2 = lambda n: [('p', j) for j in range(n)]
    # atomics / signals
    for n in {b["R2U2_MAX_ATOMICS"] - 1, b["R2U2_MAX_ATOMICS"]}:
        ids = [0, n - 2, n - 1]
        for past in (False, True): out.append(dict(pure([('&', ('a', 0), ('a', 2)), ('a', 1)], past, 3, 3, ids), variants=("asan", "asan_aux")))
    n = b["R2U2_MAX_SIGNALS"]
    for ids in ([n - 1, 0], [n - 2, n - 1]):
        out.append(B("INPUT i0: int; p0: bool;\nFTSPEC\n  i0 > 0;\n  prev(true, p0);\n", f"i0:{ids[0]}\np0:{ids[1]}\n", [('i', ids[0]), ('p', ids[1])], 2, 4, opts=dict(bz=True)))
    # instruction tables: n formulas "p" need n loads (one, with CSE) and n returns
    n = b["R2U2_MAX_TL_INSTRUCTIONS"]
    for m in (n // 2 - 1, n // 2):
        names = [f"q{k}" for k in range(m)]
        out.append(B(comp.spec_of([f"a{k}" for k in range(m)], m, False, names), comp.map_of(m), V2(m), m, 2, opts=dict(aux=False)))
        out.append(B(comp.spec_of([f"a{k}" for k in range(m)], m, True), comp.map_of(m), V2(m), m, 2, opts=dict()))
    n = b["R2U2_MAX_BZ_INSTRUCTIONS"]
    # load, constant, comparison, store
    for m in (n // 4, n // 4 - 1):
        out.append(B("INPUT " + ",".join(f"i{k}" for k in range(m)) + ": int;\nFTSPEC\n" + "".join(f" i{k} == {k};\n" for k in range(m)), "".join(f"i{k}:{k}\n" for k in range(m)), [('i', k) for k in range(m)], m, 2, opts=dict(bz=True)))
    n = b["R2U2_MAX_TEMPORAL_OPERATORS"]
    # F is `true U p` or a temporal operator of its own: one temporal operator for each formula; load, operator, return
    for m in (n // 2, b["R2U2_MAX_TL_INSTRUCTIONS"] // 3 - 2):
        for past in (False, True):
            out.append(B(comp.spec_of([f"a{k} {'S' if past else 'U'}[0,{k % 3}] a{k + 1}" for k in range(m)], m + 1, past), comp.map_of(m + 1), V2(m + 1), m, 2, opts=dict()))
    # queue slots: the length of the queues of a program is known from its generated bounds
    q = b["R2U2_MAX_QUEUE_SLOTS"]
    for past in (False, True):
        u, o = ("S", "O") if past else ("U", "F")
        for h in (q // 2, q - 60, q - 30, q - 20, q - 15, q - 14, q - 13, q - 12, q - 11, q - 10, q - 9, q - 8, q - 7, q - 6, q - 5, q - 4, q - 3):
            for f in (f"a0 {u}[0,{h}] a1", f"{o}[{h},{h}] (a0 && {o}[0,1] a1)", f"({o}[{h // 2},{h // 2}] a0) {u}[0,{h // 2}] a1"):
                out.append(dict(B(comp.spec_of([f], 2, past), comp.map_of(2), V2(2), 1, 4, opts=dict()), full=True))
    # names: the arena for auxiliary data
    n = b["R2U2_MAX_AUX_BYTES"]
    for m in (n // 32 - 1, n // 32, n // 32 + 1, n // 8, 126, 127, 128):
        w = max(4, n // m - 1) if m < 100 else 6
        for d in (-1, 0, 1):
            names = [("n" * 60)[:min(49, w + d) - len(str(k))] + str(k) for k in range(m)]
            if m > b["R2U2_AUX_MAX_FORMULAS"]: continue
            out.append(B(comp.spec_of(["a0"] * m, 1, False, names), comp.map_of(1), V2(1), m, 2, opts=dict(), variants=("asan", "asan_aux")))
    n = b["R2U2_AUX_MAX_CONTRACTS"]
    for m in (n // 2, n // 2 + 1):
        if 3 * m > b["R2U2_AUX_MAX_FORMULAS"]: continue
        out.append(B("INPUT p0, p1: bool;\nFTSPEC\n" + "".join(f" c{k}: {'!' * (k % 3)}p0 => F[0,{k % 2}] p1;\n" for k in range(m)), "p0:0\np1:1\n", V2(2), 3 * m, 2, opts=dict()))
    return out, b


def full(it):
    """Only specifications that fit the configured bounds."""
    c = compile_item(it)
    if not c.ok: return None, 0, 0, False
    need = {k: int(v) for k, v in re.findall(r"#define (R2U2_\w+) (\d+)\s*$", c.console or "", re.M)}
    if any(need.get(k, 0) > v for k, v in it["limits"].items()): return None, 0, 0, False
    e, n, k, ran = sane(it)
    if e: e["need"] = {k: v for k, v in need.items() if v > 0.9 * it["limits"].get(k, 1e9)}
    return e, n, k, ran


def files24(T):
    out = []
    sp = [B("INPUT a0, a1: bool;\nFTSPEC\n F[0,2] a0;\n a0 U[0,3] a1;\n", "a0:0\na1:1\n", [], 2, 0, opts={}),
          B("INPUT a0, a1: bool;\nPTSPEC\n c1: O[0,2] a0 => H[0,1] a1;\n l: a0 S[0,3] a1;\n", "a0:0\na1:1\n", [], 4, 0, opts={}),
          B("INPUT i0: int; x0: float; p0: bool;\nFTSPEC\n F[0,2] (i0 > 3);\n prev(1.5, x0) < x0 && p0;\n", "i0:0\nx0:1\np0:2\n", [], 2, 0, opts=dict(bz=True))]
    fields = ["0", "1", "-1", "2.5", "", " ", "1 ", "\t1", "true", "x", "1e3", "99999999999", "-99999999999", "nan", "inf", ".", "-", "+", "0x10", "@", "@3", "@3 1", "@-1 1", "@x 1", "\"1\"", "#", "1.0000000000000000000000000000000000001"]
    rows = [",".join(t) for t in itertools.product(fields, ["0", "1", "", "2.5"])] + fields + [f"@{t} {v},1" for t in (0, 1, 5, 100, 4294967295, 4294967296, -1, "x", "") for v in ("1", "", " 1", "x")]
    edge = []
    for n in (255, 256, 257, 300, 1000, 4000, 8000): edge += [",".join("1" for _ in range(n)), ",".join("1.5" for _ in range(n)), "," * n]
    for n in (8189, 8190, 8191, 8192, 8193, 16383, 20000): edge += ["1" * n, " " * n, "1," + "0" * n, "# " + "a" * n, "@" + "1" * n, "1," * (n // 2)]
    for s in sp:
        fl = []
        for r in rows:
            for nl in ("\n", "", "\r\n"): fl.append("1,0,1\n" + r + nl)
            fl.append(r + "\n" + "0,1,0\n"); fl.append("# a,b\n" + r + "\n1,1,1\n"); fl.append(r + "\n" + r + "\n\n" + r)
        for r in edge:
            fl += [r, r + "\n", r + "\n" + "1,0,1\n" + r + "\n", "#" + r + "\n1,0,1\n", "1,0,1\n" + r + "\n0,1,1\n"]
        fl += ["", "\n", "\n\n\n", "#", "#\n", "# a,b", "#\n#\n", "\x00", "1,0\n\x00\n", "1\x00,1\n", "\xff\xfe\n1,1\n", ",", ",,\n", "@", "@\n", "@ \n", "@ 1\n", "@1\n1,1\n", "@1", "@1 \n1\n"]
        for k in range(0, len(fl), 40): out.append(dict(s, files=fl[k:k + 40], name="files", stdin=bool((k // 40) % 3 == 2)))
    return out


def run24(chk):
    T = common.THOROUGH
    for v in ("asan_aux", "asan", "msan_aux"): sweep.prepare(v)
    EXE["asan"] = common.build_cli(aux=True, asan=True)
    from multi import PROG, programs, OPS
    cap, lim = capacity(T)
    for it in cap: it["limits"] = lim
    report(chk, "capacity", cap, full, 0.3)
    its = items(T, common.SEED)
    for k, it in enumerate(its):
        if max([c for _, c in it["cols"]], default=0) > 255: it["mayrefuse"] = True
        it["D"] = it["D"] + (1 if not it.get("blocks") and len(letters(it)) <= 4 else 0)
        it["variants"] = ("asan", "asan_aux", "msan_aux") if k % 4 == 0 else ("asan_aux", "msan_aux")
    report(chk, "explored", its, sane, 0.6, chunk=4)
    names = [p[0] for p in program_pool()]
    hs = []
    for a in names:
        for b in names:
            for ops in [[], ["clock"], ["soft"], ["hard"], ["hard", "step"], ["clock", "step"], ["soft", "step"]]:
                mid = [("step", 1) if o == "step" else (o,) for o in ops]
                hs.append(dict(name="history", order=[a, b], hist=[("load", a)] + [("step", k) for k in (1, 2, 0, 3)] + mid + [("load", b)] + [("step", k) for k in (3, 1, 0, 2, 1, 3)] + [("load", a), ("step", 1), ("step", 2)]))
    report(chk, "histories", hs, history, 0.5, chunk=16)
    report(chk, "files", files24(T), trace_file, 1.0, chunk=1)
    chk.cov["bounds"] = "programs up to the configured bounds, complete input trees to depth 3-6, every pair of twelve programs loaded one after the other around resets, trace files from a grammar of fields and line ends including rows longer than the read buffer"
    chk.assumptions += ["signal values are chosen so that the arithmetic a specification asks for does not overflow (that is the specification's own doing)", "AddressSanitizer sees each array of the default monitor as one object; a queue running into its neighbour is left to P01-P04"]
    return chk.finish()
