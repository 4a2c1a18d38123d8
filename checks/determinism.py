"""P25: the output of a compilation against the same compilation under other hash seeds, memory layouts, working directories
and after every bounded sequence of other compilations in the same process and in the same session."""
import itertools, json, os, subprocess, sys, threading, queue
from lib import common, mltl, comp, bz, families as fam
import bzc

WORKER = common.LIB / "detworker.py"
PY = sys.executable


def lines_of(o):
    """The commands for one compilation; every option is set explicitly so that a session carries none over."""
    L = ["enable_booleanizer" if o.get("bz") else "disable_booleanizer", f"set_mission_time {o.get('mission', -1)}", "{parse}"]
    if o.get("trace"): L.append("parse_trace {d}/t.csv")
    if o.get("map", True): L.append("parse_map {d}/s.map")
    L += ["type_check", "desugar"]
    if o.get("rewrite", True): L.append("optimize_rewrites")
    if not o.get("extops"): L.append("remove_extended_operators")
    if o.get("cse", True): L.append("optimize_cse")
    for x in o.get("extra", ()): L.append(x)
    L += ["write_c2po {d}/o.c2po", "write_prefix {d}/o.prefix", "multi_operators_to_binary", "remove_extended_operators",
          "assemble --aux --print --assembly-filename {d}/o.asm {d}/o.bin" if o.get("aux", True) else "assemble --no-aux --print --assembly-filename {d}/o.asm {d}/o.bin",
          "write_bounds_c {d}/o.h", "write_bounds_rust {d}/o.toml"]
    if o.get("mltl"): L.insert(-2, "write_mltl {d}/o.mltl")
    return L


def S(spec, mp, kind="c2po", **o):
    f = {f"s.{kind}": spec, "s.map": mp}
    if o.get("trace"): f["t.csv"] = o["trace"]
    return [f, [l.replace("{parse}", f"parse_{kind} {{d}}/s.{kind}") for l in lines_of(o)]]


PURE = """INPUT p, q, r: bool;
DEFINE d := p && q; e := d || r;
FTSPEC
  one: e U[0,3] r; (p && q && r) || d; G[0,2] (p -> q); contract: p => F[0,2] q; p <-> r; p xor q;
  two: !(p R[1,2] q); G[1,1] r; F[0,2] (q && p) && G[0,2] (p && q);
PTSPEC
  three: p S[0,4] (q && p); H[0,2] d; O[1,3] (r || q || p); once: q => O[0,1] r; p T[0,2] q;
"""
RICH = """STRUCT
  Req: { st: bool[3]; at, num: int; lvl: float; };
ENUM
  E: {IDLE, RUN, STOP};
  F2: {A1, B1};
INPUT
  a, b, c: bool; i, j, k: int; x, y: float; st: E; arr: int[4]; bs: bool[3];
DEFINE
  r0 := Req({a, b, c}, i, j, x); r1 := Req(bs, k, i, y);
  rs := {r0, r1};
  lim := 3;
FTSPEC
  named: foreach(r: rs)(r.at > lim -> F[0,3] forsome(m: r.st)(m));
  forexactly(b0: bs, 2)(b0); foratleast(q: arr, 1)(q > i + 1); foratmost(q: arr[1..2], 1)(q == j);
  st == RUN U[0,2] st == STOP;
  con: (i + j * 2 > k) => (x > y || prev(false, a));
  prev(1, i) == i && TAU > 2; abs(i - j) < 3; r1.st[1]; {r0, r1}[1].num > 2;
  x + 0.5 > y; arr[1..2] == arr[2..3];
PTSPEC
  past: O[0,4] (foreach(r: {r0})(r.num == r.at)); prev(1, i) == i; H[1,2] (st == IDLE);
"""
RICHMAP = "".join(f"{s}:{n}\n" for n, s in enumerate(["a", "b", "c", "i", "j", "k", "x", "y", "st"] + [f"arr[{i}]" for i in range(4)] + [f"bs[{i}]" for i in range(3)]))
PMAP = "p:0\nq:1\nr:2\n"
BZ1 = "INPUT i, j: int; p: bool;\nFTSPEC i > j; F[0,2] (i == j && p); (i > j) || (j < i); i + j > j + i; prev(2, i) > prev(2, j);\nPTSPEC O[0,2] (i > j); i > j;\n"
BZMAP = "i:0\nj:1\np:2\n"
ML = "a0 & G[0,3] (a1 -> F[0,2] a0)\n!a1 U[1,4] (a0 | a1)\na2 <-> a1\n"
BAD = [S("INPUT p: bool; FTSPEC p &&;", "p:0\n"), S("INPUT p: bool; FTSPEC q;", "p:0\n"), S("INPUT i: int; FTSPEC i;", "i:0\n", bz=True),
       S("INPUT p: bool; FTSPEC p;", "q:0\n"), S("ENUM E: {X1, Y1}; INPUT p: E; FTSPEC nosuch == X1;", "p:0\n", bz=True)]


def specs(T, seed):
    out = [S(PURE, PMAP), S(PURE, "r:7\np:2\nq:0\n", rewrite=False), S(PURE, PMAP, cse=False), S(PURE, PMAP, extops=True), S(PURE, PMAP, aux=False),
           S(RICH, RICHMAP, bz=True), S(RICH, RICHMAP, bz=True, rewrite=False), S(RICH, RICHMAP, bz=True, cse=False), S(RICH, RICHMAP, bz=True, extops=True, aux=False),
           S(BZ1, BZMAP, bz=True), S(BZ1, "i:3\nj:0\np:9\n", bz=True, cse=False), S(ML, "", "mltl", map=False), S(ML, "", "mltl", map=False, cse=False, mltl=True),
           S("INPUT p, q: bool; FTSPEC G[M] p; F[0,M] q;", "p:0\nq:1\n", mission=4), S(PURE, None or "", trace="# r,p,q\n0,0,0\n0,1,1\n", map=False),
           S("ENUM E: {IDLE, STOP, RUN}; INPUT st: E; p: bool; FTSPEC st == RUN; p; PTSPEC O[0,1] st == STOP;", "st:1\np:0\n", bz=True),
           S("STRUCT R1: {a: bool; b: bool;}; INPUT p, q: bool; DEFINE d := R1(p, q); FTSPEC d.a && d.b;", "p:0\nq:1\n"),
           S("STRUCT Req: {a: bool; b: bool;}; INPUT p, q: bool; DEFINE r0 := Req(p, q); FTSPEC r0.a U[0,2] r0.b;", "p:0\nq:1\n"),
           S("INPUT a, b: bool; i: int; DEFINE r0 := a || b; lim := 4; FTSPEC named: r0; past: i > lim;", "a:0\nb:1\ni:2\n", bz=True)]
    T1 = ["to_nnf", "to_bnf", "flatten_multi_operators", "sort_operands_by_pd", "remove_release_operators"]
    for n, x in enumerate(T1): out.append(S("INPUT p, q, r: bool; FTSPEC (p && q && r) -> (p R[0,2] !(q || r)); (F[0,3] p) && q && (G[0,1] r);", PMAP, extra=[x], rewrite=bool(n % 2)))
    for past in (False, True):
        iv = [(0, 0), (0, 2), (1, 3)]
        fs = fam.take(fam.small(past, 1, iv) + fam.small(past, 2, iv[1:2]) + fam.pairs(past, [(0, 1)], [(0, 2), (1, 2)]), 1500 if T else 240, seed)
        for k in range(0, len(fs), 3):
            g = [f for f in fs[k:k + 3]]
            na = max(fam.na_of([f]) for f in g)
            out.append(S(comp.spec_of([mltl.c2po(f) for f in g], na, past, ["n%d" % k, None, "m"]), comp.map_of(na), rewrite=bool(k & 1), cse=bool(k % 4 < 2), extops=bool(k % 5 == 0)))
        fs = fam.take(fam.big(past) + fam.deep(past), 80 if T else 10, seed)
        for f in fs: out.append(S(comp.spec_of([mltl.c2po(f)], fam.na_of([f]), past), comp.map_of(fam.na_of([f]))))
    # many shared subformulas, many formulas, many names: where an unordered collection would show
    n = 24
    A = [f"s{i}" for i in range(n)]
    decl = "INPUT " + ", ".join(A) + ": bool; " + ", ".join(f"v{i}" for i in range(8)) + ": int;\n"
    M = "".join(f"{s}:{(i * 7) % n}\n" for i, s in enumerate(A)) + "".join(f"v{i}:{n + i}\n" for i in range(8))
    for rot in range(0, n, 1 if T else 4):
        R = A[rot:] + A[:rot]
        body = "".join(f"f{i}: F[0,{i % 4 + 1}] ({R[i]} && {R[(i + 5) % n]}) || (v{i % 8} > v{(i + 3) % 8} + 1) && ({R[(i + 5) % n]} && {R[i]});\n" for i in range(n))
        out.append(S(decl + "FTSPEC\n" + body, M, bz=True))
        out.append(S(decl + "FTSPEC\n" + body + "PTSPEC\n" + "".join(f"g{i}: {R[i]} S[0,{i % 3 + 1}] (v{i % 8} == v{(i + 1) % 8}); c{i}: {R[i]} => O[0,1] {R[(i * 5 + 1) % n]};\n" for i in range(n)), M, bz=True, cse=bool(rot % 8)))
        out.append(S(decl + "FTSPEC\n" + " && ".join(R) + ";" + " || ".join(f"({R[i]} <-> {R[i - 1]})" for i in range(n)) + ";", M, bz=bool(rot % 8)))
    return out


def session_specs():
    s = specs(False, 1)
    base = s[:24]
    return base + [s[40], s[60]] + BAD


class Workers:
    """Runs job lists in worker processes, each with its own hash seed."""
    def __init__(self, left): self.left = left

    def run(self, groups, progress=None):
        """groups: [(hash seed, [job...])] -> [[result...]]"""
        res = [None] * len(groups)
        q = queue.Queue()
        for i, g in enumerate(groups): q.put((i, g))

        def loop():
            while True:
                try: i, (hs, jobs) = q.get_nowait()
                except queue.Empty: return
                if self.left() <= 0: continue
                env = dict(os.environ, PYTHONHASHSEED=str(hs))
                p = subprocess.run([PY, str(WORKER)], input=json.dumps(jobs), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
                try:
                    o = [json.loads(l) for l in p.stdout.splitlines()]
                    if len(o) != len(jobs): raise ValueError(f"{len(o)} results for {len(jobs)} jobs")
                except ValueError as e: o = common.CheckError(f"worker: {e} {p.stderr[-800:]}")
                res[i] = o
        th = [threading.Thread(target=loop) for _ in range(common.NPROC)]
        for t in th: t.start()
        for t in th: t.join()
        for o in res:
            if isinstance(o, common.CheckError): raise o
        return res


def key(r): return json.dumps([r["out"], r["rc"], r["exc"]], sort_keys=True)


def differ(a, b):
    if a["rc"] != b["rc"] or a["exc"] != b["exc"]: return f"status {a['rc']} {a['exc'] or ''} against {b['rc']} {b['exc'] or b['err'][-160:]}"
    return "different " + ", ".join(sorted(n for n in set(a["out"]) | set(b["out"]) if a["out"].get(n) != b["out"].get(n)))


def run(chk):
    T = common.THOROUGH
    sp = specs(T, common.SEED)
    W = Workers(chk.left)
    N = 24
    ch = lambda xs: [xs[i:i + N] for i in range(0, len(xs), N)]
    # 1. the reference: hash seed 0, fresh process, fresh console
    single = [dict(runs=[s]) for s in sp]
    ref = sum(W.run([(0, c) for c in ch(single)]), [])
    bad = [i for i, r in enumerate(ref) if r["exc"]]
    for i in bad[:3]: raise common.CheckError(f"reference compilation failed: {ref[i]} {sp[i][0]}")
    okn = sum(r["rc"] == 0 for r in ref)
    if okn < 0.9 * len(ref): raise common.CheckError(f"only {okn} of {len(ref)} specifications compile: " + str(next((r, s[0]) for r, s in zip(ref, sp) if r['rc'])))
    if not all(set(r["out"]) >= {"o.bin", "o.asm", "o.h", "o.toml", "o.c2po", "o.prefix", "stdout"} for r in ref if r["rc"] == 0): raise common.CheckError("outputs missing in the reference")

    def compare(name, groups, index, describe):
        """groups: [(hs, [job])]; index(g, k) -> reference result."""
        n = bad = 0
        res = W.run(groups)
        for g, o in enumerate(res):
            if o is None: continue
            for k, r in enumerate(o):
                n += 1
                a = index(g, k)
                if key(r) != key(a):
                    bad += 1
                    job = groups[g][1][k]
                    if bad <= 4:
                        what = f"{describe(g, k)}: {differ(a, r)}"
                        chk.violation(what.replace(" ", "_")[:120], what + ": " + repr(job["runs"][-1][0][next(iter(job["runs"][-1][0]))][:200]), dict(kind="determinism", hashseed=groups[g][0], job=job, expected=a, got=r))
        total = sum(len(g[1]) for g in groups)
        chk.add(states=n, transitions=sum(len(j["runs"]) for g, o in zip(groups, res) if o is not None for j in g[1]), traces_validated_against_impl=n)
        chk.cov.setdefault("families", {})[name] = dict(done=n, of=total, exhaustive=n == total)

    # 2. every hash seed
    seeds = list(range(1, 65 if T else 9)) + [common.SEED * 1000 + 17]
    G = [(h, c) for h in seeds for c in ch(single)]
    off = [i for _ in seeds for i in range(0, len(single), N)]
    compare("hash seeds", G, lambda g, k: ref[off[g] + k], lambda g, k: f"with PYTHONHASHSEED={G[g][0]} the output of specification {off[g] + k} changes")
    # 3. memory layouts and working directories
    var = [dict(alloc=n) for n in ((1, 2, 3, 7, 50, 333, 1000, 5000, 20000, 100001) if T else (1, 7, 333, 5000))] + [dict(cwd=True), dict(cwd=True, alloc=77)]
    # relative file names appear in no output other than messages, which the working-directory variant replaces
    J = [(v, s, i) for v in var for i, s in enumerate(sp)]
    CH = ch(J)
    G3 = [(0, [dict(runs=[s], **v) for v, s, _ in c]) for c in CH]
    rel = [dict(r, out={k: x for k, x in r["out"].items() if k != "stdout"}) for r in ref]

    def idx3(g, k):
        v, _, i = CH[g][k]
        return ref[i]
    compare("memory layouts and working directories", G3, idx3, lambda g, k: f"with {CH[g][k][0]} the output of specification {CH[g][k][2]} changes")
    # 4. compilations before: same process, same session
    ss = session_specs()
    sref = sum(W.run([(0, c) for c in ch([dict(runs=[s]) for s in ss])]), [])
    good = [i for i, r in enumerate(sref) if r["rc"] == 0]
    if len(good) < len(ss) - len(BAD): raise common.CheckError("session specifications do not compile")
    J = []
    for session in (True, False):
        for a in range(len(ss)):
            for b in good: J.append(([a], b, session))
    tri = list(itertools.product(range(len(ss)), repeat=2))
    tri = [t for t in tri if t[0] != t[1]]
    for n, t in enumerate(tri if T else fam.take(tri, 60, common.SEED)):
        for b in (good if T else [good[(n * 5 + m * 7) % len(good)] for m in range(3)]): J.append((list(t), b, True))
    CJ = ch(J)
    G4 = [(0, [dict(runs=[ss[x] for x in a] + [ss[b]], session=se) for a, b, se in c]) for c in CJ]
    compare("earlier compilations", G4, lambda g, k: sref[CJ[g][k][1]],
            lambda g, k: f"after compiling {CJ[g][k][0]} in the same {'session' if CJ[g][k][2] else 'process'} the output of session specification {CJ[g][k][1]} changes")
    # 5. the real command, as a process of its own
    G5, exp = [], []
    import pathlib, tempfile, shutil
    picks = fam.take([i for i in range(len(sp)) if ref[i]["rc"] == 0 and "s.c2po" in sp[i][0] and "enable_booleanizer" in sp[i][1]], 30 if T else 6, common.SEED)
    d = pathlib.Path(comp.tmpdir()) / "proc"
    n = bad = 0
    for i in picks:
        first = None
        for h in ("0", "1", "random", "4294967295"):
            if chk.left() <= 0: break
            shutil.rmtree(d, ignore_errors=True); d.mkdir()
            for nm, t in sp[i][0].items(): (d / nm).write_text(t)
            p = subprocess.run([PY, str(common.REPO / "compiler/c2po.py"), "--booleanizer", "--map", "s.map", "-o", "o.bin", "--write-bounds", "b.h", "--spec", "s.c2po"], cwd=d, env=dict(os.environ, PYTHONHASHSEED=h, PYTHONDONTWRITEBYTECODE="1"), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            r = (p.returncode, p.stdout, (d / "o.bin").read_bytes() if (d / "o.bin").exists() else None, (d / "b.h").read_bytes() if (d / "b.h").exists() else None)
            n += 1
            if first is None:
                first = r
                if r[0] or not r[2]: raise common.CheckError(f"the command fails: {p.stderr[-300:]}")
            elif r != first:
                bad += 1; chk.violation(f"process:{i}:{h}", f"the compiler command with PYTHONHASHSEED={h} writes other output for specification {i}", dict(kind="determinism-process", spec=sp[i][0], hashseed=h))
    shutil.rmtree(d, ignore_errors=True)
    chk.add(states=n, transitions=n, traces_validated_against_impl=n)
    chk.cov.setdefault("families", {})["processes"] = dict(done=n, of=4 * len(picks), exhaustive=n == 4 * len(picks))
    chk.sample("hash seeds 1 to 64 (quick: 8), and one seeded; memory layouts by objects allocated before; all ordered pairs of 31 specifications (5 of them refused) in one process and in one console session")
    return chk.finish()
