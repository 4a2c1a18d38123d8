"""P07: generated word-parallel C programs compared with MLTL semantics on every trace of bounded families."""
import ctypes, hashlib, itertools, os, pathlib, re, shutil, subprocess, time
import numpy as np
from lib import common, mltl, comp, pool, families as fam

A, B, TT, FF = ('a', 0), ('a', 1), ('tt',), ('ff',)
HEAD = r"""
#define _GNU_SOURCE
#include <stdio.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <sys/time.h>
static unsigned char *IN; static size_t NIN, PIN; static uint64_t *OUT; static size_t NOUT, CAP; static int BADFMT;
static unsigned char *COLS; static size_t NROW, PROW; static int NCOL;
static long my_read(int fd, void *p, size_t n) { if (PIN + n > NIN) return 0; memcpy(p, IN + PIN, n); PIN += n; return (long)n; }
static int my_printf(const char *f, ...) { char b[64]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a);
  char *e; uint64_t v = strtoull(b, &e, 16); if (n < 3 || *e != '\n' || e == b) { BADFMT = 1; return n; } if (NOUT < CAP) OUT[NOUT] = v; NOUT++; return n; }
#define read my_read
#define printf my_printf
"""
PROG = """
#define main prog_%(k)d
#define future future_%(k)d
#define global global_%(k)d
#define until until_%(k)d
#define print_output print_output_%(k)d
#define read_inputs read_inputs_%(k)d
#include "%(k)d.c"
#undef main
#undef future
#undef global
#undef until
#undef print_output
#undef read_inputs
"""
TAIL = r"""
#undef printf
#undef read
typedef int (*P)(int, char const **);
static P progs[] = { %(list)s };
/* argument: input file of records  prog u64, trace bytes u64, traces u64, output words u64, data ; output: words */
int main(int argc, char **argv) {
  FILE *f = fopen(argv[1], "rb"), *o = fopen(argv[2], "wb"); uint64_t h[4];
  while (fread(h, 8, 4, f) == 4) {
    fprintf(stderr, "PROG %%d\n", (int)h[0]);
    unsigned char *d = malloc(h[1] * h[2] + 1); if (fread(d, 1, h[1] * h[2], f) != h[1] * h[2]) return 9;
    uint64_t *w = malloc((h[3] + 1) * 8); 
    for (uint64_t t = 0; t < h[2]; t++) {
      unsigned char *x = malloc(h[1] ? h[1] : 1); memcpy(x, d + t * h[1], h[1]);
      IN = x; NIN = h[1]; PIN = 0; OUT = w; NOUT = 0; CAP = h[3]; BADFMT = 0;
      memset(w, 0, h[3] * 8);
      int rc = progs[h[0]](0, 0);
      w[h[3]] = (uint64_t)NOUT | ((uint64_t)(BADFMT != 0) << 40) | ((uint64_t)(rc != 0) << 41);
      fwrite(w, 8, h[3] + 1, o); free(x);
    }
    free(d); free(w);
  }
  fclose(o); return 0;
}
"""


def generate(it, d, k):
    """C text for one item: dict(f, w, cse, rw, rr, lang, nsigs, ids, raw, formulas, pick)."""
    ids = it.get("ids") or list(range(8))
    f = it["f"]
    names = it.get("names")
    fs = it.get("formulas") or [f]
    if it.get("lang") == "mltl":
        ren = lambda g: ('a', ids[g[1]]) if g[0] == 'a' else tuple(ren(x) if isinstance(x, tuple) else x for x in g)
        files = {"s.mltl": "".join(mltl.mltlstd(ren(g)) + "\n" for g in fs)}
        lines = ["parse_mltl {d}/s.mltl", "type_check"]
    else:
        names = names or [f"a{i}" for i in range(8)]
        used = sorted(set().union(*[mltl.atoms(g) for g in fs])) or [0]
        lab = it.get("labels")
        txt = "INPUT " + ",".join(names[i] for i in used) + ": bool;\nFTSPEC\n" + "".join((f"{lab[n]}: " if lab else "") + mltl.c2po(g, names) + ";\n" for n, g in enumerate(fs))
        files = {"s.c2po": txt}
        lines = ["parse_c2po {d}/s.c2po"]
        if it.get("map", True):
            files["s.map"] = "".join(f"{names[i]}:{ids[i]}\n" for i in used); lines.append("parse_map {d}/s.map")
        lines.append("type_check")
    lines.append("desugar")
    lines += it.get("passes", [])
    out = it.get("out", "{d}/out.c")
    pick = it.get("pick")
    lines.append(f"generate_sabre_code --word-size {it['w']} " + (f"--formula {pick} " if pick is not None else "") + (f"--nsigs {it['nsigs']} " if "nsigs" in it else "") + ("--raw-bytes " if it.get("raw", True) else "") + ("--profile " if it.get("profile") else "") + out)
    for x in comp.tmpdir().iterdir():
        if x.suffix == ".c": x.unlink()
    r = comp.script(lines, files)
    c = [x for x in comp.tmpdir().iterdir() if x.suffix == ".c"]
    if r.exc or re.search("unexpected error|internal", r.out + r.err) or (not c and not (r.out + r.err).strip()):
        return None, f"internal failure of the compiler: {r.exc} {(r.err + r.out)[-200:]}"
    if not c: return None, None if it.get("may_refuse") else f"not compiled: {(r.err + r.out)[-200:]}"
    if it.get("outname") and c[0].name != it["outname"]: return None, f"written to {c[0].name} instead of {it['outname']}"
    return c[0].read_text(), None


def traces(n, T, mode, k):
    """Bit arrays [traces, n signals, T]: 'all' or all with at most k changes (over all signals together)."""
    if mode == "all":
        m = n * T
        x = np.arange(1 << m, dtype=np.uint32)
        return ((x[:, None] >> np.arange(m, dtype=np.uint32)) & 1).astype(bool).reshape(-1, n, T)
    rows = []
    pos = [(s, t) for s in range(n) for t in range(1, T)]
    key = (n, T, k)
    if key not in _TR:
        tot = []
        for c in range(k + 1):
            idx = np.array(list(itertools.combinations(range(len(pos)), c)), dtype=np.int64) if c else np.zeros((1, 0), dtype=np.int64)
            ch = np.zeros((len(idx), n, T), dtype=np.uint8)
            for j in range(c):
                p = np.array(pos)[idx[:, j]]
                ch[np.arange(len(idx)), p[:, 0], p[:, 1]] ^= 1
            tot.append(ch)
        ch = np.concatenate(tot)
        v = np.cumsum(ch, axis=2) & 1
        out = [v ^ np.array(s, dtype=v.dtype).reshape(1, n, 1) for s in itertools.product((0, 1), repeat=n)]
        _TR.clear()
        _TR[key] = np.concatenate(out).astype(bool)
    return _TR[key]


_TR = {}


def ref(f, X, memo):
    """Truth values [traces, T]; positions whose window leaves the trace are meaningless."""
    if f in memo: return memo[f]
    o = f[0]
    if o == 'a': v = X[:, f[1]]
    elif o in ('tt', 'ff'): v = np.full((X.shape[0], X.shape[2]), o == 'tt')
    elif o == '!': v = ~ref(f[1], X, memo)
    elif o in '&|^' or o in ('->', '<->'):
        x, y = ref(f[1], X, memo), ref(f[2], X, memo)
        v = {'&': x & y, '|': x | y, '^': x ^ y, '->': ~x | y, '<->': x == y}[o]
    else:
        l, u = f[1], f[2]
        sh = lambda a, n: np.concatenate([a[:, n:], np.zeros((a.shape[0], min(n, a.shape[1])), bool)], axis=1)
        if o in 'FG':
            x = ref(f[3], X, memo)
            v = sh(x, l).copy()
            for n in range(l + 1, u + 1): v = v | sh(x, n) if o == 'F' else v & sh(x, n)
        else:
            x, y = ref(f[3], X, memo), ref(f[4], X, memo)
            if o == 'R': x, y = ~x, ~y
            v = sh(y, u)
            for n in range(u - 1, l - 1, -1): v = sh(y, n) | (sh(x, n) & v)
            if o == 'R': v = ~v
    memo[f] = v
    return v


def pack(X, w):
    """[traces, n, T] -> bytes per trace: words in time order, signals in turn."""
    b = np.packbits(X.astype(np.uint8), axis=2)
    nb = w // 8
    b = b.reshape(X.shape[0], X.shape[1], -1, nb)[..., ::-1]
    return np.ascontiguousarray(b.transpose(0, 2, 1, 3))


def batch(its):
    """Generates, builds (ASan + UBSan) and explores a batch. Returns [(index, error or None, traces, words, programs)]."""
    its = list(its)
    d = common.BUILD / f"sabre_{os.getpid()}"
    shutil.rmtree(d, ignore_errors=True); d.mkdir(parents=True)
    res = []
    try:
        text, live = HEAD, []
        for k, it in enumerate(its):
            c, e = generate(it, d, k)
            if c is None: res.append((k, e, 0, 0)); continue
            if it.get("refuse"): res.append((k, "accepted instead of refused", 0, 0)); continue
            (d / f"{k}.c").write_text(c); live.append(k)
            text += PROG % dict(k=k)
        text += TAIL % dict(list=", ".join(f"[{k}] = (P)prog_{k}" for k in live) or "0")
        (d / "all.c").write_text(text)
        r = subprocess.run(["clang", "-O1", "-w", "-g0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=function", "-o", str(d / "all"), str(d / "all.c")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            if len(its) == 1: return [(0, "generated code does not compile: " + r.stdout[-300:], 0, 0)]
            return [(k, e, t, w) for k in range(len(its)) for (_, e, t, w) in batch([its[k]])]
        for k in live: res.append(explore(its[k], k, d))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def explore(it, k, d):
    f, w = it["f"], it["w"]
    ids = it.get("ids") or list(range(8))
    na = max(list(mltl.atoms(f)) or [0]) + 1
    ncol = it.get("nsigs") or max([ids[i] for i in set().union(*[mltl.atoms(g) for g in it.get("formulas") or [f]])] or [0]) + 1
    nw = 0
    tot = wtot = 0
    for mode, words, kk in it["tr"]:
        X = traces(na, words * w, mode, kk)
        V = ref(f, X, {})
        full = np.zeros((X.shape[0], ncol, X.shape[2]), bool)
        for i in range(na):
            if i in mltl.atoms(f): full[:, ids[i]] = X[:, i]
        if ncol > na:   # signals the formula does not read
            for c in range(ncol):
                if c not in [ids[i] for i in mltl.atoms(f)]: full[:, c, ::2] = True
        data = pack(full, w)
        n = X.shape[0]
        with open(d / "in", "wb") as h:
            h.write(np.array([k, data[0].size, n, words], dtype=np.uint64).tobytes()); h.write(data.tobytes())
        try: r = subprocess.run([str(d / "all"), str(d / "in"), str(d / "out")], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=20, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
        except subprocess.TimeoutExpired: return k, "the generated program does not terminate", tot, wtot
        if r.returncode:
            e = r.stderr.decode(errors="replace")
            m = re.search(r"runtime error: [^\n]*|AddressSanitizer: [^\n]*", e)
            return k, "sanitizer: " + (re.sub(r"0x[0-9a-f]+", "..", m.group(0))[:160] if m else e[-200:]), tot, wtot
        o = np.fromfile(d / "out", dtype=np.uint64).reshape(n, words + 1)
        cnt = int(o[0, words])
        if (o[:, words] != cnt).any(): return k, "number of output words depends on the values", tot, wtot
        if cnt >> 40: return k, "malformed output line or exit status", tot, wtot
        if cnt > words: return k, f"{cnt} words of output for {words} words of input", tot, wtot
        wpd = mltl.wpd(f)
        need = max(0, words - sum_words(f, w))
        if cnt < need: return k, f"only {cnt} words of output for {words} words of input (reach {wpd})", tot, wtot
        bits = np.unpackbits(o[:, :cnt].astype(">u8").view(np.uint8).reshape(n, cnt, 8), axis=2)[..., 64 - w:].reshape(n, cnt * w).astype(bool)
        if w < 64 and cnt and (o[:, :cnt] >> np.uint64(w)).any(): return k, "output word wider than the word size", tot, wtot
        lim = min(cnt * w, words * w - wpd)
        bad = np.argwhere(bits[:, :lim] != V[:, :lim])
        tot += n; wtot += n * words
        if len(bad):
            t, p = bad[0]
            return k, dict(position=int(p), expected=bool(V[t, p]), trace=["".join("01"[int(b)] for b in X[t, s]) for s in range(na)], word_size=w), tot, wtot
    return k, None, tot, wtot


def sum_words(f, w):
    """Delay in words that the design allows: every temporal operator rounds its upper bound up to words."""
    own = -(-f[2] // w) if f[0] in ('F', 'G', 'U', 'R') else 0
    return own + max([sum_words(x, w) for x in mltl.kids(f)], default=0)


def trs(f, w, T, big=False):
    """Trace families for a formula: everything for short words, at most k changes for longer traces."""
    na = max(list(mltl.atoms(f)) or [0]) + 1
    words = sum_words(f, w) + 2
    bits = words * w * na
    r = []
    if w == 8 and na == 1 and words <= 2 and T: r.append(("all", 2, 0))
    lim = 400000 if T else 20000
    k = 1
    from math import comb
    while k < 4 and sum(comb(na * (words * w - 1), c) for c in range(k + 2)) * 2 ** na * (words * w / 16) < lim: k += 1
    r.append(("changes", words, k))
    return r


def ops(f): return 0 if f[0] in ('a', 'tt', 'ff') else 1 + sum(ops(x) for x in mltl.kids(f))


def fam_single(T, w=8):
    m = (5 if T else 3) * w + 2
    r = []
    for l in range(m + 1):
        for u in range(l, m + 1):
            if not T and l > 3 and l % w not in (0, 1, w - 1) and (l + u) % 2: continue
            r += [dict(f=('F', l, u, A), w=w), dict(f=('G', l, u, A), w=w), dict(f=('U', l, u, A, B), w=w)]
    return r


def fam_words(T):
    r = []
    for w in (16, 32, 64):
        P = sorted({0, 1, 2, w // 2 - 1, w // 2, w // 2 + 1, w - 1, w, w + 1, w + w // 2, 2 * w - 1, 2 * w, 2 * w + 1, 2 * w + w // 2} | ({3 * w - 1, 3 * w, 3 * w + 1, 4 * w} if T else set()))
        for l, u in itertools.combinations_with_replacement(P, 2):
            for n, f in enumerate((('F', l, u, A), ('G', l, u, A), ('U', l, u, A, B))):
                if not T and w > 16 and (P.index(l) + P.index(u) + n) % 2: continue
                r.append(dict(f=f, w=w))
    return r


IV = [(0, 0), (0, 1), (1, 2), (0, 8), (3, 9), (8, 8), (2, 17)]


def fam_small(T, seed):
    leaves = (A, B, TT, FF)
    un = [lambda x: ('!', x)] + [(lambda x, o=o, l=l, u=u: (o, l, u, x)) for o in 'FG' for l, u in IV]
    bi = [(lambda x, y, o=o: (o, x, y)) for o in ('&', '|', '->', '<->', '^')] + [(lambda x, y, l=l, u=u: ('U', l, u, x, y)) for l, u in IV]
    one = [g(x) for g in un for x in leaves] + [g(x, y) for g in bi for x in leaves for y in leaves]
    two = [g(x) for g in un for x in one] + [g(x, y) for g in bi for x in one for y in leaves] + [g(y, x) for g in bi for x in one for y in leaves]
    two = [f for f in two if f not in one]
    sel = fam.take(two, len(two) if T else 350, seed)
    return [dict(f=f, w=8) for f in list(leaves) + one + sel]


def fam_deep(T, seed):
    iv = [(0, 2), (1, 9), (7, 16)]
    base = fam.take(fam.library(False, [(0, 5), (3, 11)]), 60 if not T else 100000, seed)
    r = []
    for f in base:
        if mltl.has_past(f) or 'R' in str(f): continue
        for w in (8, 16, 32, 64):
            if w > 16 and not T: continue
            r.append(dict(f=f, w=w))
    C_ = ('a', 2)
    shared = ('F', 1, 9, ('&', A, B))
    for w in (8, 16):
        for f in (('|', shared, ('G', 2, 12, shared)), ('U', 3, 10, shared, ('!', shared)), ('&', ('G', 0, 20, A), ('F', 5, 6, ('G', 0, 20, A))), ('<->', shared, ('F', 0, 3, shared)), ('U', 0, 9, ('|', A, C_), ('&', B, C_)), ('F', 30, 40, ('&', A, ('F', 30, 40, B))), ('&', A, ('G', 40, 40, B))):
            for ps in ([], ["optimize_cse"], ["optimize_rewrites", "optimize_cse"], ["multi_operators_to_binary"], ["remove_extended_operators"], ["to_nnf"], ["flatten_operators"], ["sort_operands_by_pd"]):
                r.append(dict(f=f, w=w, passes=ps, may_refuse=bool(ps)))
    for f in (('R', 0, 3, A, B), ('R', 2, 9, A, B), ('!', ('R', 1, 2, A, ('F', 0, 3, B)))):
        r.append(dict(f=f, w=8, may_refuse=True)); r.append(dict(f=f, w=8, passes=["remove_release_operators"], may_refuse=True))
    return r


def fam_io(T):
    """Signal numbers, names, formula selection and output names."""
    r = []
    f, g, h = ('&', A, ('F', 1, 9, B)), ('|', B, ('G', 0, 3, A)), ('U', 0, 2, ('a', 2), A)
    for x in (f, g, h):
        for ids in ([0, 1, 2], [1, 0, 2], [2, 0, 1], [0, 5, 3], [4, 1, 7], [9, 10, 11]):
            for lang in ("mltl", "c2po"):
                if lang == "mltl" and "a" not in "a": continue
                r.append(dict(f=x, w=8, ids=ids, lang=lang))
                r.append(dict(f=x, w=8, ids=ids, lang=lang, nsigs=12))
            r.append(dict(f=x, w=8, ids=ids, names=["p", "q", "r"]))
            r.append(dict(f=x, w=8, ids=ids, names=["x1", "y1", "z1"]))
            r.append(dict(f=x, w=8, ids=ids, names=["a2", "a1", "a0"]))
    r.append(dict(f=f, w=8, names=["p", "q", "r"], map=False, refuse=True, may_refuse=True))
    r.append(dict(f=f, w=8, map=False))
    for n in (0, 1):
        r.append(dict(f=f, w=8, nsigs=n, refuse=True, may_refuse=True)) if n else None
    FS = [f, g, h]
    for n, x in enumerate(FS):
        for lang in ("mltl", "c2po"): r.append(dict(f=x, w=8, formulas=FS, pick=str(n), lang=lang))
        r.append(dict(f=x, w=8, formulas=FS, labels=["one", "two", "three"], pick=["one", "two", "three"][n]))
        r.append(dict(f=x, w=8, formulas=FS, labels=["one", "two", "three"], pick=["one", "two", "three"][n], out="{d}", outname=["one", "two", "three"][n] + ".c"))
    r.append(dict(f=f, w=8, formulas=FS))
    r.append(dict(f=f, w=8, formulas=FS, pick="3", refuse=True, may_refuse=True))
    r.append(dict(f=f, w=8, formulas=FS, pick="nosuch", refuse=True, may_refuse=True))
    for w in (8, 16, 32, 64):
        for x in (f, h): r.append(dict(f=x, w=w, profile=True))
    return r


def textmode(it):
    """The generated program as a process reading rows of text (also with a last word that is not full)."""
    f, w = it["f"], it["w"]
    d = common.BUILD / f"sabret_{os.getpid()}"
    shutil.rmtree(d, ignore_errors=True); d.mkdir(parents=True)
    n = 0
    try:
        c, e = generate(dict(it, raw=it.get("raw", False)), d, 0)
        if c is None: return e, 0
        (d / "p.c").write_text(c)
        r = subprocess.run(["clang", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-o", str(d / "p"), str(d / "p.c")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: return "generated code does not compile: " + r.stdout[-200:], 0
        ids = it.get("ids") or list(range(8))
        na = max(mltl.atoms(f)) + 1
        ncol = it.get("nsigs") or max(ids[i] for i in mltl.atoms(f)) + 1
        words = sum_words(f, w) + 1
        for extra in (0, w // 2):
            X = traces(na, words * w + extra, "changes", 1)
            V = ref(f, X, {})
            for x, v in list(zip(X, V))[::max(1, len(X) // it["n"])]:
                rows = "".join(",".join(str(int(x[inv[c]][t])) if c in inv else "1" for c in range(ncol)) + "\n" for inv in [{ids[i]: i for i in mltl.atoms(f)}] for t in range(words * w + extra))
                p = subprocess.run([str(d / "p")], input=rows, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
                n += 1
                if p.returncode: return "exit status / sanitizer: " + p.stderr[-200:], n
                got = "".join(format(int(l, 16), f"0{w}b") for l in p.stdout.split())
                want = "".join("01"[int(b)] for b in v)[:len(got)]
                lim = words * w + extra - mltl.wpd(f)
                if len(got) < w or got[:lim] != want[:lim]: return f"output {p.stdout.split()} expected bits {want}", n
        return None, n
    finally:
        shutil.rmtree(d, ignore_errors=True)


def key(it):
    f = mltl.c2po(it["f"]).replace(" ", "")
    x = {k: v for k, v in it.items() if k not in ("f", "w", "tr", "may_refuse")}
    return f"w{it['w']}:{f}" + (":" + re.sub(r"\W+", "_", str(x)) if x else "")


def run(chk):
    T = common.THOROUGH
    seed = chk.seed if hasattr(chk, "seed") else 1
    for name, its in (("single operators, all intervals", fam_single(T)), ("single operators, wider words", fam_words(T)), ("signals, selection, output", fam_io(T)), ("shared and deep formulas", fam_deep(T, seed)), ("formulas of up to two operators", fam_small(T, seed))):
        for it in its: it["tr"] = trs(it["f"], it["w"], T)
        bs = [its[i:i + 24] for i in range(0, len(its), 24)]
        done = tr = wd = 0
        for b, out in pool.run(batch, bs, chunk=1, left=chk.left):
            for k, e, t, w in out:
                done += 1; tr += t; wd += w
                if e and chk.nviol < 6:
                    it = b[k]
                    chk.violation("sabre:" + key(it)[:100], f"generated code for {mltl.c2po(it['f'])}, word size {it['w']}: {str(e)[:300]}", dict(item={x: y for x, y in it.items()}, outcome=e))
        chk.add(states=tr, transitions=wd, traces_validated_against_impl=tr, programs=done)
        chk.cov.setdefault("families", {})[name] = dict(done=done, of=len(its), exhaustive=done == len(its), traces=tr)
        if its: chk.sample(dict(family=name, formula=mltl.c2po(its[len(its) // 2]["f"]), word_size=its[len(its) // 2]["w"]))
    its = [dict(f=f, w=w, n=12 if not T else 60, ids=ids) for f in (('&', A, ('F', 1, 9, B)), ('U', 2, 5, A, B), ('!', ('G', 0, 8, B))) for w in (8, 16, 32, 64) for ids in ([0, 1], [2, 0])]
    done = n = 0
    for it, (e, m) in pool.run(textmode, its, chunk=1, left=chk.left):
        done += 1; n += m
        if e: chk.violation("sabretext:" + key(it)[:100], f"generated program for {mltl.c2po(it['f'])} (text input), word size {it['w']}: {e[:300]}", dict(item=it, outcome=e))
    chk.add(states=n, transitions=n, traces_validated_against_impl=n, programs=done)
    chk.cov["families"]["text input as a process"] = dict(done=done, of=len(its), exhaustive=done == len(its), traces=n)
    return chk.finish()
