"""P15: the binary decodes, with the monitor's own loader, to the listing the compiler prints."""
import itertools, os, re, struct, subprocess, time
from lib import common, mltl, comp, pool, bz, families as fam
import bzc

OPS_TL = dict(load=29, **{"return": 28}, eventually=27, until=25, release=24, **{"global": 26, "not": 23, "and": 22, "or": 21}, implies=20, xor=17, equiv=16,
              once=11, hist=10, since=9, trigger=8)
OPS_BZ = {n: i + 1 for i, n in enumerate("iload fload iconst fconst store bwneg bwand bwor bwxor ieq feq ineq fneq igt fgt igte fgte ilt flt ilte flte ineg fneg iadd fadd "
                                         "isub fsub imul fmul idiv fdiv mod ipow fpow isqrt fsqrt iabs fabs prev ts".split())}
KIND = {"": 1, "a": 0, "n": 2}
META = 4            # queue slots taken by the bookkeeping of a temporal operator


class Bad(Exception):
    pass


def parse_listing(text):
    """Rows of the listing -> comparable tuples."""
    rows = []
    for l in text.splitlines():
        m = re.fullmatch(r"BZ b(\d+)\s+(\w+)\s+(\S+) (\d+)", l)
        if m:
            op = m[2]
            if op not in OPS_BZ: raise Bad(f"unknown operator in the listing: {l}")
            if op == "iconst": v = ("BI", int(m[1]), 3, {"True": 1, "False": 0}.get(m[3]) if m[3] in ("True", "False") else int(m[3]))
            elif op == "fconst": v = ("BF", int(m[1]), 4, float(m[3]))
            else: v = ("BZ", int(m[1]), OPS_BZ[op], int(m[3]), int(m[4]))
            rows.append(v); continue
        m = re.fullmatch(r"TL n(\d+)\s+(\w+)\s*(.*)", l)
        if m:
            o = []
            for w in m[3].split():
                if w in ("True", "False"): o.append((1, int(w == "True"))); continue
                k = re.fullmatch(r"([an]?)(\d+)", w)
                if not k: raise Bad(f"unknown operand in the listing: {l}")
                o.append((KIND[k[1]], int(k[2])))
            while len(o) < 2: o.append((3, 0))
            rows.append(("TL", int(m[1]), OPS_TL[m[2]], *o[0], *o[1])); continue
        m = re.fullmatch(r"CG TL SCQ q(\d+) \|(\d+)\|", l)
        if m: rows.append(("SCQ", int(m[1]), int(m[2]))); continue
        m = re.fullmatch(r"CG TL TEMP q(\d+) \[(\d+), (\d+)\]", l)
        if m: rows.append(("TEMP", int(m[1]), int(m[2]), int(m[3]))); continue
        m = re.fullmatch(r"F (\S+) (\d+)", l) or re.fullmatch(r"C (\S+) (\d+) (\d+) (\d+)", l)
        if m: rows.append(("FC"[l[0] == "C"], m[1], *[int(x) for x in m.groups()[1:]])); continue
        raise Bad(f"unknown row in the listing: {l}")
    return rows


def tail_of(b):
    """The alias strings after the last instruction; raises if the binary does not end where they end."""
    o = b[0]
    if b[o - 1] != 0: raise Bad("header is not terminated")
    while b[o] != 0:
        if o + b[o] >= len(b): raise Bad("record runs over the end of the binary")
        o += b[o]
    rest = b[o + 1:]
    if not rest or rest[-1] != 0: raise Bad("binary is not terminated")
    rest = rest[:-1]
    if rest in (b"", b"\0"): return []
    if rest[-1] != 0: raise Bad("alias string is not terminated")
    out = []
    for s in rest[:-1].split(b"\0"):
        w = s.decode().split(" ")
        out.append((w[0], w[1], *[int(x) for x in w[2:]]))
    return out


_srv = {}


def dump(binary, load, wide):
    """What the monitor's reader and loader make of the binary: (exit, rows decoded, rows loaded)."""
    exe = _exes()[1 if wide else 0]
    k = (os.getpid(), exe)
    if k not in _srv or _srv[k].poll() is not None:
        _srv[k] = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=77"))
    p = _srv[k]
    p.stdin.write(struct.pack("<II", len(binary), load) + binary); p.stdin.flush()
    d, l = [], []
    while True:
        s = p.stdout.readline().decode()
        if not s: raise common.CheckError("dump program ended")
        w = s.split()
        if w[0] == "end": return int(w[1]), d, l
        (d if w[0] == "d" else l).append(tuple(float(x) if re.search(r"[.einf]", x) and w[1] in ("BF", "VB") and i else (x if not re.fullmatch(r"-?\d+", x) or (w[1] in "FC" and i == 1) else int(x)) for i, x in enumerate(w[1:])))


_ex = []
WIDE = dict(R2U2_MAX_BZ_INSTRUCTIONS=4096, R2U2_MAX_TL_INSTRUCTIONS=4096, R2U2_MAX_TEMPORAL_OPERATORS=2048, R2U2_MAX_QUEUE_SLOTS=1 << 21, R2U2_MAX_SIGNALS=4096,
            R2U2_MAX_ATOMICS=4096, R2U2_MAX_AUX_BYTES=65536, R2U2_AUX_MAX_FORMULAS=2048, R2U2_AUX_MAX_CONTRACTS=512)


def _exes():
    if not _ex: _ex.extend([str(common.build_dump(True)), str(common.build_dump(True, common.wide_bounds(**WIDE)))])
    return _ex


def one(it):
    """it: spec, map, bz, cmds (commands between desugar and assemble), expect (rows that have to be in the listing), load (bool), wide (bool), mayrefuse."""
    spec, d = it["spec"], comp.tmpdir()
    for f in ("x.bin", "x.asm"): (d / f).unlink(missing_ok=True)
    pre = (["enable_booleanizer"] if it.get("bz") else []) + ["parse_c2po {d}/s.c2po", "parse_map {d}/s.map", "type_check", "desugar"] + list(it.get("cmds", CMDS[0]))
    if it.get("nmap"): pre = [x for x in pre if "parse_map" not in x]
    r = comp.script(pre + ["assemble {d}/x.bin --print --assembly-filename {d}/x.asm" + it.get("aopts", "")], {"s.c2po": spec, "s.map": it["map"]})
    e = dict(spec=spec if len(spec) < 3000 else spec[:3000] + "...")
    if r.exc or "unexpected error" in r.err + r.out: return dict(e, kind="internal error", exc=r.exc, err=(r.err + r.out)[-300:]), 0, False
    if r.rc or not (d / "x.bin").exists():
        if it.get("mayrefuse"): return None, 0, False
        return dict(e, kind="not compiled", err=r.err[-300:]), 0, False
    b = (d / "x.bin").read_bytes()
    text = "\n".join(l for l in r.out.splitlines() if l[:3] in ("BZ ", "TL ", "CG ") or l[:2] in ("F ", "C "))
    try:
        if (d / "x.asm").read_text().strip() != text.strip(): return dict(e, kind="listing file differs from the printed listing", printed=text[:500]), 1, True
        L = parse_listing(text)
        for x in it.get("expect", ()):
            if x not in L: return dict(e, kind="listing lacks a row of the specification", row=x, listing=text[:800]), 1, True
        code = [x for x in L if x[0] not in "FC"]
        if tail_of(b) != [x for x in L if x[0] in "FC"] and not (it.get("aopts") and not tail_of(b)): return dict(e, kind="names in the binary differ from the listing", got=tail_of(b), expected=[x for x in L if x[0] in "FC"]), 1, True
    except Bad as x: return dict(e, kind=str(x), listing=text[:800]), 1, True
    ids = len([x for x in code if x[0] != "TEMP" and x[0] != "SCQ"])
    temps = {x[1]: x[2:] for x in code if x[0] == "TEMP"}
    want = []
    for x in code:
        if x[0] == "SCQ": want.append(("CG", x[1], 30, 0, x[2], 0 if x[1] in temps else 3, 0))
        elif x[0] == "TEMP": want.append(("CG", x[1], 30, 2, x[2], 2, x[3]))
        else: want.append(x)
    rc, dec, lo = dump(b, ids + 1 if it.get("load", True) else 0, it.get("wide", False))
    if rc: return dict(e, kind="reading the binary fails (memory error)", status=rc, listing=text[:800]), 1, True
    for k, (g, w) in enumerate(itertools.zip_longest(dec, want)):
        if g != w: return dict(e, kind="record decodes to another instruction", record=k, got=g, expected=w, listing=text[:800]), 1, True
    if not it.get("load", True): return None, len(want), True
    if lo[0] != ("ST", 0): return dict(e, kind="binary rejected by the monitor", status=lo[0]), 1, True
    pick = lambda t: [x for x in lo if x[0] == t]
    for t in ("BZ", "TL"):
        if pick(t) != [x for x in want if x[0] == t]:
            g, w = next((g, w) for g, w in itertools.zip_longest(pick(t), [x for x in want if x[0] == t]) if g != w)
            return dict(e, kind="loaded instruction table differs from the listing", got=g, expected=w, listing=text[:800]), 1, True
    vb = {x[1]: x[2:] for x in pick("VB")}
    for x in want:
        if x[0] == "BI" and vb[x[1]][0] != x[3] or x[0] == "BF" and vb[x[1]][1] != x[3]:
            return dict(e, kind="loaded constant differs from the listing", got=vb[x[1]], expected=x), 1, True
        if x[0] == "BZ" and x[2] == 39 and x[3] in {y[1] for y in want if y[0] in ("BI", "BF")}: pass
    sizes = {x[1]: x[2] for x in code if x[0] == "SCQ"}
    cb = {x[1]: x[2:] for x in pick("CB")}
    if sorted(cb) != sorted(sizes): return dict(e, kind="queues differ from the listing", got=sorted(cb), expected=sorted(sizes)), 1, True
    end = 0
    for q in sorted(cb):
        g = cb[q]
        if g[0] != sizes[q]: return dict(e, kind="loaded queue size differs from the listing", queue=q, got=g[0], expected=sizes[q]), 1, True
        if q in temps and tuple(g[2:4]) != temps[q]: return dict(e, kind="loaded interval differs from the listing", queue=q, got=g[2:4], expected=temps[q]), 1, True
        if g[1] < end: return dict(e, kind="queues overlap", queue=q, start=g[1], previous_end=end, listing=text[:800]), 1, True
        end = g[1] + g[0] + (META if q in temps else 0)
    for t in "FC":
        if pick(t) != [x for x in L if x[0] == t] and not it.get("aopts"): return dict(e, kind="loaded names differ from the listing", got=pick(t)[:6], expected=[x for x in L if x[0] == t][:6]), 1, True
    return None, len(want) + len(lo), True


CMDS = [("multi_operators_to_binary", "remove_extended_operators"), ("optimize_rewrites", "remove_extended_operators", "optimize_cse", "multi_operators_to_binary", "remove_extended_operators"),
        ("multi_operators_to_binary",), ("optimize_cse", "multi_operators_to_binary")]


def items(T, seed):
    out = []
    A, B, C_ = ('a', 0), ('a', 1), ('a', 2)
    ch = lambda xs, n: [xs[i:i + n] for i in range(0, len(xs), n)]
    iv = [(0, 0), (0, 1), (1, 2), (2, 5)]
    # temporal formulas, every operator, in both sections, with and without the operators of the reduced instruction set
    for past in (False, True):
        fs = fam.small(past, 1, iv, bools=('&', '|', '<->', '->', '^')) + fam.take(fam.small(past, 2, iv[1:3], bools=('&', '|', '<->', '->', '^')), 6000 if T else 2500, seed)
        fs += fam.take(fam.pairs(past, [(0, 1), (1, 3)], [(0, 2)]), 4000 if T else 900, seed)
        fs = [f for f in fs if mltl.atoms(f)]
        for k, c in enumerate(ch(fs, 8)):
            out.append(dict(spec=comp.spec_of([mltl.c2po(f) for f in c], 3, past), map=comp.map_of(3), cmds=CMDS[k % 4]))
    # value expressions
    I0, I1, X0, X1, P0, P1 = bzc.I0, bzc.I1, bzc.X0, bzc.X1, bzc.P0, bzc.P1
    sg = [I0, I1, X0, X1, P0, P1]
    ti = bzc.ints(2, [I0, ('ci', 2), ('tau',)]); tf = bzc.floats(2, [X0, ('cf', 0.5)])
    ex = [(bz.REL[i % 6], e, I1) for i, e in enumerate(ti[0] + ti[1] + fam.take(ti[2], 4000 if T else 900, seed)) if not bzc.risky(e) and bz.signals(e)]
    ex += [(bz.REL[i % 6], e, X1) for i, e in enumerate(tf[0] + tf[1] + fam.take(tf[2], 4000 if T else 600, seed)) if not bzc.risky(e) and bz.signals(e)]
    ex += [('prev', ('cb', True), P0), ('==', ('prev', ('ci', -1), I0), I1), ('<', ('prev', ('cf', 2.5), X0), X1), ('==', P0, P1), ('!=', P0, P1), ('==', P0, ('cb', True)), ('U', 0, 3, ('>', I0, I1), P1), ('&&', ('cb', True), ('==', P0, P1))]
    for k, c in enumerate(ch(ex, 10)):
        out.append(dict(spec=bz.decl(sg) + ("PTSPEC\n" if k % 5 == 4 and not any(bz.has(f, 'U') for f in c) else "FTSPEC\n") + "".join(f"  {bz.show(f)};\n" for f in c), map=bz.sig_map(sg), bz=True, cmds=CMDS[k % 4]))
    # constants at the limits of the types
    ints = sorted({s * (2 ** k + o) for k in (0, 7, 8, 15, 16, 23, 24, 30, 31) for o in (-1, 0, 1) for s in (1, -1)})
    ints = [v for v in ints if -2 ** 31 <= v < 2 ** 31]
    for c in ch(ints, 12):
        for past in (False, True):
            out.append(dict(spec="INPUT i0: int;\n" + ("PTSPEC\n" if past else "FTSPEC\n") + "".join(f"  i0 < {v};\n  prev({v}, i0) == i0;\n" for v in c), map="i0:0\n", bz=True, vals=c))
    fl = ["0.0", "1.0", "0.1", "123456.789", "0.00001", "0.000000000001", "16777217.0", "4294967296.5", "340282350000000000000000000000000000000.0", "1" + "0" * 300 + ".0", "0." + "0" * 299 + "1", "179769313486231570000.0", "-0.5", "-123456789.25", "0.00000000025", "0.3333333333333333", "2.2250738585072014"]
    for c in ch(fl, 6):
        out.append(dict(spec="INPUT x0: float;\nFTSPEC\n" + "".join(f"  x0 < {v};\n  prev({v}, x0) > x0;\n" for v in c), map="x0:0\n", bz=True, expf=[float(v) for v in c]))
    # intervals
    bd = [0, 1, 2, 127, 128, 129, 255, 256, 257, 511, 1023, 1500]
    for past in (False, True):
        o1, o2, u, r = ("O", "H", "S", "T") if past else ("F", "G", "U", "R")
        for l, h in itertools.combinations_with_replacement(bd, 2):
            for cm in (CMDS[0], CMDS[2]):
                ex = [("TEMP",)]
                out.append(dict(spec=comp.spec_of([f"a0 {u}[{l},{h}] a1", f"!(a1 {r}[{l},{h}] a0)", f"{o1}[{l},{h}] a0", f"{o2}[{l},{h}] !a1"], 2, past), map=comp.map_of(2), cmds=cm, wide=True, iv=(l, h)))
        for l, h in itertools.combinations_with_replacement([0, 255, 256, 32767, 32768, 65535, 65536, 65537, 100000], 2):
            out.append(dict(spec=comp.spec_of([f"a0 {u}[{l},{h}] a1", f"{o1}[{l},{h}] a0"], 2, past), map=comp.map_of(2), wide=True, iv=(l, h)))
        for l, h in itertools.combinations_with_replacement([0, 1, 2 ** 24 - 1, 2 ** 24, 2 ** 24 + 1, 2 ** 30, 2 ** 31 - 2, 2 ** 31 - 1], 2):
            out.append(dict(spec=comp.spec_of([f"a0 {u}[{l},{h}] a1", f"{o1}[{l},{h}] a0"], 2, past), map=comp.map_of(2), load=False, iv=(l, h)))
    # identifiers: many instructions, signal numbers, formulas, names
    for n in (100, 127, 128, 129, 255, 256, 257, 300):
        w = n > 240
        for past in (False, True):
            nm = [f"f{'x' * (k % 49)}"[:49 - len(str(k))] + str(k) if n < 120 else f"q{k}" for k in range(n)]
            out.append(dict(spec=comp.spec_of([f"a{k}" for k in range(n)], n, past, nm), map=comp.map_of(n), wide=True, cmds=CMDS[0]))
            out.append(dict(spec=comp.spec_of([f"!a{k} && {'O' if past else 'F'}[0,{k % 7}] a{(k + 1) % n}" for k in range(n)], n, past), map=comp.map_of(n), wide=True, cmds=CMDS[1]))
        out.append(dict(spec="INPUT " + ",".join(f"i{k}" for k in range(n)) + ": int;\nFTSPEC\n" + "".join(f" i{k} == {k - 128};\n" for k in range(n)), map="".join(f"i{k}:{k}\n" for k in range(n)), bz=True, wide=True))
        out.append(dict(spec="INPUT " + ",".join(f"i{k}" for k in range(n)) + ": int;\nPTSPEC\n" + "".join(f" prev({k}, i{k} + {k}) > i{n - 1 - k};\n" for k in range(n)), map="".join(f"i{k}:{k}\n" for k in range(n)), bz=True, wide=True))
    for k in (0, 1, 127, 128, 255, 256, 65535, 65536, 2 ** 24, 2 ** 31 - 1):
        out.append(dict(spec="INPUT p: bool;\nFTSPEC p; F[0,1] p;", map=f"p:{k}\n", load=k < 256, ids=k))
        out.append(dict(spec="INPUT p: int;\nFTSPEC p == 1; F[0,1] p > 2;", map=f"p:{k}\n", bz=True, load=k < 256, ids=k))
    # both sections, contracts, names, auxiliary data off
    both = "FTSPEC\n la: F[0,2] p0;\n p0 U[0,3] p1;\n c1: p0 => G[0,2] p1;\n lb: la && p1;\n c2: la => lb;\nPTSPEC\n ma: O[0,2] p0;\n c3: p1 => H[1,4] p0;\n p1 S[2,3] p0;\n"
    for t in (both, both.replace("p1;", "p0 && p1;"), "PTSPEC\n" + both.split("PTSPEC\n")[1] + both.split("PTSPEC\n")[0], both.replace("F[0,2]", "F[0,0]")):
        for cm in CMDS:
            for ao in ("", " --no-aux"):
                out.append(dict(spec="INPUT p0, p1: bool;\n" + t, map="p0:0\np1:1\n", cmds=cm, aopts=ao))
                out.append(dict(spec="INPUT p0, p1: bool; i0: int;\n" + t.replace("G[0,2] p1", "G[0,2] (i0 > 3)"), map="p0:0\np1:1\ni0:2\n", cmds=cm, aopts=ao, bz=True))
    for n in (1, 2, 10, 49, 50, 51, 200): out.append(dict(spec=f"INPUT p0, p1: bool;\nFTSPEC\n {'n' * n}: p0;\n {'m' * n}: p0 => p1;\n", map="p0:0\np1:1\n", mayrefuse=n > 40))
    for n in (60, 63, 64): out.append(dict(spec="INPUT p0, p1: bool;\nFTSPEC\n" + "".join(f" c{k}: {'!' * (k % 3)}p0 => F[0,{k}] p1;\n" for k in range(n)), map="p0:0\np1:1\n", wide=True))
    # expected rows
    for it in out:
        if "iv" in it: it["expect"] = []
    return out


def run(chk):
    common.build_dump(True); _exes()
    T = common.THOROUGH
    its = items(T, common.SEED)
    n = 0
    for it, (e, nodes, ok) in pool.run(wrapped, its, chunk=4, left=chk.left):
        n += 1
        chk.add(states=nodes, transitions=nodes, programs=1, traces_validated_against_impl=int(ok))
        if not ok: chk.add(refused=1)
        if e: chk.violation("binary:" + e["kind"].replace(" ", "_") + ":" + re.sub(r"\s+", "", e.get("spec", ""))[:60], f"{e['kind']}: {str({k: v for k, v in e.items() if k not in ('kind',)})[:400]}", dict(e, item=it))
        elif ok and n % 200 == 1: chk.sample(dict(spec=it["spec"][:200], records=nodes))
    chk.cov["items"] = len(its)
    chk.cov["bounds"] = "every operator in both sections, up to 2 operators per formula, up to 300 instructions, intervals up to 2^31-1, constants at the limits of both types, signal numbers up to 2^31-1"
    chk.assumptions += ["the listing is compared with the specification only for intervals, constants, signal numbers; its meaning is judged by P01-P10"]
    return chk.finish()


def wrapped(it):
    e, n, ok = one(it)
    if e is None and ok:
        d = comp.tmpdir()
        rows = parse_listing("\n".join(l for l in (d / "x.asm").read_text().splitlines()))
        if "iv" in it:
            t = [x[2:] for x in rows if x[0] == "TEMP"]
            if not t or any(x != it["iv"] for x in t): e = dict(kind="listing shows another interval", got=t, expected=it["iv"], spec=it["spec"])
        if "vals" in it:
            t = {x[3] for x in rows if x[0] == "BI"}
            if not set(it["vals"]) <= t: e = dict(kind="listing shows other constants", got=sorted(t), expected=it["vals"], spec=it["spec"])
        if "expf" in it:
            t = {x[3] for x in rows if x[0] == "BF"}
            if not set(it["expf"]) <= t: e = dict(kind="listing shows other constants", got=sorted(t), expected=it["expf"], spec=it["spec"])
        if "ids" in it:
            t = {x[4] for x in rows if x[0] == "TL" and x[2] == 29 and x[3] == 0} if not it.get("bz") else {x[3] for x in rows if x[0] == "BZ" and x[2] == 1}
            if t != {it["ids"]}: e = dict(kind="listing shows another signal number", got=sorted(t), expected=it["ids"], spec=it["spec"])
    return e, n, ok
