"""P26: MLTL-STD and C2PO texts of the same formula. P18: what the compiler writes reads back as the same specification."""
import itertools, json, pathlib, re, time
from lib import common, mltl, comp, sweep, mon, pool, bz, families as fam
import multi

A, B, C_ = ('a', 0), ('a', 1), ('a', 2)
PREC = {'->': 1, '<->': 1, '^': 1, '|': 2, '&': 3, 'U': 4, 'R': 4, 'S': 4, 'T': 4, 'F': 5, 'G': 5, 'H': 5, 'O': 5, '!': 6}
SYM = {'c2po': {'&': '&&', '|': '||', '->': '->', '<->': '<->', '^': 'xor'}, 'mltl': {'&': '&', '|': '|', '->': '->', '<->': '<->'}}


def mini(f, lang, names=None, short=False):
    """Text with only the parentheses the precedence table needs (left associative binary operators)."""
    def go(f):
        o = f[0]
        if o == 'a': return (names or {}).get(f[1], f"a{f[1]}"), 9
        if o in ('tt', 'ff'): return ('true' if o == 'tt' else 'false'), 9
        p = PREC[o]
        iv = lambda: f"[{f[2]}]" if short and f[1] == 0 else f"[{f[1]},{f[2]}]"
        if o == '!' or o in mltl.UN_T:
            t, q = go(f[-1])
            # a unary operator takes the longest operand that binds at least as tightly
            if q < p: t = f"({t})"
            return (f"!{t}" if o == '!' else f"{o}{iv()} {t}"), p
        (s, q1), (t, q2) = go(f[-2]), go(f[-1])
        if q1 < p or tail_open(f[-2], p): s = f"({s})"
        if q2 <= p: t = f"({t})"
        return f"{s} {SYM[lang].get(o) or o + iv()} {t}", p
    def tail_open(f, p):
        return False
    return go(f)[0]


def one(it):
    """it: fs (formulas), past, na, D, text(mltl), text(c2po), ids (signal numbers)."""
    fs, na, past = it["fs"], it["na"], it.get("past", False)
    ids = it.get("ids") or list(range(na))
    ren = lambda f: ('a', ids[f[1]]) if f[0] == 'a' else tuple(ren(x) if isinstance(x, tuple) else x for x in f)
    style = it.get("style", "full")
    gs = [ren(f) for f in fs]
    if style == "full": mt, ct = [mltl.mltlstd(f) for f in gs], [mltl.c2po(f) for f in gs]
    else: mt, ct = [mini(f, 'mltl', short=style == "short") for f in gs], [mini(f, 'c2po', short=style == "short") for f in gs]
    if it.get("M"): mt, ct = [t.replace("9999", "M") for t in mt], [t.replace("9999", "M") for t in ct]
    sep = it.get("sep", "\n")
    opts = dict(it.get("opts", {}))
    text_m = it.get("head", "") + sep.join(mt) + "\n"
    used = sorted(set().union(*[mltl.atoms(f) for f in gs])) or [0]
    text_c = "INPUT " + ",".join(f"a{i}" for i in used) + ": bool;\n" + ("PTSPEC" if past else "FTSPEC") + "\n" + "".join(f"  {t};\n" for t in ct)
    cm = comp.cli(text_m, kind="mltl", **opts)
    cc = comp.cli(text_c, map_text="".join(f"a{i}:{i}\n" for i in used), **opts)
    for c, n, t in ((cm, "MLTL-STD", text_m), (cc, "C2PO", text_c)):
        if not c.ok: return dict(kind=f"{n} text not compiled", rc=c.rc, exc=c.exc, err=(c.err + c.out)[:300], spec=t), 0, 0, False
    fsem = [subst_m(f, it["M"]) for f in fs] if it.get("M") else fs
    nodes = leaves = 0
    S = sweep.srv()
    Lids = [ids[i] for i in range(na)]
    done = {}
    for name, c, t in (("MLTL-STD", cm, text_m), ("C2PO", cc, text_c)):
        if c.binary in done: continue
        done[c.binary] = 1
        L = mon.bool_letters(na, ids=Lids)
        x = S.job([c.binary], [mon.action(mon.LOAD)], L, it["D"], [len(fs)])
        nodes += x.nodes; leaves += x.nleaf
        if x.status: return dict(kind=x.why, path=x.path, spec=t), nodes, leaves, True
        T = mltl.all_traces(na, it["D"])
        for k, f in enumerate(fsem):
            r = sweep.oracle_cmp(f, x.leaves, T, it["D"], na, k)
            if r:
                i, tm, got, want = r
                return dict(kind=f"wrong verdict of the {name} text", formula=k, text=t.splitlines()[-1 if len(fs) == 1 else k - len(fs)], time=tm, got=got, expected=want,
                            path=mltl.digits(i, 1 << na, it["D"]), spec=t), nodes, leaves, True
    return None, nodes, leaves, True


def subst_m(f, m):
    return tuple(subst_m(x, m) if isinstance(x, tuple) else (m if x == 9999 else x) for x in f)


def items26(T, seed):
    out = []
    iv = [(0, 1), (1, 2)]
    bools = ('&', '|', '->', '<->')
    o = lambda i: fam.default_opts(i)
    for past in (False, True):
        one_op = fam.small(past, 1, iv + [(0, 0), (2, 3)], bools=bools)
        two = fam.small(past, 2, iv, bools=bools)
        for i, f in enumerate(one_op): out.append(dict(fs=[f], past=past, na=2, D=5, opts=o(i), style="full"))
        for i, f in enumerate(fam.take(two, len(two) if T else 900, seed)): out.append(dict(fs=[f], past=past, na=2, D=5 if T else 4, opts=o(i), style="full"))
        # every way of chaining two or three operators without redundant parentheses
        P = 'OH' if past else 'FG'
        bi = [(b,) for b in bools] + [(b, 0, 2) for b in ('ST' if past else 'UR')]
        un = [('!',), (P[0], 0, 1), (P[1], 1, 2)]
        leaf = [A, B, C_]
        trees = []
        for b1, b2 in itertools.product(bi, bi):
            trees += [b1 + (b2 + (A, B), C_), b1 + (A, b2 + (B, C_))]
        for u, b in itertools.product(un, bi):
            trees += [u + (b + (A, B),), b + (u + (A,), B), b + (A, u + (B,))]
        for u, v in itertools.product(un, un): trees.append(u + (v + (A,),))
        for u, (b1, b2) in itertools.product(un, itertools.product(bi, bi)):
            trees += [b1 + (u + (A,), b2 + (B, C_)), b1 + (A, b2 + (u + (B,), C_)), b1 + (u + (b2 + (A, B),), C_), b1 + (b2 + (A, u + (B,)), C_)]
        for i, f in enumerate(trees):
            out.append(dict(fs=[f], past=past, na=3, D=5 if T else 4, opts=o(i), style="mini" if i % 2 else "short"))
        # the interval shorthand, literals, the mission time
        for i, f in enumerate([(P[0], 0, 2, A), ('&', (P[1], 0, 3, A), (P[0], 0, 0, B)), ('&', ('tt',), A), ('|', (P[0], 0, 1, A), ('ff',)), ('->', ('tt',), (P[1], 0, 1, B))]):
            for st in ("full", "mini", "short"): out.append(dict(fs=[f], past=past, na=2, D=5, style=st, opts=o(i)))
        for M in (0, 1, 2, 3):
            for l in range(0, M + 1):
                for op in P: out.append(dict(fs=[(op, l, 9999, A)], M=M or 0, past=past, na=1, D=6, style="mini", opts=dict(mission=M)) if M else
                                        dict(fs=[(op, 0, 0, A)], past=past, na=1, D=5, style="mini"))
                out.append(dict(fs=[('S' if past else 'U', l, 9999, A, B)], M=M, past=past, na=2, D=5, style="full", opts=dict(mission=M)) if M else dict(fs=[A], na=1, D=3, past=past))
        # several lines, signal numbers with gaps, comments, spaces
        lib = fam.library(past, iv)
        for i in range(0, len(lib) - 3, 2):
            out.append(dict(fs=lib[i:i + 4], past=past, na=2, D=4, style="full", opts=o(i)))
            out.append(dict(fs=lib[i:i + 3], past=past, na=2, D=4, style="mini", ids=[(7, 3), (10, 9), (255, 100), (0, 63)][i % 4], head=["", "# a comment line\n", "# a0 & a1\n# more\n"][i % 3], opts=o(i + 1)))
        out.append(dict(fs=[lib[k % len(lib)] for k in range(25)], past=past, na=2, D=3, style="full", ids=[17, 4]))
        for ids in itertools.permutations((0, 1, 2)): out.append(dict(fs=[('&', A, ('|', B, ('!', C_)))], past=past, na=3, D=2, ids=list(ids), style="mini"))
        for ids in ((10, 1, 2), (1, 10, 100), (11, 101, 110), (200, 20, 2), (255, 254, 253)): out.append(dict(fs=[('&', A, ('|', B, ('!', C_)))], past=past, na=3, D=2, ids=list(ids), style="full"))
    return out


def formats(chk):
    sweep.prepare()
    multi.sweep_multi(chk, "MLTL-STD and C2PO texts", items26(common.THOROUGH, common.SEED), one, 1.0, 8)
    chk.assumptions += ["MLTL-STD has no exclusive or; past and future operators are not mixed in one MLTL-STD file (the compiler says so).",
                        "Precedence, loosest first: -> <-> (xor) | or | and | U R S T | G F H O | !; binary operators group to the left."]
    return chk.finish()


# ---- P18 ---------------------------------------------------------------------------------------------------
TC, DS = "type_check", "desugar"
STAGES = [[], [TC], [TC, "expand_definitions"], [TC, DS], [TC, DS, "optimize_rewrites"], [TC, DS, "remove_extended_operators"], [TC, DS, "optimize_cse"],
          [TC, DS, "flatten_multi_operators"], [TC, DS, "multi_operators_to_binary", "remove_extended_operators"], [TC, DS, "compute_atomics", "to_nnf"],
          [TC, DS, "optimize_rewrites", "remove_extended_operators", "optimize_cse", "multi_operators_to_binary"]]
DESUGAR = ["expand_definitions", "convert_function_calls_to_structs", "resolve_contracts", "resolve_enum_references", "resolve_struct_accesses", "resolve_array_accesses",
           "unroll_set_aggregation", "resolve_struct_accesses", "unroll_array_accesses", "resolve_struct_accesses"]


def prefix_of(e):
    """The prefix notation of an expression, written from the documented shape (op operand ...)."""
    o = e[0]
    if o in ('i', 'x', 'p'): return f"{o}{e[1]}"
    if o in ('ci', 'cf', 'cb'): return bz.lit(e)
    if o == 'tau': return "TAU"
    if o == 'name': return e[1]
    if o == 'prev': return f"(prev {bz.lit(e[1])} {prefix_of(e[2])})"
    if o in mltl.UN_T or o in mltl.BIN_T: return f"({o}[{e[1]},{e[2]}] {' '.join(prefix_of(k) for k in bz.kids(e))})"
    return f"({'-' if o == 'neg' else o} {' '.join(prefix_of(k) for k in bz.kids(e))})"


def norm(s):
    s = re.sub(r"\((-[\d.]+)\)", r"\1", s)
    toks = re.sub(r"\s*([()])\s*", r" \1 ", s).split()
    return [float(t) if re.fullmatch(r"-?\d+\.\d*", t) else t for t in toks]


def reading(it):
    """it: spec (text), sigs, vals, D, stage, bz, kind ('c2po'|'mltl'), optional exprs (for the prefix notation), map."""
    spec, sigs, bzon, st = it["spec"], it["sigs"], it.get("bz", False), it["stage"]
    opts = dict(bz=bzon, rewrite=False, cse=False, mission=it.get("mission", -1))
    mp = it.get("map") or bz.sig_map(sigs)
    d = comp.tmpdir()
    for f in ("w.c2po", "w.mltl", "w.pre"): (d / f).unlink(missing_ok=True)
    pre = (["enable_booleanizer"] if bzon else []) + ([f"set_mission_time {it['mission']}"] if it.get("mission") else []) + ["parse_c2po {d}/s.c2po", "parse_map {d}/s.map"]
    kind = it.get("kind", "c2po")
    out = ["write_c2po {d}/w.c2po", "write_prefix {d}/w.pre"] if kind == "c2po" else ["compute_atomics", "write_mltl {d}/w.mltl"]
    r = comp.script(pre + st + out, {"s.c2po": spec, "s.map": mp})
    e = dict(stage=st, spec=spec)
    if r.exc or "unexpected error" in r.err + r.out: return dict(e, kind="internal error", exc=r.exc, err=r.err[-300:]), 0, 0, False
    f = d / ("w.c2po" if kind == "c2po" else "w.mltl")
    if r.rc or not f.exists():
        if it.get("may_refuse"): return None, 0, 0, False
        return dict(e, kind="not written", rc=r.rc, err=r.err[:300]), 0, 0, False
    w = f.read_text()
    e["written"] = w
    if kind == "c2po" and it.get("exprs") and len(st) < 2:
        rows = [re.sub(r"^[A-Za-z_][A-Za-z0-9_]*: ", "", l) for l in (d / "w.pre").read_text().splitlines()]
        want = [prefix_of(x) for x in it["exprs"]]
        if len(rows) != len(want): return dict(e, kind="prefix form has another number of formulas", got=rows), 0, 0, True
        for g, x in zip(rows, want):
            if norm(g) != norm(x): return dict(e, kind="prefix form differs", got=g, expected=x), 0, 0, True
    if it.get("prefix") and len(st) < 2 and DS not in st:
        rows = (d / "w.pre").read_text().splitlines()
        if [norm(x) for x in rows] != [norm(x) for x in it["prefix"]]: return dict(e, kind="prefix form differs", got=rows, expected=it["prefix"]), 0, 0, True
    tail = ["remove_extended_operators", "multi_operators_to_binary", "remove_extended_operators", "assemble {d}/x.bin"]
    if DS in st:      # the program in memory at that stage
        (d / "x.bin").unlink(missing_ok=True)
        c0 = comp.script(pre + st + tail, {"s.c2po": spec, "s.map": mp})
        c0.binary = (d / "x.bin").read_bytes() if not c0.rc and (d / "x.bin").exists() else None
    else: c0 = comp.cli(spec, map_text=mp, **opts)
    if not c0.ok: return dict(e, kind="original not compiled", rc=c0.rc, err=(c0.err + c0.out)[:300]), 0, 0, False
    c1 = comp.cli(w, map_text=mp, **opts) if kind == "c2po" else comp.cli(w, kind="mltl", **dict(opts, bz=False))
    if not c1.ok: return dict(e, kind="written specification not accepted", rc=c1.rc, exc=c1.exc, err=(c1.err + c1.out)[:400]), 0, 0, True
    if c0.binary == c1.binary and not it.get("explore"): return None, 1, 0, True
    nf = it["nf"]
    lv = it.get("letters") or bz.product(sigs, it["vals"])
    L = bz.letters(sigs, lv)
    nodes = leaves = 0
    got = []
    for c in (c0, c1):
        g, n, l = multi.profile(c.binary, L, it["D"], nf)
        nodes += n; leaves += l
        if isinstance(g, dict): return dict(g, stage=st, spec=spec, written=w, which="original" if c is c0 else "written"), nodes, leaves, True
        got.append(g)
    # a rewritten formula may be decided earlier or later; where both are decided they must agree
    for dd in range(it["D"]):
        a, b = got[0][dd], got[1][dd]
        bad = (a[:, :, 0] & b[:, :, 1]) | (a[:, :, 1] & b[:, :, 0])
        if dd == it["D"] - 1: bad |= (a[:, :, 0] ^ b[:, :, 0]) | (a[:, :, 1] ^ b[:, :, 1])
        if bad.any():
            i, k = [int(z[0]) for z in bad.nonzero()]
            return dict(e, kind="written specification has other verdicts", formula=k, original=[hex(int(z)) for z in a[i, k]], reloaded=[hex(int(z)) for z in b[i, k]],
                        path=[lv[z] for z in mltl.digits(i, len(lv), dd + 1)]), nodes, leaves, True
    return None, nodes, leaves, True


def struct_specs():
    """Specifications with every declaration form: (text, signals, number of formulas, Booleanizer)."""
    I = lambda n: [('i', k) for k in range(n)]
    P = lambda n: [('p', k) for k in range(n)]
    out = []
    def add(t, sigs, nf, bzon=True, mp=None, known=None): out.append((t, sigs, nf, bzon, mp, known))
    d = lambda s: bz.decl(s)
    arrm = lambda decls: "".join(f"{n}[{k}]:{j}\n" for j, (n, k) in enumerate((n, k) for n, c in decls for k in range(c)))
    for t, nf in (("FTSPEC A == B; A[1..2] == B[0..1]; A[0] != B[2]; A < B; A[0..0] >= B[1..1];", 5), ("FTSPEC foreach(k : A)(k > 0); forsome(k : B)(k == A[0]); foreach(k: A[1..2])(F[0,1] (k < 1));", 3),
                  ("FTSPEC forsome(k : {A[0], B[1], A[2]})(k == 1) ; foreach(k : {A[0]})(k > 0);", 2), ("DEFINE C := A; d := A[1]; e := {A[0], d}; FTSPEC C == B; foreach(z: e)(z == d); C[2] > 0; e[1] == A[1];", 4),
                  ("FTSPEC foreach(k : A)(forsome(m : B)(k == m)); foreach(k: A)(foreach(m: B[0..1])(G[0,1] (k <= m)));", 2)):
        add("INPUT A, B: int[3];\n" + t, I(6), nf, True, arrm([("A", 3), ("B", 3)]))
    for t, nf, kn in (("FTSPEC p[2]; foreach(k : p)(k); forsome(k : p[0..1])(G[0,1] k);", 3, None), ("FTSPEC forexactly(k : p, 2)(k); foratleast(k : p[0..1], 1)(k); foratmost(k : p, 1)(k);", 3, "sum"),
                      ("FTSPEC forexactly(k : {p[0], p[1]}, 0)(k); PTSPEC foratmost(k: p, 2)(k); foratleast(k : p, 3)(k);", 3, "sum"),
                      ("FTSPEC l: p[0] U[0,2] p[1]; G[1,2] l; l && p[2]; DEFINE z := foreach(q: p)(q); FTSPEC z || l;", 4, None),
                      ("PTSPEC foreach(k: p)(O[0,1] k); p[0] S[0,2] p[1]; p[1] T[1,2] p[2];", 3, None)):
        add("INPUT p: bool[3];\n" + t, P(3), nf, True, arrm([("p", 3)]), kn)
    for t, nf in (("FTSPEC s.a; s.b[1] == 2; t.s.c == i1; t.z > 2.0;", 4), ("DEFINE r := {s, S1(!p0, {i0, i1, 2}, i1)}; FTSPEC foreach(k : r)(k.a); r[1].c == 1; forsome(k : r)(k.c > 0);", 3), ("FTSPEC foreach(k : s.b)(k > 0); s.b == {1, i0, 2}; s.b[0..1] == {i1, 1};", 3)):
        add("STRUCT\n S1: {a: bool; b: int[3]; c: int;};\n S2: {s: S1; z: float;};\nINPUT p0: bool; i0, i1: int;\nDEFINE s := S1(p0, {i0, 1, i1}, i0); t := S2(s, 1.5);\n" + t, [('p', 0), ('i', 0), ('i', 1)], nf)
    add("STRUCT S3: {a, b: bool; A: int[];};\nINPUT p0, p1: bool; i0, i1: int;\nDEFINE s := S3(p0, p1, {i0, i1});\nFTSPEC s.a && s.b; foreach(k : s.A)(k > 0); s.A[1] == 1;", [('p', 0), ('p', 1), ('i', 0), ('i', 1)], 3)
    for t, nf in (("FTSPEC (W == i0) U[0,2] (i0 == G1 || i0 == Q); prev(Q, i1) == Z; i1 != Z;", 3), ("PTSPEC O[0,1] (i0 == W); DEFINE d := i1 == Y; FTSPEC d; !d;", 3)):
        add("ENUM\n E: {W, G1, Q};\n E2: {Z: 1, Y: 2, Q: 3};\nINPUT i0: E; i1: E2;\n".replace("Q: 3", "V: 3").replace("prev(Q", "prev(Q") + t.replace("prev(Q", "prev(V"), [('i', 0), ('i', 1)], nf, True, None, "enum")
    for t, nf, b in (("FTSPEC l: p0; c: F[0,2] p0 => p1 && l; m: G[0,1] p1 && l; PTSPEC h: H[0,2] p0; dd: p0 => O[1,2] p1; p0 S[0,2] p1;", 10, False),
                     ("FTSPEC c: p0 => p1; p0 xor p1; p0 -> p1 -> p0; (p0 <-> p1) <-> p0;", 6, False),
                     ("DEFINE d := p0 && p1; e := d || !p1; FTSPEC (p0 && p1 && d) || d; e <-> d; true -> p0; e U[0,1] d; PTSPEC d; O[0,2] e;", 6, False)):
        add("INPUT p0, p1: bool;\n" + t, P(2), nf, b)
    return out


def items18(T, seed):
    out = []
    P0, P1, I0, I1, X0, X1 = ('p', 0), ('p', 1), ('i', 0), ('i', 1), ('x', 0), ('x', 1)
    V = {'i': (-2, 0, 1, 2), 'x': (-0.75, 0.0, 0.5, 3.0), 'p': (False, True)}
    import bzc
    # structured specifications at every stage (their operator trees in prefix notation: lib/prefix.json, checked by hand)
    PF = json.loads((pathlib.Path(__file__).parent.parent / "lib" / "prefix.json").read_text())
    for t, sigs, nf, b, mp, kn in struct_specs():
        for st in STAGES:
            v = dict(V, i=(0, 1, 2) if len([s for s in sigs if s[0] == 'i']) <= 2 else (0, 1))
            nl = len(bz.product(sigs, v))
            D = 1
            while nl ** (D + 1) <= 4000 and D < 4: D += 1
            out.append(dict(spec=t, sigs=sigs, vals=v, D=D, stage=st, bz=b, nf=nf, map=mp, known=kn, prefix=PF[t]))
        for k in range(1, len(DESUGAR) + 1): out.append(dict(spec=t, sigs=sigs, vals=v, D=D, stage=[TC] + DESUGAR[:k], bz=b, nf=nf, map=mp, known=kn))
    # value expressions
    exprs = []
    tabi = bzc.ints(2, [I0, ('ci', 2), ('ci', -3), ('tau',)])
    tabf = bzc.floats(2, [X0, ('cf', 0.5), ('cf', -1.25), ('cf', 0.000001), ('cf', 1e22)])
    ie = tabi[0] + tabi[1] + fam.take(tabi[2], 1200 if T else 240, seed)
    fe = tabf[0] + tabf[1] + fam.take(tabf[2], 1200 if T else 160, seed)
    const = lambda e: not bz.signals(e) and not bz.has(e, 'tau')
    for i, e in enumerate(ie):
        if bzc.risky(e) or const(e): continue
        exprs.append((bz.REL[i % 6], e, [I1, ('ci', 0), ('ci', -1)][i % 3]))
    for i, e in enumerate(fe):
        if bzc.risky(e) or const(e): continue
        exprs.append((bz.REL[i % 6], e, [X1, ('cf', 0.0), ('cf', -0.5)][i % 3]))
    exprs += [('prev', ('cb', True), P0), ('==', ('prev', ('ci', -1), ('+', I0, ('ci', 1))), I1), ('<', ('prev', ('cf', 2.5), X0), X1), ('&&', ('prev', ('cb', False), ('==', P0, P1)), ('==', P0, P1)), ('!=', P0, P1),
              ('U', 0, 2, ('>', I0, ('ci', 0)), ('!', ('==', I0, I1))), ('G', 1, 2, ('->', ('<', X0, X1), P0)), ('xor', ('F', 0, 1, P0), ('>=', I0, I1)), ('R', 1, 2, P0, ('<->', P1, ('==', I0, ('ci', 1))))]
    sigs = [I0, I1, X0, X1, P0, P1]
    n = 25
    lv = [tuple(V[s[0]][(k * (j + 3) + j) % len(V[s[0]])] for j, s in enumerate(sigs)) for k in range(9)]
    for i in range(0, len(exprs), n):
        ch = exprs[i:i + n]
        ats = []
        for f in ch: bz.split(f, ats)
        st_free = [a for a in ats if not bz.has(a, 'prev', 'tau')]
        L = bz.defined(st_free, sigs, lv) or lv[:1]
        for full in (True, False):
            spec = bz.decl(sigs) + "FTSPEC\n" + "".join(f"  {bz.show(f, full)};\n" for f in ch)
            for st in ([], [TC], [TC, DS], [TC, DS, "optimize_rewrites"], [TC, DS, "optimize_cse"]):
                out.append(dict(spec=spec, sigs=sigs, letters=L, D=2, stage=st, bz=True, nf=len(ch), exprs=ch))
    # temporal formulas in both sections, written as C2PO and as MLTL-STD
    iv = [(0, 1), (1, 2)]
    for past in (False, True):
        fs = fam.small(past, 1, iv + [(0, 0), (2, 2)], bools=('&', '|', '<->', '->', '^')) + fam.take(fam.small(past, 2, iv, bools=('&', '|', '<->', '->', '^')), 3000 if T else 700, seed)
        fs = [f for f in fs]
        mult = [('&', A, ('&', B, ('&', A, ('!', B)))), ('|', ('|', A, B), ('|', B, A)), ('&', ('tt',), A), ('|', A, ('ff',)), ('^', ('^', A, B), A), ('^', A, ('^', B, ('!', A))), ('!', ('^', A, B))]
        fs += [('O' if past else 'F', 0, 1, f) for f in mult] + mult
        for i in range(0, len(fs), 12):
            ch = fs[i:i + 12]
            tx = lambda f: bz.show(tobz(f), i % 24 == 0)
            spec = "INPUT p0, p1: bool;\n" + ("PTSPEC\n" if past else "FTSPEC\n") + "".join(f"  {'l%d: ' % k if k % 3 == 0 else ''}{tx(f)};\n" for k, f in enumerate(ch))
            for st in STAGES: out.append(dict(spec=spec, sigs=[P0, P1], vals=V, D=4, stage=st, nf=len(ch), exprs=[tobz(f) for f in ch]))
            for st in STAGES:
                if DS in st: out.append(dict(spec=spec, sigs=[P0, P1], vals=V, D=4, stage=st, nf=len(ch), kind="mltl"))
        out.append(dict(spec="INPUT p0, p1: bool;\n" + ("PTSPEC O[0,M] p0; p0 S[1,M] p1;" if past else "FTSPEC G[M] p0; p0 U[1,M] p1;"), mission=3, sigs=[P0, P1], vals=V, D=5, stage=[], nf=2))
        for mp in ("p0:3\np1:1\n", "p0:1\np1:0\n", "p1:200\np0:9\n"):
            out.append(dict(spec="INPUT p0, p1: bool;\nFTSPEC F[0,1] p0; p1;", sigs=[P0, P1], vals=V, D=3, stage=[TC, DS], nf=2, kind="mltl", map=mp, explore=False))
    out.append(dict(spec="INPUT p0, p1: bool;\nFTSPEC F[0,1] p0; PTSPEC O[0,1] p1;", sigs=[P0, P1], vals=V, D=3, stage=[TC, DS], nf=2, kind="mltl", may_refuse=True))
    return out


def tobz(f):
    o = f[0]
    if o == 'a': return ('p', f[1])
    if o in ('tt', 'ff'): return ('cb', o == 'tt')
    m = {'&': '&&', '|': '||', '^': 'xor'}.get(o, o)
    return (m,) + tuple(tobz(x) if isinstance(x, tuple) else x for x in f[1:])


def reading_known(it):
    e, n, l, ok = reading(it)
    if e and e["kind"] == "written specification not accepted" and it.get("known") and DS_done(it["stage"]):
        if it["known"] == "sum" and "type_check" in e["err"] and "'bool'" in e["err"]: return dict(kind="known", keys=["written:set_counts"]), n, l, ok
        if it["known"] == "enum" and "type_check" in e["err"]: return dict(kind="known", keys=["written:enum_members"]), n, l, ok
    return e, n, l, ok


def DS_done(st):
    return DS in st or "unroll_set_aggregation" in st or "resolve_enum_references" in st


def written(chk):
    sweep.prepare()
    multi.sweep_multi(chk, "written and read again", items18(common.THOROUGH, common.SEED), reading_known, 1.0, 8)
    chk.assumptions += ["MLTL-STD is only expected of specifications without contracts and value expressions, and of formulas of one time direction.",
                        "A written specification is compiled without rewriting or CSE; when it gives the very same binary as the original, the two are not explored."]
    return chk.finish()
