"""P20: sets, arrays, slices, structs, enums, definitions and labels against their expansion written out by hand."""
import itertools
from lib import common, mltl, comp, sweep, mon, pool, bz, families as fam
import multi

I, P, X = (lambda k: ('i', k)), (lambda k: ('p', k)), (lambda k: ('x', k))
ci = lambda n: ('ci', n)
VALS = {'i': (-1, 0, 2), 'x': (-0.5, 0.5, 3.0), 'p': (False, True)}
# the signals behind every declared input: text name -> signal
INPUTS = ("INPUT\n  A, B: int[3];\n  p: bool[3];\n  n, m: int;\n  q, w: bool;\n  X: float[2];\n  e0: St; e1: Col;\n",
          [(f"A[{k}]", I(k)) for k in range(3)] + [(f"B[{k}]", I(3 + k)) for k in range(3)] + [(f"p[{k}]", P(k)) for k in range(3)] + [("n", I(6)), ("m", I(7)), ("q", P(3)), ("w", P(4))] +
          [(f"X[{k}]", X(k)) for k in range(2)] + [("e0", I(8)), ("e1", I(9))])
ENUM = "ENUM\n  St: {Idle, Busy, Done};\n  Col: {Red: 5, Green: 0, Blue: 2};\n"
STRUCT = "STRUCT\n  Rec: {a: bool; v: int; arr: int[];};\n  Nest: {r: Rec; z: float; f, g: bool;};\n  Fix: {c: int[2]; on: bool[2];};\n"
DEFS = """DEFINE
  r0 := Rec(q, n, {A[0], m});
  r1 := Rec(p[1], B[1], {n, 2});
  t0 := Nest(r0, X[1], p[0], w);
  t1 := Nest(Rec(w, -1, {m, m}), 0.5, q, p[2]);
  fx := Fix({n, B[2]}, {q, p[0]});
  recs := {r0, r1};
  C := A;
  sl := B[1..2];
  ar := {n, A[1], 2};
  br := {q, p[2]};
  d := n > m;
  dd := d;
  k0 := m + 1;
  two := 2;
  rr := r1;
  nests := {t0, t1};
  df := forsome(k: B)(k > 0);
"""
MAP = "".join(f"{t}:{j}\n" for j, (t, s) in enumerate(INPUTS[1]))
POS = {s: j for j, (t, s) in enumerate(INPUTS[1])}

INTS = [("A[0]", I(0)), ("A[2]", I(2)), ("B[1]", I(4)), ("n", I(6)), ("C[1]", I(1)), ("C[2]", I(2)), ("sl[0]", I(4)), ("sl[1]", I(5)), ("ar[0]", I(6)), ("ar[1]", I(1)), ("ar[2]", ci(2)), ("r0.v", I(6)), ("r1.v", I(4)), ("rr.v", I(4)),
        ("r0.arr[0]", I(0)), ("r0.arr[1]", I(7)), ("r1.arr[1]", ci(2)), ("rr.arr[0]", I(6)), ("t0.r.v", I(6)), ("t0.r.arr[1]", I(7)), ("t1.r.v", ci(-1)), ("t1.r.arr[0]", I(7)), ("fx.c[0]", I(6)), ("fx.c[1]", I(5)), ("recs[0].v", I(6)),
        ("recs[1].v", I(4)), ("recs[1].arr[0]", I(6)), ("nests[1].r.v", ci(-1)), ("nests[0].r.arr[0]", I(0)), ("k0", ('+', I(7), ci(1))), ("two", ci(2)), ("A[1..2][0]", I(1)), ("{A[2], n}[1]", I(6)), ("{A[2], n}[0]", I(2))]
BOOLS = [("p[0]", P(0)), ("q", P(3)), ("br[1]", P(2)), ("r0.a", P(3)), ("r1.a", P(1)), ("rr.a", P(1)), ("t0.f", P(0)), ("t0.g", P(4)), ("t1.f", P(3)), ("t1.g", P(2)), ("t0.r.a", P(3)), ("t1.r.a", P(4)), ("fx.on[0]", P(3)), ("fx.on[1]", P(0)),
         ("recs[0].a", P(3)), ("recs[1].a", P(1)), ("nests[0].g", P(4)), ("nests[1].f", P(3)), ("nests[1].r.a", P(4)), ("d", ('>', I(6), I(7))), ("dd", ('>', I(6), I(7))), ("{p[2], q}[0]", P(2)), ("p[1..2][1]", P(2))]
FLTS = [("X[0]", X(0)), ("X[1]", X(1)), ("t0.z", X(1)), ("t1.z", ('cf', 0.5)), ("nests[0].z", X(1)), ("nests[1].z", ('cf', 0.5))]
IARR = [("A", [I(0), I(1), I(2)]), ("B", [I(3), I(4), I(5)]), ("A[1..2]", [I(1), I(2)]), ("A[0..0]", [I(0)]), ("C", [I(0), I(1), I(2)]), ("C[0..1]", [I(0), I(1)]), ("sl", [I(4), I(5)]), ("sl[1..1]", [I(5)]), ("ar", [I(6), I(1), ci(2)]), ("ar[0..1]", [I(6), I(1)]),
        ("{n}", [I(6)]), ("{A[0], n}", [I(0), I(6)]), ("{n, r0.v, 2, C[1]}", [I(6), I(6), ci(2), I(1)]), ("r0.arr", [I(0), I(7)]), ("r1.arr", [I(6), ci(2)]), ("rr.arr", [I(6), ci(2)]), ("t0.r.arr", [I(0), I(7)]), ("fx.c", [I(6), I(5)]), ("recs[1].arr", [I(6), ci(2)])]
BARR = [("p", [P(0), P(1), P(2)]), ("p[0..1]", [P(0), P(1)]), ("p[2..2]", [P(2)]), ("br", [P(3), P(2)]), ("{q}", [P(3)]), ("{p[1], q, w}", [P(1), P(3), P(4)]), ("{r0.a, t0.g, d}", [P(3), P(4), ('>', I(6), I(7))]), ("fx.on", [P(3), P(0)])]
SARR = [("recs", [dict(a=P(3), v=I(6), arr=[I(0), I(7)]), dict(a=P(1), v=I(4), arr=[I(6), ci(2)])]), ("{r1}", [dict(a=P(1), v=I(4), arr=[I(6), ci(2)])]), ("{rr, r0}", [dict(a=P(1), v=I(4), arr=[I(6), ci(2)]), dict(a=P(3), v=I(6), arr=[I(0), I(7)])])]


def fold(op, xs):
    e = xs[0]
    for x in xs[1:]: e = (op, e, x)
    return e


def count(kind, n, xs):
    ok = {"forexactly": lambda c: c == n, "foratleast": lambda c: c >= n, "foratmost": lambda c: c <= n}[kind]
    opts = [fold('&&', [x if v else ('!', x) for x, v in zip(xs, vs)]) for vs in itertools.product((False, True), repeat=len(xs)) if ok(sum(vs))]
    return fold('||', opts) if opts else ('cb', False)


def simp(e):
    return e


def agg(kind, n, xs):
    return fold('&&' if kind == "foreach" else '||', xs) if n is None else count(kind, n, xs)


AGG = [("foreach", None), ("forsome", None), ("forexactly", 0), ("forexactly", 1), ("forexactly", 2), ("foratleast", 0), ("foratleast", 1), ("foratleast", 2), ("foratmost", 0), ("foratmost", 1), ("foratmost", 3)]


def ag(kind, n, var, st, body):
    return f"{kind}({var}: {st}{'' if n is None else ', %d' % n})({body})"


def forms(T):
    """(text, expansion) pairs."""
    out = []
    for k, (t, e) in enumerate(INTS):
        out.append((f"{t} {bz.REL[k % 6]} m", (bz.REL[k % 6], e, I(7))))
        out.append((f"(1 + {t}) * n >= B[0]", ('>=', ('*', ('+', ci(1), e), I(6)), I(3))))
        if e[0] != 'ci': out.append((f"prev(1, {t}) == n", ('==', ('prev', ci(1), e), I(6))))
        u, f = INTS[(k * 7 + 3) % len(INTS)]
        if bz.signals(e) | bz.signals(f): out.append((f"F[0,1] ({t} < {u})", ('F', 0, 1, ('<', e, f))))
    for k, (t, e) in enumerate(BOOLS):
        out.append((t, e)); out.append((f"!{t}", ('!', e)))
        u, f = BOOLS[(k * 5 + 2) % len(BOOLS)]
        out.append((f"{t} U[0,1] {u}", ('U', 0, 1, e, f))); out.append((f"{t} -> G[0,1] {u}", ('->', e, ('G', 0, 1, f)))); out.append((f"{t} && {u} || !{t} && w", ('||', ('&&', e, f), ('&&', ('!', e), P(4)))))
    for k, (t, e) in enumerate(FLTS):
        if e[0] != 'cf': out.append((f"{t} > 0.25", ('>', e, ('cf', 0.25))))
        out.append((f"X[0] <= {t} + 1.0", ('<=', X(0), ('+', e, ('cf', 1.0)))))
    # set aggregation over arrays of integers, with relations as bodies (all kinds), other bodies (foreach, forsome)
    rel = [("k > n", lambda x: ('>', x, I(6))), ("0 == k", lambda x: ('==', ci(0), x)), ("k + n < m", lambda x: ('<', ('+', x, I(6)), I(7))), ("prev(0, k) == m", lambda x: ('==', ('prev', ci(0), x), I(7)))]
    tl = [("F[0,1] (k > n)", lambda x: ('F', 0, 1, ('>', x, I(6)))), ("G[0,1] (k > 0)", lambda x: ('G', 0, 1, ('>', x, ci(0)))), ("q U[0,2] (k == m)", lambda x: ('U', 0, 2, P(3), ('==', x, I(7)))), ("k > n && d", lambda x: ('&&', ('>', x, I(6)), ('>', I(6), I(7)))),
          ("!(k > n) || r0.a", lambda x: ('||', ('!', ('>', x, I(6))), P(3))), ("k > two -> q", lambda x: ('->', ('>', x, ci(2)), P(3)))]
    for i, (st, xs) in enumerate(IARR):
        for j, (kd, n) in enumerate(AGG):
            b, f = rel[(i + j) % 4]
            es = [f(x) for x in xs if True]
            if any(not bz.signals(e) for e in es): b, f = rel[2]; es = [f(x) for x in xs]
            out.append((ag(kd, n, "k", st, b), agg(kd, n, es)))
        for j, (b, f) in enumerate(tl):
            es = [f(x) for x in xs]
            if any(not bz.signals(('>', x, ci(0))) for x in xs) and j in (1, 5): continue
            for kd in ("foreach", "forsome"): out.append((ag(kd, None, "k", st, b), agg(kd, None, es)))
        kd = AGG[i % 11]
        inner = agg(*kd, [('<', x, I(7)) for x in xs])
        t = ag(*kd, "k", st, "k < m")
        out += [(f"!{t}", ('!', inner)), (f"F[0,1] {t}", ('F', 0, 1, inner)), (f"q U[0,1] {t}", ('U', 0, 1, P(3), inner)), (f"{t} && {t}", ('&&', inner, inner)), (f"({t}) -> d", ('->', inner, ('>', I(6), I(7))))]
        for su, ys in IARR[(i * 3) % 7::7]:
            e = lambda k1, k2: agg(k1, None, [agg(k2, None, [('<=', x, y) for y in ys]) for x in xs])
            if all(bz.signals(('<', x, y)) for x in xs for y in ys) and len(xs) * len(ys) <= 6:
                for k1, k2 in itertools.product(("foreach", "forsome"), repeat=2): out.append((f"{k1}(k: {st})({k2}(j: {su})(k <= j))", e(k1, k2)))
        for op in ("==", "<", ">=", "!=", "<=", ">"):
            su, ys = IARR[(i + 5) % len(IARR)]
            for su, ys in [z for z in IARR if len(z[1]) == len(xs)][i % 3::3][:2 if not T else 9]:
                if all(bz.signals(('<', x, y)) for x, y in zip(xs, ys)): out.append((f"{st} {op} {su}", fold('&&', [(op, x, y) for x, y in zip(xs, ys)])))
    for i, (st, xs) in enumerate(BARR):
        for kd, n in AGG: out.append((ag(kd, n, "b", st, "b"), agg(kd, n, xs)))
        for kd in ("foreach", "forsome"):
            out.append((ag(kd, None, "b", st, "!b"), agg(kd, None, [('!', x) for x in xs])))
            out.append((ag(kd, None, "b", st, "b -> F[0,1] b"), agg(kd, None, [('->', x, ('F', 0, 1, x)) for x in xs])))
            out.append((ag(kd, None, "b", st, "G[0,1] b"), agg(kd, None, [('G', 0, 1, x) for x in xs])))
            out.append((ag(kd, None, "b", st, "F[1,2] b"), agg(kd, None, [('F', 1, 2, x) for x in xs])))
            out.append((ag(kd, None, "b", st, "b U[0,1] w"), agg(kd, None, [('U', 0, 1, x, P(4)) for x in xs])))
            out.append((ag(kd, None, "b", st, "w U[0,1] b"), agg(kd, None, [('U', 0, 1, P(4), x) for x in xs])))
            out.append((f"{kd}(k: {{n, m}})(" + ag(kd, None, "b", st, "b && k > 0") + ")", agg(kd, None, [agg(kd, None, [('&&', x, ('>', I(k), ci(0))) for x in xs]) for k in (6, 7)])))
    for st, xs in SARR:
        for kd, n in AGG: out.append((ag(kd, n, "s", st, "s.a"), agg(kd, n, [x["a"] for x in xs]))); out.append((ag(kd, n, "s", st, "s.v > m"), agg(kd, n, [('>', x["v"], I(7)) for x in xs])))
        for kd in ("foreach", "forsome"):
            out.append((ag(kd, None, "s", st, "s.a -> s.v > n"), agg(kd, None, [('->', x["a"], ('>', x["v"], I(6))) for x in xs])))
            out.append((ag(kd, None, "s", st, "s.arr[0] == m"), agg(kd, None, [('==', x["arr"][0], I(7)) for x in xs])))
            for k2 in ("foreach", "forsome"): out.append((ag(kd, None, "s", st, f"{k2}(k: s.arr)(k < s.v + m)"), agg(kd, None, [agg(k2, None, [('<', y, ('+', x["v"], I(7))) for y in x["arr"]]) for x in xs])))
    # concrete array members of structs in sets, slices inside bodies and nested sets, a bound name used again
    eqm = lambda x: ('==', x, I(7))
    gt0 = lambda x: ('>', x, ci(0))
    out += [("foreach(s: {fx})(s.c[0] == m)", eqm(I(6))), ("foreach(s: {fx})(s.c[1] == m)", eqm(I(5))), ("forsome(s: {fx, fx})(s.c[1] == m)", eqm(I(5))), ("{fx, fx}[1].c[1] == m", eqm(I(5))), ("foreach(s: {fx})(s.on[1])", P(0)),
            ("foreach(s: {fx})(foreach(k: s.on[0..0])(k))", P(3)), ("foreach(s: {fx, fx})(forsome(k: s.c[0..1])(k == m))", ('||', eqm(I(6)), eqm(I(5)))), ("foreach(s: {fx})(s.c == {m, m})", ('&&', eqm(I(6)), eqm(I(5)))),
            ("foreach(s: recs)(s.arr[0..1] == {m, m})", fold('&&', [eqm(I(0)), eqm(I(7)), eqm(I(6)), eqm(ci(2))])), ("forsome(s: recs)(s.arr[1..1] == {m})", fold('||', [eqm(I(7)), eqm(ci(2))])),
            ("foreach(b: p[0..1])(forsome(c: p[1..2])(b && c))", fold('&&', [fold('||', [('&&', x, y) for y in (P(1), P(2))]) for x in (P(0), P(1))])), ("forsome(b: br)(foreach(c: br[0..0])(b -> c))", ('||', ('->', P(3), P(3)), ('->', P(2), P(3)))),
            ("foreach(k: A[1..2])(k > 0) && forsome(k: B[0..1])(k > 0)", ('&&', fold('&&', [('>', I(k), ci(0)) for k in (1, 2)]), fold('||', [('>', I(k), ci(0)) for k in (3, 4)]))),
            ("foreach(k: A[0..1])(foreach(j: A[1..2])(k <= j))", fold('&&', [('<=', I(x), I(y)) for x in (0, 1) for y in (1, 2)])),
            ("foreach(k: A)(forsome(k: B)(k > 0))", fold('||', [gt0(I(k)) for k in (3, 4, 5)])), ("foreach(k: A)(k > 0 || forsome(k: B)(k > 0))", fold('&&', [('||', gt0(I(j)), fold('||', [gt0(I(k)) for k in (3, 4, 5)])) for j in (0, 1, 2)])),
            ("forsome(k: A)(forsome(k: B)(k > 0) && k > 0)", fold('||', [('&&', fold('||', [gt0(I(k)) for k in (3, 4, 5)]), gt0(I(j))) for j in (0, 1, 2)])), ("foreach(k: A)(df && k > 0)", fold('&&', [('&&', fold('||', [gt0(I(k)) for k in (3, 4, 5)]), gt0(I(j))) for j in (0, 1, 2)])),
            ("df", fold('||', [gt0(I(k)) for k in (3, 4, 5)])), ("!df || foreach(k: A)(k > 0)", ('||', ('!', fold('||', [gt0(I(k)) for k in (3, 4, 5)])), fold('&&', [gt0(I(k)) for k in (0, 1, 2)]))),
            ("foreach(s: recs)(forsome(s: s.arr)(s > 0))", fold('&&', [('||', gt0(I(0)), gt0(I(7))), ('||', gt0(I(6)), gt0(ci(2)))])), ("foreach(k: A[0..1])(foreach(k: {k, n})(k > 0))", fold('&&', [('&&', gt0(I(j)), gt0(I(6))) for j in (0, 1)])),
            ("foreach(k: ar)(k > 0) -> forsome(k: {n, m})(k > 0)", ('->', fold('&&', [('>', x, ci(0)) for x in (I(6), I(1), ci(2))]), ('||', ('>', I(6), ci(0)), ('>', I(7), ci(0)))))]
    for en, s, mem in (("e0", I(8), dict(Idle=0, Busy=1, Done=2)), ("e1", I(9), dict(Red=5, Green=0, Blue=2))):
        for m, v in mem.items():
            out += [(f"{en} == {m}", ('==', s, ci(v))), (f"{m} != {en}", ('!=', ci(v), s)), (f"prev({m}, {en}) == {en}", ('==', ('prev', ci(v), s), s)), (f"F[0,2] ({en} == {m})", ('F', 0, 2, ('==', s, ci(v))))]
    return out


def program(it):
    fs, past = it["forms"], it["past"]
    spec = it["head"] + ("PTSPEC\n" if past else "FTSPEC\n") + "".join(f"  {t};\n" for t, e in fs)
    c = comp.cli(spec, map_text=it.get("map", MAP), bz=True, **it["opts"])
    if not c.ok: return dict(kind="not compiled", rc=c.rc, exc=c.exc, err=(c.err + c.out)[:400], text=[t for t, e in fs][:3], opts=it["opts"], spec=spec), 0, 0, False
    ex = [e for t, e in fs]
    sigs = sorted(set().union(*[bz.signals(e) for e in ex]))
    V = dict(it.get("vals", VALS))
    L = [tuple(l) for l in itertools.product(*[(it.get("per") or {}).get(s, V[s[0]]) for s in sigs])]
    D = it["D"]
    while D > 1 and len(L) ** D > it.get("max", 4000): D -= 1
    L = L[:: max(1, -(-len(L) // 1500))] if len(L) > 1500 and D == 1 else L
    pos = it.get("pos", POS)
    e, x = bz.explore(c.binary, sigs, L, D, ex, idmap=pos)
    if e: e.update(text=fs[e["formula"]][0] if e.get("formula") is not None and e["formula"] < len(fs) else [t for t, z in fs][:3], opts=it["opts"], spec=spec)
    return e, x.nodes, x.nleaf, True


def narrow(it):
    r = program(it)
    if r[0] and len(it["forms"]) > 1 and r[0]["kind"] in ("not compiled",):
        for f in it["forms"]:
            o = program(dict(it, forms=[f]))
            if o[0]: return o
    return r


def to_past(f):
    sw = {'F': 'O', 'U': 'S', 'G': 'H', 'R': 'T'}
    o = f[0]
    return (sw.get(o, o),) + tuple(to_past(k) if isinstance(k, tuple) else k for k in f[1:])


def past_text(t):
    import re
    return re.sub(r"\b([FGU])\[", lambda m: {'F': 'O', 'U': 'S', 'G': 'H'}[m.group(1)] + "[", t)


OPTS = [dict(rewrite=r, cse=c, extops=x) for r in (True, False) for c in (True, False) for x in (False, True)]


def items(T, seed):
    out = []
    head = ENUM + STRUCT + INPUTS[0] + DEFS
    fs = forms(T)
    for past in (False, True):
        g = [(past_text(t), to_past(e)) for t, e in fs] if past else fs
        by = {}
        for f in g: by.setdefault(tuple(sorted(bz.signals(f[1]))), []).append(f)
        k = 0
        for s, ch in by.items():
            for i in range(0, len(ch), 8):
                for o in (OPTS if T else [OPTS[k % 4], OPTS[7 - k % 4], OPTS[(k + 2) % 8]]) if not past else [OPTS[(k + 3) % 8]]:
                    out.append(dict(forms=ch[i:i + 8], past=past, head=head, opts=o, D=4, max=7000 if not T else 60000))
                k += 1
        # whole specifications of many formulas over a few signals each
        mixed = sorted(g, key=lambda f: (len(bz.signals(f[1])), f[0]))
        for i in range(0, len(mixed) - 9, 9):
            ch = mixed[i:i + 9:3]
            if len(set().union(*[bz.signals(e) for t, e in ch])) <= 5: out.append(dict(forms=ch, past=past, head=head, opts=OPTS[i % 4], D=2, max=3000))
    # labels used as formulas, definitions over labels, several sections, declaration orders
    out += labels(T)
    out += declarations(T)
    return out


def labels(T):
    out = []
    q, w, d = P(3), P(4), ('>', I(6), I(7))
    base = dict(head="INPUT n, m: int; q, w: bool;\n", map="q:0\nw:1\nn:2\nm:3\n", pos={q: 0, w: 1, I(6): 2, I(7): 3}, past=False, D=3)
    def add(head, fs, past=False, text=None):
        for o in OPTS[:4] if not T else OPTS: out.append(dict(base, head=base["head"] + head, forms=fs, past=past, opts=o, max=3000))
    L1 = ('U', 0, 1, q, w)
    for use, f in (("l1", lambda x: x), ("!l1", lambda x: ('!', x)), ("G[0,1] l1", lambda x: ('G', 0, 1, x)), ("l1 && q", lambda x: ('&&', x, q)), ("l1 U[1,2] w", lambda x: ('U', 1, 2, x, w)), ("foreach(b: {l1, w})(b)", lambda x: ('&&', x, w))):
        for lab, le in (("q U[0,1] w", L1), ("d0", d), ("q", q), ("n > m && q", ('&&', d, q))):
            add("DEFINE d0 := n > m;\n", [("l1: " + lab, le), (use, f(le)), ("l2: " + use, f(le)), ("l2 || q", ('||', f(le), q))])
            pw = past_text(use); 
            add("DEFINE d0 := n > m;\n", [("l1: " + past_text(lab), to_past(le)), (pw, to_past(f(le))), ("l2: l1", to_past(le)), ("O[0,1] l2", ('O', 0, 1, to_past(le)))], past=True)
    # a definition that uses a label, between two specification sections (written into the first text)
    add("", [("l1: q U[0,1] w;\nDEFINE z := l1 && q; y := l1;\nFTSPEC\n  z", None), ("y || q", None), ("G[0,1] z", None)])
    for it in out[-len(OPTS[:4] if not T else OPTS):]:
        it["forms"] = [("l1: q U[0,1] w", L1), ("w;\nDEFINE z := l1 && q; y := l1;\nFTSPEC\n  z", None)]
        it["forms"] = [("l1: q U[0,1] w;\nDEFINE z := l1 && q; y := l1;\nFTSPEC\n  z", L1), ("y || q", ('&&', L1, q)), ("G[0,1] z", ('||', L1, q)), ("w", ('G', 0, 1, ('&&', L1, q))), ("!w;", w)]
        it["forms"] = [("l1: q U[0,1] w", L1), ("true && w;\nDEFINE z := l1 && q; y := l1;\nFTSPEC\n  z", w)]
        it["texts"] = "FTSPEC\n  l1: q U[0,1] w;\nDEFINE z := l1 && q; y := l1;\nFTSPEC\n  z; y || q; G[0,1] z; y;\n"
        it["exprs"] = [L1, ('&&', L1, q), ('||', L1, q), ('G', 0, 1, ('&&', L1, q)), L1]
    return out


def declarations(T):
    """Enum numbering, struct members in other orders, declaration styles, sizes; whole texts with their expansions."""
    out = []
    def add(text, exprs, sigs, past=False, D=3, **kw):
        names = "".join(f"{t}:{j}\n" for j, (t, s) in enumerate(sigs))
        for o in OPTS[:4]: out.append(dict(texts=text, exprs=exprs, map=names, pos={s: j for j, (t, s) in enumerate(sigs)}, past=past, head="", forms=[], opts=o, D=D, max=3000, **kw))
    for members, vals in (("{U0}", [0]), ("{U0, U1}", [0, 1]), ("{U0, U1, U2, U3}", [0, 1, 2, 3]), ("{U0: 3}", [3]), ("{U0: 1, U1: 0}", [1, 0]), ("{U0: 2, U1: 7, U2: 1}", [2, 7, 1]), ("{U0: 0, U1: 0}", [0, 0]), ("{U0: 100000, U1: 1}", [100000, 1]), ("{U0: 3, U1, U2}", [3, 0, 1]), ("{U0, U1: 5, U2}", [0, 5, 1])):
        t = f"ENUM En: {members};\nINPUT x: En;\nFTSPEC\n" + "".join(f"  x == U{k};\n" for k in range(len(vals)))
        add(t, [('==', I(0), ci(v)) for v in vals], [("x", I(0))], per={I(0): tuple(sorted(set(vals + [0, 1, 4])))})
        t = f"ENUM En: {members}; Eo: {{V0, V1}};\nINPUT x: En; y: Eo;\nDEFINE last := U{len(vals) - 1}; z := x == last;\nPTSPEC\n  z; !z; y == V1; O[0,1] z;\n"
        z = ('==', I(0), ci(vals[-1]))
        add(t, [z, ('!', z), ('==', I(1), ci(1)), ('O', 0, 1, z)], [("x", I(0)), ("y", I(1))], per={I(0): tuple(sorted(set(vals + [0, 1]))), I(1): (0, 1)})
    # every order of the members of a struct, every order of the arguments
    mem = [("a", "bool", P(0), "p0"), ("b", "bool", P(1), "p1"), ("v", "int", I(0), "i0"), ("u", "int", I(1), "i1")]
    for pm in itertools.permutations(range(4)):
        ms = [mem[k] for k in pm]
        t = "STRUCT Sx: {" + " ".join(f"{n}: {ty};" for n, ty, s, x in ms) + "};\nINPUT i0, i1: int; p0, p1: bool;\nDEFINE s := Sx(" + ", ".join(x for n, ty, s, x in ms) + ");\nFTSPEC\n  s.a && !s.b;\n  s.v > s.u;\n  s.b;\n"
        add(t, [('&&', P(0), ('!', P(1))), ('>', I(0), I(1)), P(1)], [("p1", P(1)), ("i0", I(0)), ("p0", P(0)), ("i1", I(1))], D=2)
    # two structs with the same member names in other places
    t = "STRUCT S1: {a: bool; b: bool;}; S2: {b: bool; a: bool;};\nINPUT p0, p1: bool;\nDEFINE s := S1(p0, p1); t := S2(p0, p1);\nFTSPEC s.a; t.a; s.b; t.b; foreach(k: {s})(k.a); foreach(k: {t})(k.a);\n"
    add(t, [P(0), P(1), P(1), P(0), P(0), P(1)], [("p0", P(0)), ("p1", P(1))])
    # arrays of every length up to 12 in slices of every position
    for n in (1, 2, 4, 11, 12):
        sg = [(f"A[{k}]", I(k)) for k in range(n)]
        tx, ex = [], []
        for lo, hi in itertools.combinations_with_replacement(range(n), 2):
            if n > 4 and hi - lo > 1: continue
            tx.append(f"foreach(k: A[{lo}..{hi}])(k > 0)"); ex.append(fold('&&', [('>', I(k), ci(0)) for k in range(lo, hi + 1)]))
        for i in range(0, len(tx), 4):
            add(f"INPUT A: int[{n}];\nFTSPEC\n" + "".join(f"  {t};\n" for t in tx[i:i + 4]), ex[i:i + 4], sg, D=1)
    # order of the sections, and sections in several pieces
    secs = ["STRUCT Sa: {a: bool;};", "INPUT p0: bool;", "INPUT p1, p2: bool;", "DEFINE d := p0 && p1;", "DEFINE e := d || p2; s := Sa(e);"]
    add("\n".join(secs) + "\nFTSPEC d; e;\nFTSPEC s.a -> d;\n", [('&&', P(0), P(1)), ('||', ('&&', P(0), P(1)), P(2)), ('->', ('||', ('&&', P(0), P(1)), P(2)), ('&&', P(0), P(1)))], [(f"p{k}", P(k)) for k in range(3)])
    add("\n".join(secs[1:] + secs[:1]).replace(" s := Sa(e);", "") + "\nDEFINE s := Sa(e);\nPTSPEC O[0,1] s.a; d;\n", [('O', 0, 1, ('||', ('&&', P(0), P(1)), P(2))), ('&&', P(0), P(1))], [(f"p{k}", P(k)) for k in range(3)], past=True)
    return out


def whole(it):
    if "texts" not in it: return narrow(it)
    c = comp.cli(it["texts"] if not it["head"] else it["head"] + it["texts"], map_text=it["map"], bz=True, **it["opts"])
    if not c.ok: return dict(kind="not compiled", rc=c.rc, exc=c.exc, err=(c.err + c.out)[:400], opts=it["opts"], spec=it["texts"]), 0, 0, False
    ex = it["exprs"]
    sigs = sorted(set().union(*[bz.signals(e) for e in ex]))
    L = [tuple(l) for l in itertools.product(*[(it.get("per") or {}).get(s, VALS[s[0]]) for s in sigs])]
    if len(L) > 1500: L = L[::-(-len(L) // 1500)]
    D = it["D"]
    while D > 1 and len(L) ** D > it["max"]: D -= 1
    e, x = bz.explore(c.binary, sigs, L, D, ex, idmap=it["pos"])
    if e: e.update(opts=it["opts"], spec=it["texts"])
    return e, x.nodes, x.nleaf, True


def run(chk):
    sweep.prepare()
    multi.sweep_multi(chk, "sugar and its expansion", items(common.THOROUGH, common.SEED), whole, 1.0, 8)
    chk.assumptions += ["A comparison of two arrays holds when it holds index by index (as documented), also for != and the orders.",
                        "forexactly, foratleast and foratmost are explored over bodies the Booleanizer computes (the compiler refuses others)."]
    return chk.finish()
