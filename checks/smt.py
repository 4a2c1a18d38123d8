"""P16, P17: satisfiability and equivalence answers against enumeration of every trace."""
import shutil, functools, itertools, re
from lib import common, mltl, comp, pool, families as fam
import multi

np = mltl.np
A, B, C_ = ('a', 0), ('a', 1), ('a', 2)


def vals(f, names, dom, n, mode, starts):
    """Truth of f at position 0 for every trace of exactly n steps: bool array over (|dom|)^(n*names).
    mode 1: positions past the end satisfy negations (the semantics on the empty suffix); mode 2: they satisfy nothing but G and R hold there."""
    N = len(dom)
    tot = N ** (n * len(names))
    idx = np.arange(tot)
    cache = {}
    def sig(name, k):
        j = k * len(names) + names.index(name)
        return np.asarray(dom)[(idx // N ** j) % N]
    def num(e, k):
        if e[0] == 'ci': return np.full(tot, e[1])
        if e[0] == 'i': return sig(e, k)
        x = [num(y, k) for y in e[1:]]
        if e[0] in '/%':
            q = np.abs(x[0]) // abs(e[2][1]) * np.sign(x[0]) * (1 if e[2][1] > 0 else -1)
            return q if e[0] == '/' else x[0] - q * e[2][1]
        return x[0] + x[1] if e[0] == '+' else x[0] - x[1] if e[0] == '-' else x[0] * x[1] if e[0] == '*' else -x[0]
    T, F = np.ones(tot, bool), np.zeros(tot, bool)
    def ev(e, k):
        key = (e, k)
        if key in cache: return cache[key]
        o = e[0]
        end = k >= n
        if o == 'tt': r = T if mode == 1 or not end else T
        elif o == 'ff': r = F
        elif o == 'a': r = F if end else sig(e, k).astype(bool)
        elif o in ('==', '!=', '<', '<=', '>', '>='):
            if end: r = F
            else:
                x, y = num(e[1], k), num(e[2], k)
                r = {'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[o]
        elif o == '!': r = F if end and mode == 2 else ~ev(e[1], k)
        elif o == '&': r = ev(e[1], k) & ev(e[2], k)
        elif o == '|': r = ev(e[1], k) | ev(e[2], k)
        elif o == '->': r = F if end and mode == 2 else ~ev(e[1], k) | ev(e[2], k)
        elif o == '<->': r = F if end and mode == 2 else ev(e[1], k) == ev(e[2], k)
        elif o == '^': r = F if end and mode == 2 else ev(e[1], k) != ev(e[2], k)
        else:
            l, u = e[1], e[2]
            if o in 'FU':
                if n <= k + l: r = F
                else:
                    r = F
                    for i in range(u, l - 1, -1):
                        if mode == 2 and k + i >= n: continue
                        g = ev(e[-1], k + i)
                        r = g | ((ev(e[3], k + i) & r) if o == 'U' else r)
            else:
                if n <= k + l: r = T
                else:
                    r = T
                    for i in range(u, l - 1, -1):
                        if mode == 2 and k + i >= n: continue
                        g = ev(e[-1], k + i)
                        r = g & ((ev(e[3], k + i) | r) if o == 'R' else r)
        cache[key] = r
        return r
    return ev(f, 0)


def names_of(f, out=None):
    out = set() if out is None else out
    if f[0] in ('a', 'i'): out.add(f)
    for x in f[1:]:
        if isinstance(x, tuple): names_of(x, out)
    return out


def wpd(f): return (f[2] if f[0] in 'FGUR' else 0) + max([wpd(x) for x in f[1:] if isinstance(x, tuple)] or [0])
def ops_of(f): return {f[0]}.union(*[ops_of(x) for x in f[1:] if isinstance(x, tuple)])


def dom_of(f): return (-4, -3, -2, -1, 0, 1, 2, 3, 4) if any(n[0] == 'i' for n in names_of(f)) else (0, 1)


def truth(f):
    """(sat on traces long enough, sat on some shorter or longer trace under one of the readings of finite traces)"""
    ns = sorted(names_of(f)); d = dom_of(f); w = wpd(f) + 1
    full = bool(vals(f, ns, d, w, 1, None).any())
    some = full or any(bool(vals(f, ns, d, n, m, None).any()) for n in range(0, w) for m in (1, 2))
    return full, some, len(d) ** (w * len(ns))


def text(f):
    o = f[0]
    if o in ('a', 'i'): return f"{o}{f[1]}"
    if o == 'ci': return str(f[1]) if f[1] >= 0 else f"({f[1]})"
    if o in ('tt', 'ff'): return {'tt': "true", 'ff': "false"}[o]
    if o in '!': return f"(!{text(f[1])})"
    if o == 'neg': return f"(-{text(f[1])})"
    if o in ('F', 'G'): return f"({o}[{f[1]},{f[2]}] {text(f[3])})"
    if o in ('U', 'R'): return f"({text(f[3])} {o}[{f[1]},{f[2]}] {text(f[4])})"
    return f"({text(f[1])} {mltl.C2.get(o, o)} {text(f[2])})"


# the operators every encoding has to be able to answer
CAN = {"qf_bv": {'a', 'tt', 'ff', '!', '&', '|', '<->', 'F', 'G', 'U'},
       "qf_uflia": {'a', 'i', 'ci', 'tt', 'ff', '!', '&', '|', '->', '<->', 'F', 'G', 'U', '==', '!=', '<', '<=', '>', '>=', '+', '-', '*', 'neg', '/', '%'},
       "uflia": {'a', 'i', 'ci', 'tt', 'ff', '!', '&', '|', '->', '<->', 'F', 'G', 'U', 'R', '==', '!=', '<', '<=', '>', '>=', '+', '-', '*', 'neg', '/', '%'}}


def decl(fs):
    ns = sorted(set().union(*[names_of(f) for f in fs]) or {A})
    by = {}
    for n in ns: by.setdefault(n[0], []).append(f"{n[0]}{n[1]}")
    return "INPUT " + " ".join(", ".join(v) + ": " + {'a': "bool", 'i': "int"}[k] + ";" for k, v in by.items()) + "\n"


def answers(fs, theory, strict, lang="c2po", tmax=4, pre=(), extra=""):
    """Runs check_sat over a specification of these formulas; returns the list of printed answers (and the output)."""
    bz = any('i' == n[0] for f in fs for n in names_of(f))
    if lang == "c2po":
        t = decl(fs) + extra + "FTSPEC\n" + "".join(f"  f{k}: {text(f)};\n" for k, f in enumerate(fs))
    else:
        t = "".join(mltl.mltlstd(f) + "\n" for f in fs)
    lines = (["enable_booleanizer"] if bz else []) + [f"parse_{lang} {{d}}/s.{lang}", "type_check", "desugar", *pre, f"check_sat {theory} --print{' --strict' if strict else ''} --smt-max-time {tmax}"]
    r = comp.script(lines, {f"s.{lang}": t})
    got = re.findall(r": (sat|unsat|unknown)$", r.out, re.M)
    return got, r, t


def group(it):
    fs, theory, strict, lang = it["fs"], it["theory"], it["strict"], it.get("lang", "c2po")
    got, r, t = answers(fs, theory, strict, lang, pre=it.get("pre", ()))
    n = 0
    info = dict(theory=theory, strict=strict, spec=t)
    if r.exc or "unexpected error" in r.err: return dict(kind="internal error", err=(r.exc or r.err)[:500], **info), 0, 0, False
    timed = "timed out" in r.err
    want = len(fs) + (len(fs) > 1)
    if len(got) != want and not timed:
        ok = CAN[theory]
        bad = [f for f in fs if not ops_of(f) <= ok or it.get("pre", ("",))[0] in ("to_nnf", "remove_extended_operators")]
        if len(fs) > 1:
            for f in fs:
                o = group(dict(it, fs=[f]))
                if o[0]: return o
            if bad: return None, 0, 0, True
            return dict(kind="no answer", err=(r.err + r.out)[:500], **info), 0, 0, False
        if bad: return None, 0, 0, True          # refused, as the encoding may
        return dict(kind="no answer", err=(r.err + r.out)[:500], **info), 0, 0, False
    allf = list(fs)
    if len(fs) > 1:
        c = fs[0]
        for f in fs[1:]: c = ('&', c, f)
        if len(dom_of(c)) ** ((wpd(c) + 1) * len(names_of(c))) <= 1 << 16: allf.append(c)
    for f, g in zip(allf, got):
        full, some, k = truth(f)
        n += k
        if g == "unknown": continue
        if not strict: bad = (g == "sat") != full
        else: bad = (g == "unsat" and full) or (g == "sat" and not some)
        if bad: return dict(kind="wrong answer", answer=g, formula=text(f), satisfiable=full if not strict else some, **info), n, 0, True
    return None, n, len(got), True


def neg(f): return ('!', f)


def family(T, seed):
    iv = [(0, 0), (0, 1), (1, 1), (1, 2), (0, 2)]
    leaves = [A, B]
    one = [A, ('tt',), ('ff',), ('!', A)] + [(o, l, u, x) for o in 'FG' for l, u in iv + [(0, 3), (2, 5), (1, 4), (3, 3), (0, 6)] for x in (A, ('!', A), ('tt',), ('ff',))]
    two = [(o, l, u, x, y) for o in 'UR' for l, u in iv + [(0, 3), (2, 4), (1, 5), (3, 3)] for x, y in ((A, B), (B, A), (('!', A), A), (A, ('!', A)), (('ff',), A), (A, ('ff',)), (('tt',), A))]
    base = [x for x in one + two if wpd(x) <= 6]
    out = list(base) + [neg(x) for x in base]
    lib = [A, ('!', B)] + [(o, l, u, x) for o in 'FG' for l, u in [(0, 1), (1, 2), (2, 2)] for x in (A, ('!', A))] + [(o, l, u, A, B) for o in 'UR' for l, u in [(0, 1), (1, 2), (0, 2)]] + [('U', 0, 2, ('!', A), B), ('R', 1, 2, B, ('!', A))]
    comb = [(o, x, y) for o in ('&', '|', '->', '<->', '^') for x in lib for y in lib if x != y]
    comb += [(o, l, u, x) for o in 'FG' for l, u in [(0, 1), (1, 1), (0, 2), (1, 3)] for x in lib + [('&', a, neg(b)) for a in lib[2:8] for b in lib[8:12]]]
    comb += [(o, l, u, x, y) for o in 'UR' for l, u in [(0, 1), (1, 2), (0, 3)] for x in lib for y in lib if x != y]
    comb = [c for c in comb if (wpd(c) + 1) * len(names_of(c)) <= 12]
    # unsatisfiable by construction: f and not f in another form
    dual = []
    for x in lib:
        for l, u in [(0, 1), (1, 2), (0, 3)]:
            dual += [('&', ('F', l, u, x), ('G', l, u, neg(x))), ('&', ('G', l, u, x), ('F', l, u, neg(x)))]
            for y in lib[:6]: dual += [('&', ('U', l, u, x, y), ('R', l, u, neg(x), neg(y))), ('&', ('R', l, u, x, y), ('U', l, u, neg(x), neg(y))), ('^', ('U', l, u, x, y), neg(('R', l, u, neg(x), neg(y))))]
    dual = [c for c in dual if (wpd(c) + 1) * len(names_of(c)) <= 12]
    n = 100000 if T else 300
    return out, fam.take(comb, n, seed), fam.take(dual, n // 2, seed)


I0, I1 = ('i', 0), ('i', 1)
ci = lambda n: ('ci', n)


def numeric():
    """Formulas over integers whose answer does not depend on values outside the domain that is enumerated."""
    rel = []
    for o in ('==', '!=', '<', '<=', '>', '>='):
        rel += [(o, I0, ci(1)), (o, ci(0), I0), (o, I0, ('+', I0, ci(1))), (o, ('-', I0, ci(1)), ci(0)), (o, ('*', ci(2), I0), ci(2)), (o, ('neg', I0), ci(1)), (o, I0, ci(-1))]
    out = list(rel) + [neg(r) for r in rel]
    for d in (2, -2, 3):
        for v in (-2, -1, 0, 1):
            out += [('&', ('==', (o, I0, ci(d)), ci(v)), (c, I0, ci(0))) for o in '/%' for c in ('<', '>')]
    out += [('&', x, y) for x in rel for y in rel if x < y]
    out += [('&', ('F', 0, 1, x), ('G', 0, 1, y)) for x in rel[::3] for y in rel[1::4]]
    out += [('&', ('U', 0, 1, x, y), ('!', x)) for x in rel[::4] for y in rel[2::5]]
    return out


def grids():
    """Every pair of intervals within [0,6] under two operators over one atom."""
    iv = [(l, u) for u in range(7) for l in range(u + 1)]
    N = ('!', A)
    out = []
    for a in iv:
        for b in iv:
            out += [('&', ('G',) + a + (A,), ('F',) + b + (N,)), ('&', ('G',) + a + (A,), ('G',) + b + (N,)), ('&', ('U',) + a + (A, N), ('G',) + b + (A,)), ('&', neg(('U',) + a + (N, A)), ('F',) + b + (A,))]
    for a in iv[::2]:
        for b in iv[::3]:
            if a[1] + b[1] <= 7:
                x = ('F',) + b + (A,); y = ('G',) + b + (A,)
                out += [('&', ('G',) + a + (x,), ('G', 0, 6, N)), ('&', ('F',) + a + (y,), neg(x)), ('&', ('U',) + a + (x, y), ('G', 1, 5, N)), ('&', ('U',) + a + (y, N), neg(('F',) + a + (N,)))]
    return out


def items16(T, seed):
    out, comb, dual = family(T, seed)
    g = grids()
    num = [f for f in numeric()]
    its = []
    def add(fs, n, theories=("qf_bv", "qf_uflia", "uflia"), stricts=(False, True), **kw):
        for th in theories:
            can = [f for f in fs if ops_of(f) <= CAN[th]]
            rest = [f for f in fs if not ops_of(f) <= CAN[th]]
            for st in stricts:
                for i in range(0, len(can), n): its.append(dict(fs=tuple(can[i:i + n]), theory=th, strict=st, **kw))
                if n == 1: its.extend(dict(fs=(f,), theory=th, strict=st, **kw) for f in rest[::4])
    add(out, 2)
    add(comb, 3)
    # specifications of three and four formulas, the longest in every place
    long = [f for f in out if wpd(f) >= 2 and f[0] != '!']
    add([x for k, f in enumerate(fam.take(long, 300 if T else 24, seed)) for x in itertools.chain(*[(f, g, h) if k % 3 == 0 else (g, f, h) if k % 3 == 1 else (g, h, f) for g, h in [(A, B), (('F', 0, 1, B), A)]])], 3, stricts=(False,))
    add([x for f in fam.take(long, 100 if T else 8, seed + 1) for x in (A, ('!', B), ('G', 0, 1, B), f)], 4, stricts=(False,))
    add(dual, 1)
    add(fam.take(g, len(g) if T else 420, seed), 4, stricts=(False,))
    add(fam.take(g, len(g) if T else 90, seed + 1), 4, stricts=(True,))
    add(fam.take(num, len(num) if T else 220, seed), 3, theories=("qf_uflia", "uflia"), stricts=(False,))
    add(fam.take(num, 40, seed + 1), 1, theories=("qf_uflia", "uflia", "qf_bv"), stricts=(True,))
    ml = [f for f in out + comb if 'tt' not in ops_of(f) or True]
    add(fam.take(ml, 400 if T else 60, seed), 2, lang="mltl", stricts=(False,))
    add(fam.take(comb, 400 if T else 40, seed), 2, pre=("optimize_cse",), stricts=(False,))
    add(fam.take(comb, 400 if T else 40, seed + 1), 2, pre=("optimize_rewrites",), stricts=(False,))
    add(fam.take(comb, 400 if T else 40, seed + 2), 3, pre=("remove_extended_operators",), stricts=(False,))
    add(fam.take(comb, 400 if T else 40, seed + 3), 3, pre=("flatten_multi_operators",), stricts=(False,))
    add(fam.take(comb, 400 if T else 40, seed + 4), 3, pre=("to_nnf",), stricts=(False,))
    add(fam.take(num, 30, seed + 2), 2, theories=("uflia", "qf_uflia"), pre=("compute_atomics",), stricts=(False,))
    other = shutil.which("cvc5")
    if other: add(fam.take(out, 400 if T else 60, seed + 5), 2, pre=(f"set_smt_solver_path {other}",), stricts=(False,))
    return its


# ---- equivalence ---------------------------------------------------------------------------------------------------
def pair(it):
    fs, theory, strict = it["fs"], it["theory"], it["strict"]
    lang = it.get("lang", "c2po")
    bz = any('i' == n[0] for f in fs for n in names_of(f))
    t = decl(fs) + "FTSPEC\n" + "".join(f"  f{k}: {text(f)};\n" for k, f in enumerate(fs)) if lang == "c2po" else "".join(mltl.mltlstd(f) + "\n" for f in fs)
    r = comp.script((["enable_booleanizer"] if bz else []) + [f"parse_{lang} {{d}}/s.{lang}", "type_check", "desugar", *it.get("pre", ()), f"check_equiv {theory} --smt-max-time 4{' --strict' if strict else ''}"], {f"s.{lang}": t})
    got = re.findall(r"^(equiv|not-equiv|unknown)$", r.out, re.M)
    info = dict(theory=theory, strict=strict, spec=t)
    if r.exc or "unexpected error" in r.err: return dict(kind="internal error", err=(r.exc or r.err)[:500], **info), 0, 0, False
    can = all(ops_of(f) <= CAN[theory] for f in fs) and not it.get("pre") and (theory != "qf_bv" or True)
    if len(got) != 1 or r.rc != 0:
        if can and "timed out" not in r.err: return dict(kind="no answer", err=(r.err + r.out)[:500], **info), 0, 0, False
        if len(got) == 1 and got[0] == "equiv" and "timed out" not in r.err: return dict(kind="equiv although the check failed", err=(r.err + r.out)[:500], **info), 0, 0, False
        return None, 0, 0, True
    full = some = False
    n = 0
    for f, g in zip(fs, fs[1:]):
        a, b, k = truth(('^', f, g)); full |= a; some |= b; n += k
    g = got[0]
    bad = g != "unknown" and ((g == "not-equiv") != full if not strict else (g == "equiv" and full) or (g == "not-equiv" and not some))
    if bad: return dict(kind="wrong answer", answer=g, formulas=[text(f) for f in fs], distinguishable=full, **info), n, 0, True
    return None, n, 1, True


def rewrites(x, y, l, u):
    """Pairs of formulas that are equivalent, and near misses."""
    F, G, U, R = (lambda a, b, z: ('F', a, b, z)), (lambda a, b, z: ('G', a, b, z)), (lambda a, b, z, w: ('U', a, b, z, w)), (lambda a, b, z, w: ('R', a, b, z, w))
    out = [(neg(F(l, u, x)), G(l, u, neg(x))), (neg(U(l, u, x, y)), R(l, u, neg(x), neg(y))), (F(l, u, ('|', x, y)), ('|', F(l, u, x), F(l, u, y))), (G(l, u, ('&', x, y)), ('&', G(l, u, x), G(l, u, y))),
           (F(l, u, ('&', x, y)), ('&', F(l, u, x), F(l, u, y))), (G(l, u, ('|', x, y)), ('|', G(l, u, x), G(l, u, y))), (F(l, u, x), ('U', l, u, ('tt',), x)), (G(l, u, x), ('R', l, u, ('ff',), x)), (F(l, u, x), ('U', l, u, x, x)),
           (F(l, u, F(0, 1, x)), F(l, u + 1, x)), (F(l, u, F(1, 1, x)), F(l + 1, u + 1, x)), (F(l, u, F(0, 1, x)), F(l, u, x)), (G(l, u, G(0, 2, x)), G(l, u + 2, x)), (F(l, u, G(0, 1, x)), G(0, 1, F(l, u, x))),
           (U(l, u, x, y), ('&', F(l, u, y), U(l, u, x, y))), (U(l, u, x, y), ('|', y, U(l, u, x, y))), (U(l, u, x, y), U(l, u, y, x)), (R(l, u, x, y), ('&', y, R(l, u, x, y))), (R(l, u, x, y), R(l, u, x, ('&', x, y))), (U(l, u, x, y), U(0, u, x, y)),
           (F(l, u, x), F(l, u + 1, x)), (G(l, u, x), G(l, max(l, u - 1), x)), (('<->', x, y), ('&', ('->', x, y), ('->', y, x))), (('->', x, y), ('|', neg(x), y)), (x, neg(neg(x))), (x, y), (x, ('&', x, y))]
    return [p for p in out if all((wpd(f) + 1) * len(names_of(('&',) + p)) <= 14 for f in p)]


def unrolled(f):
    """The same formula written with intervals of one step only."""
    X = lambda k, z: z if k == 0 else ('F', k, k, z)
    o, l, u = f[:3]
    conj = lambda zs: functools.reduce(lambda a, b: ('&', a, b), zs)
    disj = lambda zs: functools.reduce(lambda a, b: ('|', a, b), zs)
    if o in 'FG': return (disj if o == 'F' else conj)([X(k, f[3]) for k in range(l, u + 1)])
    if o == 'U': return disj([conj([X(j, f[3]) for j in range(l, k)] + [X(k, f[4])]) for k in range(l, u + 1)])
    return conj([disj([X(j, f[3]) for j in range(l, k)] + [X(k, f[4])]) for k in range(l, u + 1)])


def windows():
    """Every operator with every interval up to the size the enumeration of traces allows, against the same formula without
    intervals and against its neighbours."""
    out = []
    for l in range(9):
        for u in range(l, 13):
            for f, top in ((('F', l, u, A), 12), (('G', l, u, A), 12), (('U', l, u, A, B), 6), (('R', l, u, A, B), 6), (('U', l, u, B, neg(B)), 9), (('R', l, u, neg(A), A), 9)):
                if u > top or l > top // 2 + 1: continue
                out.append((f, unrolled(f)))
                if u < top: out.append((f, f[:2] + (u + 1,) + f[3:]))
                if l < u: out.append((f[:1] + (l + 1,) + f[2:], f))
    return out


def items17(T, seed):
    iv = [(0, 0), (0, 1), (1, 1), (1, 2), (0, 3), (2, 3)]
    ops = [(A, B), (A, neg(B)), (('F', 0, 1, A), B), (('G', 1, 2, A), A), (A, ('U', 0, 1, A, B)), (('U', 1, 1, B, A), A)]
    ps = [p for x, y in ops for l, u in iv for p in rewrites(x, y, l, u)]
    ps = list(dict.fromkeys(ps))
    its = []
    for th in CAN:
        for st in (False, True):
            for p in fam.take(ps, len(ps) if T else (330 if not st else 150), seed + st): its.append(dict(fs=p, theory=th, strict=st))
        w = [p for p in windows() if th != "qf_bv" or all(ops_of(f) <= CAN[th] for f in p)]
        its += [dict(fs=p, theory=th, strict=False) for p in fam.take(w, len(w) if T else (len(w) if th == "qf_bv" else 120), seed + 2)]
        its += [dict(fs=(q, p), theory=th, strict=False) for p, q in fam.take(ps, len(ps) if T else 60, seed + 3)]
        its += [dict(fs=p, theory=th, strict=False, lang="mltl") for p in fam.take(ps, 400 if T else 60, seed + 4)]
        # three formulas: each place may hold the odd one
        its += [dict(fs=f, theory=th, strict=False) for p, q in fam.take(ps, 200 if T else 30, seed + 5) for f in ((p, q, p), (p, p, q), (p, q, q), (q, q, q))]
        its += [dict(fs=p, theory=th, strict=False, pre=(c,)) for k, p in enumerate(fam.take(ps, 200 if T else 40, seed + 6)) for c in (("optimize_cse", "optimize_rewrites", "to_nnf", "flatten_multi_operators")[k % 4],)]
        num = [f for f in numeric() if f[0] in ('<', '<=', '>', '>=', '==', '!=')]
        if th != "qf_bv": its += [dict(fs=(f, g), theory=th, strict=False) for f, g in fam.take([(f, g) for f in num for g in num if f < g] + [(f, neg(neg(f))) for f in num] + [(('<', I0, ci(1)), neg(('>=', I0, ci(1))))], 800 if T else 60, seed)]
    return its


# symbolic bounds: (constraints, formula texts as functions of the bounds)
class Sym:
    """Text and value of formulas whose intervals are expressions over b0, b1, M."""
    def __init__(self, cons, fs): self.cons, self.fs = cons, fs


def stext(f):
    o = f[0]
    if o == 'a': return f"a{f[1]}"
    if o == 'p': return f"p{f[1]}"
    if o in ('tt', 'ff'): return {'tt': "true", 'ff': "false"}[o]
    if o == '!': return f"(!{stext(f[1])})"
    if o in 'FG': return f"({o}[{f[1]},{f[2]}] {stext(f[3])})"
    if o in 'UR': return f"({stext(f[3])} {o}[{f[1]},{f[2]}] {stext(f[4])})"
    return f"({stext(f[1])} {dict(mltl.M2)[o]} {stext(f[2])})"


def pyc(e): return e.replace(" = ", " == ")


def inst(f, env):
    if not isinstance(f, tuple): return f
    if f[0] in 'FGUR': return (f[0], eval(str(f[1]), {}, env), eval(str(f[2]), {}, env)) + tuple(inst(x, env) for x in f[3:])
    if f[0] == 'p': return ('a', 10 + f[1])
    return (f[0],) + tuple(inst(x, env) for x in f[1:])


def ivs(f): return ([f] if f[0] in 'FGUR' else []) + [y for x in f[1:] if isinstance(x, tuple) for y in ivs(x)]


def symbolic(it):
    cons, fs, K = it["cons"], it["fs"], it.get("K", 3)
    t = "".join(f"c: {c}\n" for c in cons) + "".join(stext(f) + "\n" for f in fs)
    r = comp.script(["parse_equiv {d}/s.equiv", "type_check", "desugar", f"check_equiv uflia --smt-max-time {it.get('tmax', 4)}"], {"s.equiv": t})
    got = re.findall(r"^(equiv|not-equiv|unknown)$", r.out, re.M)
    info = dict(theory="uflia", spec=t)
    if r.exc or "unexpected error" in r.err: return dict(kind="internal error", err=(r.exc or r.err)[:500], **info), 0, 0, False
    if "timed out" in r.err: return None, 0, 0, True
    if len(got) != 1 or r.rc != 0: return dict(kind="no answer", err=(r.err + r.out)[:500], **info), 0, 0, False
    mission = any("M" in c for c in cons)
    n, dist = 0, None
    for env in itertools.product(range(K + 1), repeat=3):
        env = dict(zip(("b0", "b1", "M"), env), min=min, max=max)
        if not mission and env["M"]: continue
        if not all(eval(pyc(c), {}, env) for c in cons): continue
        # (an interval with its bounds the wrong way round is no instance)
        for f, g in zip(fs, fs[1:]):
            a, b = inst(f, env), inst(g, env)
            if any(x[1] > x[2] or x[1] < 0 for x in ivs(a) + ivs(b)): continue
            ns = sorted(names_of(('&', a, b)))
            L = env["M"] + 1 if mission else max(wpd(a), wpd(b)) + 1
            if L * max(1, len(ns)) > 16: continue
            x = vals(a, ns, (0, 1), L, 1, None); y = vals(b, ns, (0, 1), L, 1, None); n += x.size
            if (x != y).any() and not dist: dist = dict(bounds={k: env[k] for k in ("b0", "b1", "M")}, formulas=[text(a), text(b)])
    if got[0] == "equiv" and dist: return dict(kind="wrong answer", answer="equiv", distinguished_by=dist, **info), n, 0, True
    if got[0] == "not-equiv" and not dist: return dict(kind="wrong answer", answer="not-equiv", note=f"no instance with bounds up to {K} distinguishes them", **info), n, 0, True
    return None, n, int(got[0] != "unknown"), True


def items_sym(T, seed):
    P = ('p', 0)
    out = []
    F, G, U, R = (lambda l, u, x: ('F', l, u, x)), (lambda l, u, x: ('G', l, u, x)), (lambda l, u, x, y: ('U', l, u, x, y)), (lambda l, u, x, y: ('R', l, u, x, y))
    for l, u in (("0", "b0"), ("b0", "b1"), ("b0", "b0"), ("b0", "b0+1"), ("1", "b0"), ("0", "max(b0,b1)"), ("min(b0,b1)", "b1")):
        q = lambda *fs, cons=(): out.append(dict(cons=tuple(cons), fs=tuple(fs)))
        for x, y in ((A, B), (A, P), (neg(A), ('|', A, B))):
            q(neg(F(l, u, x)), G(l, u, neg(x))); q(neg(U(l, u, x, y)), R(l, u, neg(x), neg(y))); q(F(l, u, ('|', x, y)), ('|', F(l, u, x), F(l, u, y))); q(G(l, u, ('&', x, y)), ('&', G(l, u, x), G(l, u, y)))
            q(F(l, u, ('&', x, y)), ('&', F(l, u, x), F(l, u, y))); q(G(l, u, ('|', x, y)), ('|', G(l, u, x), G(l, u, y))); q(F(l, u, x), U(l, u, ('tt',), x)); q(F(l, u, x), G(l, u, x)); q(U(l, u, x, y), U(l, u, y, x)); q(F(l, u, x), F(l, u + "+1", x))
            q(F(l, u, x), F(l, u, x), G(l, u, x)); q(U(l, u, x, y), ('&', F(l, u, y), U(l, u, x, y)))
    for cons in ((), ("b0 <= b1",), ("b0 < b1",), ("b0 = b1",), ("b1 = b0 + 1",), ("b0 != b1", "b0 <= b1"), ("b1 >= b0", "b0 > 0"), ("b1 = 2 * b0",), ("b0 = 0",), ("b1 = max(b0,2)",), ("b1 = min(b0,1)",)):
        out += [dict(cons=cons, fs=(F("0", "b0", A), F("0", "b1", A))), dict(cons=cons, fs=(('|', F("0", "b0", A), F("0", "b1", A)), F("0", "b1", A))), dict(cons=cons, fs=(('&', G("0", "b0", A), G("0", "b1", A)), G("0", "max(b0,b1)", A))), dict(cons=cons, fs=(F("b0", "b1", A), F("0", "b1", A))),
                dict(cons=cons, fs=(F("0", "b0", F("0", "b1", A)), F("0", "b0+b1", A))), dict(cons=cons, fs=(('->', G("0", "b1", A), G("0", "b0", A)), ('tt',))), dict(cons=cons, fs=(('<->', U("0", "b0", A, B), U("0", "b1", A, B)), ('tt',)))]
    for cons in (("b0 <= M",), ("b0 = M",), ("M = 2",), ("b0 > M",), ("M >= 1", "b0 < M")):
        out += [dict(cons=cons, fs=(F("0", "b0", A), F("0", "M", A))), dict(cons=cons, fs=(('|', A, F("0", "b0", A)), F("0", "b0", A))), dict(cons=cons, fs=(neg(G("0", "b0", A)), F("0", "b0", neg(A)))), dict(cons=cons, fs=(G("0", "M", A), G("0", "b0", A)))]
    return out if T else fam.take(out, 260, seed)


STAND_INS = [("echo sat", "sat"), ("echo unsat", "unsat"), ("echo unknown", "unknown"), ("printf 'unsat\\n(:time 1)\\n'", "unsat"), ("echo '; comment' ; echo sat", "sat"),
             ("exit 1", None), ("echo '(error \"line 3: no\")'; exit 1", None), ("echo '(error \"out of memory\")' >&2; exit 101", None), ("kill -6 $$", None), ("kill -9 $$", None),
             ("kill -11 $$", None), (":", None), ("exec sleep 4", None), ("echo '(error \"std::bad_alloc\")'; exit 1", None), ("exit 127", None)]


def stand_in(it):
    """The solver the user names is a stand-in that says `says`, or fails: that is what must be reported, and never sat, unsat or equiv without it."""
    body, says, eq, theory = it["body"], it["says"], it["eq"], it["theory"]
    d = comp.tmpdir() / f"{it['name']} dir"
    d.mkdir(exist_ok=True)
    b = d / it["name"]
    b.write_text(f'#!/bin/sh\ncase "$1" in -version|--version|-v) exit 0;; esac\nfor x; do f=$x; done\n[ -s "$f" ] || exit 3\n{body}\n'); b.chmod(0o755)
    t = "INPUT a0, a1: bool;\nFTSPEC\n  f: G[0,2] a0;\n" + ("  g: a0;\n" if eq else "")
    lines = [f"set_smt_solver_path '{b}'", "parse_c2po {d}/s.c2po", "type_check", "desugar", (f"check_equiv {theory}" if eq else f"check_sat {theory} --print") + " --smt-max-time 1"]
    if it.get("gone"): b.unlink()
    if it.get("cli"):
        r = comp.cli(t, map_text="a0:0\na1:1\n", extops=True, sat=dict(theory=theory, path=str(b), time=1))
    else: r = comp.script(lines, {"s.c2po": t})
    info = dict(solver=body, theory=theory, spec=t, out=(r.out + r.err)[-300:])
    if r.exc or "unexpected error" in r.err: return dict(kind="internal error", **info), 0, 0, False
    got = re.findall(r": (sat|unsat|unknown)$", r.out, re.M) if not eq else re.findall(r"^(equiv|not-equiv|unknown)$", r.out, re.M)
    want = {None: None, "unknown": "unknown", "sat": "not-equiv" if eq else "sat", "unsat": "equiv" if eq else "unsat"}[None if it.get("gone") else says]
    if want is None:
        if eq and got == ["unknown"]: got = []
        if got == ["unknown"] and body in (":",): got = []
        if got: return dict(kind="an answer the solver did not give", answer=got, **info), 1, 0, False
    elif got != [want]: return dict(kind="not the answer of the solver named", answer=got, expected=want, **info), 1, 0, False
    return None, 1, 1, True


def items_stand(eq):
    out = []
    for i, (b, s) in enumerate(STAND_INS):
        for n in ("solver", "z3", "cvc5") if i < 3 else (["z3", "cvc5", "bitwuzla", "yices-smt2", "mathsat"][i % 5],):
            out.append(dict(body=b, says=s, eq=eq, theory=("uflia", "qf_bv", "qf_uflia")[i % 3], name=n))
            if not eq: out.append(dict(out[-1], cli=True))
    out.append(dict(body="echo sat", says="sat", eq=eq, theory="uflia", name="z3", gone=True))
    return out


def anyeq(it): return symbolic(it) if "cons" in it else pair(it)


def run17(chk):
    T = common.THOROUGH
    multi.sweep_multi(chk, "the solver named by the user", items_stand(True), stand_in, 1.0, 2)
    multi.sweep_multi(chk, "equivalence answers", items17(T, common.SEED) + items_sym(T, common.SEED), anyeq, 1.0, 8)
    chk.assumptions += ["z3 4.8.12 is the solver the compiler finds on PATH; an answer unknown or a timeout is not counted as wrong.",
                        "Symbolic interval bounds are enumerated up to 3 on the oracle's side: an answer equiv must hold for all of them, an answer not-equiv must be witnessed by one of them (the pairs are built so that small bounds suffice)."]
    return chk.finish()


def run16(chk):
    multi.sweep_multi(chk, "the solver named by the user", items_stand(False), stand_in, 1.0, 2)
    multi.sweep_multi(chk, "satisfiability answers", items16(common.THOROUGH, common.SEED), group, 1.0, 8)
    chk.assumptions += ["z3 4.8.12 is the solver the compiler finds on PATH; an answer unknown or a timeout is not counted as wrong.",
                        "Strict mode asks about traces of any length: an answer must be sat when a long enough trace exists, and unsat when no trace of any length up to the formula's horizon satisfies it under either reading of positions past the end.",
                        "Integer formulas are chosen so that values in -1..2 decide them."]
    return chk.finish()
