"""Typed value expressions (Booleanizer): construction, printing, enumeration, reference evaluation with C arithmetic.

 ('i', k) ('x', k) ('p', k)  int / float / bool signal k           ('ci', n) ('cf', v) ('cb', b)  literals    ('tau',)
 ('neg', e) ('~', e) ('abs', e) ('sqrt', e)   (op, e1, e2) with op in + - * / % pow & | ^ == != < <= > >=
 ('prev', c, e)   ('!', e) and (op, e1, e2) with op in && || -> <-> xor   (TF, l, u, e..) temporal operators
"""
import functools, itertools
import numpy as np
from . import mltl, mon, comp, common, sweep

REL = ('==', '!=', '<', '<=', '>', '>=')
ARI = ('+', '-', '*', '/', '%', 'pow')
BIT = ('&', '|', '^')
LOG = ('&&', '||', '->', '<->', 'xor')
EPS = 0.00001
PREC = {'->': 1, '<->': 1, 'xor': 1, '||': 2, '&&': 3, 'U': 4, 'R': 4, 'S': 4, 'T': 4, 'F': 5, 'G': 5, 'H': 5, 'O': 5, '|': 6, '^': 7, '&': 8,
        '==': 9, '!=': 9, '<': 10, '>': 10, '<=': 10, '>=': 10, '+': 12, '-': 12, '*': 13, '/': 13, '%': 13, 'pow': 13, '!': 14, '~': 14, 'neg': 14}
TL2M = {'&&': '&', '||': '|', '->': '->', '<->': '<->', 'xor': '^', '!': '!'}


class Undefined(Exception):
    """C leaves the result open (overflow, division by zero)."""


@functools.lru_cache(None)
def ty(e):
    o = e[0]
    if o in ('i', 'ci', 'tau', '~') or o in BIT or o == '%': return 'i'
    if o in ('x', 'cf', 'sqrt'): return 'f'
    if o in ('neg', 'abs'): return ty(e[1])
    if o == 'prev': return ty(e[2])
    if o in ARI: return ty(e[1])
    return 'b'


def kids(e):
    return [x for x in e[1:] if isinstance(x, tuple)]


@functools.lru_cache(None)
def signals(e):
    if e[0] in ('i', 'x', 'p'): return frozenset([e])
    return frozenset().union(*[signals(k) for k in kids(e)]) if kids(e) else frozenset()


def has(e, *ops):
    return e[0] in ops or any(has(k, *ops) for k in kids(e))


def nested_prev(e, inside=False):
    return (e[0] == 'prev' and inside) or any(nested_prev(k, inside or e[0] == 'prev') for k in kids(e))


def lit(e):
    if e[0] == 'cf':
        s = repr(float(e[1]))
        return s if 'e' not in s else f"{e[1]:.10f}"
    return str(e[1]) if e[0] == 'ci' else ('true' if e[1] else 'false')


def show(e, full=True, names=None):
    """C2PO text; full=True parenthesises everything, False only what the documented precedence needs."""
    def go(e):
        o = e[0]
        if o in ('i', 'x', 'p'): return (names or {}).get(e, f"{o}{e[1]}"), 20
        if o in ('ci', 'cf'): return (lit(e), 20) if e[1] >= 0 else ("(" + lit(e) + ")", 20)
        if o == 'cb': return lit(e), 20
        if o == 'tau': return 'TAU', 20
        if o == 'name': return e[1], 20
        if o in ('abs', 'sqrt'): return f"{o}({go(e[1])[0]})", 20
        if o == 'prev': return f"prev({lit(e[1])}, {go(e[2])[0]})", 20
        p = PREC[o]
        if o in ('neg', '~', '!'):
            t, q = go(e[1])
            sym = '-' if o == 'neg' else o
            if full or q < p or (o == 'neg' and not t[0].isalpha()): t = f"({t})"
            return (f"({sym}{t})" if full else f"{sym}{t}"), p
        if o in mltl.UN_T:
            t, q = go(e[3])
            if full or q < p: t = f"({t})"
            r = f"{o}[{e[1]},{e[2]}] {t}"
        else:
            a, b = (e[1], e[2]) if o not in mltl.BIN_T else (e[3], e[4])
            (s, q1), (t, q2) = go(a), go(b)
            if q1 < p or full and q1 < 20: s = f"({s})"
            if q2 <= p or full and q2 < 20: t = f"({t})"
            sym = o if o not in mltl.BIN_T else f"{o}[{e[1]},{e[2]}]"
            r = f"{s} {sym} {t}"
        return (f"({r})" if full else r), (20 if full else p)
    return go(e)[0]


def cdiv(a, b):
    if np.any(b == 0): raise Undefined
    q = np.abs(a) // np.abs(b)
    return np.where((a < 0) != (b < 0), -q, q)


def ck(v):
    if np.any(v > 2147483647) or np.any(v < -2147483648): raise Undefined
    return v


class Ev:
    """Evaluates expressions at step t for all traces at once. sig: {signal: array (D, N)}."""
    def __init__(self, sig, N, D, t0=0):
        self.sig, self.N, self.D, self.t0, self.memo = sig, N, D, t0, {}

    def at(self, e, t):
        k = (e, t)
        if k not in self.memo: self.memo[k] = self._at(e, t)
        return self.memo[k]

    def _at(self, e, t):
        o = e[0]
        if o in ('i', 'x', 'p'): return self.sig[e][t]
        if o == 'ci': return np.full(self.N, e[1], dtype=np.int64)
        if o == 'cf': return np.full(self.N, e[1], dtype=np.float64)
        if o == 'cb': return np.full(self.N, bool(e[1]))
        if o == 'tau': return np.full(self.N, t + self.t0, dtype=np.int64)
        if o == 'prev': return self.at(e[1], t) if t == 0 else self.at(e[2], t - 1)
        v = [self.at(k, t) for k in kids(e)]
        f = ty(kids(e)[0]) == 'f'
        with np.errstate(all='ignore'):
            if o == 'neg': return -v[0] if f else ck(-v[0])
            if o == '~': return ~v[0]
            if o == 'abs': return np.abs(v[0]) if f else ck(np.abs(v[0]))
            if o == 'sqrt': return np.sqrt(v[0])
            if o in ('+', '-', '*'):
                r = {'+': np.add, '-': np.subtract, '*': np.multiply}[o](*v)
                return r if f else ck(r)
            if o == '/': return v[0] / v[1] if f else ck(cdiv(*v))
            if o == '%': return ck(v[0] - ck(cdiv(*v)) * v[1])
            if o == 'pow':
                if f: return np.power(v[0], v[1])
                if np.any(v[1] < 0): raise Undefined
                return ck(np.power(v[0].astype(object), v[1].astype(object)).astype(np.int64))
            if o == '&': return v[0] & v[1]
            if o == '|': return v[0] | v[1]
            if o == '^': return v[0] ^ v[1]
            if o in REL:
                a, b = v
                if f:
                    d = np.abs(a - b)
                    return {'==': d < EPS, '!=': ~(d < EPS), '<': a < b, '>': a > b, '<=': a < b + EPS, '>=': a > b - EPS}[o]
                if a.dtype == bool: a, b = a.astype(np.int64), b.astype(np.int64)
                return {'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[o]
        raise ValueError(o)


class RustEv(Ev):
    """The Rust monitor's arithmetic: integers saturate and the overflow is reported for the step; values within the
    tolerance of each other are equal, and neither is less than the other."""
    def __init__(self, *a):
        super().__init__(*a)
        self.over = {}

    def sat(self, v, t, extra=False):
        o = (v > 2147483647) | (v < -2147483648) | extra
        self.over[t] = self.over.get(t, np.zeros(self.N, dtype=bool)) | o
        return np.clip(v, -2147483648, 2147483647)

    def _at(self, e, t):
        o = e[0]
        ks = kids(e)
        if o == 'prev':
            if t == 0: self.at(e[2], t); return self.at(e[1], t)
            self.at(e[2], t)
            return self.at(e[2], t - 1)
        if ks and ty(ks[0]) == 'i' and (o in ARI or o in ('neg', 'abs')):
            v = [self.at(k, t) for k in ks]
            if o == 'neg': return self.sat(-v[0], t)
            if o == 'abs': return self.sat(np.abs(v[0]), t)
            if o in '+-*': return self.sat({'+': np.add, '-': np.subtract, '*': np.multiply}[o](*v), t)
            if o in '/%':
                z = v[1] == 0
                q = cdiv(v[0], np.where(z, 1, v[1]))
                if o == '/': return self.sat(np.where(z, 0, q), t, z)
                return self.sat(np.where(z, 0, v[0] - q * v[1]), t, z)
            if np.any(v[1] < 0): raise Undefined
            pw = lambda a, b: a ** (b if b < 64 else 64 + b % 2)            # the same sign, and outside the range unless a is -1, 0 or 1
            big = np.array([max(-(1 << 40), min(1 << 40, pw(int(a), int(b)))) for a, b in zip(*v)], dtype=np.int64)
            return self.sat(big, t)
        if o in REL and ty(ks[0]) == 'f':
            a, b = self.at(ks[0], t), self.at(ks[1], t)
            with np.errstate(all='ignore'): d = np.abs(a - b)
            if np.any(np.isnan(d)): raise Undefined
            eq = d <= EPS
            return {'==': eq, '!=': ~eq, '<': (a < b) & ~eq, '>': (a > b) & ~eq, '<=': (a < b) | eq, '>=': (a > b) | eq}[o]
        return super()._at(e, t)


def split(e, atoms):
    """Formula over Boolean-valued expressions: returns an mltl formula; the expressions are collected in atoms."""
    o = e[0]
    if o == '!': return ('!', split(e[1], atoms))
    if o in LOG: return (TL2M[o], split(e[1], atoms), split(e[2], atoms))
    if o in mltl.UN_T: return (o, e[1], e[2], split(e[3], atoms))
    if o in mltl.BIN_T: return (o, e[1], e[2], split(e[3], atoms), split(e[4], atoms))
    if o == 'cb': return ('tt',) if e[1] else ('ff',)
    if e not in atoms: atoms.append(e)
    return ('a', atoms.index(e))


def decl(sigs):
    out = "INPUT\n"
    for k, t in (('i', 'int'), ('x', 'float'), ('p', 'bool')):
        n = [f"{s[0]}{s[1]}" for s in sigs if s[0] == k]
        if n: out += f"  {','.join(n)}: {t};\n"
    return out


def sig_map(sigs):
    return "".join(f"{s[0]}{s[1]}:{j}\n" for j, s in enumerate(sigs))


def act(s, j, v, m=0):
    if s[0] == 'x': return mon.action(mon.FLOAT, m, j, v)
    return mon.action(mon.BOOL if s[0] == 'p' else mon.INT, m, j, int(v))


def letters(sigs, letter_vals):
    return [[act(s, j, v) for j, (s, v) in enumerate(zip(sigs, l))] + [mon.action(mon.STEP)] for l in letter_vals]


def traces(sigs, letter_vals, D, ev=Ev):
    nl, N = len(letter_vals), len(letter_vals) ** D
    idx = np.arange(N)
    sig = {}
    for j, s in enumerate(sigs):
        col = np.array([l[j] for l in letter_vals], dtype={'x': np.float64, 'i': np.int64, 'p': bool}[s[0]])
        sig[s] = np.stack([col[(idx // nl ** (D - 1 - t)) % nl] for t in range(D)])
    return ev(sig, N, D)


def masks(E, exprs):
    A = []
    for e in exprs:
        m = np.zeros(E.N, dtype=np.uint64)
        for t in range(E.D): m |= E.at(e, t).astype(np.uint64) << np.uint64(t)
        A.append(m)
    return A or [np.zeros(E.N, dtype=np.uint64)]


def explore(binary, sigs, letter_vals, D, forms, S=None, deadlines=True, idmap=None, prefix=0, variant="plain", overflow=False):
    """forms: list of expressions (None = do not compare). Every trace of D letters; returns (error|None, Result).
    overflow (Rust monitor only): the report of overflow of every step is compared as well."""
    S = S or sweep.srv(variant)
    ev = RustEv if variant.startswith("rust") else Ev
    atoms = []
    ms = [split(f, atoms) if f is not None else None for f in forms]
    dl = [mltl.wpd(m) if m is not None and deadlines else -1 for m in ms]
    L = [[act(s, idmap[s] if idmap else j, v) for j, (s, v) in enumerate(zip(sigs, l))] + [mon.action(mon.STEP)] for l in letter_vals]
    E = traces(sigs, letter_vals, D, ev)
    pre = [mon.action(mon.LOAD)]
    if overflow: pre.append(mon.action(mon.INT, 0, 0xffffffff, len(forms))); dl.append(0)
    if prefix:
        # the first letter, `prefix` times, then the tree; compared on the last step of the history and on the tree
        unit = b"".join(L[0]); pre += [unit[i:i + 24] for i in range(0, len(unit), 24)] * prefix
        h = {s: np.repeat(np.array([[letter_vals[0][j]]], dtype=E.sig[s].dtype), E.N, axis=1) for j, s in enumerate(sigs)}
        H = ev({s: np.concatenate([h[s], h[s], E.sig[s]]) for s in sigs}, E.N, D + 2, prefix - 2)
    x = S.job([binary], pre, L, D, [len(dl)], [dl], base=max(0, prefix - 2))
    names = [f"{s[0]}{s[1]}" for s in sigs]
    tr = lambda p: [dict(zip(names, letter_vals[l])) for l in p]
    if x.status:
        return dict(kind=x.why, formula=x.formula, time=x.time, path=tr(x.path), err=S.lasterr if x.status in (3, 4, 7) else ""), x
    A = masks(H if prefix else E, atoms)
    memo = {}
    keep = np.uint64(((1 << 64) - 1) & ~(3 if prefix else 0))
    for k, m in enumerate(ms):
        if m is None: continue
        T, F = mltl.ev(m, A, D, memo)
        eT, eF = x.leaves[:, k, 0], x.leaves[:, k, 1]
        bad = ((T & eF) | (F & eT)) & keep
        if bad.any():
            i = int(np.nonzero(bad)[0][0]); b = int(bad[i]); t = (b & -b).bit_length() - 1
            return dict(kind="wrong verdict", formula=k, time=t + max(0, prefix - 2), got=bool(int(eT[i]) >> t & 1), expected=bool(int(T[i]) >> t & 1),
                        path=tr(mltl.digits(i, len(letter_vals), D))), x
    if overflow:
        want = np.zeros(E.N, dtype=np.uint64)
        for t, o in E.over.items(): want |= o.astype(np.uint64) << np.uint64(t)
        bad = want ^ x.leaves[:, len(forms), 0]
        if bad.any():
            i = int(np.nonzero(bad)[0][0]); b = int(bad[i]); t = (b & -b).bit_length() - 1
            return dict(kind="wrong verdict", formula=0, what="report of overflow", time=t, got=not (int(want[i]) >> t & 1), expected=bool(int(want[i]) >> t & 1),
                        path=tr(mltl.digits(i, len(letter_vals), D))), x
    return None, x


def defined(exprs, sigs, letter_vals, ev=None):
    """The letters on which C defines every expression (state-free expressions)."""
    out = []
    for l in letter_vals:
        E = traces(sigs, [l], 1, ev or Ev)
        try:
            for e in exprs: E.at(e, 0)
            out.append(l)
        except Undefined: pass
    return out


def product(sigs, vals):
    return list(itertools.product(*[vals[s[0]] for s in sigs]))
