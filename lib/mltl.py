"""MLTL formulas: construction, printing, enumeration, two independent reference semantics.

A formula is a nested tuple:
 ('a', i) ('tt',) ('ff',) ('!', x) ('&', x, y) ('|', x, y) ('->', x, y) ('<->', x, y) ('^', x, y)
 ('F', l, u, x) ('G', l, u, x) ('U', l, u, x, y) ('R', l, u, x, y)
 ('O', l, u, x) ('H', l, u, x) ('S', l, u, x, y) ('T', l, u, x, y)
"""
import functools, itertools
try:
    import numpy as np
except ImportError:  # pragma: no cover
    np = None

UN_T, BIN_T = ('F', 'G', 'O', 'H'), ('U', 'R', 'S', 'T')
BOOL2 = ('&', '|', '->', '<->', '^')
C2 = {'&': '&&', '|': '||', '->': '->', '<->': '<->', '^': 'xor'}


def kids(f):
    return [x for x in f[1:] if isinstance(x, tuple)]


def c2po(f, names=None):
    """Fully parenthesised C2PO text."""
    op = f[0]
    r = lambda x: c2po(x, names)
    if op == 'a': return names[f[1]] if names else f"a{f[1]}"
    if op == 'tt': return "true"
    if op == 'ff': return "false"
    if op == '!': return f"(!{r(f[1])})"
    if op in C2: return f"({r(f[1])} {C2[op]} {r(f[2])})"
    if op in UN_T: return f"({op}[{f[1]},{f[2]}] {r(f[3])})"
    if op in BIN_T: return f"({r(f[3])} {op}[{f[1]},{f[2]}] {r(f[4])})"
    raise ValueError(f)


M2 = {'&': '&', '|': '|', '->': '->', '<->': '<->', '^': '^'}


def mltlstd(f):
    op = f[0]
    if op == 'a': return f"a{f[1]}"
    if op == 'tt': return "true"
    if op == 'ff': return "false"
    if op == '!': return f"(!{mltlstd(f[1])})"
    if op in M2: return f"({mltlstd(f[1])} {M2[op]} {mltlstd(f[2])})"
    if op in UN_T: return f"({op}[{f[1]},{f[2]}] {mltlstd(f[3])})"
    if op in BIN_T: return f"({mltlstd(f[3])} {op}[{f[1]},{f[2]}] {mltlstd(f[4])})"
    raise ValueError(f)


@functools.lru_cache(None)
def wpd(f):
    """Worst-case future reach: the verdict for t depends on inputs up to t + wpd."""
    op = f[0]
    if op in ('F', 'G', 'U', 'R'):
        return f[2] + max(wpd(k) for k in kids(f))
    return max([wpd(k) for k in kids(f)], default=0)


@functools.lru_cache(None)
def size(f):
    return 1 + sum(size(k) for k in kids(f))


@functools.lru_cache(None)
def atoms(f):
    if f[0] == 'a': return frozenset([f[1]])
    return frozenset().union(*[atoms(k) for k in kids(f)]) if kids(f) else frozenset()


@functools.lru_cache(None)
def has_past(f):
    return f[0] in ('O', 'H', 'S', 'T') or any(has_past(k) for k in kids(f))


@functools.lru_cache(None)
def has_future(f):
    return f[0] in ('F', 'G', 'U', 'R') or any(has_future(k) for k in kids(f))


@functools.lru_cache(None)
def has_const(f):
    return f[0] in ('tt', 'ff') or any(has_const(k) for k in kids(f))


# ---- reference semantics 1: naive, three valued, straight from the definition (slow) ------------------------
def naive(f, trace, i):
    """Truth at i of f on a trace (list of tuples of bools): True/False/None (=not determined by the trace)."""
    op = f[0]
    if i < 0:
        raise ValueError
    if op == 'a':
        return bool(trace[i][f[1]]) if i < len(trace) else None
    if op == 'tt': return True
    if op == 'ff': return False
    if op == '!':
        v = naive(f[1], trace, i)
        return None if v is None else not v
    if op in BOOL2:
        x, y = naive(f[1], trace, i), naive(f[2], trace, i)
        if op == '&': return k_and([x, y])
        if op == '|': return k_or([x, y])
        if op == '->': return k_or([k_not(x), y])
        if x is None or y is None: return None
        return (x == y) if op == '<->' else (x != y)
    l, u = f[1], f[2]
    if op in ('F', 'G', 'U', 'R'):
        rng = list(range(i + l, i + u + 1))
        if op == 'F': return k_or([naive(f[3], trace, j) for j in rng])
        if op == 'G': return k_and([naive(f[3], trace, j) for j in rng])
        before = lambda j: [k for k in rng if k < j]
    else:
        rng = list(range(max(0, i - u), i - l + 1))
        if op == 'O': return k_or([naive(f[3], trace, j) for j in rng])
        if op == 'H': return k_and([naive(f[3], trace, j) for j in rng])
        before = lambda j: [k for k in rng if k > j]
    if op in ('U', 'S'):
        return k_or([k_and([naive(f[4], trace, j)] + [naive(f[3], trace, k) for k in before(j)]) for j in rng])
    return k_and([k_or([naive(f[4], trace, j)] + [naive(f[3], trace, k) for k in before(j)]) for j in rng])


def k_not(x): return None if x is None else not x
def k_and(xs):
    if any(x is False for x in xs): return False
    return None if any(x is None for x in xs) else True
def k_or(xs):
    if any(x is True for x in xs): return True
    return None if any(x is None for x in xs) else False


# ---- reference semantics 2: bit-parallel over positions 0..63, vectorised over traces ------------------------
ALL = (1 << 64) - 1


def ev(f, A, n, memo=None):
    """A[i] = array of uint64: bit t = atom i true at step t; n = trace length.  Returns (T, F) masks: positions
    at which f is known true / known false given only the first n steps (Kleene)."""
    if memo is None: memo = {}
    if f in memo: return memo[f]
    op = f[0]
    u64 = np.uint64
    any_a = next(iter(A))
    if op == 'a':
        m = u64((1 << n) - 1)
        r = (A[f[1]] & m, ~A[f[1]] & m)
    elif op in ('tt', 'ff'):
        o, z = np.full_like(any_a, u64(ALL)), np.zeros_like(any_a)
        r = (o, z) if op == 'tt' else (z, o)
    elif op == '!':
        t, g = ev(f[1], A, n, memo); r = (g, t)
    elif op in BOOL2:
        t1, f1 = ev(f[1], A, n, memo); t2, f2 = ev(f[2], A, n, memo)
        if op == '&': r = (t1 & t2, f1 | f2)
        elif op == '|': r = (t1 | t2, f1 & f2)
        elif op == '->': r = (f1 | t2, t1 & f2)
        elif op == '<->': r = ((t1 & t2) | (f1 & f2), (t1 & f2) | (f1 & t2))
        else: r = ((t1 & f2) | (f1 & t2), (t1 & t2) | (f1 & f2))
    else:
        l, u = f[1], f[2]
        past = op in ('O', 'H', 'S', 'T')
        def sh(x, i, fill):
            if i >= 64: return np.full_like(x, u64(ALL if (fill and past) else 0))
            if past: return (x << u64(i)) | u64(((1 << i) - 1) if fill else 0)
            return x >> u64(i)
        if op in UN_T:
            t, g = ev(f[3], A, n, memo)
            ex = op in ('F', 'O')
            # outside the past (before step 0): an existential sees False, a universal sees True
            T = F = None
            for i in range(l, min(u, 64) + 1):
                a, b = sh(t, i, not ex), sh(g, i, ex)
                if T is None: T, F = a, b
                elif ex: T, F = T | a, F & b
                else: T, F = T & a, F | b
            if not past and u > 63:
                z = np.zeros_like(any_a)
                if ex: F = z
                else: T = z
            if T is None:
                T, F = (sh(t, 64, not ex), sh(g, 64, ex))
        else:
            t1, f1 = ev(f[3], A, n, memo); t2, f2 = ev(f[4], A, n, memo)
            ex = op in ('U', 'S')
            top = min(u, 64)
            T, F = sh(t2, top, not ex), sh(f2, top, ex)
            for i in range(top - 1, l - 1, -1):
                a1, b1 = sh(t1, i, not ex), sh(f1, i, ex)
                a2, b2 = sh(t2, i, not ex), sh(f2, i, ex)
                if ex: T, F = a2 | (a1 & T), b2 & (b1 | F)
                else: T, F = a2 & (a1 | T), b2 | (b1 & F)
        r = (T, F)
    memo[f] = r
    return r


def all_traces(natoms, depth, letters=None):
    """Arrays A[i] over all len(letters)**depth traces, in DFS order (letter value l sets atom i to bit i of l)."""
    letters = list(range(1 << natoms)) if letters is None else list(letters)
    nl = len(letters)
    N = nl ** depth
    lv = np.array(letters, dtype=np.uint64)
    idx = np.arange(N, dtype=np.int64)
    A = [np.zeros(N, dtype=np.uint64) for _ in range(max(natoms, 1))]
    for t in range(depth):
        letter = lv[(idx // (nl ** (depth - 1 - t))) % nl]
        for i in range(natoms):
            A[i] |= ((letter >> np.uint64(i)) & np.uint64(1)) << np.uint64(t)
    return A


def digits(leaf, nl, depth):
    return [(leaf // nl ** (depth - 1 - t)) % nl for t in range(depth)]


# ---- enumeration -------------------------------------------------------------------------------------------
def enum(depth_ops, leaves, un, bi):
    """All formulas with exactly `depth_ops` operators."""
    table = {0: list(leaves)}
    for k in range(1, depth_ops + 1):
        out = []
        for u in un:
            for x in table[k - 1]: out.append(u + (x,))
        for b in bi:
            for i in range(k):
                for x in table[i]:
                    for y in table[k - 1 - i]: out.append(b + (x, y))
        table[k] = out
    return table


def parse_note(f):
    return c2po(f)


# ---- reference semantics 3: position-major Boolean matrices, for long traces --------------------------------
def ev2(f, A, n, L, memo=None):
    """A[i]: bool array (L, N), rows >= n unknown. n: array (N,) of trace lengths. Returns (T, F) of shape (L, N)."""
    if memo is None: memo = {}
    if f in memo: return memo[f]
    op = f[0]
    N = A[0].shape[1]
    if op == 'a':
        known = np.arange(L)[:, None] < n[None, :]
        r = (A[f[1]] & known, ~A[f[1]] & known)
    elif op in ('tt', 'ff'):
        o, z = np.ones((L, N), bool), np.zeros((L, N), bool)
        r = (o, z) if op == 'tt' else (z, o)
    elif op == '!':
        t, g = ev2(f[1], A, n, L, memo); r = (g, t)
    elif op in BOOL2:
        t1, f1 = ev2(f[1], A, n, L, memo); t2, f2 = ev2(f[2], A, n, L, memo)
        if op == '&': r = (t1 & t2, f1 | f2)
        elif op == '|': r = (t1 | t2, f1 & f2)
        elif op == '->': r = (f1 | t2, t1 & f2)
        elif op == '<->': r = ((t1 & t2) | (f1 & f2), (t1 & f2) | (f1 & t2))
        else: r = ((t1 & f2) | (f1 & t2), (t1 & t2) | (f1 & f2))
    else:
        l, u = f[1], f[2]
        past, ex = op in ('O', 'H', 'S', 'T'), op in ('F', 'O', 'U', 'S')
        def sh(x, i, fill):
            y = np.full((L, N), bool(fill and past))
            if i < L:
                if past: y[i:] = x[:L - i]
                else: y[:L - i] = x[i:]
            return y
        if op in UN_T:
            t, g = ev2(f[3], A, n, L, memo)
            def window(x, conj, fill):
                """conj/disj over offsets l..u by doubling"""
                comb = np.logical_and if conj else np.logical_or
                y, w = sh(x, l, fill), 1
                while w < u - l + 1:
                    s = min(w, u - l + 1 - w)
                    y = comb(y, sh(y, s, fill)); w += s
                return y
            r = (window(t, not ex, not ex), window(g, ex, ex))
        else:
            t1, f1 = ev2(f[3], A, n, L, memo); t2, f2 = ev2(f[4], A, n, L, memo)
            T, F = sh(t2, u, not ex), sh(f2, u, ex)
            for i in range(u - 1, l - 1, -1):
                a1, b1, a2, b2 = sh(t1, i, not ex), sh(f1, i, ex), sh(t2, i, not ex), sh(f2, i, ex)
                if ex: T, F = a2 | (a1 & T), b2 & (b1 | F)
                else: T, F = a2 & (a1 | T), b2 | (b1 & F)
            r = (T, F)
    memo[f] = r
    return r


def block_traces(natoms, blocks, depth, L):
    """All traces of `depth` blocks (letter, steps), DFS order. Returns (A: list of bool (L, N), n: lengths)."""
    nb = len(blocks)
    N = nb ** depth
    n = np.zeros(N, dtype=np.int64)
    A = [np.zeros((L, N), bool) for _ in range(natoms)]
    idx = np.arange(N)
    for d in range(depth):
        b = (idx // nb ** (depth - 1 - d)) % nb
        for k, (v, c) in enumerate(blocks):
            cols = np.nonzero(b == k)[0]
            for s in range(c):
                rows = n[cols] + s
                ok = rows < L
                for i in range(natoms):
                    if (v >> i) & 1: A[i][rows[ok], cols[ok]] = True
            n[cols] += c
    return A, n
