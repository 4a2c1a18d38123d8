"""Formula families explored by the checks. Every family is a finite, explicitly enumerated set."""
import itertools
from . import mltl

A, B, C_ = ('a', 0), ('a', 1), ('a', 2)


def ops(past, iv, binary_bool=('&', '|', '<->'), neg=True):
    un = ([('!',)] if neg else []) + [(o, l, u) for o in ('OH' if past else 'FG') for l, u in iv]
    bi = [(o,) for o in binary_bool] + [(o, l, u) for o in ('ST' if past else 'UR') for l, u in iv]
    return un, bi


def na_of(fs):
    return max([i for f in fs for i in mltl.atoms(f)], default=0) + 1


def take(items, n, seed):
    """n of the items, evenly spread, starting at a seed-dependent place (all of them if n is large enough)."""
    items = list(items)
    if len(items) <= n: return items
    step = len(items) / n
    off = (seed * 0.618) % 1.0
    return [items[int((i + off) * step) % len(items)] for i in range(n)]


def small(past, k, iv, leaves=(A, B), bools=('&', '|', '<->')):
    """All formulas with exactly k operators."""
    un, bi = ops(past, iv, bools)
    return mltl.enum(k, leaves, un, bi)[k]


def library(past, iv):
    """Temporal subformulas used as operands of `pairs`."""
    un, bi = ops(past, iv, ())
    L = [A, ('!', B)]
    for u in un:
        if u[0] != '!': L += [u + (A,), u + (B,)]
    for b in bi: L += [b + (A, B), b + (B, A)]
    return L


def pairs(past, iv, outer_iv):
    """Every pair from the library under every binary operator, plus one unary operator on top of some."""
    L = library(past, iv)
    tops = [('&',), ('|',), ('<->',), ('^',), ('->',)] + [(o, l, u) for o in ('ST' if past else 'UR') for l, u in outer_iv]
    return [t + (x, y) for t in tops for x in L for y in L if x is not y]


def big(past):
    """Operators with wide intervals, alone and nested."""
    o1, o2, u, r = ('O', 'H', 'S', 'T') if past else ('F', 'G', 'U', 'R')
    iv = [(0, 7), (3, 9), (8, 8), (0, 31), (15, 33), (32, 32), (5, 64), (0, 63), (40, 41), (60, 100), (0, 127), (127, 128)]
    out = []
    for l, h in iv:
        out += [(o1, l, h, A), (o2, l, h, A), (u, l, h, A, B), (r, l, h, A, B), ('!', (u, l, h, ('!', A), B))]
    sm = [(0, 7), (3, 9), (8, 8), (15, 33), (5, 40)]
    for (l, h), (m, k) in itertools.product(sm, sm):
        out += [(o1, l, h, (o2, m, k, A)), (u, l, h, (o1, m, k, A), B), (r, l, h, A, (u, m, k, B, A)), ('&', (o2, l, h, A), (u, m, k, A, B)),
                ('<->', (o1, l, h, B), (r, m, k, A, B)), (u, l, h, (r, m, k, A, B), (o2, m, h + k, B))]
    return out


def deep(past):
    """Chains of nested operators."""
    o1, o2, u, r = ('O', 'H', 'S', 'T') if past else ('F', 'G', 'U', 'R')
    out = []
    for n in (4, 6, 9):
        f = A; g = A; h = A; k = A
        for i in range(n):
            f = (o1 if i % 2 else o2, i % 2, 1 + i % 3, f)
            g = (u if i % 2 else r, i % 3, 2 + i % 2, B, g) if i % 3 else ('!', g)
            h = (u, 0, 1 + i % 2, h, B) if i % 2 else (r, 1, 2, h, B)
            k = ('&' if i % 2 else '|', k, (o1 if i % 2 else o2, i % 2, i, B))
        out += [f, g, h, k, ('<->', f, g), ('&', ('!', h), g)]
    return out


BLOCKS2 = [[(0, 1), (1, 9), (2, 3), (3, 31), (1, 1)], [(0, 13), (3, 1), (2, 29), (1, 2), (0, 40)], [(1, 50), (2, 1), (3, 7), (0, 3), (2, 64)]]


def default_opts(i):
    """Cycle through optimisation settings so that plain and optimised programs are both explored."""
    return [dict(), dict(rewrite=False), dict(cse=False), dict(rewrite=False, cse=False)][i % 4]
