"""P01-P04: the C monitor against MLTL semantics, on complete trees of input traces."""
from lib import common, mltl, comp, sweep, families as fam

IV_Q = [(0, 0), (0, 1), (1, 1), (1, 2), (0, 2)]
IV_T = [(0, 0), (0, 1), (1, 1), (0, 2), (1, 2), (2, 3), (0, 3), (2, 2), (1, 4)]


def tree(fs, past, bits, i=0, letters=None, opts=None, cap=16):
    na = fam.na_of(fs)
    D = min(cap, bits // na) if letters is None else bits
    return dict(fs=fs, past=past, na=na, D=D, letters=letters, opts=fam.default_opts(i) if opts is None else opts)


def late_items(past, thorough):
    """Complete trees that start after tens of thousands of steps or millions of steps (time stamps beyond 8, 16, 20 and 24 bits, thorough: almost 31 bits)."""
    L = [x for x in fam.library(past, [(0, 3), (2, 5), (4, 4)]) if x[0] != 'a'] + fam.pairs(past, [(1, 2)], [(0, 2)])[::29]
    pats = [[0], [3], [1, 2, 0], [0, 0, 3, 1, 1, 2, 2]]
    reps = [250, 1015, 65530, 70000] if thorough else [250, 65530]
    return [dict(fs=[f], past=past, na=2, D=4 if not thorough else 6, mode="late", pattern=p, reps=n // len(p)) for i, f in enumerate(L)
            for j, p in enumerate(pats) for k, n in enumerate(reps) if thorough or (i + j + k) % 4 == 0] + \
        [dict(fs=[f], past=past, na=2, D=4, mode="late", pattern=p, reps=n // len(p)) for i, f in enumerate(L[::5 if thorough else 11])
         for j, p in enumerate(pats[1:]) for n in ([(1 << 20) - 2, 1 << 24] if thorough else [(1 << 20) - 2]) if thorough or (i + j) % 3 == 0] + \
        [dict(fs=[f], past=past, na=2, D=4, mode="late", pattern=[3, 0], reps=((1 << 31) - 80 if thorough else 1 << 24) // 2) for f in L[1:8:6]]


def two_letters(na, i):
    """Two-letter alphabets; all of them are used in turn."""
    al = [(x, y) for x in range(1 << na) for y in range(x + 1, 1 << na)]
    return list(al[i % len(al)])


def items(past, thorough, seed):
    """List of (family name, items, share of the budget that is left)."""
    T = thorough
    out = []
    iv = IV_T if T else IV_Q
    one = fam.small(past, 1, [(l, u) for l in range(6) for u in range(l, 7)], bools=('&', '|', '<->', '->', '^'))
    out.append(("1 operator, all intervals up to 6", [tree([f], past, 14, i) for i, f in enumerate(one)], 1.0))
    out.append(("wide intervals", [dict(fs=[f], past=past, na=2, D=6 if T else 4, mode="blocks", blocks=b, mw=6, opts=fam.default_opts(i))
                                   for i, f in enumerate(fam.big(past)) for b in (fam.BLOCKS2 if T else [fam.BLOCKS2[i % 3]])], 0.5))
    out.append(("after a long history", late_items(past, T), 0.5))
    deep = fam.deep(past)
    out.append(("deep nesting", [tree([f], past, 13, i, letters=two_letters(fam.na_of([f]), i + j)) for i, f in enumerate(deep) for j in range(6)], 0.5))
    out.append(("deep nesting, long blocks", [dict(fs=[f], past=past, na=2, D=5, mode="blocks", blocks=b, mw=6) for f in deep for b in fam.BLOCKS2], 0.5))
    two = fam.small(past, 2, iv)
    out.append(("2 operators", [tree([f], past, 16 if T else 12, i) for i, f in enumerate(two)], 0.6))
    pr = fam.pairs(past, [(0, 1), (1, 2), (2, 2), (0, 3)], [(0, 1), (1, 3), (2, 2)])
    pr = pr if T else fam.take(pr, 3000, seed)
    out.append(("pairs of temporal operands", [tree([f], past, 13 if T else 11, i, letters=two_letters(2, i)) for i, f in enumerate(pr)], 0.6))
    three = fam.small(past, 3, [(0, 1), (1, 2), (1, 3)])
    three = three if T else fam.take(three, 4000, seed)
    out.append(("3 operators", [tree([f], past, 12, i) for i, f in enumerate(three)], 0.7))
    if T:
        four = fam.take(fam.small(past, 4, [(0, 1), (1, 3)]), 60000, seed)
        out.append(("4 operators (every n-th)", [tree([f], past, 12, i) for i, f in enumerate(four)], 1.0))
    return out


ASSUME = ["C2PO and the C monitor are compiled from the working tree; the monitor runs in process, driven through its public API.",
          "Bounded formula sizes, intervals and trace lengths as listed under families; input letters are Boolean atom valuations."]


def sound(chk, past):
    kinds = ("wrong verdict", "crash", "verdict for a formula", "specification rejected", "step returned", "not compiled")
    sweep.prepare()
    chk.assumptions = ASSUME
    for name, its, frac in items(past, common.THOROUGH, common.SEED):
        if chk.nviol >= 3: break
        its = [dict(it, deadlines=False, order=False) for it in its]  # late or repeated verdicts must not hide wrong ones
        sweep.sweep_all(chk, name, its, kinds, frac)
    return chk.finish()


def stream_items(thorough, seed):
    """Programs for the shape of verdict streams: constants everywhere, several formulas, both sections, wide intervals."""
    T = thorough
    out = []
    con = (fam.A, fam.B, ('tt',), ('ff',))
    for past in (False, True):
        s = "past" if past else "future"
        one = fam.small(past, 1, [(0, 0), (0, 1), (1, 1), (0, 3), (2, 4), (3, 3)], leaves=con, bools=('&', '|', '<->', '->', '^'))
        out.append((f"constants, 1 operator, {s}", [tree([f], past, 12, opts=o) for f in one for o in (dict(), dict(rewrite=False), dict(rewrite=False, cse=False))], 0.5))
        two = fam.small(past, 2, [(0, 1), (1, 2)], leaves=con)
        two = two if T else fam.take(two, 4000, seed)
        out.append((f"constants, 2 operators, {s}", [tree([f], past, 9 if not T else 11, i + 1) for i, f in enumerate(two)], 0.5))
        L = fam.library(past, [(0, 1), (1, 2), (2, 2)]) + [('&', x, y) for x in (fam.A, ('!', fam.A)) for y in (fam.B, (('O' if past else 'F'), 1, 2, fam.B))]
        prs = [(x, y, ('&', x, y)) for i, x in enumerate(L) for y in L[i + 1:]]
        prs = prs if T else fam.take(prs, 800, seed)
        out.append((f"several formulas, {s}", [tree(list(p), past, 11, i, letters=two_letters(2, i)) for i, p in enumerate(prs)], 0.5))
        out.append((f"wide intervals, {s}", [dict(fs=[f], past=past, na=2, D=4, mode="blocks", blocks=fam.BLOCKS2[i % 3], mw=6) for i, f in enumerate(fam.big(past))], 0.5))
        prs = fam.pairs(past, [(0, 1), (1, 2), (2, 2)], [(0, 1), (1, 3)])
        out.append((f"pairs of temporal operands, {s}", [tree([f], past, 10, i, letters=two_letters(2, i + 1)) for i, f in enumerate(prs if T else fam.take(prs, 1500, seed + 1))], 0.6))
        three = fam.small(past, 3, [(0, 1), (1, 3)])
        out.append((f"3 operators, {s}", [tree([f], past, 12, i) for i, f in enumerate(three if T else fam.take(three, 1500, seed + 1))], 0.7))
        out.append((f"after a long history, {s}", late_items(past, False), 0.5))
        deep = fam.deep(past)
        out.append((f"deep nesting, {s}", [tree([f], past, 12, i, letters=two_letters(fam.na_of([f]), i + j)) for i, f in enumerate(deep) for j in range(3)], 0.5))
    return out


def stream(chk, what):
    kinds = {"order": ("verdict not in order", "verdict late", "verdict for a formula", "verdict flood"), "time": ("verdict late", "step does not terminate", "verdict flood", "crash")}[what]
    sweep.prepare()
    chk.assumptions = ASSUME + ["Deadlines are the worst-case reach of the written formula; past-time formulas must be decided in the same step.",
                                "A step that uses more than about 2 s of CPU time is counted as not terminating (a step normally takes microseconds)."]
    for name, its, frac in stream_items(common.THOROUGH, common.SEED):
        if chk.nviol >= 3: break
        its = [dict(it, deadlines=1 if what == "time" else 5, order=what == "order") for it in its]  # neither must hide the other
        # (a step that is still undecided four steps after its deadline is taken for a gap)
        sweep.sweep_all(chk, name, its, kinds, frac)
    return chk.finish()
