"""P10: formulas compiled together against the same formulas compiled alone. P11: runs after resets and reloads against
fresh runs. P12: two monitors in one process against one."""
import itertools, time
import numpy as np
from lib import common, mltl, comp, sweep, mon, pool, bz, families as fam
from bzc import past_of

P0, P1, I0, X0 = ('p', 0), ('p', 1), ('i', 0), ('x', 0)
TAU = ('tau',)
_cache = {}


def compile_(parts, sigs, opts, extra="", mapping=None):
    """parts: list of (past, [(label or None, text)])."""
    spec = bz.decl(sigs) + extra
    for past, fs in parts:
        spec += ("PTSPEC\n" if past else "FTSPEC\n") + "".join(f"  {(l + ': ') if l else ''}{t};\n" for l, t in fs)
    o = dict(bz=any(s[0] != 'p' for s in sigs)); o.update(opts)
    return spec, comp.cli(spec, map_text=mapping or bz.sig_map(sigs), **o)


def profile(binary, L, depth, nf, S=None):
    """Decided positions and values after 1..depth letters, for every input sequence."""
    S = S or sweep.srv()
    out, nodes, leaves = [], 0, 0
    for d in range(1, depth + 1):
        x = S.job([binary], [mon.action(mon.LOAD)], L, d, [nf])
        nodes += x.nodes; leaves += x.nleaf
        if x.status: return dict(kind=x.why, path=x.path, formula=x.formula, err=S.lasterr if x.status in (3, 4, 7) else ""), nodes, leaves
        out.append(x.leaves)
    return out, nodes, leaves


def alone(f, past, sigs, opts, L, depth):
    k = (f, past, tuple(sigs), str(sorted(opts.items())), depth, len(L))
    if k not in _cache:
        if len(_cache) > 3000: _cache.clear()
        _, c = compile_([(past, [(None, bz.show(f))])], sigs, opts)
        if not c.ok: _cache[k] = (None, 0, 0)
        else: _cache[k] = profile(c.binary, L, depth, 1)
    return _cache[k]


def together(it):
    """it: parts [(past, [expr])], sigs, vals, D, opts, optional labels/texts/extra. Returns (error, nodes, leaves)."""
    sigs, opts, D = it["sigs"], it.get("opts", {}), it["D"]
    lv = bz.product(sigs, it["vals"])
    L = bz.letters(sigs, lv)
    k = 0
    parts = []
    for past, fs in it["parts"]:
        row = []
        for f in fs:
            row.append(((it["labels"][k] if it.get("labels") else None), it["texts"][k] if it.get("texts") else bz.show(f)))
            k += 1
        parts.append((past, row))
    spec, c = compile_(parts, sigs, opts, it.get("extra", ""))
    flat = [(past, f) for past, fs in it["parts"] for f in fs]
    if not c.ok:
        if it.get("may_refuse") and not c.exc and "unexpected error" not in c.err + c.out: return None, 0, 0, False
        return dict(kind="not compiled", rc=c.rc, exc=c.exc, err=(c.err + c.out)[:300], spec=spec), 0, 0, False
    got, nodes, leaves = profile(c.binary, L, D, len(flat))
    if isinstance(got, dict): return dict(got, spec=spec, path=[lv[l] for l in got["path"] if l < len(lv)]), nodes, leaves, True
    for k, (past, f) in enumerate(flat):
        ref, n, l = alone(f, past, sigs, {o: v for o, v in opts.items()}, L, D)
        if ref is None or isinstance(ref, dict): continue  # that the formula alone is handled is decided elsewhere
        for d in range(D):
            bad = (got[d][:, k] != ref[d][:, 0]).any(axis=1)
            if bad.any():
                i = int(np.nonzero(bad)[0][0])
                g, r = [int(v) for v in got[d][i, k]], [int(v) for v in ref[d][i, 0]]
                t = ((g[0] ^ r[0]) | (g[1] ^ r[1])); t = (t & -t).bit_length() - 1
                word = lambda m: "true" if m[0] >> t & 1 else "false" if m[1] >> t & 1 else "undecided"
                return dict(kind="differs from the formula alone", formula=k, text=bz.show(f), time=t, after=d + 1, together=word(g), alone=word(r), spec=spec,
                            path=[lv[z] for z in mltl.digits(i, len(lv), d + 1)]), nodes, leaves, True
    return None, nodes, leaves, True


def sweep_multi(chk, name, items, fn, frac=1.0, chunk=4):
    items = list(items)
    end = time.time() + max(5.0, chk.left() * frac)
    done = nodes = leaves = ran = 0
    for it, (e, n, l, ok) in pool.run(fn, items, chunk=chunk, left=lambda: end - time.time()):
        done += 1; nodes += n; leaves += l; ran += bool(ok)
        if e is None: continue
        if e["kind"] == "known":
            for k in e["keys"]: chk.violation(k, "recorded defect", None)
            continue
        key = (str(e.get("spec", "")) + "|" + str(e.get("hist", "")) + str(it.get("opts", ""))).replace(" ", "").replace("\n", " ").replace(" ", "_")
        what = e["kind"] + ": " + "; ".join(f"{k}={str(v).strip()!r}" for k, v in e.items() if k not in ("kind",))
        chk.violation(key, what[:1500], dict(error=e))
        if chk.nviol >= 3: break
    chk.add(states=nodes, transitions=nodes, traces_validated_against_impl=leaves, programs=done)
    chk.cov.setdefault("families", {})[name] = dict(programs=done, of=len(items), compiled=ran, exhaustive=done == len(items), transitions=nodes, traces=leaves)
    if items:
        it = items[len(items) // 2]
        chk.sample(dict(family=name, item={k: (str(v)[:400]) for k, v in it.items()}))


def pool_formulas():
    a, b = P0, P1
    L = [a, b, ('!', a), ('&&', a, b), ('||', ('!', a), b), ('<->', a, b), ('xor', a, b), ('->', b, a)]
    iv = [(0, 1), (1, 1), (0, 3), (2, 3)]
    L += [('F', l, u, a) for l, u in iv] + [('G', l, u, b) for l, u in iv] + [('G', 0, 1, a), ('F', 1, 2, ('!', b))]
    L += [('U', l, u, a, b) for l, u in iv[::2]] + [('R', l, u, b, a) for l, u in iv[1::2]] + [('U', 1, 2, ('F', 0, 1, a), b), ('R', 0, 2, a, ('G', 1, 1, b)), ('F', 0, 1, ('G', 0, 1, a)), ('G', 1, 2, ('F', 0, 1, a))]
    L += [('&&', ('F', 0, 1, a), b), ('||', ('G', 0, 3, b), ('U', 0, 1, a, b)), ('<->', ('F', 0, 1, a), ('G', 2, 3, b)), ('!', ('U', 0, 3, a, b)), ('&&', ('F', 0, 1, ('G', 0, 1, a)), ('!', ('F', 0, 3, a))), ('xor', ('F', 2, 3, a), ('F', 0, 1, b))]
    return L


def no_const(f):
    return not bz.has(f, 'cb')


def items10(thorough, seed):
    T = thorough
    out = []
    F = pool_formulas()
    H = [past_of(f) for f in F]
    sig, vals = [P0, P1], {'p': (False, True)}
    o = fam.default_opts
    pr = [(x, y) for x in F for y in F]
    pr = pr if T else fam.take(pr, 700, seed)
    out.append(("pairs, future time", [dict(parts=[(False, list(p))], sigs=sig, vals=vals, D=5, opts=o(i)) for i, p in enumerate(pr)], 1.0))
    out.append(("pairs, past time", [dict(parts=[(True, [past_of(f) for f in p])], sigs=sig, vals=vals, D=5, opts=o(i + 1)) for i, p in enumerate(fam.take(pr, 500, seed + 1) if not T else pr)], 1.0))
    mix = []
    for i, (x, y) in enumerate(fam.take(pr, 400, seed + 2) if not T else pr):
        mix.append(dict(parts=[(False, [x]), (True, [past_of(y)])], sigs=sig, vals=vals, D=4, opts=o(i)))
        mix.append(dict(parts=[(True, [past_of(x)]), (False, [y])], sigs=sig, vals=vals, D=4, opts=o(i + 1)))
    mix += [dict(parts=[(False, [x]), (True, [past_of(y)]), (False, [y, x])], sigs=sig, vals=vals, D=4, opts=o(i)) for i, (x, y) in enumerate(fam.take(pr, 60, seed))]
    out.append(("future-time and past-time sections", mix, 1.0))
    trip = [tuple(F[(i * 7 + j * k) % len(F)] for k in range(4)) for i in range(len(F)) for j in (1, 3, 5, 11)]
    out.append(("four formulas", [dict(parts=[(b, [past_of(f) if b else f for f in t])], sigs=sig, vals=vals, D=4, opts=o(i)) for i, t in enumerate(trip) for b in (False, True)], 1.0))
    big = [F, F[::-1], F[::2] + F[1::2]]
    out.append(("many formulas", [dict(parts=p, sigs=sig, vals=vals, D=4, opts=op) for b in big for op in (o(0), o(1)) for p in
                                  ([(False, b)], [(True, [past_of(f) for f in b])], [(False, b[:18]), (True, [past_of(f) for f in b[18:]])])], 1.0))
    # labels used in later formulas
    lab = []
    n = ('name', 'f1')
    uses = [lambda d, q: d, lambda d, q: ('!', d), lambda d, q: ('&&', d, q), lambda d, q: ('F', 0, 1, d), lambda d, q: ('U', 0, 2, q, d), lambda d, q: ('<->', ('G', 1, 2, d), d)]
    for i, x in enumerate(F):
        for j, u in enumerate(uses):
            y = F[(i * 5 + j) % len(F)]
            for past in (False, True):
                fx, fy = (past_of(x), past_of(y)) if past else (x, y)
                g = (past_of if past else (lambda z: z))
                lab.append(dict(parts=[(past, [fx, g(u(fx, fy)), fy])], labels=['f1', 'f2', None], texts=[bz.show(fx), bz.show(g(u(n, fy))), bz.show(fy)], sigs=sig, vals=vals, D=4, opts=o(i + j)))
    out.append(("labels used as subformulas", lab if T else fam.take(lab, 260, seed), 1.0))
    dfs = []
    d = ('name', 'd')
    for i, x in enumerate([('&&', P0, P1), ('||', P0, ('!', P1)), ('!', P0), ('<->', P0, P1), P0]):
        for j, u in enumerate(uses):
            for k, v in enumerate(uses):
                for past in ((False, False), (False, True), (True, True), (True, False)):
                    f, g = u(x, P1), v(x, P0)
                    ft, gt = u(d, P1), v(d, P0)
                    p = lambda z, b: past_of(z) if b else z
                    dfs.append(dict(parts=[(past[0], [p(f, past[0])]), (past[1], [p(g, past[1])])], texts=[bz.show(p(ft, past[0])), bz.show(p(gt, past[1]))], extra=f"DEFINE\n  d := {bz.show(x)};\n", sigs=sig, vals=vals, D=4, opts=o(i + j + k)))
    out.append(("definitions used by several formulas", dfs if T else fam.take(dfs, 360, seed), 1.0))
    # several value expressions
    B = [('>', I0, ('ci', 0)), ('==', ('+', I0, ('ci', 1)), TAU), ('==', ('prev', ('ci', 1), I0), I0), P0, ('!=', P0, ('>', I0, ('ci', 0))), ('F', 0, 1, ('>', I0, ('ci', 0))), ('&&', P0, ('<', ('*', I0, I0), ('ci', 2))),
         ('<', X0, ('cf', 0.5)), ('G', 0, 2, ('||', P0, ('<', X0, ('cf', 0.5)))), ('prev', ('cb', True), P0), ('<', TAU, ('ci', 2)), ('==', ('-', I0, ('prev', ('ci', 0), I0)), ('ci', 1)), ('U', 0, 2, P0, ('==', I0, ('ci', 0))), ('>', ('prev', ('cf', 0.0), X0), X0), ('<=', ('ci', 1), I0)]
    bs, bv = [I0, X0, P0], {'i': (0, 1), 'x': (0.25, 0.75), 'p': (False, True)}
    bp = []
    for i, (x, y) in enumerate(itertools.product(B, B)):
        bp.append(dict(parts=[(False, [x, y])], sigs=bs, vals=bv, D=3, opts=o(i)))
        bp.append(dict(parts=[(False, [x]), (True, [past_of(y)])], sigs=bs, vals=bv, D=3, opts=o(i + 1)))
        bp.append(dict(parts=[(True, [past_of(x)]), (False, [y])], sigs=bs, vals=bv, D=3, opts=o(i + 2)))
    bp += [dict(parts=[(False, B[k:] + B[:k])], sigs=bs, vals=bv, D=3, opts=o(k)) for k in range(len(B))]
    bp += [dict(parts=[(False, B[:k]), (True, [past_of(f) for f in B[k:]])], sigs=bs, vals=bv, D=3, opts=o(k)) for k in range(1, len(B))]
    out.append(("value expressions in several formulas", bp if T else fam.take(bp, 360, seed), 1.0))
    return out


def influence(chk):
    sweep.prepare()
    chk.assumptions = ["What a formula reports alone is taken from the same compiler and monitor; that it is right is the matter of P01, P02, P08 and P09.",
                       "Compared after every step of every input sequence: which time steps are decided, and how."]
    for name, its, frac in items10(common.THOROUGH, common.SEED):
        if chk.nviol >= 3: break
        sweep_multi(chk, name, its, together, frac)
    return chk.finish()


# ---- P11 ---------------------------------------------------------------------------------------------------------------
def program_pool():
    """(name, sigs, parts, D) of the specifications that are loaded one after another."""
    a, b = P0, P1
    ab, bi = [P0, P1], [I0, P0]
    return [
        ("load", ab, [(False, [a])], 4),
        ("until", ab, [(False, [('U', 1, 3, a, b)])], 5),
        ("nested", ab, [(False, [('G', 0, 1, ('F', 0, 2, a)), ('R', 0, 2, b, ('F', 1, 1, a))])], 5),
        ("since", ab, [(True, [('S', 0, 2, a, b)])], 5),
        ("trigger", ab, [(True, [('T', 1, 2, a, b), ('O', 1, 3, a)])], 5),
        ("once", ab, [(True, [('H', 0, 2, ('O', 0, 1, a))])], 5),
        ("both", ab, [(False, [('F', 0, 2, ('&&', a, b))]), (True, [('H', 0, 1, ('||', a, b))])], 4),
        ("prev", bi, [(False, [('>', ('prev', ('ci', 1), I0), ('ci', 0)), ('<', TAU, ('+', I0, ('ci', 2)))])], 4),
        ("prevtl", bi, [(False, [('F', 0, 1, ('prev', ('cb', True), P0)), ('U', 0, 2, P0, ('==', I0, TAU))])], 4),
        ("prevpt", bi, [(True, [('S', 0, 2, ('prev', ('cb', False), P0), ('<', I0, ('prev', ('ci', 0), I0)))])], 4),
        ("big", ab, [(False, [('U', 0, 5, ('F', 0, 3, a), ('G', 2, 4, b)), ('<->', ('F', 2, 5, a), b), ('R', 1, 4, a, b), a])], 5),
        ("bool", ab, [(False, [('&&', a, b), ('xor', a, b), ('!', a)]), (True, [('<->', a, b)])], 4),
    ]


VALS11 = {'i': (0, 1), 'p': (False, True)}
PROG = {}


def programs():
    if not PROG:
        for n, sigs, parts, D in program_pool():
            _, c = compile_([(p, [(None, bz.show(f)) for f in fs]) for p, fs in parts], sigs, {})
            if not c.ok: raise common.CheckError(f"program {n} does not compile: {c}")
            PROG[n] = (c.binary, sigs, sum(len(fs) for _, fs in parts), D)
    return PROG


OPS = {"clock": mon.CLOCK, "soft": mon.SOFT, "hard": mon.HARD}


def hist_actions(hist, order, m=0):
    """hist: list of ('load', name) | ('step', letter number) | reset names. Returns packed actions."""
    out, cur = [], None
    for h in hist:
        if h[0] == 'load':
            cur = h[1]; out.append(mon.action(mon.LOAD, m, order.index(cur)))
        elif h[0] == 'step':
            sigs = PROG[cur][1] if cur else [P0, P1]
            out += bz_letter(sigs, h[1], m)
        else: out.append(mon.action(OPS[h[0]], m))
    return out


def bz_letter(sigs, k, m=0):
    lv = bz.product(sigs, VALS11)
    l = lv[k % len(lv)]
    return [bz.act(s, j, v, m) for j, (s, v) in enumerate(zip(sigs, l))] + [mon.action(mon.STEP, m)]


def reload_(it):
    P = programs()
    order = list(P)
    name = it["final"]
    binary, sigs, nf, D = P[name]
    L = bz.letters(sigs, bz.product(sigs, VALS11))
    S = sweep.srv(it.get("variant", "plain"))
    specs = [P[n][0] for n in order]
    nodes = leaves = 0
    k = ("fresh", name, it.get("variant"))
    if k not in _cache: _cache[k] = [S.job(specs, [mon.action(mon.LOAD, 0, order.index(name))], L, d, [nf]).leaves for d in range(1, D + 1)]
    for hist in it["hists"]:
        pre = hist_actions(hist, order) + [mon.action(mon.LOAD, 0, order.index(name))]
        for d in ((D,) if not it.get("all") else range(1, D + 1)):
            x = S.job(specs, pre, L, d, [nf], lenient=True)
            nodes += x.nodes; leaves += x.nleaf
            if x.status: return dict(kind=x.why, final=name, hist=hist, path=x.path, err=S.lasterr if x.status in (3, 4, 7) else ""), nodes, leaves, True
            ref = _cache[k][d - 1]
            bad = (x.leaves != ref).any(axis=(1, 2))
            if bad.any():
                i = int(np.nonzero(bad)[0][0])
                return dict(kind="differs from a fresh monitor", hist=hist, final=name, input=mltl.digits(i, len(L), d), got=x.leaves[i].tolist(), fresh=ref[i].tolist()), nodes, leaves, True
    return None, nodes, leaves, True


def items11(thorough, seed):
    names = [p[0] for p in program_pool()]
    out = []
    steps = [('step', 0), ('step', 3), ('step', 1)]
    res = [('clock',), ('soft',), ('hard',)]
    # every operation sequence up to a length, three programs as operations
    tri = [("until", "since", "prev"), ("nested", "prevtl", "trigger"), ("both", "big", "prevpt"), ("once", "bool", "load")]
    n = 5 if thorough else 4
    its = []
    for i, t in enumerate(tri):
        ops = [('load', x) for x in t] + steps[:2] + res
        seqs = [list(s) for k in range(1, n) for s in itertools.product(ops, repeat=k) if s[0][0] == 'load']
        for f in t:
            for j in range(0, len(seqs), 64): its.append(dict(final=f, hists=seqs[j:j + 64]))
    out.append((f"every sequence of up to {n - 1} operations (load, step, reset) before the last load", its, 1.0))
    # every input history of the previous program, every pair of programs
    its = []
    depth = 5 if thorough else 3
    for a in names:
        for f in names:
            hists = []
            for k in range(depth + 1):
                for s in itertools.product(range(4), repeat=k):
                    hists.append([('load', a)] + [('step', l) for l in s])
            hists += [[('load', a)] + [('step', l) for l in s] + [r] for s in itertools.product((0, 3), repeat=3) for r in res]
            hists += [[('load', a)] + [('step', (k * k + a.__len__()) % 4) for k in range(m)] for m in (7, 12, 20)]
            its.append(dict(final=f, hists=hists))
    out.append(("every input history of one program before each other program", its, 1.0))
    # after long runs
    its = [dict(final=f, hists=[[('load', a)] + [('step', (k * 7 + k // 3) % 4) for k in range(m)] for m in (65, 300)] + [[('load', a)] + [('step', c)] * 40 for c in range(4)], all=True) for a in names for f in names]
    out.append(("after long runs, compared after every step", its, 1.0))
    return out


def reloads(chk):
    sweep.prepare()
    programs()
    chk.assumptions = ["Every step of the second run loads all signals of the specification; a signal never loaded keeps whatever value it had.",
                       "Twelve programs cover every instruction of the monitor, both sections, previous values and the step counter."]
    for name, its, frac in items11(common.THOROUGH, common.SEED):
        if chk.nviol >= 3: break
        sweep_multi(chk, name, its, reload_, frac, chunk=1)
    return chk.finish()


# ---- P12 ---------------------------------------------------------------------------------------------------------------
def solo(name, d):
    """Verdicts of a program that is alone in its process, after every sequence of d letters."""
    k = ("solo", name, d)
    if k not in _cache:
        binary, sigs, nf, _ = P = programs()[name]
        x = sweep.srv().job([binary], [mon.action(mon.LOAD)], bz.letters(sigs, bz.product(sigs, VALS11)), d, [nf])
        if x.status: raise common.CheckError(f"{name} alone: {x.why}")
        _cache[k] = x.leaves
    return _cache[k]


def letter_actions(sigs, k, m):
    return [bz.act(s, j, v, m) for j, (s, v) in enumerate(zip(sigs, bz.product(sigs, VALS11)[k]))]


def interleave(it):
    """Complete tree of operations on two monitors; every leaf compared with the two solo runs.
    it: progs (a, b); ops: list of (monitor, kind, letter), kind 'in' (load signals) | 'step' | 'both'; pre: list of (monitor, 'load'|...)."""
    P = programs()
    names = it["progs"]
    S = sweep.srv(nmon=2)
    ops, D = it["ops"], it["D"]
    nodes = leaves = 0
    for pre in it["pres"]:
        cur, idx, cnt = [0, 0], [0, 0], [0, 0]
        acts = []
        def act(m, kind, l):
            sigs = P[names[m]][1]
            a = []
            if kind == 'load': a.append(mon.action(mon.LOAD, m, m))
            if kind in ('in', 'both'): a += letter_actions(sigs, l, m)
            if kind in ('step', 'both'): a.append(mon.action(mon.STEP, m))
            return a
        for m, kind, l in pre:
            acts += act(m, kind, l)
            if kind in ('in', 'both'): cur[m] = l
            if kind in ('step', 'both'): idx[m] = idx[m] * 4 + cur[m]; cnt[m] += 1
        L = [act(*o) for o in ops]
        nf = [P[n][2] for n in names]
        x = S.job([P[n][0] for n in names], acts, L, D, nf)
        nodes += x.nodes; leaves += x.nleaf
        if x.status: return dict(kind=x.why, spec=names, pre=pre, path=[ops[k] for k in x.path if k < len(ops)], err=S.lasterr if x.status in (3, 4, 7) else ""), nodes, leaves, True
        n = len(ops)
        N = n ** D
        C = [np.full(N, c, dtype=np.int64) for c in cur]; I = [np.full(N, c, dtype=np.int64) for c in idx]; K = [np.full(N, c, dtype=np.int64) for c in cnt]
        num = np.arange(N)
        for t in range(D):
            d = (num // n ** (D - 1 - t)) % n
            for k, (m, kind, l) in enumerate(ops):
                s = d == k
                if kind in ('in', 'both'): C[m][s] = l
                if kind in ('step', 'both'): I[m][s] = I[m][s] * 4 + C[m][s]; K[m][s] += 1
        for m in (0, 1):
            col = slice(0, nf[0]) if m == 0 else slice(nf[0], nf[0] + nf[1])
            for k in np.unique(K[m]):
                s = np.nonzero(K[m] == k)[0]
                got = x.leaves[s][:, col]
                want = solo(names[m], int(k))[I[m][s]] if k else np.zeros_like(got)
                bad = (got != want).any(axis=(1, 2))
                if bad.any():
                    j = int(np.nonzero(bad)[0][0]); i = int(s[j])
                    return dict(kind="a monitor differs from the same monitor alone", spec=names, monitor=m, pre=pre, operations=[ops[z] for z in mltl.digits(i, n, D)], got=got[j].tolist(), alone=want[j].tolist()), nodes, leaves, True
    return None, nodes, leaves, True


def items12(thorough, seed):
    names = [p[0] for p in program_pool()]
    pairs = [(a, b) for a in names for b in names]
    L0, L1 = (0, 'load', 0), (1, 'load', 0)
    loads = [[L0, L1], [L1, L0]]
    out = []
    both = [(m, 'both', l) for m in (0, 1) for l in (0, 3, 1)]
    ps = pairs if thorough else pairs
    out.append(("every interleaving of whole steps of two monitors", [dict(progs=p, ops=both, D=7 if thorough else 6, pres=loads) for p in ps], 1.0))
    fine = [(m, k, l) for m in (0, 1) for k, l in (('in', 3), ('in', 0), ('step', 0))]
    out.append(("every interleaving of signal loads and steps", [dict(progs=p, ops=fine, D=7 if thorough else 6, pres=loads[:1]) for p in ps], 1.0))
    late = []
    for k in range(1, 6):
        for w in ((0, 3), (3, 1), (2,)):
            h = [(0, 'both', w[i % len(w)]) for i in range(k)]
            late.append([L0] + h + [L1])
            late.append([L1] + [(1, o, l) for _, o, l in h] + [L0])
            late.append([L0] + h[:-1] + [(0, 'in', 1), L1, (0, 'step', 0)])
    two = [(m, 'both', l) for m in (0, 1) for l in (0, 3)]
    out.append(("one monitor loaded in the middle of the other's run", [dict(progs=p, ops=two, D=5 if thorough else 4, pres=late) for p in ps], 1.0))
    return out


def monitors(chk):
    sweep.prepare(); sweep.prepare("plain", 2)
    programs()
    chk.assumptions = ["Two monitors; calls are made one at a time from one thread (the monitor has no locking and its documentation promises none).",
                       "The verdicts each monitor emits alone are taken from a process that holds only that monitor."]
    for name, its, frac in items12(common.THOROUGH, common.SEED):
        if chk.nviol >= 3: break
        sweep_multi(chk, name, its, interleave, frac, chunk=1)
    return chk.finish()
