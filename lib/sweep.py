"""Explores one compiled specification over its complete input tree and compares with the MLTL oracle."""
import numpy as np
from . import common, mltl, mon, comp, pool

SO = {}


def san(variant): return "msan" if "msan" in variant else "asan" in variant


def prepare(variant="plain", nmon=1):
    SO[(variant, nmon)] = common.build_monitor(variant, nmon)
    common.build_explorer(san(variant))
    return SO[(variant, nmon)]


def srv(variant="plain", nmon=1):
    return pool.server(SO[(variant, nmon)], san(variant), nmon)


def oracle_cmp(f, leaves, A, D, atoms_n, col=0):
    """Returns (first bad leaf, position, emitted, expected) or None. Undetermined early verdicts are resolved by
    enumerating the continuations as far as that stays small."""
    T, F = mltl.ev(f, A, D)
    eT, eF = leaves[:, col, 0], leaves[:, col, 1]
    bad = (T & eF) | (F & eT)
    if bad.any():
        i = int(np.nonzero(bad)[0][0]); b = int(bad[i]); t = (b & -b).bit_length() - 1
        return i, t, bool(int(eT[i]) >> t & 1), bool(int(T[i]) >> t & 1)
    unk = (eT | eF) & ~(T | F)
    if unk.any():
        # verdicts emitted although three-valued evaluation of the formula does not determine them yet
        w = mltl.wpd(f)
        lim = np.uint64((1 << min(63, D + 8)) - 1)
        rows = np.nonzero(unk & lim)[0]
        ext = 0
        while ext < w + 4 and (1 << (atoms_n * (ext + 1))) * len(rows) <= 200000: ext += 1
        if ext and len(rows):
            E = mltl.all_traces(atoms_n, ext)
            n = len(E[0])
            A2 = [np.repeat(A[k][rows] & np.uint64((1 << D) - 1), n) | (np.tile(E[k], len(rows)) << np.uint64(D)) for k in range(len(A))]
            T2, F2 = mltl.ev(f, A2, D + ext)
            b2 = (T2 & np.repeat(eF[rows], n)) | (F2 & np.repeat(eT[rows], n))
            if b2.any():
                j = int(np.nonzero(b2)[0][0]); b = int(b2[j]); t = (b & -b).bit_length() - 1
                i = int(rows[j // n])
                return i, t, bool(int(eT[i]) >> t & 1), bool(int(T2[j]) >> t & 1)
    return None


def explore(binary, natoms, D, formulas, variant="plain", deadlines=True, pre=None, oracle=None, letters=None, prefix=(), srv_=None, nf=None, order=True):
    """Full tree of depth D over natoms Boolean atoms (or the given letter values) after a fixed prefix of letters;
    returns (error or None, Result)."""
    S = srv_ or srv(variant)
    dl = [mltl.wpd(f) + int(deadlines) - 1 for f in formulas] if deadlines else None  # True: no slack; n: n - 1 steps of slack
    L = mon.bool_letters(natoms, letters=letters)
    pre = list(pre or [mon.action(mon.LOAD)])
    for l in prefix: pre += mon.bool_letters(natoms, letters=[l])[0]
    x = S.job([binary], pre, L, D, [nf or len(formulas)], [dl] if dl else None, order=order)
    vals = list(range(1 << natoms)) if letters is None else list(letters)
    if x.status:
        return dict(kind=x.why, formula=x.formula, time=x.time, path=list(prefix) + [vals[i] for i in x.path if i < len(vals)],
                    err=S.lasterr if x.status in (3, 4, 7) else ""), x
    A = mltl.all_traces(natoms, D, letters)
    P = len(prefix)
    if P:
        for i in range(len(A)):
            pm = sum(((l >> i) & 1) << t for t, l in enumerate(prefix))
            A[i] = (A[i] << np.uint64(P)) | np.uint64(pm)
    for k, f in enumerate(oracle or formulas):
        r = oracle_cmp(f, x.leaves, A, D + P, natoms, k)
        if r:
            i, t, got, want = r
            return dict(kind="wrong verdict", formula=k, time=t, got=got, expected=want,
                        path=list(prefix) + [vals[d] for d in mltl.digits(i, len(vals), D)]), x
    return None, x


def explore_blocks(binary, natoms, blocks, depth, formulas, variant="plain", deadlines=True, pre=None, oracle=None, mw=4, srv_=None, ids=None, order=True):
    """Complete tree over blocks (letter, number of steps); every leaf is compared on its whole trace."""
    S = srv_ or srv(variant)
    dl = [mltl.wpd(f) + int(deadlines) - 1 for f in formulas] if deadlines else None  # True: no slack; n: n - 1 steps of slack
    L = [mon.bool_letters(natoms, letters=[v], ids=ids)[0] + [mon.action(mon.STEP)] * (c - 1) for v, c in blocks]
    x = S.job([binary], list(pre or [mon.action(mon.LOAD)]), L, depth, [len(formulas)], [dl] if dl else None, mw=mw, order=order)
    tr = lambda p: [v for b in p for v in [blocks[b][0]] * blocks[b][1]]
    if x.status:
        return dict(kind=x.why, formula=x.formula, time=x.time, path=tr(x.path), err=S.lasterr if x.status in (3, 4, 7) else ""), x
    W = 64 * mw
    fs = oracle or formulas
    span = W + max([mltl.wpd(f) for f in fs] + [0]) + 1
    A, n = mltl.block_traces(natoms, blocks, depth, span)
    memo = {}
    lv = x.leaves if x.leaves.ndim == 4 else x.leaves[..., None]
    for k, f in enumerate(fs):
        T, F = mltl.ev2(f, A, n, span, memo)
        bits = np.unpackbits(np.ascontiguousarray(lv[:, k]).view(np.uint8).reshape(lv.shape[0], 2, mw * 8), axis=2, bitorder="little").astype(bool)
        eT, eF = bits[:, 0].T, bits[:, 1].T
        bad = (T[:W] & eF) | (F[:W] & eT)
        if bad.any():
            c = int(np.nonzero(bad.any(axis=0))[0][0]); t = int(np.nonzero(bad[:, c])[0][0])
            return dict(kind="wrong verdict", formula=k, time=t, got=bool(eT[t, c]), expected=bool(T[t, c]), path=tr(mltl.digits(c, len(blocks), depth))), x
    return None, x


def explore_late(binary, natoms, D, formulas, pattern, reps, letters=None, variant="plain", deadlines=True, window=40, order=True):
    """Full tree of depth D after a long history (`pattern` repeated `reps` times). Compared from `window` - reach steps
    before the tree on; the formulas must not look further back than that."""
    S = srv(variant)
    unit = b"".join(a for l in pattern for a in mon.bool_letters(natoms, letters=[l])[0])
    n0 = len(pattern) * reps
    base = n0 - window
    unit = [unit[i:i + 24] for i in range(0, len(unit), 24)]
    pre = [mon.action(mon.LOAD), mon.action(mon.REPEAT, 0, len(unit), reps)] + unit
    dl = [mltl.wpd(f) + int(deadlines) - 1 for f in formulas] if deadlines else None  # True: no slack; n: n - 1 steps of slack
    x = S.job([binary], pre, mon.bool_letters(natoms, letters=letters), D, [len(formulas)], [dl] if dl else None, base=base, order=order)
    vals = list(range(1 << natoms)) if letters is None else list(letters)
    if x.status:
        return dict(kind=x.why, formula=x.formula, time=x.time, history=[pattern, reps], path=[vals[i] for i in x.path if i < len(vals)],
                    err=S.lasterr if x.status in (3, 4, 7) else ""), x
    A = mltl.all_traces(natoms, D, letters)
    hist = (list(pattern) * (window // len(pattern) + 2))[-window:]
    for i in range(len(A)):
        A[i] = (A[i] << np.uint64(window)) | np.uint64(sum(((l >> i) & 1) << t for t, l in enumerate(hist)))
    keep = np.uint64(((1 << 64) - 1) & ~((1 << (window - 8)) - 1))
    for k, f in enumerate(formulas):
        T, F = mltl.ev(f, A, D + window)
        eT, eF = x.leaves[:, k, 0], x.leaves[:, k, 1]
        bad = ((T & eF) | (F & eT)) & keep
        if bad.any():
            i = int(np.nonzero(bad)[0][0]); b = int(bad[i]); t = (b & -b).bit_length() - 1
            return dict(kind="wrong verdict", formula=k, time=base + t, got=bool(int(eT[i]) >> t & 1), expected=bool(int(T[i]) >> t & 1),
                        history=[pattern, reps], path=[vals[d] for d in mltl.digits(i, len(vals), D)]), x
    return None, x


def run_item(it):
    """it: dict(fs, past, na, opts, mode='tree'|'blocks', D, letters, prefix, blocks, mw, variant, deadlines). Compiles the
    formulas with the real compiler and explores the real monitor. Returns (error or None, nodes, leaves)."""
    fs, na = it["fs"], it["na"]
    c = comp.cli(comp.spec_of([mltl.c2po(f) for f in fs], na, it.get("past", False)), map_text=comp.map_of(na), **it.get("opts", {}))
    if not c.ok:
        return dict(kind="not compiled", rc=c.rc, exc=c.exc, err=c.err[-400:], formula=0), 0, 0
    if it.get("mode", "tree") == "tree":
        e, x = explore(c.binary, na, it["D"], fs, variant=it.get("variant", "plain"), letters=it.get("letters"), prefix=it.get("prefix", ()),
                       deadlines=it.get("deadlines", True), order=it.get("order", True))
    elif it["mode"] == "late":
        e, x = explore_late(c.binary, na, it["D"], fs, it["pattern"], it["reps"], letters=it.get("letters"), variant=it.get("variant", "plain"), deadlines=it.get("deadlines", True), order=it.get("order", True))
    else:
        e, x = explore_blocks(c.binary, na, it["blocks"], it["D"], fs, variant=it.get("variant", "plain"), mw=it.get("mw", 4), deadlines=it.get("deadlines", True), order=it.get("order", True))
    return e, x.nodes, x.nleaf


def text(it):
    return [mltl.c2po(f) for f in it["fs"]]


def sweep_all(chk, name, items, kinds, frac=1.0, chunk=8):
    """Runs run_item over items; reports errors whose kind is in `kinds`. Stops when `frac` of the remaining budget is used."""
    import time
    items = list(items)
    end = time.time() + max(5.0, chk.left() * frac)
    done = nodes = leaves = other = 0
    for it, (e, n, l) in pool.run(run_item, items, chunk=chunk, left=lambda: end - time.time()):
        done += 1; nodes += n; leaves += l
        if e is None: continue
        if not any(e["kind"].startswith(k) for k in kinds):
            other += 1
            continue
        f = it["fs"][min(e.get("formula", 0), len(it["fs"]) - 1)]
        key = f"{'pt' if it.get('past') else 'ft'}:{';'.join(text(it))}|{it.get('opts', {})}".replace(" ", "")
        what = f"{e['kind']}: formula {mltl.c2po(f)} in specification {text(it)} options {it.get('opts', {})}"
        if "time" in e: what += f", step {e['time']}"
        if "got" in e: what += f": reported {e['got']}, should be {e['expected']}"
        if "path" in e: what += f", input letters {e['path']}"
        if e.get("err"): what += f" [{e['err'][-200:]}]"
        chk.violation(key, what, dict(item={k: v for k, v in it.items()}, error=e))
        if chk.nviol >= 3: break
    chk.add(states=nodes, transitions=nodes, traces_validated_against_impl=leaves, programs=done)
    chk.cov.setdefault("families", {})[name] = dict(programs=done, of=len(items), exhaustive=done == len(items), transitions=nodes, traces=leaves, set_aside=other)
    if items:
        it = items[len(items) // 2]
        chk.sample(dict(family=name, specification=text(it), mode=it.get("mode", "tree"), depth=it["D"], atoms=it["na"], letters=it.get("letters"),
                        blocks=it.get("blocks"), options=it.get("opts", {})))
    return done == len(items)
