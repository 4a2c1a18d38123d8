"""P05, P06: the same formula through different option sets / transformation commands, every resulting program explored."""
import itertools, time
from lib import common, mltl, comp, sweep, mon, pool, families as fam

A, B = fam.A, fam.B
KINDS = ("wrong verdict", "verdict late", "crash", "verdict for a formula", "specification rejected", "step returned", "not compiled", "step does not", "verdict not in order", "formula lost")


def constant_reject(c):
    return c.rc != 0 and not c.exc and "constant formula" in (c.err + c.out)


def letters_for(it, bz, ids):
    if not bz: return None
    return None


def run_variants(it):
    """Compiles every variant of it['variants'] (option dicts or command lists), explores every distinct binary.
    Returns (list of (variant, error), programs, distinct, nodes, leaves, rejected)."""
    fs, na, past = it["fs"], it["na"], it.get("past", False)
    texts = it.get("texts") or [mltl.c2po(f) for f in fs]
    text = comp.spec_of(texts, na, past)
    errs, nodes, leaves, rej, progs = [], 0, 0, 0, {}
    for v in it["variants"]:
        if isinstance(v, dict):
            c = comp.cli(text, map_text=comp.map_of(na), **v)
        else:
            (comp.tmpdir() / "out.bin").unlink(missing_ok=True)
            c = comp.script(["parse_c2po {d}/s.c2po", "parse_map {d}/s.map", "type_check", "desugar", *v, "multi_operators_to_binary", "remove_extended_operators",
                             "assemble {d}/out.bin"], {"s.c2po": text, "s.map": comp.map_of(na)})
        if not c.ok:
            if constant_reject(c): rej += 1
            elif not isinstance(v, dict) and refused(c): rej += 1
            else: errs.append((v, dict(kind="not compiled", rc=c.rc, exc=c.exc, err=c.err[-300:], formula=0)))
            continue
        bz = isinstance(v, dict) and bool(v.get("bz"))
        progs.setdefault((c.binary, bz), v)
    for (b, bz), v in progs.items():
        if it.get("mode") == "blocks":
            e, x = sweep.explore_blocks(b, na, it["blocks"], it["D"], fs, mw=it.get("mw", 4))
        else:
            e, x = sweep.explore(b, na, it["D"], fs, letters=it.get("letters"), prefix=it.get("prefix", ()))
        nodes += x.nodes; leaves += x.nleaf
        if e and e["kind"] == "wrong verdict" and it.get("alt") and applies(it["alt"][0], v):
            # is it exactly the known wrong meaning?
            e2, _ = sweep.explore(b, na, it["D"], fs, letters=it.get("letters"), oracle=[it["alt"][1]], deadlines=False)
            if e2 is None: e["known"] = it["alt"][0]
        if e: errs.append((v, e))
        if errs: break
    return errs, len(it["variants"]), len(progs), nodes, leaves, rej


def applies(site, v):
    return v == ["to_nnf"] if site.startswith("to_nnf") else isinstance(v, dict) and bool(v.get("rewrite"))


def nnf_as_is(f, neg=False):
    """What to_nnf makes of f, with its wrong rule for a negated xor."""
    op = f[0]
    if op == '!': return nnf_as_is(f[1], not neg)
    if op == '^':
        x, y, nx, ny = nnf_as_is(f[1]), nnf_as_is(f[2]), nnf_as_is(f[1], True), nnf_as_is(f[2], True)
        return ('&', ('&', nx, y), ('&', x, ny)) if neg else ('|', ('&', x, ny), ('&', nx, y))
    if op == '<->' and neg:
        return ('|', ('&', nnf_as_is(f[1]), nnf_as_is(f[2], True)), ('&', nnf_as_is(f[1], True), nnf_as_is(f[2])))
    if op == '->': return nnf_as_is(('|', ('!', f[1]), f[2]), neg)
    if op in ('O', 'H', 'S', 'T') and neg: return ('!', nnf_as_is(f))
    k = [nnf_as_is(x, neg and op != '<->') for x in mltl.kids(f)]
    if not k: return ('!', f) if neg else f
    dual = {'&': '|', '|': '&', 'F': 'G', 'G': 'F', 'U': 'R', 'R': 'U'}
    return ((dual[op] if neg else op),) + tuple(x for x in f[1:] if not isinstance(x, tuple)) + tuple(k)


def neg_xor(f, neg=False):
    """Does negation normal form meet a negated xor in f?"""
    op = f[0]
    if op == '^' and neg: return True
    if op == '!': return neg_xor(f[1], not neg)
    if op == '->': return neg_xor(f[1], not neg) or neg_xor(f[2], neg)
    if op in ('^',) or (op == '<->' and neg): return any(neg_xor(k, n) for k in mltl.kids(f) for n in (False, True))
    if op in ('O', 'H', 'S', 'T'): return any(neg_xor(k) for k in mltl.kids(f))
    return any(neg_xor(k, neg) for k in mltl.kids(f))


def xor_shared(f, below=False):
    """A xor below a xor or an equivalence: to_nnf shares that operand between both polarities."""
    return (f[0] == '^' and below) or any(xor_shared(k, below or f[0] in ('^', '<->')) for k in mltl.kids(f))


def refused(c):
    """A command that says it cannot handle the specification (and fails) has not changed its meaning."""
    return c.rc not in (0, 99) and not c.exc and "unexpected error" not in c.err + c.out and ("not supported" in c.err + c.out or "guard condition" in c.err + c.out)


def sweep_variants(chk, name, items, frac=1.0, chunk=4):
    items = list(items)
    end = time.time() + max(5.0, chk.left() * frac)
    done = var = dist = nodes = leaves = rej = 0
    for it, (errs, nv, nd, n, l, r) in pool.run(run_variants, items, chunk=chunk, left=lambda: end - time.time()):
        done += 1; var += nv; dist += nd; nodes += n; leaves += l; rej += r
        for v, e in errs:
            if not any(e["kind"].startswith(k) for k in KINDS): continue
            t = ";".join(it.get("texts") or [mltl.c2po(f) for f in it["fs"]])
            key = e.get("known") or f"{'pt' if it.get('past') else 'ft'}:{t}|{v}".replace(" ", "")
            what = f"{e['kind']}: {t} after {v}"
            if "time" in e: what += f", step {e['time']}"
            if "got" in e: what += f": reported {e['got']}, should be {e['expected']}"
            if "path" in e: what += f", input letters {e['path']}"
            if e.get("err"): what += f" [{e['err'][-200:]}]"
            if e.get("exc"): what += f" [{e['exc'][-200:]}]"
            chk.violation(key, what, dict(item=it, variant=v, error=e))
            break
        if chk.nviol >= 3: break
    chk.add(states=nodes, transitions=nodes, traces_validated_against_impl=leaves, compilations=var, programs=dist)
    chk.cov.setdefault("families", {})[name] = dict(formulas=done, of=len(items), exhaustive=done == len(items), compilations=var, distinct_programs=dist,
                                                    transitions=nodes, traces=leaves, refused=rej)
    if items:
        it = items[len(items) // 2]
        chk.sample(dict(family=name, formula=it.get("texts") or [mltl.c2po(f) for f in it["fs"]], variants=len(it["variants"]), one_variant=it["variants"][-1]))


def combos(full=False):
    out = [dict(rewrite=r, cse=c, extops=e) for r in (False, True) for c in (False, True) for e in (False, True)]
    if full: out = [dict(o, aux=a, scq=s, bz=b) for o in out for a in (True, False) for s in (0, 1, 7) for b in (False, True)]
    return out


IVS = [(l, u) for l in range(3) for u in range(l, 4)]


def redexes(past):
    """Every shape a rewrite rule or CSE can act on, over all intervals up to 3."""
    o1, o2, u, r = ('O', 'H', 'S', 'T') if past else ('F', 'G', 'U', 'R')
    out = []
    for i in IVS:
        for j in IVS:
            for o, p in itertools.product((o1, o2), repeat=2):
                out.append((o, *i, (p, *j, A)))
                for b in ('&', '|'):
                    out += [(b, (o, *i, A), (p, *j, A)), (b, (o, *i, A), (p, *j, B))]
            for b in ('&', '|'):
                for o, p in itertools.product((u, r), repeat=2):
                    out += [(b, (o, *i, A, B), (p, *j, A, B)), (b, (o, *i, A, B), (p, *j, B, A))]
                out.append((b, (u, *i, A, B), (u, *j, ('!', A), B)))
        for o in (o1, o2):
            for x in (('tt',), ('ff',), ('!', A), ('!', ('!', A)), ('!', ('tt',)), ('&', A, ('tt',)), ('|', A, ('ff',))):
                f = (o, *i, x)
                out += [('!', f), ('!', ('!', f)), ('&', f, A), ('|', f, A), ('!', ('&', f, B))]
        out += [(u, *i, x, y) for x in (A, ('tt',), ('ff',)) for y in (B, ('tt',), ('ff',), ('!', ('ff',))) if (x, y) != (A, B)]
    return [f for f in out if mltl.atoms(f)]


IV4 = [(l, u) for l in range(5) for u in range(l, 5)]


def rules(past):
    """The left sides of rewrite rules for every pair of intervals up to 4: (formulas over one atom, over several)."""
    o1, o2, u, r = ('O', 'H', 'S', 'T') if past else ('F', 'G', 'U', 'R')
    one, two = [], []
    for i in IV4:
        for j in IV4:
            one += [(o, *i, (p, *j, A)) for o in (o1, o2) for p in (o1, o2)]
            one += [(b, (o, *i, A), (p, *j, A)) for b in '&|' for o, p in ((o1, o1), (o2, o2), (o1, o2))]
            two += [('&', (o2, *i, A), (o2, *j, B)), ('|', (o1, *i, A), (o1, *j, B)), ('&', (u, *i, A, B), (u, *j, ('!', A), B)), ('&', (u, *i, A, B), (u, *j, B, A))]
        one += [('!', (o, *i, ('!', A))) for o in (o1, o2)] + [(o, *i, x) for o in (o1, o2) for x in (('!', ('!', A)), ('&', A, ('tt',)), ('|', ('ff',), A))]
    return one, two


def shared(past):
    """Several formulas with common subformulas."""
    L = fam.library(past, [(0, 1), (1, 2)])
    return [[x, (t, x, y)] if k % 2 else [(t, y, x), ('!', x), x] for k, (x, y, t) in enumerate(
        (x, y, t) for x in L for y in L for t in ('&', '|', '<->') if x != y and (mltl.atoms(x) | mltl.atoms(y)))]


def options(chk):
    T = common.THOROUGH
    sweep.prepare()
    chk.assumptions = ["Each distinct binary is explored on the complete tree of input traces to the stated depth; letters are Boolean valuations of the atoms.",
                       "A formula that an option turns into a constant may be refused with an error (constant formulas are not supported)."]
    S = common.SEED
    for past in (False, True):
        s = "past" if past else "future"
        def it(f, D, **k):
            fs = f if isinstance(f, list) else [f]
            return dict(fs=fs, past=past, na=fam.na_of(fs), D=D if fam.na_of(fs) > 1 else min(2 * D, 12), **k)
        small = [f for k in (1, 2) for f in fam.small(past, k, [(0, 1), (1, 2)], leaves=(A, B, ('tt',)) if k == 1 else (A, B), bools=('&', '|', '<->', '->', '^')) if mltl.atoms(f)]
        every = fam.take(small, 4000 if T else 48, S)
        sweep_variants(chk, f"all option combinations, {s}", [it(f, 5, variants=combos(True)) for f in every], 0.3, 1)
        one, two = rules(past)
        rw = [dict(rewrite=True)]
        sweep_variants(chk, f"rewrite rules on one atom, all intervals up to 4, {s}", [dict(fs=[f], past=past, na=1, D=min(mltl.wpd(f), 8) + 3 if not past else 9, variants=rw) for f in one], 0.4, 8)
        two = two if T else fam.take(two, 600, S)
        sweep_variants(chk, f"rewrite rules on two atoms, all intervals up to 4, {s}", [dict(fs=[f], past=past, na=2, D=7 if T else 6, variants=rw) for f in two], 0.4, 4)
        red = redexes(past)
        red = red if T else fam.take(red, 1300, S)
        sweep_variants(chk, f"rewrite and CSE shapes, {s}", [it(f, 6 if T else 5, variants=combos()) for f in red], 0.4)
        sh = shared(past)
        sh = sh if T else fam.take(sh, 450, S)
        sweep_variants(chk, f"shared subformulas, {s}", [it(f, 5, variants=combos()) for f in sh], 0.4)
        th = fam.small(past, 3, [(0, 1), (1, 2)], leaves=(A, B))
        th = fam.take(th, 20000 if T else 600, S)
        sweep_variants(chk, f"3 operators, {s}", [it(f, 5, variants=combos()) for f in th], 0.5)
        bg = fam.big(past) if T else fam.take(fam.big(past), 40, S)
        sweep_variants(chk, f"wide intervals, {s}", [dict(fs=[f], past=past, na=2, D=3, mode="blocks", blocks=fam.BLOCKS2[i % 3], mw=6,
                                                         variants=combos()[::-1 if i % 2 else 1]) for i, f in enumerate(bg)], 0.5)
        if chk.nviol: break
    if not chk.nviol: special(chk, T)
    return chk.finish()


def special(chk, T):
    """Comparisons with Boolean constants, n-ary connectives written without parentheses, mission time bounds."""
    E = []
    for p, q in ((A, "a0"),):
        for k, g in (("true", lambda x: x), ("false", lambda x: ('!', x))):
            for op, h in (("==", g), ("!=", lambda x, g=g: ('!', g(x)))):
                E += [(f"(({q} {op} {k}) || (G[0,2] a1))", ('|', h(p), ('G', 0, 2, B))), (f"(({k} {op} {q}) && a1)", ('&', h(p), B))]
    for n in (3, 4, 5, 6):
        for op, o in (("&&", '&'), ("||", '|')):
            ts = ["a0", "(F[0,1] a1)", "(a0 U[1,2] a1)", "!a1", "(G[0,1] a0)", "a1"]
            xs = [A, ('F', 0, 1, B), ('U', 1, 2, A, B), ('!', B), ('G', 0, 1, A), B]
            for rot in range(6):
                idx = [(rot + i) % 6 for i in range(n)]
                f = xs[idx[0]]
                for i in idx[1:]: f = (o, f, xs[i])
                E.append((f" {op} ".join(ts[i] for i in idx), f))
    its = [dict(fs=[f], texts=[t], past=False, na=2, D=5, variants=combos()) for t, f in E if not ("==" in t or "!=" in t)]
    sweep_variants(chk, "n-ary connectives", its, 0.5)
    # == between Boolean expressions needs the booleanizer when its operands are signals
    its = []
    for t, f in E:
        if not ("==" in t or "!=" in t): continue
        k = dict(fs=[f], texts=[t], past=False, na=2, D=5, variants=[dict(o, bz=True) for o in combos()])
        if "== false" in t or "false ==" in t: k["alt"] = ("optimize_rewrites:p==false", (f[0], A, f[2]))
        its.append(k)
    sweep_variants(chk, "comparison with Boolean constants", its, 0.5)


CMDS = ["to_nnf", "to_bnf", "remove_release_operators", "remove_extended_operators", "flatten_multi_operators", "multi_operators_to_binary",
        "sort_operands_by_pd", "optimize_rewrites", "optimize_cse"]


def transforms(chk):
    T = common.THOROUGH
    sweep.prepare()
    chk.assumptions = ["Sequences of transformation commands are enumerated exhaustively up to the stated length; the result is compiled and explored on complete input trees."]
    S = common.SEED
    one = [[c] for c in CMDS]
    two = [[a, b] for a in CMDS for b in CMDS]
    three = [list(x) for x in itertools.product(CMDS, repeat=3)]
    for past in (False, True):
        s = "past" if past else "future"
        def it(f, D, v):
            d = dict(fs=[f], past=past, na=fam.na_of([f]), D=D if fam.na_of([f]) > 1 else min(2 * D, 12), variants=v)
            if neg_xor(f):  # to_nnf is known to be wrong here: only alone, against exactly that wrong meaning
                d["variants"] = [x for x in v if (x == ["to_nnf"] and not xor_shared(f)) or "to_nnf" not in x]
                d["alt"] = ("to_nnf:!(pxorq)", nnf_as_is(f))
            return d
        B5 = ('&', '|', '<->', '->', '^')
        s1 = [f for f in fam.small(past, 1, [(0, 0), (0, 2), (1, 2), (2, 2)], leaves=(A, B), bools=B5)]
        sweep_variants(chk, f"single operators, sequences of length 3, {s}", [it(f, 5, three[i % 9::9] if not T else three) for i, f in enumerate(s1)], 0.3, 1)
        s2 = fam.small(past, 2, [(0, 2), (1, 2)], leaves=(A, B), bools=B5)
        sweep_variants(chk, f"2 operators, single commands, {s}", [it(f, 5, one) for f in (s2 if T else fam.take(s2, 700, S))], 0.4)
        sweep_variants(chk, f"2 operators, sequences of length 2, {s}", [it(f, 5, two) for f in fam.take(s2, 20000 if T else 60, S)], 0.4, 1)
        s3 = fam.small(past, 3, [(0, 1)], leaves=(A, B), bools=B5)
        sweep_variants(chk, f"3 operators, single commands, {s}", [it(f, 5, one) for f in fam.take(s3, 20000 if T else 500, S)], 0.5)
        neg = [('!', f) for f in s2]
        sweep_variants(chk, f"negated, single commands, {s}", [it(f, 5, one) for f in fam.take(neg, 20000 if T else 400, S)], 0.5)
        if chk.nviol: break
    E = []
    for n in (3, 4, 5, 6, 7):
        for op, o in (("&&", '&'), ("||", '|')):
            ts = ["a0", "(F[0,1] a1)", "(a0 U[1,2] a1)", "!a1", "(G[0,1] a0)", "a1", "(a0 xor a1)"]
            xs = [A, ('F', 0, 1, B), ('U', 1, 2, A, B), ('!', B), ('G', 0, 1, A), B, ('^', A, B)]
            for rot in range(7):
                idx = [(rot + i) % 7 for i in range(n)]
                f = xs[idx[0]]
                for i in idx[1:]: f = (o, f, xs[i])
                t = f" {op} ".join(ts[i] for i in idx)
                E += [(t, f)] + ([(f"!({t})", ('!', f))] if not neg_xor(('!', f)) else [])
    fl = [["flatten_multi_operators", c] for c in CMDS] + [["flatten_multi_operators", c, d] for c in CMDS for d in CMDS]
    if not chk.nviol:
        sweep_variants(chk, "n-ary connectives, flattened", [dict(fs=[f], texts=[t], past=False, na=2, D=5, variants=fl if T else fl[i % 4::4] + fl[:9]) for i, (t, f) in enumerate(E)], 0.6, 1)
    return chk.finish()
