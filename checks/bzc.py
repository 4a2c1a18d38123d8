"""P08, P09: atomic propositions over int, float and Boolean signals; previous values and the step counter."""
import itertools, time
from lib import common, mltl, comp, sweep, mon, pool, bz, families as fam

I0, I1, X0, X1, P0, P1 = ('i', 0), ('i', 1), ('x', 0), ('x', 1), ('p', 0), ('p', 1)
TAU = ('tau',)
KINDS = ("wrong verdict", "verdict late", "crash", "verdict for a formula", "specification rejected", "step returned", "not compiled", "step does not", "verdict not in order")
VALS = {'i': (-7, -2, -1, 0, 1, 3), 'x': (-2.5, -0.75, 0.0, 0.000004, 0.5, 3.0), 'p': (False, True)}
EXTREME = {'i': (-2147483648, -2147483647, -65536, -129, -1, 0, 1, 127, 128, 255, 256, 65535, 65536, 2147483646, 2147483647),
           'x': (-1e300, -1e10, -1.00002, -1.0, -0.999996, -1e-300, 0.0, 1e-6, 0.00002, 0.1, 0.1000004, 0.999996, 1.0, 1.000004, 1.00002, 16777217.0, 1e10, 1e300), 'p': (False, True)}


def ints(k, leaves, pw=(0, 2, 3)):
    """Integer expressions by number of operators 0..k."""
    tab = {0: list(leaves)}
    for n in range(1, k + 1):
        out = [(u, e) for u in ('neg', '~', 'abs') for e in tab[n - 1]]
        for o in ('+', '-', '*', '/', '%') + bz.BIT:
            for a in range(n):
                out += [(o, x, y) for x in tab[a] for y in tab[n - 1 - a] if not (o in '/%' and y[0] == 'ci' and y[1] == 0)]
        out += [('pow', e, ('ci', c)) for e in tab[n - 1] for c in pw]
        tab[n] = out
    return tab


def floats(k, leaves):
    tab = {0: list(leaves)}
    for n in range(1, k + 1):
        out = [(u, e) for u in ('neg', 'abs', 'sqrt') for e in tab[n - 1]]
        for o in ('+', '-', '*', '/'):
            for a in range(n):
                out += [(o, x, y) for x in tab[a] for y in tab[n - 1 - a] if not (o == '/' and y[0] == 'cf' and y[1] == 0)]
        out += [('pow', e, ('cf', c)) for e in tab[n - 1] for c in (2.0, 0.5)]
        tab[n] = out
    return tab


def risky(e):
    """A divisor that is no constant."""
    if e[0] in '/%' and e[2][0] not in ('ci', 'cf') and bz.ty(e) == 'i': return True
    return any(risky(k) for k in bz.kids(e))


def program(it):
    """it: dict(forms, sigs, vals|letters, D, past, full, opts). Compiles all formulas together and explores the monitor."""
    forms, sigs = it["forms"], it["sigs"]
    L = it.get("letters") or bz.product(sigs, it["vals"])
    if not it.get("stateful"):
        ats = []
        for f in forms: bz.split(f, ats)
        if not it.get("overflow"): L = bz.defined(ats, sigs, L)
        if it.get("variant", "").startswith("rust"): L = bz.defined(ats, sigs, L, bz.RustEv)
    if not L: return None, 0, 0
    texts = it.get("texts") or [bz.show(f, it.get("full", True)) for f in forms]
    n1 = len(texts) - it.get("npast", 0)
    first, second = ("PTSPEC\n", "FTSPEC\n") if it.get("past") else ("FTSPEC\n", "PTSPEC\n")
    spec = bz.decl(sigs) + it.get("extra", "") + first + "".join(f"  {t};\n" for t in texts[:n1]) + (second + "".join(f"  {t};\n" for t in texts[n1:]) if n1 < len(texts) else "")
    c = comp.cli(spec, map_text=bz.sig_map(sigs), bz=True, **it.get("opts", {}))
    if not c.ok:
        if it.get("may_refuse") and c.rc not in (0, 99) and not c.exc and "unexpected error" not in c.err + c.out: return None, 0, 0
        return dict(kind="not compiled", rc=c.rc, exc=c.exc, err=(c.err + c.out)[:400], formula=0, spec=spec), 0, 0
    e, x = bz.explore(c.binary, sigs, L, it["D"], forms, prefix=it.get("prefix", 0), variant=it.get("variant", "plain"), overflow=it.get("overflow", False))
    if e: e["spec"] = spec
    return e, x.nodes, x.nleaf


def narrow(it, e):
    """A single formula of the program that fails on its own, for the report."""
    if len(it["forms"]) == 1: return it, e
    for k, f in enumerate(it["forms"]):
        if e["kind"] != "not compiled" and k != e.get("formula"): continue
        one = dict(it, forms=[f])
        if it.get("npast"):
            continue
        if it.get("texts"): one["texts"] = [it["texts"][k]]
        e1 = program(one)[0]
        if e1: return one, e1
    return it, e


def run_narrow(it):
    e, n, l = program(it)
    if e:
        one, e1 = narrow(it, e)
        return dict(e1, text=(one.get("texts") or [bz.show(f, one.get("full", True)) for f in one["forms"]])), n, l
    return e, n, l


def sweep_bz(chk, name, items, frac=1.0, chunk=4):
    items = list(items)
    end = time.time() + max(5.0, chk.left() * frac)
    done = nodes = leaves = forms = 0
    for it, (e, n, l) in pool.run(run_narrow, items, chunk=chunk, left=lambda: end - time.time()):
        done += 1; nodes += n; leaves += l; forms += len(it["forms"])
        if e is None: continue
        if not any(e["kind"].startswith(k) for k in KINDS): continue
        t = e["text"]
        t = t if len(t) < 4 else t[:3] + [f"... ({len(t)} formulas)"]
        key = f"{'pt' if it.get('past') else 'ft'}:{';'.join(t)}|{it.get('extra','')}|{it.get('opts', {})}".replace(" ", "").replace("\n", "")
        what = f"{e['kind']}{' (' + e['what'] + ')' if e.get('what') else ''}: {t} options {it.get('opts', {})}"
        if "time" in e: what += f", step {e['time']}"
        if "got" in e: what += f": reported {e['got']}, should be {e['expected']}"
        if "path" in e: what += f", inputs {e['path']}"
        if e.get("err"): what += f" [{e['err'][-300:]}]"
        if e.get("exc"): what += f" [{e['exc']}]"
        chk.violation(key, what, dict(error=e))
        if chk.nviol >= 3: break
    chk.add(states=nodes, transitions=nodes, traces_validated_against_impl=leaves, programs=done, formulas=forms)
    chk.cov.setdefault("families", {})[name] = dict(programs=done, of=len(items), formulas=forms, exhaustive=done == len(items), transitions=nodes, traces=leaves)
    if items:
        it = items[len(items) // 2]
        chk.sample(dict(family=name, formula=bz.show(it["forms"][0], it.get("full", True)), formulas_in_program=len(it["forms"]), depth=it["D"], past=bool(it.get("past")), options=it.get("opts", {})))


def pack(forms, n, **kw):
    """Programs of n formulas; sets of signals are shared within a program."""
    by = {}
    for f in forms:
        s = tuple(sorted(bz.signals(f)))
        by.setdefault((s, risky(f)), []).append(f)
    out = []
    for (s, r), fs in by.items():
        if not s: continue
        m = 1 if r and kw.get("apart") else n
        for i in range(0, len(fs), m):
            k = len(out)
            d = dict(forms=fs[i:i + m], sigs=list(s), full=k % 2 == 0, past=k % 5 == 4, opts=[dict(), dict(rewrite=False), dict(cse=False), dict(rewrite=False, cse=False)][(k // 2) % 4])
            d.update(kw); d.pop("apart", None)
            out.append(d)
    return out


def rels(a, b, ops=bz.REL):
    return [(o, x, y) for o in ops for x in a for y in b if bz.signals(x) | bz.signals(y)]


def items08(thorough, seed):
    T = thorough
    out = []
    li = [I0, I1, ('ci', 2), ('ci', -3)]
    ti = ints(3 if T else 2, li)
    lf = [X0, X1, ('cf', 1.5), ('cf', -0.25)]
    tf = floats(3 if T else 2, lf)
    cmp0 = [I0, ('ci', 0), ('ci', 1), ('ci', -3)]
    # relations between leaves on extreme values
    ext = rels([I0, I1, ('ci', 2147483647), ('ci', -2147483648), ('ci', 0), ('ci', 65536), ('ci', 255)], [I0, I1, ('ci', 100), ('ci', -1)])
    out.append(("integer relations, extreme values", pack(ext, 20, vals=EXTREME, D=1), 1.0))
    extb = rels([(u, I0) for u in ('~', 'abs', 'neg')] + [(o, I0, y) for o in bz.BIT + ('+', '-', '/', '%') for y in (I1, ('ci', 1), ('ci', 65535))], [I1, ('ci', 0)], ('==', '<', '>='))
    out.append(("one integer operator, extreme values", pack(extb, 1, vals=EXTREME, D=1), 1.0))
    extf = rels([X0, X1, ('cf', 0.1), ('cf', 1.0), ('cf', 16777217.0), ('cf', -1.0)], [X0, X1, ('cf', 0.0), ('cf', 1.0)])
    out.append(("float relations, extreme and nearly equal values", pack(extf, 20, vals=EXTREME, D=1), 1.0))
    extg = rels([(u, X0) for u in ('abs', 'neg')] + [(o, X0, y) for o in ('+', '-', '*', '/') for y in (X1, ('cf', 0.1))], [X1, ('cf', 0.1)], ('==', '<', '>='))
    out.append(("one float operator, extreme values", pack(extg, 5, vals=EXTREME, D=1), 1.0))
    one = rels(ti[1], cmp0 + [I1]) + rels(cmp0, ti[1])
    out.append(("integer expressions with 1 operator", pack(one, 20, vals=VALS, D=2), 1.0))
    onef = rels(tf[1], [X0, X1, ('cf', 0.5)]) + rels([X1, ('cf', 0.0)], tf[1])
    out.append(("float expressions with 1 operator", pack(onef, 20, vals=VALS, D=2), 1.0))
    bools = [P0, P1, ('cb', True), ('cb', False)]
    relb = rels([I0, I1], [I1, ('ci', 0)]) + rels([X0], [X1, ('cf', 0.5)])
    mixed = [(o, x, y) for o in ('==', '!=') for x in relb + [P0] for y in relb[::3] + [P0, P1] if x != y]
    logic = [(o, x, y) for o in bz.LOG for x in relb + [P0, ('!', P1)] for y in relb[1::4] + [P0, ('!', relb[0])] if x != y]
    temporal = [('F', 0, 1, x) for x in relb] + [('U', 0, 2, x, y) for x in relb[::2] for y in relb[1::3] + [P0]] + [('&&', ('G', 1, 1, x), y) for x in relb[::3] for y in relb[1::3]]
    small = {'i': (-1, 0, 2), 'x': (0.0, 0.5, 3.0), 'p': (False, True)}
    out.append(("Boolean results compared", pack(mixed, 12, vals=small, D=1) + pack([(o, p, b) for o in ('==', '!=') for p in (P0, relb[0]) for b in bools[2:]], 1, vals=small, D=1, opts=dict(rewrite=False)), 1.0))
    out.append(("Boolean connectives over relations", pack(logic, 12, vals=small, D=2), 1.0))
    tw = {'i': (-1, 2), 'x': (0.5, 3.0), 'p': (False, True)}
    ft = [dict(d, past=False, D=3) for d in pack(temporal, 8, vals=tw, D=3)]
    pt = []
    for d in ft:
        sw = {'F': 'O', 'U': 'S', 'G': 'H'}
        pf = lambda f: (sw.get(f[0], f[0]),) + tuple(pf(k) if isinstance(k, tuple) else k for k in f[1:]) if f[0] in sw or f[0] == '&&' else f
        pt.append(dict(d, past=True, forms=[pf(f) for f in d["forms"]]))
    out.append(("relations below temporal operators", ft + pt, 1.0))
    two = rels(ti[2], [I1, ('ci', 1)], ('==', '<', '>=') if not T else bz.REL)
    two += rels(ti[1], ti[1], ('==', '<') if not T else bz.REL)
    two = two if T else fam.take(two, 24000, seed)
    out.append(("integer expressions with 2 operators", pack(two, 20, vals={'i': (-7, -1, 0, 2, 3)}, D=1), 0.5))
    twof = rels(tf[2], [X1, ('cf', 0.5)], ('==', '<', '>='))
    twof = twof if T else fam.take(twof, 8000, seed)
    out.append(("float expressions with 2 operators", pack(twof, 16, vals={'x': (-2.5, 0.0, 0.5, 3.0)}, D=1), 0.5))
    if T:
        three = fam.take(rels(ti[3], [('ci', 1)], ('==', '<')), 120000, seed)
        out.append(("integer expressions with 3 operators (every n-th)", pack(three, 16, vals={'i': (-7, -1, 0, 2, 3)}, D=1), 0.7))
        three = fam.take(rels(tf[3], [('cf', 0.5)], ('==', '<')), 60000, seed)
        out.append(("float expressions with 3 operators (every n-th)", pack(three, 16, vals={'x': (-2.5, 0.0, 0.5, 3.0)}, D=1), 1.0))
    return out


def atomics(chk):
    sweep.prepare()
    chk.assumptions = ["Inputs on which C leaves an expression undefined (integer overflow, division by zero) are left out of the alphabet.",
                       "Float equality is within R2U2_FLOAT_EPSILON as documented; values whose difference is close to it are not used.",
                       "Signals range over the listed small and extreme values; every combination is explored."]
    for name, its, frac in items08(common.THOROUGH, common.SEED):
        if chk.nviol >= 3: break
        sweep_bz(chk, name, its, frac)
    return chk.finish()


def past_of(f):
    sw = {'F': 'O', 'U': 'S', 'G': 'H', 'R': 'T'}
    if f[0] in sw or f[0] in bz.LOG or f[0] == '!': return (sw.get(f[0], f[0]),) + tuple(past_of(k) if isinstance(k, tuple) else k for k in f[1:])
    return f


def items09(thorough, seed):
    T = thorough
    out = []
    cI = [('ci', c) for c in ((-2, 0, 1, 2) if T else (-2, 0, 1))]
    li = [I0, I1, ('ci', 1)]
    inner = [I0] + [e for e in ints(1, [I0, I1, ('ci', 2)], pw=(2,))[1] if bz.signals(e) and not risky(e)][::(1 if T else 3)] + [TAU, ('+', TAU, I0), ('-', ('ci', 1), TAU), ('%', TAU, ('ci', 2))]
    prevs = [('prev', c, e) for c in cI for e in inner]
    ctx = [('==', p, I0) for p in prevs] + [('<', ('+', p, I0), ('ci', 1)) for p in prevs] + [('>=', ('abs', ('-', I1, p)), ('neg', p)) for p in prevs]
    ctx += [('!=', ('prev', ('ci', 0), I0), ('prev', c, e)) for c in cI for e in inner] + [('<=', p, ('prev', ('ci', 1), I1)) for p in prevs] + [('==', p, TAU) for p in prevs]
    vI = {'i': (-2, 0, 1), 'x': (-0.5, 1.0), 'p': (False, True)}
    two = {'i': (-2, 1), 'x': (-0.5, 1.0), 'p': (False, True)}
    out.append(("previous values of integer expressions", pack(ctx, 8, vals=two, D=5, stateful=True) + pack(ctx[::3], 1, vals=vI, D=3, stateful=True), 1.0))
    cF = [('cf', c) for c in (-0.5, 0.0, 2.5)]
    finner = [X0, X1, ('+', X0, X1), ('neg', X0), ('*', X0, ('cf', 2.0)), ('abs', X1), ('/', X0, X1), ('-', X1, X0)]
    fp = [('prev', c, e) for c in cF for e in finner]
    fctx = [('==', p, X0) for p in fp] + [('<', ('-', p, X0), ('cf', 0.25)) for p in fp] + [('>', p, ('prev', ('cf', 1.0), X0)) for p in fp]
    out.append(("previous values of float expressions", pack(fctx, 8, vals=two, D=5, stateful=True), 1.0))
    cB = [('cb', True), ('cb', False)]
    binner = [P0, ('>', I0, ('ci', 0)), ('==', P0, ('>', I0, ('ci', 0))), ('!=', P0, P1), ('==', I0, TAU), ('<', X0, X1)]
    bp = [('prev', c, e) for c in cB for e in binner]
    bctx = bp + [('!', p) for p in bp] + [(o, p, q) for o in ('&&', 'xor', '->') for p in bp for q in (P0, ('prev', ('cb', True), P1), bp[3]) if p != q] + [('==', p, q) for p in bp for q in (P0, P1)] + [('!=', p, ('>', I0, ('ci', 0))) for p in bp]
    out.append(("previous values of Boolean expressions", pack(bctx, 8, vals=two, D=5, stateful=True) + pack(bctx, 1, vals=two, D=4, stateful=True, opts=dict(rewrite=False, cse=False)), 1.0))
    tau = [(o, e, c) for o in bz.REL for e in (TAU, ('%', TAU, ('ci', 3)), ('*', TAU, I0), ('-', I0, TAU), ('pow', ('ci', 2), TAU), ('abs', ('-', TAU, ('ci', 2)))) for c in (('ci', 0), ('ci', 2), ('ci', 3), I0, TAU, ('+', TAU, I0)) if e != c]
    tau = [('&&', f, ('>=', I0, ('ci', -9))) if not bz.signals(f) else f for f in tau]
    out.append(("the step counter", pack(tau, 8, vals=vI, D=5, stateful=True), 1.0))
    late = [('==', TAU, ('+', I0, ('ci', n))) for n in (254, 255, 256, 257, 65535, 65536)] + [('<', ('prev', ('ci', 7), TAU), ('+', ('ci', n), I0)) for n in (255, 256, 65536)] + [('==', ('prev', ('ci', 1), I0), I0)]
    out.append(("the step counter late in a run", [dict(forms=[f], sigs=[I0], letters=[(-1,), (0,), (1,), (2,)], D=4, prefix=n, stateful=True, past=b) for f in late for n in (253, 65533) for b in (False, True)], 1.0))
    stem = [('==', ('prev', ('ci', 0), I0), I0), ('prev', ('cb', False), P0), ('<', TAU, ('+', I0, ('ci', 2))), ('>', ('prev', ('ci', 1), ('+', I0, TAU)), ('ci', 1)), ('!=', P0, ('prev', ('cb', True), P0))]
    temp = []
    for a in stem:
        temp += [('F', 0, 1, a), ('G', 1, 2, a), ('!', ('F', 1, 1, a))]
        for b in stem + [P0]:
            if a != b: temp += [('U', 0, 2, a, b), ('R', 1, 2, a, b), ('&&', ('F', 0, 1, a), b), ('<->', ('G', 0, 2, a), ('F', 1, 1, b))]
    w = {'i': (0, 1), 'p': (False, True)}
    its = pack(temp, 5, vals=w, D=4, stateful=True, past=False)
    out.append(("below temporal operators", its + [dict(d, forms=[past_of(f) for f in d["forms"]], past=True) for d in its], 1.0))
    both = []
    for a in stem:
        for b in stem:
            for f in (a, ('F', 0, 1, a)):
                for g in (b, ('O', 0, 1, b)):
                    s = sorted(bz.signals(f) | bz.signals(g))
                    both.append(dict(forms=[f, g], npast=1, sigs=s, vals=w, D=4, stateful=True, opts=fam.default_opts(len(both))))
                    both.append(dict(forms=[g, f], npast=1, past=True, sigs=s, vals=w, D=4, stateful=True, opts=fam.default_opts(len(both))))
    out.append(("in a future-time and a past-time section", both, 1.0))
    # the same expressions through definitions, used several times
    dfs = []
    for k, e in enumerate([('prev', ('ci', 0), I0), ('prev', ('ci', 1), ('+', I0, ('ci', 1))), ('+', ('prev', ('ci', 0), I0), I0), ('+', TAU, I0), ('prev', ('ci', 3), TAU), I0, ('+', I0, ('ci', 1))]):
        n = ('name', 'd')
        uses = [lambda d: ('==', d, I0), lambda d: ('<', ('+', d, d), ('ci', 2)), lambda d: ('F', 0, 1, ('>', d, I0)), lambda d: ('==', ('prev', ('ci', 1), d), I0), lambda d: ('<', ('prev', ('ci', 0), d), d),
                lambda d: ('!=', ('prev', ('ci', 0), ('+', d, ('ci', 1))), ('prev', ('ci', 2), d))]
        for i, u in enumerate(uses):
            for v in uses[i:]:
                f, g = u(e), v(e)
                pf, pg = past_of(f), past_of(g)
                extra = f"DEFINE\n  d := {bz.show(e)};\n"
                for opts in (dict(), dict(rewrite=False, cse=False)):
                    nest = any(bz.nested_prev(x) for x in (f, g))
                    base = dict(sigs=[I0], vals=vI, D=4, stateful=True, extra=extra, opts=opts, may_refuse=nest)
                    dfs.append(dict(base, forms=[f, g], texts=[bz.show(u(n)), bz.show(v(n))]))
                    dfs.append(dict(base, forms=[f, pg], npast=1, texts=[bz.show(u(n)), bz.show(past_of(v(n)))]))
                    dfs.append(dict(base, forms=[pf, pg], past=True, texts=[bz.show(past_of(u(n))), bz.show(past_of(v(n)))]))
    out.append(("through definitions", dfs, 1.0))
    return out


def previous(chk):
    sweep.prepare()
    chk.assumptions = ["Inputs on which C leaves an expression undefined do not occur in the listed value ranges.",
                       "A specification the compiler refuses with an error (nested prev through a definition) is not explored."]
    for name, its, frac in items09(common.THOROUGH, common.SEED):
        if chk.nviol >= 3: break
        sweep_bz(chk, name, its, frac)
    return chk.finish()
