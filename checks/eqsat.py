"""P33: equality saturation. The external egglog is replaced by a model of it: the program the compiler writes is read, its
rewrite rules are applied to its root term in every way up to a number of steps, and every term reached is given back to the
real compiler by a stand-in executable; the resulting programs are explored on complete input trees of the real monitor."""
import itertools, os, pathlib, shutil, stat, time
from lib import common, mltl, comp, sweep, mon, pool, bz, egg, families as fam

A, B, C_ = fam.A, fam.B, fam.C_
BIN = """#!/bin/sh
d=${0%/*}
case "$1" in -*) exit 0;; esac
n=0; read n < "$d/n"; n=$((n+1)); echo $n > "$d/n"
cp "$1" "$d/prog.$n"
[ -f "$d/fault" ] && . "$d/fault"
[ -f "$d/answer.$n" ] || exit 1
printf '%s' '{"nodes":{"n0":{"op":"Var","children":[],"eclass":"MLTL-0","cost":1.0}},"root_eclasses":[],"class_data":{"MLTL-0":{"type":"MLTL"}}}' > "${1%.egg}.json"
[ -f "$d/late" ] && . "$d/late"
exec cat "$d/answer.$n"
"""


def stand_in():
    d = comp.tmpdir() / "egg"
    if not d.exists():
        d.mkdir()
        b = d / "egglog-experimental"
        b.write_text(BIN); b.chmod(0o755)
    return d


def compile_(text, map_text, answers, opts=None, eq=None, fault=None, late=None, raw=None, how="option"):
    """Compiles with equality saturation; answers: what egglog prints for the 1st, 2nd, ... formula (None: it fails).
    Returns (Out, the programs egglog was given)."""
    d = stand_in()
    for f in d.iterdir():
        if f.name != "egglog-experimental": f.unlink()
    (d / "n").write_text("0\n")
    for k, a in enumerate(answers):
        if a is not None: (d / f"answer.{k + 1}").write_text(a)
    if fault: (d / "fault").write_text(fault)
    if late: (d / "late").write_text(late)
    q = dict(time=30, smt_time=60); q.update(eq or {})
    path = os.environ.get("PATH", "")
    if how == "option": q["path"] = str(d / "egglog-experimental")
    elif how == "PATH": os.environ["PATH"] = f"{d}:{path}"
    try: c = comp.cli(text, map_text=map_text, eq=q, **(opts or {}))
    finally: os.environ["PATH"] = path
    progs = [(d / f"prog.{k}").read_text() for k in range(1, int((d / "n").read_text()) + 1)]
    return c, progs


def closure(root, rules, steps, cap):
    """Terms reachable from root with at most `steps` rule applications (breadth first), the transitions, and whether it is complete."""
    seen, level, trans = {root: 0}, [root], 0
    for s in range(steps):
        nxt = []
        for t in level:
            for k, u in egg.successors(t, rules):
                trans += 1
                if u in seen: continue
                if len(seen) >= cap: return list(seen), trans, False
                seen[u] = s + 1; nxt.append(u)
        level = nxt
        if not level: break
    return list(seen), trans, True


def perm(f, p): return ('a', p[f[1]]) if f[0] == 'a' else tuple(perm(x, p) if isinstance(x, tuple) else x for x in f)


def refusal(c):
    """A refusal that is an answer: the optimised formula is a constant."""
    return c.rc != 0 and not c.exc and "constant formula" in c.out + c.err


_seen = {}


def judge(binary, na, D, answers, originals, order=True):
    return sweep.explore(binary, na, D, answers, oracle=originals)


def numbers(name):
    if not name.startswith("a") or not name[1:].isdigit(): raise egg.IllFormed(f"name {name}")
    return int(name[1:])


def one(it):
    """it: fs, na, D, steps, cap; optional texts, perm (signal numbers), opts, eq, how. Returns (error, nodes, leaves, states, transitions)."""
    fs, na, D = it["fs"], it["na"], it["D"]
    p = it.get("perm") or list(range(na))
    nft = it.get("nft", len(fs))
    if it.get("lang") == "mltl": text = "".join(mltl.mltlstd(f) + "\n" for f in fs)
    else: text = it.get("spec") or comp.spec_of(it.get("texts") or [mltl.c2po(f) for f in fs[:nft]], na, names=it.get("names"), extra=it.get("extra", ""))
    if nft < len(fs): text += "PTSPEC\n" + "".join(f"  {mltl.c2po(f)};\n" for f in fs[nft:])
    mp = "".join(f"a{i}:{p[i]}\n" for i in range(na))
    want = [perm(f, p) for f in fs]
    o = dict(opts=dict(it.get("opts") or {}, **(dict(kind="mltl") if it.get("lang") else {})), eq=it.get("eq"), how=it.get("how", "option"))
    if it.get("lang"): mp = None
    nodes = leaves = states = trans = 0
    done = set()
    R = lambda e: (e, nodes, leaves, states, trans)

    def check(c, ans, what):
        nonlocal nodes, leaves
        if not c.ok:
            if refusal(c) and any(f[0] in ('tt', 'ff') for f in ans): return None
            return dict(kind=f"not compiled {what}", rc=c.rc, exc=c.exc, err=(c.err + c.out)[-400:])
        key = (c.binary, tuple(mltl.wpd(f) for f in ans))
        if key in done: return None
        done.add(key)
        e, x = judge(c.binary, na, D, ans, want)
        nodes += x.nodes; leaves += x.nleaf
        if e: e["kind"] = f"{e['kind']} {what}"
        return e
    # without an answer, the formulas are monitored as they are
    c, progs = compile_(text, mp, [], **o)
    e = check(c, want, "when egglog fails")
    if e: return R(e)
    if len(progs) != nft: return R(dict(kind="number of egglog programs", got=len(progs), expected=nft))
    terms, models = [], []
    for k, g in enumerate(progs):
        try: m = egg.program(g)
        except egg.Rejected as r:
            if it.get("may_reject"): return R(None)
            return R(dict(kind="egglog would reject the program", err=str(r), formula=k))
        try: f = egg.formula(m["root"], numbers)
        except egg.IllFormed as r: return R(dict(kind="program of no formula", err=str(r), formula=k))
        d = egg.differ(f, want[k], na)
        if d == "too large": pass
        elif d is not None: return R(dict(kind="the egglog program stands for another formula", formula=k, got=egg.show(m["root"]), path=d))
        cl, tr, full = closure(m["root"], m["rules"], it["steps"], it["cap"])
        states += len(cl); trans += tr
        terms.append(cl); models.append(m)
    roots = [t[0] for t in terms]
    jobs = [tuple(roots)]
    for k, cl in enumerate(terms): jobs += [tuple(roots[:k] + [t] + roots[k + 1:]) for t in cl[1:]]
    if len(terms) > 1: jobs += list(itertools.zip_longest(*terms, fillvalue=None))[1:]
    jobs = [tuple(t or roots[k] for k, t in enumerate(j)) for j in jobs]
    for j in jobs:
        try: ans = [egg.formula(t, numbers) for t in j] + want[nft:]
        except egg.IllFormed as r: return R(dict(kind="a rule makes an ill-formed term", err=str(r), answer=[egg.show(t) for t in j]))
        for k, f in enumerate(ans):
            if f == want[k]: continue
            d = egg.differ(f, want[k], na)
            if d not in (None, "too large"):
                return R(dict(kind="the rules make another formula of it", formula=k, got=egg.show(j[k]), path=d))
        if it.get("model_only"): continue
        c, _ = compile_(text, mp, [(it.get("fmt") or "%s\n") % egg.show(t) for t in j], **o)
        e = check(c, ans, "with the answer of egglog")
        if e: e["answer"] = [egg.show(t) for t in j]; return R(e)
    return R(None)


def checked(it):
    """Answers that need not be equivalent, with the equivalence check on: they must not change a verdict."""
    fs, na, D = it["fs"], it["na"], it["D"]
    text, mp = comp.spec_of([mltl.c2po(f) for f in fs], na), comp.map_of(na)
    nodes = leaves = refused = 0
    for ans in it["answers"]:
        c, _ = compile_(text, mp, [egg.show(t) + "\n" for t in ans], eq=dict(check=True, smt=it.get("smt", "uflia")))
        differ = any(egg.differ(egg.formula(t, numbers), f, na) is not None for t, f in zip(ans, fs))
        if c.exc: return dict(kind="crash", err=c.exc, answer=[egg.show(t) for t in ans]), nodes, leaves, 0, 0
        if "could not be validated" in c.err + c.out: refused += 1; continue
        if not c.ok:
            refused += 1
            if differ or refusal(c): continue
            return dict(kind="not compiled with an equivalent answer", err=(c.err + c.out)[-400:], answer=[egg.show(t) for t in ans]), nodes, leaves, 0, 0
        e, x = sweep.explore(c.binary, na, D, fs, deadlines=None)
        nodes += x.nodes; leaves += x.nleaf
        if e:
            e["kind"] += " in spite of the equivalence check"; e["answer"] = [egg.show(t) for t in ans]
            return e, nodes, leaves, 0, 0
        if differ and len(fs) == 1:
            return dict(kind="non-equivalent answer not reported", answer=[egg.show(t) for t in ans]), nodes, leaves, 0, 0
        if differ:
            return dict(kind="non-equivalent answer not reported", answer=[egg.show(t) for t in ans]), nodes, leaves, 0, 0
    return None, nodes, leaves, len(it["answers"]), refused


FAULTS = [("exit 1", None), ("exit 101", None), ("kill -6 $$", None), ("kill -9 $$", None), ("kill -11 $$", None), ("echo oops >&2; exit 2", None), ("exit 0", None),
          ("printf '{' > \"${1%.egg}.json\"; exit 0", None), ("printf '{}' > \"${1%.egg}.json\"; exit 0", None), (": > \"${1%.egg}.json\"; exit 0", None),
          (None, "exit 0"), (None, "cat \"$d/answer.$n\"; exit 1"), (None, "cat \"$d/answer.$n\"; kill -9 $$"), (None, "cat \"$d/answer.$n\"; kill -6 $$"), ("exec sleep 4", None),
          (None, "cat \"$d/answer.$n\"; exec sleep 4")]


def faulty(it):
    """egglog fails, dies, is cut off or answers nothing: the program refuses to compile or keeps every verdict."""
    fs, na, D = it["fs"], it["na"], it["D"]
    text, mp = comp.spec_of([mltl.c2po(f) for f in fs], na), comp.map_of(na)
    nodes = leaves = n = 0
    full = [egg.show(t) for t in it["good"]]
    runs = [(full, f, l, None) for f, l in it["faults"]]
    runs += [([full[0][:k]] + full[1:], None, None, None) for k in it["cuts"]]
    runs += [(full, None, None, h) for h in it.get("hows", ())]
    for ans, f, l, h in runs:
        n += 1
        c, _ = compile_(text, mp, ans, eq=dict(time=1 if "sleep" in (f or "") + (l or "") else 30), fault=f, late=l, how=h or "option")
        desc = dict(fault=f or l or h or f"output cut after {len(ans[0])} bytes", answer=ans)
        if c.exc: return dict(kind="crash", err=c.exc, **desc), nodes, leaves, n, n
        if "Traceback" in c.err + c.out: return dict(kind="crash", err=(c.err + c.out)[-300:], **desc), nodes, leaves, n, n
        if not c.ok:
            if c.rc == 0: return dict(kind="success without a program", **desc), nodes, leaves, n, n
            if h or (f and "exit 1" == f): return dict(kind="not compiled when egglog is missing or fails", err=(c.err + c.out)[-300:], **desc), nodes, leaves, n, n
            continue
        e, x = sweep.explore(c.binary, na, D, fs, deadlines=None)
        nodes += x.nodes; leaves += x.nleaf
        if e: e.update(desc); return e, nodes, leaves, n, n
    return None, nodes, leaves, n, n


def values(it):
    """Formulas over value expressions: the propositions of the egglog program are the Booleanizer's atomics."""
    sigs, e0, D = it["sigs"], it["e"], it["D"]
    lv = bz.product(sigs, it["vals"])
    text = bz.decl(sigs) + "FTSPEC\n" + "".join(f"  {bz.show(e)};\n" for e in e0)
    mp = bz.sig_map(sigs)
    o = dict(opts=dict(bz=True))
    nodes = leaves = states = trans = 0
    c, progs = compile_(text, mp, [], **o)
    if not c.ok: return dict(kind="not compiled when egglog fails", err=(c.err + c.out)[-300:]), 0, 0, 0, 0
    terms = []
    for g in progs:
        try: m = egg.program(g)
        except egg.Rejected as r: return dict(kind="egglog would reject the program", err=str(r)), 0, 0, 0, 0
        cl, tr, _ = closure(m["root"], m["rules"], it["steps"], it["cap"])
        states += len(cl); trans += tr; terms.append(cl)
    roots = [t[0] for t in terms]
    jobs = [None, tuple(roots)] + [tuple(roots[:k] + [t] + roots[k + 1:]) for k, cl in enumerate(terms) for t in cl[1:]]
    done = set()
    for j in jobs:
        if j is not None: c, _ = compile_(text, mp, [egg.show(t) for t in j], **o)
        a = j and [egg.show(t) for t in j]
        if not c.ok:
            if refusal(c): continue
            return dict(kind="not compiled with the answer of egglog", err=(c.err + c.out)[-300:], answer=a), nodes, leaves, states, trans
        if c.binary in done: continue
        done.add(c.binary)
        e, x = bz.explore(c.binary, sigs, lv, D, e0, deadlines=False)
        nodes += x.nodes; leaves += x.nleaf
        if e: e["answer"] = a; return e, nodes, leaves, states, trans
    return None, nodes, leaves, states, trans


def rule_item(it):
    """One rule for all interval bounds."""
    rule, bound = it["rule"], it["bound"]
    n = large = 0
    for env, l, rt, na in egg.instances(rule, bound):
        n += 1
        try: r = egg.formula(rt, numbers)
        except egg.IllFormed as x: return dict(kind="a rule makes an ill-formed term", err=str(x), answer=[str(rule), str(env)]), 0, 0, n, n
        d = egg.differ(l, r, max(na, 1))
        if d == "too large": large += 1
        elif d is not None: return dict(kind="a rule changes the meaning", answer=[str(rule), str(env)], path=d), 0, 0, n, n
    return None, 0, large, n, n


def work(it):
    return {"one": one, "checked": checked, "faulty": faulty, "rule": rule_item, "values": values}[it["kind"]](it)


def sweep_(chk, name, items, frac=1.0):
    items = list(items)
    end = time.time() + max(5.0, chk.left() * frac)
    done = nodes = leaves = states = trans = 0
    for it, (e, n, l, s, t) in pool.run(work, items, chunk=2, left=lambda: end - time.time()):
        done += 1; nodes += n; leaves += l; states += s; trans += t
        if not e: continue
        spec = [mltl.c2po(f) for f in it["fs"]] if it.get("fs") else [bz.show(x) for x in it["e"]] if it.get("e") else str(it.get("rule"))
        key = f"{name}:{e['kind']}:{spec}".replace(" ", "")
        what = f"{e['kind']}: {spec}" + "".join(f", {k} {e[k]}" for k in ("fault", "answer", "time", "got", "expected", "path", "err") if e.get(k) is not None)
        chk.violation(key, what, dict(item={k: str(v) for k, v in it.items()}, error={k: str(v) for k, v in e.items()}))
        if chk.nviol >= 3: break
    chk.add(states=states + nodes, transitions=trans + nodes, traces_validated_against_impl=leaves, programs=done)
    chk.cov.setdefault("families", {})[name] = dict(done=done, of=len(items), exhaustive=done == len(items), terms=states, rule_applications=trans, transitions=nodes, traces=leaves)
    if items:
        it = items[len(items) // 2]
        chk.sample(dict(family=name, item={k: str(v)[:200] for k, v in it.items()}))


V = lambda i: ("Var", f"a{i}")
I = lambda l, u: ("Interval", l, u)


def terms2(iv=((0, 1), (1, 2))):
    """Every term with at most one operator over two propositions, and some with two."""
    a, b = V(0), V(1)
    t1 = [("Not", a), ("And2", a, b), ("Or2", a, b), ("Implies", a, b), ("Implies", b, a), ("Equiv", a, b), ("And3", a, b, a), ("Or4", a, b, a, b)]
    for l, u in iv:
        t1 += [("Global", I(l, u), a), ("Future", I(l, u), b), ("Until", I(l, u), a, b), ("Release", I(l, u), b, a)]
    return [a, b] + t1 + [("Not", x) for x in t1[1:]] + [("Global", I(0, 1), x) for x in t1[1:6]] + [("Future", I(0, 1), x) for x in t1[1:4]]


def families(T, seed):
    iv = [(0, 1), (1, 2)]
    bools = ('&', '|', '<->', '->')
    one_op = [f for f in fam.small(False, 1, [(0, 0), (0, 1), (1, 1), (1, 2)], bools=bools)]
    two_op = [f for f in fam.small(False, 2, iv, bools=bools)]
    out = {}
    mk = lambda f, D, steps, cap, **k: dict(kind="one", fs=[f], na=fam.na_of([f]), D=D, steps=steps, cap=cap, **k)
    out["formulas of one operator"] = [mk(f, 6, 3, 200 if T else 40) for f in one_op]
    out["formulas of two operators"] = [mk(f, 6, 2, 40 if T else 8) for f in fam.take(two_op, 3000 if T else 220, seed)]
    # the left-hand sides of the rules, as formulas
    g = []
    for l, u, m, k in itertools.product((0, 1), (1, 2), (0, 1), (1, 2)):
        g += [('&', ('G', l, u, A), ('G', m, k, A)), ('|', ('F', l, u, A), ('F', m, k, B)), ('|', ('G', l, u, A), ('G', m, k, A)), ('&', ('F', l, u, A), ('F', m, k, B)),
              ('&', ('U', l, u, A, B), ('F', m, k, B)), ('|', ('G', l, u, A), ('R', m, k, B, A)), ('&', ('G', l, u, ('!', A)), ('F', m, k, A)), ('F', l, u, ('F', m, k, A)),
              ('U', l, u, A, ('G', 0, k, A)), ('->', ('&', A, ('F', l, u, B)), ('|', ('U', l, u, A, B), ('G', l, u, A))), ('G', l, u, ('G', m, k, ('!', A)))]
    g = list(dict.fromkeys(g))
    out["left-hand sides of rules"] = [mk(f, 6, 3, 120 if T else 14) for f in (g if T else fam.take(g, 130, seed))]
    # what the encoding makes of larger formulas (no programs)
    lib = fam.pairs(False, iv, [(0, 2)])
    out["encodings"] = [mk(f, 6, 2 if T else 1, 200 if T else 60, model_only=True, may_reject='^' in str(f)) for f in fam.take(lib, 4000 if T else 500, seed)]
    t3 = ["(a0 && a1 && a2)", "(a0 || a1 || a2 || a0)", "(a0 && (a1 && (a2 && a0)))", "(a0 || a1) && a2 && (a1 || a2)"]
    m3 = [('&', ('&', A, B), C_), ('|', ('|', ('|', A, B), C_), A), ('&', A, ('&', B, ('&', C_, A))), ('&', ('&', ('|', A, B), C_), ('|', B, C_))]
    x = [dict(kind="one", fs=[m], texts=[t], na=3, D=4, steps=2, cap=60 if T else 16, opts=o) for t, m in zip(t3, m3) for o in ({}, dict(cse=False), dict(extops=True))]
    x += [dict(kind="one", fs=[('&', ('^', A, B), ('F', 0, 1, A))], na=2, D=5, steps=1, cap=10, may_reject=True)]
    x += [mk(f, 5, 1, 10) for f in (('&', A, ('tt',)), ('|', A, ('ff',)), ('U', 0, 2, ('tt',), A), ('R', 0, 2, ('ff',), B), ('G', 0, 1, ('!', ('!', A))), A, ('!', A), ('!', ('!', A)))]
    # numbering, several formulas, options
    for p in ([1, 0], [2, 0], [3, 1]):
        for f in (('U', 0, 2, A, B), ('->', A, ('G', 1, 2, B)), ('&', A, ('!', B))):
            if max(p) < 2: x.append(dict(kind="one", fs=[f], na=2, D=5, steps=1, cap=8, perm=p))
    pairs = [[('G', 0, 1, A), ('F', 0, 2, A)], [A, ('G', 0, 1, A)], [('&', A, B), ('|', A, B)], [('U', 0, 1, A, B), ('R', 0, 1, A, B)], [('!', A), ('!', ('!', A))], [A, B], [A, A],
             [('F', 0, 1, ('&', A, B)), ('F', 0, 1, ('&', A, B))], [('<->', A, B), ('->', A, B), ('F', 1, 1, A)]]
    for fs in pairs:
        for o in ({}, dict(cse=False), dict(aux=False)):
            x.append(dict(kind="one", fs=fs, na=2, D=5, steps=1, cap=6 if not T else 20, opts=o))
    for fmt in ("\n  %s  \n\n", "\t%s"):
        x.append(dict(kind="one", fs=[('U', 0, 2, A, B)], na=2, D=5, steps=1, cap=6, fmt=fmt))
    for k in ("fold", "assoc", "comm", "multi", "temporal"):
        for f in (('&', ('G', 0, 2, A), ('G', 1, 2, B)), ('!', ('U', 0, 1, A, B)), ('&', A, ('&', B, A))):
            x.append(dict(kind="one", fs=[f], na=2, D=5, steps=1, cap=8, eq={k: False}))
            x.append(dict(kind="one", fs=[f], na=2, D=5, steps=1, cap=8, eq={j: j == k for j in ("fold", "assoc", "comm", "multi", "temporal")}))
    x.append(dict(kind="one", fs=[('F', 0, 2, A)], na=1, D=5, steps=1, cap=4, how="PATH"))
    for f in (('&', ('a', 10), ('!', ('a', 1))), ('->', ('a', 0), ('a', 10)), ('|', ('a', 10), ('&', ('a', 11), ('a', 1)))):
        x.append(dict(kind="one", fs=[f], na=12, D=1, steps=1, cap=3))
    x.append(dict(kind="one", fs=[('F', 10, 12, ('G', 0, 11, A))], na=1, D=12, steps=1, cap=4))
    for fs in ([('G', 0, 1, A), ('S', 0, 1, A, B)], [('&', A, B), ('H', 0, 1, A), ('O', 1, 2, B)], [('U', 0, 1, A, B), ('F', 0, 1, A), ('!', ('O', 0, 1, A))]):
        n = sum(not mltl.has_past(f) for f in fs)
        for o in ({}, dict(cse=False)): x.append(dict(kind="one", fs=fs, nft=n, na=2, D=5, steps=1, cap=8, opts=o))
    for f in (('U', 0, 1, A, B), ('&', A, ('G', 0, 2, B)), ('->', ('F', 0, 1, A), B), ('!', ('<->', A, B))):
        x.append(dict(kind="one", fs=[f, ('|', f, A)], na=2, D=5, steps=1, cap=8, names=["first", "second"]))
        x.append(dict(kind="one", fs=[f, ('!', f)], na=2, D=5, steps=1, cap=8, extra=f"DEFINE\n  d := {mltl.c2po(f)};\n", texts=["d", "!d"]))
        x.append(dict(kind="one", fs=[f, ('&', f, B)], na=2, D=5, steps=1, cap=8, extra=f"DEFINE\n  d := {mltl.c2po(f)};\n", texts=["d", "d && a1"], opts=dict(cse=False)))
        x.append(dict(kind="one", fs=[f], na=2, D=5, steps=2, cap=12, lang="mltl"))
        x.append(dict(kind="one", fs=[f, ('G', 0, 1, f)], na=2, D=5, steps=1, cap=8, lang="mltl"))
    out["shapes, numbers and options"] = x
    # value expressions
    i0, i1 = ('i', 0), ('i', 1)
    P, Q, W = ('>', i0, ('ci', 1)), ('==', i0, i1), ('p', 0)
    es = [[('&&', P, Q)], [('U', 0, 1, P, Q)], [('G', 0, 1, ('->', P, Q))], [('!', ('F', 0, 1, P))], [P], [('&&', P, W)], [('||', ('G', 0, 1, P), ('G', 0, 2, P))], [P, Q], [('U', 0, 1, P, Q), ('G', 0, 1, Q)], [W, P]]
    y = []
    for e in es:
        s = sorted(set().union(*[bz.signals(q) for q in e]), key=str)
        y.append(dict(kind="values", e=e, sigs=s, vals=dict(i=(0, 2), p=(0, 1)), D=4, steps=1, cap=12 if not T else 60))
    out["value expressions"] = y
    # the equivalence check
    tt = terms2()
    bases = [('G', 0, 1, A), ('&', A, B), ('U', 0, 1, A, B), ('F', 0, 1, ('|', A, B)), ('->', A, ('G', 1, 2, B))]
    z = []
    for f in bases if T else bases[:3]:
        for t in common_chunks([(x,) for x in tt], 6): z.append(dict(kind="checked", fs=[f], na=2, D=5, answers=t, smt="qf_bv" if f == bases[1] else "uflia"))
    g0, g1 = ("Global", I(0, 1), V(0)), ("And2", V(0), V(1))
    bad = ("Or2", V(0), V(1))
    z.append(dict(kind="checked", fs=[('G', 0, 1, A), ('&', A, B)], na=2, D=5, answers=[(g0, g1), (bad, g1), (g0, bad), (bad, bad)]))
    out["answers under the equivalence check"] = z
    # faults
    good = ("And2", ("Global", I(0, 1), V(0)), ("Global", I(0, 1), V(1)))
    n = len(egg.show(good))
    ff = [dict(kind="faulty", fs=[('G', 0, 1, ('&', A, B))], na=2, D=5, good=[good], faults=c, cuts=[], hows=()) for c in common_chunks(FAULTS, 2)]
    ff += [dict(kind="faulty", fs=[('G', 0, 1, ('&', A, B))], na=2, D=5, good=[good], faults=[], cuts=c, hows=()) for c in common_chunks(list(range(n)), 12)]
    ff += [dict(kind="faulty", fs=[('G', 0, 1, ('&', A, B))], na=2, D=5, good=[good], faults=[], cuts=[], hows=["none"])]
    ff += [dict(kind="faulty", fs=[('G', 0, 1, ('&', A, B)), ('F', 0, 2, B)], na=2, D=5, good=[good, ("Future", I(0, 2), V(1))], faults=c, cuts=[]) for c in common_chunks(FAULTS, 4)]
    out["failures of egglog"] = ff
    return out


def common_chunks(xs, n): return [xs[i:i + n] for i in range(0, len(xs), n)]


def written():
    """write_eqsat_encoding: what it writes for one formula, one of several, all of several. Yields (error, rules)."""
    import shutil
    fs = [('G', 0, 1, A), ('U', 1, 2, A, ('!', B)), ('->', A, ('F', 0, 3, B))]
    names = ["first", "second", "third"]
    d = comp.tmpdir() / "enc"
    pre = ["parse_c2po {d}/s.c2po", "parse_map {d}/s.map", "type_check", "desugar", "compute_atomics"]
    for cmd, n, files in [("write_eqsat_encoding {d}/enc/out.egg", 1, {"out.egg": 0}), ("write_eqsat_encoding {d}/enc/sub", 3, {f"sub/{x}.eqsat.egglog": k for k, x in enumerate(names)}),
                          ("write_eqsat_encoding {d}/enc", 1, {"first.eqsat.egglog": 0})] + [
            (f"write_eqsat_encoding {{d}}/enc/one.egg --formula {x} {g}", 3, {"one.egg": k}) for k, x in enumerate(names) for g in ("", "--greedy-extraction")]:
        shutil.rmtree(d, ignore_errors=True); d.mkdir()
        c = comp.script(pre + [cmd], {"s.c2po": comp.spec_of([mltl.c2po(f) for f in fs[:n]], 2, names=names), "s.map": comp.map_of(2)})
        got = {str(x.relative_to(d)) for x in d.rglob("*") if x.is_file()}
        if got != set(files): yield f"{cmd} writes {sorted(got)}, not {sorted(files)}: {c.err[-200:]}", []; continue
        for x, k in files.items():
            try:
                m = egg.program((d / x).read_text())
                if egg.differ(egg.formula(m["root"], numbers), fs[k], 2) is not None: yield f"{cmd}: {x} stands for another formula: {egg.show(m['root'])}", []
                else: yield None, m["rules"]
            except (egg.Rejected, egg.IllFormed, ValueError) as r: yield f"{cmd}: egglog would reject {x}: {r}", []
    shutil.rmtree(d, ignore_errors=True)


def run(chk):
    T = common.THOROUGH
    sweep.prepare()
    bound = 6 if T else 4
    progs = []
    for eq in ({}, dict(fold=False, temporal=False), dict(assoc=False, comm=False, multi=False)):
        _, g = compile_(comp.spec_of(["(G[0,1] a0)"], 1), comp.map_of(1), [], eq=eq)
        progs += g
    rules = []
    for g in progs:
        try: rules += egg.program(g)["rules"]
        except egg.Rejected as r: chk.violation("program", f"egglog would reject the program: {r}", dict(program=g))
    for e, r in written():
        rules += r
        if e: chk.violation("written:" + e.replace(" ", "")[:80], e, dict(error=e))
    rules = list(dict.fromkeys(rules))
    sweep_(chk, f"rules, all interval bounds up to {bound}", [dict(kind="rule", rule=r, bound=bound) for r in rules], 0.3)
    fams = families(T, common.SEED)
    left = len(fams)
    for name, items in fams.items():
        if chk.nviol >= 3: break
        sweep_(chk, name, items, 1.0 / left * 1.5 if left > 1 else 1.0); left -= 1
    chk.assumptions += ["egglog itself is not installed: its part is played by a model that applies the rules of the program it is given, and by a stand-in executable that prints the terms",
                        "extraction by integer programming (Gurobi) is not covered"]
    return chk.finish()
