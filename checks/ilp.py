"""P34: extraction of a formula from an e-graph by integer programming. Neither egglog nor Gurobi is installed: e-graphs
reachable by the rewrite rules are answered by a stand-in egglog, and a stand-in for Gurobi enumerates every assignment of the
real compiler's model and returns every optimal solution in turn; each resulting program is explored on complete input trees."""
import sys, pathlib
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent / "lib" / "standin"))
import gurobipy
import itertools, json, signal, time
from lib import common, mltl, comp, sweep, pool, egg, families as fam
from checks import eqsat

A, B, C_ = fam.A, fam.B, fam.C_
BIN = """#!/bin/sh
d=${0%/*}
case "$1" in -*) exit 0;; esac
n=0; read n < "$d/n"; n=$((n+1)); echo $n > "$d/n"
cp "$1" "$d/prog.$n"
[ -f "$d/answer.$n" ] || exit 1
exec cp "$d/answer.$n" "${1%.egg}.json"
"""


def compile_(text, map_text, answers, choice=0, mode="ok", near=0.0, cse=True, ext=True, check=False, extra=""):
    d = comp.tmpdir() / "ilp"
    if not d.exists():
        d.mkdir()
        (d / "egglog").write_text(BIN); (d / "egglog").chmod(0o755)
    for f in d.iterdir():
        if f.name != "egglog": f.unlink()
    (d / "n").write_text("0\n")
    for k, a in enumerate(answers):
        if a is not None: (d / f"answer.{k + 1}").write_text(a)
    gurobipy.CHOICE, gurobipy.MODE, gurobipy.NEAR, gurobipy.TIES = choice, mode, near, 0
    (comp.tmpdir() / "out.bin").unlink(missing_ok=True)
    lines = ["parse_c2po {d}/s.c2po", "parse_map {d}/s.map", "type_check", "desugar", "compute_atomics",
             f"optimize_eqsat --extraction-method ilp --egglog-bin {{d}}/ilp/egglog --egglog-max-time 60 --gurobi-max-time 60 --{'' if ext else 'no-'}extended --{'' if check else 'no-'}check-equiv {extra}",
             "remove_extended_operators"]
    if cse: lines.append("optimize_cse")
    lines += ["multi_operators_to_binary", "remove_extended_operators", "assemble {d}/out.bin"]
    c = comp.script(lines, {"s.c2po": text, "s.map": map_text})
    if not c.exc and signal.alarm(0): c.exc = "an alarm that interrupts the rest of the compilation is left behind"
    if not c.exc and "Traceback" in c.err + c.out: c.exc = "internal error: " + (c.err + c.out)[-300:]
    progs = [(d / f"prog.{k}").read_text() for k in range(1, int((d / "n").read_text()) + 1)]
    return c, progs


def item(it):
    """Returns (error, nodes, leaves, states, transitions)."""
    fs, na, D = it["fs"], it["na"], it["D"]
    text, mp = comp.spec_of(it.get("texts") or [mltl.c2po(f) for f in fs], na), comp.map_of(na)
    o = it.get("opts") or {}
    nodes = leaves = states = trans = 0
    done = set()
    R = lambda e: (e, nodes, leaves, states, trans)
    _, progs = compile_(text, mp, [None] * len(fs), **o)
    if len(progs) != len(fs): return R(dict(kind="number of egglog programs", got=len(progs), expected=len(fs)))
    graphs = []
    for k, g in enumerate(progs):
        try: m = egg.program(g)
        except egg.Rejected as r: return R(dict(kind="egglog would reject the program", err=str(r)))
        gs, root, tr = egg.egraphs(m["root"], m["rules"], it["steps"], it["cap"], it["size"])
        trans += tr; states += len(gs)
        graphs.append([(x, root) for x in gs])
    jobs = [[g[0] for g in graphs]]
    for k, g in enumerate(graphs): jobs += [[h[0] for h in graphs[:k]] + [x] + [h[0] for h in graphs[k + 1:]] for x in g[1:]]
    for j in jobs:
        ans = [json.dumps(x.json(r)) for x, r in j]
        ways = [("ok", ch, 0.0) for ch in range(it["ties"])] if not it.get("modes") else [(m, 0, 0.0) for m in it["modes"]] + [("ok", 0, 1e-7)]
        for mode, ch, near in ways:
            try: c, _ = compile_(text, mp, ans, choice=ch, mode=mode, near=near, **o)
            except gurobipy.Limit: break
            if ch and ch >= gurobipy.TIES: break
            desc = dict(answer=[sorted(str(n) + f" in {x.find(k)}" for n, k in x.nodes.items()) + [f"root {x.find(r)}"] for x, r in j], fault=f"Gurobi: {mode}, optimum {ch}, off by {near}")
            if c.exc: return R(dict(kind="crash", err=c.exc, **desc))
            states += 1
            if not c.ok:
                if mode != "ok" or "constant formula" in c.out + c.err: continue
                if not o.get("ext", True): continue   # the formula may not exist without extended operators
                return R(dict(kind="not compiled", err=(c.err + c.out)[-400:], **desc))
            if c.binary in done: continue
            done.add(c.binary)
            e, x = sweep.explore(c.binary, na, D, fs, deadlines=None)
            nodes += x.nodes; leaves += x.nleaf
            if e: return R(dict(e, **desc))
    return R(None)


MODES = ["timeout", "memory", "interrupted", "unbounded", "infeasible", "too-large", "out-of-memory", "error", "license", "start", "build", "build-memory"]


def families(T, seed):
    iv = [(0, 1), (1, 2)]
    bools = ('&', '|', '<->', '->')
    mk = lambda f, steps, cap, size=11, D=6, **k: dict(fs=[f], na=fam.na_of([f]), D=D, steps=steps, cap=cap, size=size, ties=4, **k)
    out = {}
    one = [f for f in fam.small(False, 1, [(0, 0), (0, 1), (1, 2)], bools=bools)]
    two = [f for f in fam.small(False, 2, iv, bools=bools)]
    out["formulas of one operator"] = [mk(f, 2, 60 if T else 12) for f in one]
    shared = []
    for l, u in ((0, 2), (1, 3)):
        for o1, o2 in itertools.product('&|', '&|'):
            t = (('F', l, u, B), ('G', l, u, B), ('U', l, u, B, A), ('F', l, u, A))
            for x in t:
                shared += [(o1, (o2, A, x), A), (o1, A, (o2, B, x)), (o1, (o2, A, x), ('!', A)), (o1, ('G', 0, 1, A), (o2, x, A)), (o1, x, ('F', l, u, (o2, A, B)))]
    out["propositions used several times"] = [mk(f, 1, 40 if T else 5, size=12, D=7) for f in dict.fromkeys(shared)]
    out["formulas of two operators"] = [mk(f, 2 if T else 1, 30 if T else 5, D=5) for f in fam.take(two, 1500 if T else 150, seed)]
    g = []
    for l, u, m, k in itertools.product((0, 1), (1, 2), (0, 1), (1, 2)):
        g += [('&', ('G', l, u, A), ('G', m, k, A)), ('|', ('F', l, u, A), ('F', m, k, B)), ('&', ('F', l, u, A), ('F', m, k, B)), ('F', l, u, ('F', m, k, A)), ('&', ('G', l, u, ('!', A)), ('F', m, k, A))]
    out["left-hand sides of rules"] = [mk(f, 2, 20 if T else 5, size=10) for f in (g if T else fam.take(list(dict.fromkeys(g)), 40, seed))]
    x = []
    for fs in ([('G', 0, 1, A), ('F', 0, 2, A)], [A, ('G', 0, 1, A)], [('&', A, B), ('|', A, B)], [('U', 0, 1, A, B), ('F', 0, 2, B)], [('&', A, ('F', 0, 3, B)), ('|', B, ('F', 0, 3, A))]):
        for o in ({}, dict(cse=False), dict(ext=False)): x.append(dict(fs=fs, na=2, D=6, steps=1, cap=4 if not T else 12, size=9, ties=2, opts=o))
    for t, f in (("(a0 && a1 && a2)", ('&', ('&', A, B), C_)), ("(a0 || a1 || a2 || F[0,2] a0)", ('|', ('|', ('|', A, B), C_), ('F', 0, 2, A)))):
        x.append(dict(fs=[f], texts=[t], na=3, D=4, steps=1, cap=5, size=11, ties=3))
    for f in (('&', A, ('tt',)), ('U', 0, 2, ('tt',), A), ('->', A, ('F', 0, 1, B)), ('!', ('!', A)), A, ('R', 0, 2, A, B)):
        x.append(mk(f, 2, 6, opts=dict(ext=False))); x.append(mk(f, 1, 3, opts=dict(check=True)))
    for f in (('&', ('a', 10), ('!', ('a', 1))), ('->', ('a', 0), ('a', 10)), ('|', ('a', 10), ('&', ('a', 11), ('a', 1)))):
        x.append(dict(fs=[f], na=12, D=1, steps=1, cap=2, size=9, ties=2))
    out["several formulas and options"] = x
    out["failures of Gurobi"] = [mk(f, 1, 2, modes=MODES) for f in (('G', 0, 1, ('&', A, B)), ('U', 0, 1, A, B))] + \
        [dict(fs=[('G', 0, 1, ('&', A, B)), ('F', 0, 2, B)], na=2, D=6, steps=0, cap=1, size=9, ties=1, modes=MODES)]
    return out


def sweep_(chk, name, items, frac):
    items = list(items)
    end = time.time() + max(5.0, chk.left() * frac)
    done = nodes = leaves = states = trans = 0
    for it, (e, n, l, s, t) in pool.run(item, items, chunk=2, left=lambda: end - time.time()):
        done += 1; nodes += n; leaves += l; states += s; trans += t
        if not e: continue
        spec = [mltl.c2po(f) for f in it["fs"]]
        what = f"{e['kind']}: {spec}" + "".join(f", {k} {e[k]}" for k in ("fault", "answer", "time", "got", "expected", "path", "err") if e.get(k) is not None)
        chk.violation(f"{name}:{e['kind']}:{spec}".replace(" ", ""), what, dict(item={k: str(v) for k, v in it.items()}, error={k: str(v) for k, v in e.items()}))
        if chk.nviol >= 3: break
    chk.add(states=states + nodes, transitions=trans + nodes, traces_validated_against_impl=leaves, programs=done)
    chk.cov.setdefault("families", {})[name] = dict(done=done, of=len(items), exhaustive=done == len(items), egraphs_and_optima=states, rule_applications=trans, transitions=nodes, traces=leaves)
    if items: chk.sample(dict(family=name, item={k: str(v)[:200] for k, v in items[len(items) // 2].items()}))


def run(chk):
    sweep.prepare()
    fams = families(common.THOROUGH, common.SEED)
    left = len(fams)
    for name, items in fams.items():
        if chk.nviol >= 3: break
        sweep_(chk, name, items, 1.0 / left * 1.5 if left > 1 else 1.0); left -= 1
    chk.assumptions += ["egglog and Gurobi are not installed: their parts are played by a model of e-graph rewriting and by an exact enumeration of the real compiler's model (all optimal solutions)",
                        "that the optimum is the smallest formula is not checked"]
    return chk.finish()
