"""P21: contract reports. P27: the output channels of the monitor against each other."""
import itertools, re
import numpy as np
from lib import common, mltl, comp, sweep, mon, pool, bz, clirun, families as fam
from multi import sweep_multi
from bzc import past_of

P0, P1, P2, I0 = ('p', 0), ('p', 1), ('p', 2), ('i', 0)
EXE = {}
_prog = {}
VALS = {'p': (False, True), 'i': (0, 1), 'x': (0.25, 0.75)}


def prepare(debug=False):
    EXE["plain"] = common.build_cli(aux=False)
    EXE["aux"] = common.build_cli(aux=True)
    if debug: EXE["debug"] = common.build_cli(aux=False, defines=("-DR2U2_DEBUG=1",))
    sweep.prepare("plain"); sweep.prepare("aux")


def csv_of(sigs, rows):
    f = lambda s, v: (f"{v:.4f}" if s[0] == 'x' else str(int(v)))
    return "".join(",".join(f(s, v) for s, v in zip(sigs, r)) + "\n" for r in rows)


def rows_of(sigs, D):
    return [list(r) for r in itertools.product(bz.product(sigs, VALS), repeat=D)]


def value(f, sigs, rows):
    """(true mask, false mask) of an expression on one trace."""
    D = len(rows)
    E = bz.Ev({s: np.array([r[j] for r in rows]).reshape(D, 1) for j, s in enumerate(sigs)}, 1, D)
    atoms = []
    g = bz.split(f, atoms)
    A = bz.masks(E, atoms)
    T, F = mltl.ev(g, A, D)
    m = (1 << D) - 1
    return int(np.asarray(T).ravel()[0]) & m, int(np.asarray(F).ravel()[0]) & m


def reach(f):
    return mltl.wpd(bz.split(f, []))


CLINE = re.compile(r"^Contract (\S+) (\w+) at (\d+)$")


def contracts(it):
    """it: past, cs [(label, assumption, guarantee)], plain formulas, D, sigs, opts."""
    sigs, D = it["sigs"], it["D"]
    items = it["items"]  # ("c", label, A, G) | ("f", label, F), in order of writing
    spec = bz.decl(sigs) + ("PTSPEC\n" if it["past"] else "FTSPEC\n")
    for x in items: spec += f"  {x[1]}: {bz.show(x[2])} => {bz.show(x[3])};\n" if x[0] == "c" else f"  {(x[1] + ': ') if x[1] else ''}{bz.show(x[2])};\n"
    c = comp.cli(spec, map_text=bz.sig_map(sigs), **dict(dict(bz=any(s[0] != 'p' for s in sigs)), **it.get("opts", {})))
    if not c.ok: return dict(kind="not compiled", rc=c.rc, exc=c.exc, err=(c.err + c.out)[:300], spec=spec), 0, 0, True
    leaves = nodes = 0
    cs = [x for x in items if x[0] == "c"]
    for rows in (it.get("rows") or rows_of(sigs, D)):
        rc, out, err = clirun.run(EXE["aux"], c.binary, csv_of(sigs, rows))
        leaves += 1; nodes += len(rows)
        verd, other = clirun.stream(out)
        where = dict(spec=spec, rows=rows)
        if rc != 0: return dict(kind="monitor failed", rc=rc, err=err.decode(errors="replace")[-300:], **where), nodes, leaves, True
        rep = {x[1]: [] for x in cs}
        for l in other:
            m = CLINE.match(l)
            if not m or m[1] not in rep or m[2] not in ("inactive", "invalid", "verified"): return dict(kind="unexpected line", line=l, **where), nodes, leaves, True
            rep[m[1]].append((m[2], int(m[3])))
        n = len(rows)
        for _, label, a, g in cs:
            (aT, aF), (gT, gF) = value(a, sigs, rows), value(g, sigs, rows)
            st = dict(inactive=(aF, aT), invalid=(aT & gF, aF | gT), verified=(aT & gT, aF | gF))
            w = max(reach(a), reach(g))
            for kind, (yes, no) in st.items():
                ts = [t for k, t in rep[label] if k == kind]
                if any(b <= a_ for a_, b in zip(ts, ts[1:])): return dict(kind="a contract status is repeated", contract=label, status=kind, times=ts, **where), nodes, leaves, True
                for t in ts:
                    if t < n and no >> t & 1: return dict(kind="wrong contract status", contract=label, status=kind, time=t, assumption=bz.show(a), guarantee=bz.show(g), **where), nodes, leaves, True
                for s in range(0, n - w):
                    if not yes >> s & 1: continue
                    if not any(t >= s and not any(no >> q & 1 for q in range(s, min(t, n - 1) + 1)) for t in ts):
                        return dict(kind="contract status not reported", contract=label, status=kind, time=s, reported=rep[label], **where), nodes, leaves, True
        # plain formulas keep their own lines
        for x in items:
            if x[0] != "f" or not x[1]: continue
            try: got = clirun.truth([v for v in verd if v[0] == x[1]], [x[1]])[x[1]]
            except ValueError as e: return dict(kind="verdict stream broken", error=str(e), **where), nodes, leaves, True
            T, F = value(x[2], sigs, rows)
            if len(got) < n - reach(x[2]): return dict(kind="verdict missing", formula=x[1], **where), nodes, leaves, True
            for t, b in enumerate(got[:n]):
                if (F if b else T) >> t & 1: return dict(kind="wrong verdict beside contracts", formula=x[1], time=t, got=b, **where), nodes, leaves, True
    return None, nodes, leaves, True


def items21(thorough, seed):
    a, b = P0, P1
    A = [a, ('!', b), ('&&', a, b), ('F', 0, 1, a), ('G', 0, 2, b), ('U', 0, 2, a, b), ('R', 1, 2, b, a), ('||', a, ('G', 1, 1, b)), ('<->', a, b), ('!', ('F', 1, 2, b))]
    out = []
    sig = [P0, P1]
    D = 5 if thorough else 4
    pairs = [(x, y) for x in A for y in A]
    its = []
    for past in (False, True):
        h = past_of if past else (lambda z: z)
        for i, (x, y) in enumerate(pairs):
            its.append(dict(past=past, sigs=sig, D=D if thorough else 3, items=[("c", "c1", h(x), h(y))], opts=fam.default_opts(i)))
    out.append(("one contract, every pair of assumption and guarantee", its if thorough else fam.take(its, 120, seed)))
    its = []
    for past in (False, True):
        h = past_of if past else (lambda z: z)
        for i in range(0, len(pairs), 5):
            row = [("c", f"k{j}", h(x), h(y)) for j, (x, y) in enumerate(pairs[i:i + 5])]
            its.append(dict(past=past, sigs=sig, D=D, items=row, opts=fam.default_opts(i // 5)))
            mixed = []
            for j, r in enumerate(row): mixed += [r, ("f", [None, f"g{j}"][j % 2], h(A[(i + j) % len(A)]))]
            its.append(dict(past=past, sigs=sig, D=D if thorough else 3, items=mixed if i % 2 else mixed[::-1], opts=fam.default_opts(i // 5 + 1)))
    out.append(("several contracts and formulas between them", its))
    its = []
    for lab in itertools.permutations(["c", "c1", "cc", "inactive", "F"], 3) if thorough else [("c", "c1", "cc"), ("c1", "c", "F1"), ("inactive", "valid", "verified"), ("x" * 35, "x" * 34, "x"), ("C0", "__a", "_")]:
        if "F" in lab: continue
        for past in (False, True):
            h = past_of if past else (lambda z: z)
            its.append(dict(past=past, sigs=sig, D=3, items=[("c", l, h(A[3 * k]), h(A[3 * k + 1])) for k, l in enumerate(lab)] + [("f", "f", h(A[4]))]))
    out.append(("labels of contracts", its))
    bzs = [('>', I0, ('ci', 0)), ('==', ('prev', ('ci', 0), I0), I0), P0, ('F', 0, 1, ('==', I0, ('ci', 0))), ('<', ('tau',), ('ci', 2))]
    its = []
    for past in (False, True):
        h = past_of if past else (lambda z: z)
        its += [dict(past=past, sigs=[I0, P0], D=4 if thorough else 3, items=[("c", "c1", h(x), h(y))], opts=fam.default_opts(i)) for i, (x, y) in enumerate(itertools.product(bzs, bzs))]
    out.append(("contracts over value expressions", its))
    long = [[[bool((t * 7 + k) % 5 > 1), bool((t // (k + 2)) % 2)] for t in range(n)] for n in (30, 56) for k in range(6)]
    its = [dict(past=past, sigs=sig, D=0, rows=long, items=[("c", f"k{j}", (past_of if past else (lambda z: z))(x), (past_of if past else (lambda z: z))(y)) for j, (x, y) in enumerate(pairs[i:i + 4])]) for past in (False, True) for i in range(0, 100, 20)]
    out.append(("long traces", its))
    return [o for o in out if o[1]]


def agc(chk):
    prepare()
    chk.assumptions = ["A report that stands for several steps (verdict aggregation) is accepted when the status holds at each of them.",
                       "Monitor built with auxiliary strings; at most 126 formulas including the three of each contract."]
    for name, its in items21(common.THOROUGH, common.SEED):
        if chk.nviol >= 3: break
        sweep_multi(chk, name, its, contracts, 1.0, chunk=1)
    return chk.finish()


# ---- P27 ---------------------------------------------------------------------------------------------------------------
def log_of(variant, binary, sigs, rows, nf, file=False):
    pre = [mon.action(mon.LOAD)]
    for r in rows: pre += [bz.act(s, j, v) for j, (s, v) in enumerate(zip(sigs, r))] + [mon.action(mon.STEP)]
    x = sweep.srv(variant).job([binary], pre, [], 0, [nf], linear=True, log=True, file=file)
    if x.status: return (x.why, b"") if file else x.why
    log = [(int(f), int(t), bool(b)) for _, f, t, b in x.log.tolist()]
    return (log, x.text) if file else log


def channels(it):
    """All channels for every trace of one program. it: sigs, parts [(past, [(label|None, expr)])], D, opts."""
    sigs, D = it["sigs"], it["D"]
    spec = bz.decl(sigs)
    labels = []
    for past, fs in it["parts"]:
        spec += "PTSPEC\n" if past else "FTSPEC\n"
        for l, f in fs:
            spec += f"  {(l + ': ') if l else ''}{bz.show(f)};\n"
            labels.append(l)
    nf = len(labels)
    o = dict(dict(bz=any(s[0] != 'p' for s in sigs)), **it.get("opts", {}))
    bins = {aux: comp.cli(spec, map_text=bz.sig_map(sigs), aux=aux, **o) for aux in (True, False)}
    for c in bins.values():
        if not c.ok: return dict(kind="not compiled", rc=c.rc, exc=c.exc, err=(c.err + c.out)[:300], spec=spec), 0, 0, True
    leaves = nodes = 0
    names = None
    for rows in it.get("rows") or rows_of(sigs, D):
        text = csv_of(sigs, rows)
        where = dict(spec=spec, rows=rows)
        ref = log_of("plain", bins[True].binary, sigs, rows, nf)
        leaves += 1; nodes += len(rows)
        if isinstance(ref, str): return dict(kind=ref, **where), nodes, leaves, True
        got = dict(callback_no_aux_data=log_of("plain", bins[False].binary, sigs, rows, nf), callback_aux_build=log_of("aux", bins[True].binary, sigs, rows, nf), callback_aux_build_no_aux_data=log_of("aux", bins[False].binary, sigs, rows, nf))
        # callback and output file of one monitor in the same run
        texts = {}
        for tag, variant, aux in (("plain", "plain", True), ("aux_build", "aux", True), ("aux_build_no_aux_data", "aux", False)):
            got["callback_with_file_" + tag], texts[tag] = log_of(variant, bins[aux].binary, sigs, rows, nf, file=True)
        for exe, aux, tag in [("plain", True, "stdout"), ("plain", False, "stdout_no_aux_data"), ("aux", False, "stdout_aux_build_no_aux_data")] + ([("debug", True, "stdout_debug_build")] if "debug" in EXE else []):
            rc, out, err = clirun.run(EXE[exe], bins[aux].binary, text)
            v, other = clirun.stream(out)
            if rc != 0 or other: return dict(kind="exit status or output", channel=tag, rc=rc, other=other[:2], **where), nodes, leaves, True
            got[tag] = [(int(n) if n.isdigit() else n, t, b) for n, t, b in v]
            k = dict(stdout="plain", stdout_aux_build_no_aux_data="aux_build_no_aux_data").get(tag)
            if k and texts[k] != out: return dict(kind="the output file differs from the command line", channel="file_" + k, file=texts[k][:200].decode(errors="replace"), stdout=out[:200].decode(errors="replace"), **where), nodes, leaves, True
        for tag, g in got.items():
            if g != ref:
                k = next((i for i, (x, y) in enumerate(zip(g, ref)) if x != y), min(len(g), len(ref)))
                return dict(kind="channels differ", channel=tag, got=g[k:k + 2] if not isinstance(g, str) else g, callback=ref[k:k + 2], **where), nodes, leaves, True
        rc, out, err = clirun.run(EXE["aux"], bins[True].binary, text)
        if texts["aux_build"] != out: return dict(kind="the output file differs from the command line", channel="file_aux_build", file=texts["aux_build"][:200].decode(errors="replace"), stdout=out[:200].decode(errors="replace"), **where), nodes, leaves, True
        v, other = clirun.stream(out)
        if rc != 0 or other: return dict(kind="exit status or output", channel="stdout_aux_build", rc=rc, other=other[:2], **where), nodes, leaves, True
        if [x[1:] for x in v] != [x[1:] for x in ref]: return dict(kind="channels differ", channel="stdout_aux_build", got=v[:4], callback=ref[:4], **where), nodes, leaves, True
        if names is None: names = {}
        for (n, _, _), (f, _, _) in zip(v, ref):
            if names.setdefault(f, n) != n or labels[f] is not None and n != labels[f]: return dict(kind="verdict under the wrong name", formula=f, label=labels[f], name=n, earlier=names[f], **where), nodes, leaves, True
        if len(set(names.values())) != len(names): return dict(kind="two formulas under one name", names=str(names), **where), nodes, leaves, True
        if out.count(b"\n") != len(ref): return dict(kind="extra output", channel="stdout_aux_build", **where), nodes, leaves, True
    return None, nodes, leaves, True


def items27(thorough, seed):
    a, b = P0, P1
    F = [a, ('!', b), ('F', 0, 1, a), ('G', 0, 2, b), ('U', 0, 2, a, b), ('R', 1, 2, b, a), ('&&', a, ('F', 1, 1, b)), ('<->', a, b)]
    sig = [P0, P1]
    out, its = [], []
    for i, f in enumerate(F):
        for past in (False, True):
            h = past_of if past else (lambda z: z)
            its.append(dict(sigs=sig, parts=[(past, [([None, "lab"][i % 2], h(f))])], D=4 if thorough else 3, opts=fam.default_opts(i)))
    out.append(("one formula", its))
    its = []
    labs = [None, "f", "g", None, "long_" + "x" * 40, "f1", "F1", "_"]
    for i, (x, y) in enumerate(itertools.product(F, F)):
        n = 2 + i % 4
        row = [(labs[(i + j) % len(labs)], F[(i * 3 + j * 5) % len(F)]) for j in range(n)] + [(labs[(i + n) % len(labs)], x)]
        second = [(labs[(i + n + 1) % len(labs)], past_of(y)), (None, past_of(x))]
        parts = [[(False, row)], [(True, [(l, past_of(f)) for l, f in row])], [(False, row[:-1]), (True, second)], [(True, second), (False, row[:-1])]][i % 4]
        its.append(dict(sigs=sig, parts=parts, D=4 if thorough else 3, opts=fam.default_opts(i)))
    out.append(("several formulas, labels and both sections", its))
    big = [(f"l{k}" if k % 3 else None, F[k % len(F)]) for k in range(40)]
    rows = [[[bool((t * 5 + k) % 3), bool((t + k) % 4 == 0)] for t in range(n)] for n in (1, 2, 40) for k in range(3)]
    out.append(("many formulas, long traces", [dict(sigs=sig, parts=p, D=0, rows=rows) for p in ([(False, big)], [(True, [(l, past_of(f)) for l, f in big])], [(False, big[:20]), (True, [(l, past_of(f)) for l, f in big[20:]])])]))
    B = [('>', I0, ('ci', 0)), ('==', ('prev', ('ci', 0), I0), I0), P0, ('F', 0, 1, ('==', I0, ('ci', 0)))]
    out.append(("value expressions", [dict(sigs=[I0, P0], parts=[(False, [(None, x), ("y", y)])], D=3, opts=fam.default_opts(i)) for i, (x, y) in enumerate(itertools.product(B, B))]))
    return out


def outputs(chk):
    prepare(debug=True)
    chk.assumptions = ["The callback of the plain build is the reference; that its verdicts are right is decided by P01, P02, P08 and P09."]
    for name, its in items27(common.THOROUGH, common.SEED):
        if chk.nviol >= 3: break
        sweep_multi(chk, name, its, channels, 1.0, chunk=1)
    return chk.finish()
