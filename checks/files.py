"""P13: trace files against the values they denote. P14: signal maps and trace headers."""
import itertools, time
import numpy as np
from lib import common, mltl, comp, sweep, mon, pool, bz, clirun, families as fam
from multi import sweep_multi

P0, P1, P2, I0, I1, X0 = ('p', 0), ('p', 1), ('p', 2), ('i', 0), ('i', 1), ('x', 0)
EXE = {}
_prog = {}


def prepare():
    EXE["plain"] = common.build_cli(aux=False)
    sweep.prepare()


def program(spec, mapping, opts):
    k = (spec, mapping, str(opts))
    if k not in _prog:
        c = comp.cli(spec, map_text=mapping, **opts)
        if not c.ok: raise common.CheckError(f"does not compile: {c}\n{spec}")
        _prog[k] = c.binary
    return _prog[k]


def api_log(binary, rows, nf):
    """Verdict lines of the monitor driven through its API. rows: lists of (op, column, value)."""
    pre = [mon.action(mon.LOAD)]
    for r in rows: pre += [mon.action(o, 0, c, v) for o, c, v in r] + [mon.action(mon.STEP)]
    x = sweep.srv().job([binary], pre, [], 0, [nf], linear=True, log=True)
    if x.status: raise common.CheckError(f"API run: {x.why}")
    return [(str(f), int(t), bool(b)) for _, f, t, b in x.log.tolist()]


def csvs(it):
    """it: spec, map, opts, nf, cases [(csv text, rows for the API)], stdin. Exact comparison of the verdict lines."""
    b = program(it["spec"], it["map"], it.get("opts", {}))
    leaves = nodes = 0
    for text, rows in it["cases"]:
        for stdin in it.get("stdin", (False,)):
            rc, out, err = clirun.run(EXE["plain"], b, text, stdin)
            got, other = clirun.stream(out)
            want = api_log(b, rows, it["nf"])
            leaves += 1; nodes += len(rows)
            if rc != 0 or other or got != want:
                k = next((i for i, (g, w) in enumerate(zip(got, want)) if g != w), min(len(got), len(want)))
                return dict(kind="trace file not read as written", spec=it["spec"], rc=rc, csv=repr(text)[:300], got=got[k:k + 2], expected=want[k:k + 2], other=other[:2], stdin=stdin, err=err.decode(errors="replace")[-200:]), nodes, leaves, True
    return None, nodes, leaves, True


def expected(f, bits, n):
    """Values of formula f at every step of one trace given as masks (None: open)."""
    A = [np.array([b], dtype=np.uint64) for b in bits]
    T, F = mltl.ev(f, A, n)
    return [True if int(T[0]) >> t & 1 else False if int(F[0]) >> t & 1 else None for t in range(n)]


def stamped(it):
    """Rows with explicit time stamps: the truth values must be those of the trace with the intermediate steps repeated."""
    b = program(it["spec"], it["map"], it.get("opts", {}))
    fs, na = it["fs"], it["na"]
    leaves = nodes = 0
    for rows in it["cases"]:
        text, bits, n = "# " + ",".join(f"a{i}" for i in range(na)) + "\n" if it.get("header", True) else "", [0] * na, 0
        for at, l in rows:
            end = n if at is None else at
            text += (f"@{at} " if at is not None else "") + ",".join(str(l >> i & 1) for i in range(na)) + "\n"
            for t in range(n, end + 1):
                for i in range(na): bits[i] |= (l >> i & 1) << t
            n = end + 1
        rc, out, err = clirun.run(EXE["plain"], b, text)
        v, other = clirun.stream(out)
        leaves += 1; nodes += len(rows)
        bad = dict(kind="exit status or output", rc=rc, other=other[:2]) if rc != 0 or other else None
        if not bad:
            try: got = clirun.truth(v, [str(i) for i in range(len(fs))])
            except (ValueError, KeyError) as e: bad = dict(kind="verdict stream broken", error=str(e))
        if not bad:
            for k, f in enumerate(fs):
                want = expected(f, bits, n)
                g = got[str(k)]
                w = mltl.wpd(f)
                if len(g) < n - w: bad = dict(kind="verdict missing", formula=mltl.c2po(f), decided=len(g), steps=n); break
                for t, x in enumerate(g[:n]):
                    if want[t] is None and t + w < n: raise common.CheckError("oracle")
                    if want[t] is not None and want[t] != x: bad = dict(kind="wrong verdict on a time-stamped trace", formula=mltl.c2po(f), time=t, got=x, expected=want[t]); break
                if bad: break
        if bad: return dict(bad, spec=it["spec"], csv=repr(text), opts=str(it.get("opts"))), nodes, leaves, True
    return None, nodes, leaves, True


BZF = [('>', I0, ('ci', 0)), ('F', 0, 2, ('==', I0, ('ci', 1))), ('G', 1, 2, ('<', I0, ('ci', 1))), ('U', 0, 2, ('>', I0, ('ci', 0)), ('==', I0, ('ci', 0))), ('==', ('prev', ('ci', 0), I0), I0), ('<', ('tau',), ('ci', 2))]


def stamped_values(it):
    """Time-stamped rows with value expressions. Where prev or TAU occur, the recorded defect (evaluated once per row) is told apart."""
    leaves = nodes = 0
    for f in BZF:
        spec = "INPUT i0: int;\nFTSPEC " + bz.show(f) + ";\n"
        b = program(spec, "i0:0\n", dict(bz=True))
        for rows in it["cases"]:
            text, vals, once = "", [], []
            for at, v in rows:
                end = len(vals) if at is None else at
                text += (f"@{at} " if at is not None else "") + f"{v}\n"
                n = end + 1 - len(vals)
                last = vals[-1] if vals else None
                once += [(end, last, v)] * n
                vals += [v] * n
            D = len(vals)
            E = bz.Ev({I0: np.array(vals, dtype=np.int64).reshape(D, 1)}, 1, D)
            atoms = []
            g = bz.split(f, atoms)
            bits = [sum(int(bool(E.at(a, t)[0])) << t for t in range(D)) for a in atoms]
            want = expected(g, bits, D)
            rc, out, err = clirun.run(EXE["plain"], b, text)
            v, other = clirun.stream(out)
            leaves += 1; nodes += len(rows)
            try: got = clirun.truth(v, ["0"])["0"]
            except (ValueError, KeyError) as e: return dict(kind="verdict stream broken", spec=spec, csv=repr(text), error=str(e)), nodes, leaves, True
            if rc != 0 or other: return dict(kind="exit status or output", rc=rc, other=other[:2], spec=spec, csv=repr(text)), nodes, leaves, True
            if len(got) < D - mltl.wpd(g): return dict(kind="verdict missing", spec=spec, csv=repr(text), decided=len(got), steps=D), nodes, leaves, True
            bad = [t for t in range(min(D, len(got))) if want[t] is not None and want[t] != got[t]]
            if bad:
                wrong = None
                if bz.has(f, 'prev'): wrong = [(0 if l is None else l) == v for _, l, v in once]
                elif bz.has(f, 'tau'): wrong = [e < 2 for e, _, _ in once]
                if wrong is not None and wrong == got: it["known"].add("timestamps:" + ("prev" if bz.has(f, 'prev') else "TAU"))
                else: return dict(kind="wrong verdict on a time-stamped trace", spec=spec, csv=repr(text), time=bad[0], got=got[bad[0]], expected=want[bad[0]]), nodes, leaves, True
    return (dict(kind="known", keys=sorted(it["known"])) if it["known"] else None), nodes, leaves, True


# numeric spellings: text -> value
BOOLS = {"0": 0, "1": 1, "00": 0, "01": 1, " 0": 0, " 1": 1, "0 ": 0, "1 ": 1, "  0": 0, "\t0": 0, "+0": 0, "+1": 1, "-0": 0, "0.0": 0, "1.0": 1, "0.": 0, ".0": 0, "2": 1, "-1": 1, "10": 1, "0e0": 0, "000": 0, "0.50": 1}
INTS = {"0": 0, "1": 1, "7": 7, "-7": -7, "+7": 7, "007": 7, " 7": 7, "7 ": 7, "  -7": -7, "2147483647": 2147483647, "-2147483648": -2147483648, "10": 10, "08": 8, "-0": 0, "100000": 100000}
FLOATS = {"0.0": 0.0, "1.0": 1.0, "1.5": 1.5, "-1.5": -1.5, "+1.5": 1.5, ".5": 0.5, "5.": 5.0, " 1.5": 1.5, "1.5 ": 1.5, "001.5": 1.5, "1.5e3": 1500.0, "1.5E-2": 0.015, "123456.789": 123456.789, "-0.25": -0.25, "0.1": 0.1, "1000000.0": 1e6}


def items13(thorough, seed):
    out = []
    o = [dict(), dict(rewrite=False), dict(extops=False), dict(cse=False)]
    # plain Boolean traces: all 0/1 traces, all layouts
    fs = [('a', 0), ('F', 0, 1, ('a', 1)), ('U', 0, 2, ('a', 0), ('a', 1)), ('!', ('a', 1))]
    ps = [('a', 1), ('S', 0, 2, ('a', 0), ('a', 1)), ('H', 1, 2, ('a', 0))]
    B = lambda c, v: (mon.BOOL, c, v)
    lay = [(h, e, f) for h in ("", "#a0,a1", "# a0, a1") for e in ("\n", "\r\n") for f in (True, False)]
    its = []
    for past, F in ((False, fs), (True, ps)):
        spec = comp.spec_of([mltl.c2po(f) for f in F], 2, past)
        for h, e, f in lay:
            cases = []
            for n in range(0, 5 if thorough else 4):
                for ls in itertools.product(range(4), repeat=n):
                    lines = ([h] if h else []) + [f"{l & 1},{l >> 1}" for l in ls]
                    cases.append((e.join(lines) + (e if f and lines else ""), [[B(0, l & 1), B(1, l >> 1)] for l in ls]))
            its.append(dict(spec=spec, map="a0:0\na1:1\n", opts={}, nf=len(F), cases=cases, stdin=(False, True)))
    out.append(("every 0/1 trace up to a length in every layout (header, line ends, last line)", csvs, its))
    # spellings of Boolean fields without the Booleanizer
    its = []
    spec = comp.spec_of(["a0", "a1", "a2", "F[0,1] a1"], 3)
    for e in ("\n", "\r\n"):
        cases = []
        for s, v in BOOLS.items():
            for c in range(3):
                for bg in (0, 1):
                    row = [str(bg)] * 3; row[c] = s
                    val = [bg] * 3; val[c] = int(v != 0)
                    cases.append((f"#a0,a1,a2{e}" + ",".join(row) + e + f"{1 - bg},{bg},{1 - bg}{e}", [[B(i, x) for i, x in enumerate(val)], [B(0, 1 - bg), B(1, bg), B(2, 1 - bg)]]))
        for a, b in itertools.product(BOOLS, repeat=2):
            cases.append((f"{a},{b},0{e}", [[B(0, int(BOOLS[a] != 0)), B(1, int(BOOLS[b] != 0)), B(2, 0)]]))
        its += [dict(spec=spec, map="a0:0\na1:1\na2:2\n", opts=dict(), nf=4, cases=cases[i::8]) for i in range(8)]
    out.append(("every spelling of a Boolean field in every column", csvs, its))
    # spellings with the Booleanizer
    its = []
    nums = sorted({v for v in INTS.values()}); fl = sorted({v for v in FLOATS.values()})
    body = [f"i0 == ({v})" if v < 0 else f"i0 == {v}" for v in nums] + [f"x0 == ({bz.lit(('cf', v))})" if v < 0 else f"x0 == {bz.lit(('cf', v))}" for v in fl] + ["p0", "x0 > 0.5", "i0 < 3", "prev(0, i0) == i0"]
    spec = "INPUT\n  i0: int;\n  x0: float;\n  p0: bool;\nFTSPEC\n" + "".join(f"  {b};\n" for b in body)
    BB = {k: v for k, v in BOOLS.items() if v in (0, 1) and "." not in k and "e" not in k and not k.startswith(("2", "-1", "10"))}
    for e in ("\n", "\r\n"):
        for perm in itertools.permutations(range(3)):
            m = f"i0:{perm[0]}\nx0:{perm[1]}\np0:{perm[2]}\n"
            def row(i, x, p):
                r = [None] * 3; r[perm[0]], r[perm[1]], r[perm[2]] = i, x, p
                return ",".join(r) + e, [(mon.INT, perm[0], INTS[i]), (mon.FLOAT, perm[1], FLOATS[x]), (mon.INT, perm[2], BB[p])]
            cases = []
            rows = [row(i, "0.0", "0") for i in INTS] + [row("0", x, "1") for x in FLOATS] + [row("1", "1.5", p) for p in BB]
            for j, r in enumerate(rows): cases.append((r[0] + rows[(j * 5 + 1) % len(rows)][0], [r[1], rows[(j * 5 + 1) % len(rows)][1]]))
            if thorough or perm in ((0, 1, 2), (2, 0, 1)):
                for i, x, p in itertools.product(list(INTS)[::1 if thorough else 2], list(FLOATS)[::1 if thorough else 3], list(BB)[::1 if thorough else 4]):
                    t, r = row(i, x, p); cases.append((t, [r]))
            its += [dict(spec=spec, map=m, opts=dict(bz=True), nf=len(body), cases=cases[i::4]) for i in range(4)]
    out.append(("every spelling of integer, float and Boolean fields with the Booleanizer", csvs, its))
    # wide files
    its = []
    for n in (1, 8, 64, 255, 256):
        spec = f"INPUT\n  " + ",".join(f"s{i}" for i in range(n)) + ": bool;\nFTSPEC\n" + f"  s{n - 1};\n  s0;\n  s{n // 2};\n"
        m = "".join(f"s{i}:{i}\n" for i in range(n))
        cases = []
        for hdr in ("#" + ",".join(f"s{i}" for i in range(n)) + "\n", "#" + ",".join(("s%d" % i).ljust(34, "x") for i in range(n)) + "\n", "#" + "c" * 9000 + "\n", "#" + "c" * 20000 + "\n", ""):
            for k in range(0, n, max(1, n // 12)):
                r = lambda z: [int(j == k) ^ z for j in range(n)]
                cases.append((hdr + "".join(",".join(map(str, r(z))) + "\n" for z in (0, 1)), [[B(j, v) for j, v in enumerate(r(z))] for z in (0, 1)]))
        cases.append(("".join(",".join([s] * n) + "\n" for s in ("1" + "." + "0" * 24, "0." + "0" * 24)), [[B(j, v) for j in range(n)] for v in (1, 0)]))
        its.append(dict(spec=spec, map=m, opts=dict(), nf=3, cases=cases))
    out.append(("wide rows and long headers", csvs, its))
    # columns that the specification does not use
    its = []
    spec = comp.spec_of(["a0", "F[0,1] a1"], 2)
    for extra in range(0, 5):
        for pos in itertools.permutations(range(2 + extra), 2) if extra < 3 else [(extra, 1), (0, extra + 1), (2, 3)]:
            cases = []
            for ls in itertools.product(range(4), repeat=2):
                for fill in "01":
                    rows = []
                    for l in ls:
                        r = [fill] * (2 + extra); r[pos[0]], r[pos[1]] = str(l & 1), str(l >> 1)
                        rows.append(",".join(r))
                    cases.append(("\n".join(rows) + "\n", [[B(pos[0], l & 1), B(pos[1], l >> 1)] for l in ls]))
            its.append(dict(spec=spec, map=f"a0:{pos[0]}\na1:{pos[1]}\n", opts={}, nf=2, cases=cases))
    out.append(("columns that no formula uses", csvs, its))
    # time stamps
    its = []
    A, Bq = ('a', 0), ('a', 1)
    lib = [A, ('!', Bq), ('&', A, Bq), ('<->', A, Bq), ('F', 0, 2, A), ('G', 1, 3, Bq), ('U', 0, 3, A, Bq), ('R', 1, 2, A, Bq), ('G', 0, 1, ('F', 0, 2, A)), ('U', 1, 4, ('F', 0, 1, A), Bq), ('&', ('F', 2, 3, A), ('!', Bq)), ('<->', ('G', 0, 4, A), ('F', 1, 1, Bq))]
    pib = [A, ('O', 0, 2, A), ('H', 1, 3, Bq), ('S', 0, 3, A, Bq), ('T', 1, 2, A, Bq), ('H', 0, 1, ('O', 0, 2, A)), ('S', 1, 4, ('O', 0, 1, A), Bq), ('&', ('O', 2, 3, A), ('!', Bq)), ('<->', ('H', 0, 4, A), ('O', 1, 1, Bq)), ('O', 2, 2, A)]
    gaps = (None, 0, 1, 2, 4)
    def seqs(n):
        for gs in itertools.product(gaps, repeat=n):
            for ls in itertools.product(range(4), repeat=n):
                t, rows = -1, []
                for g, l in zip(gs, ls):
                    if g is None: t += 1; rows.append((None, l))
                    else: t += 1 + g; rows.append((t, l))
                yield rows
    S3 = list(itertools.chain.from_iterable(seqs(n) for n in (1, 2, 3)))
    S4 = list(seqs(4)) if thorough else fam.take(seqs(4), 1500, seed)
    for past, Ls in ((False, lib), (True, pib)):
        spec = comp.spec_of([mltl.c2po(f) for f in Ls], 2, past)
        C = S3 + S4
        n = max(1, len(C) // 64)
        for i in range(0, len(C), 256): its.append(dict(spec=spec, map="a0:0\na1:1\n", opts={}, fs=Ls, na=2, cases=C[i:i + 256]))
        for f in Ls:
            its.append(dict(spec=comp.spec_of([mltl.c2po(f)], 2, past), map="a0:0\na1:1\n", opts={}, fs=[f], na=2, cases=fam.take(S3, 400 if thorough else 60, seed)))
    out.append(("every arrangement of time-stamped and plain rows", stamped, its))
    C = [[(t, (0, 1, 2)[l % 3]) for t, l in r] for r in S3 if all(l < 3 for _, l in r)]
    out.append(("time-stamped rows with value expressions", stamped_values, [dict(cases=C[i:i + 64] if thorough else C[i:i + 64][::3], known=set()) for i in range(0, len(C), 64)]))
    return out


def trace_files(chk):
    prepare()
    chk.assumptions = ["A float field has a decimal point (the reader documents this); fields are separated by commas and lie within a line of the reader's buffer.",
                       "Row files are compared verdict line by verdict line with the monitor driven through its API; time-stamped rows with the reference evaluation of the expanded trace."]
    for name, fn, its in items13(common.THOROUGH, common.SEED):
        if chk.nviol >= 3: break
        sweep_multi(chk, name, its, fn, 1.0, chunk=1)
    return chk.finish()


# ---- P14 ---------------------------------------------------------------------------------------------------------------
VALS14 = {'p': (False, True), 'i': (0, 1), 'x': (0.25, 0.75)}


def subst(e, m):
    if e in m: return m[e]
    return tuple(subst(x, m) if isinstance(x, tuple) else x for x in e)


def bound(it):
    """it: decl, names {signal: text}, forms, past, D, cases [(map or None, trace header or None, {signal: column} or None)].
    None: the compiler has to refuse."""
    nodes = leaves = 0
    for mtext, ttext, cols in it["cases"]:
        spec = it["decl"] + ("PTSPEC\n" if it.get("past") else "FTSPEC\n") + "".join("  " + bz.show(f, True, it["names"]) + ";\n" for f in it["forms"])
        c = comp.cli(spec, map_text=mtext, trace_text=ttext, **it.get("opts", {}))
        where = dict(map=mtext, trace=ttext, spec=spec)
        if "unexpected error" in c.err + c.out: return dict(kind="internal error", err=(c.err + c.out)[:300], **where), nodes, leaves, True
        if cols is None:
            if c.exc or c.binary is not None or c.rc in (0, None): return dict(kind="accepted although a signal has no column" if not c.exc else "internal error", rc=c.rc, exc=c.exc, **where), nodes, leaves, True
            leaves += 1
            continue
        if not c.ok: return dict(kind="not compiled", rc=c.rc, exc=c.exc, err=(c.err + c.out)[:300], **where), nodes, leaves, True
        used = sorted({(s[0], cols[s]) for f in it["forms"] for s in bz.signals(f)}, key=lambda s: s[1])
        fs = [subst(f, {s: (s[0], k) for s, k in cols.items()}) for f in it["forms"]]
        vals = bz.product(used, VALS14)
        e, x = bz.explore(c.binary, used, vals, it["D"], fs, idmap={s: s[1] for s in used})
        nodes += x.nodes; leaves += x.nleaf
        if e: return dict(e, **where), nodes, leaves, True
    return None, nodes, leaves, True


def header(cols, pad="", extra=None, tail="0\n"):
    """Header row naming each signal at its column; unused columns get other names."""
    n = max(cols.values()) + 1 + (1 if extra else 0)
    row = [f"unused{k}" if extra != "near" else f"{list(cols)[0]}{k}x" for k in range(n)]
    for s, k in cols.items(): row[k] = s
    return "#" + pad + ("," + pad).join(row) + "\n" + ",".join(["0"] * n) + "\n"


def items14(thorough, seed):
    out = []
    ps = [P0, P1, P2]
    forms = [P0, ('U', 0, 2, P1, P2), ('->', ('F', 0, 1, P2), P0), ('&&', ('!', P1), P0)]
    hist = [P0, ('S', 0, 2, P1, P2), ('->', ('O', 0, 1, P2), P0), ('&&', ('!', P1), P0)]
    def make(decl, names, sigs, forms, D, opts, past=False, ncol=5, perms=None):
        base = dict(decl=decl, names=names, forms=forms, D=D, opts=opts, past=past)
        nm = [names[s] for s in sigs]
        cases = []
        for i, cs in enumerate(itertools.product(range(ncol if len(sigs) < 4 else len(sigs)), repeat=len(sigs))):
            if len(sigs) > 3 and len(set(cs)) < len(sigs) - 1: continue
            kinds = {}
            if any(kinds.setdefault(c, s[0]) != s[0] for c, s in zip(cs, sigs)): continue
            cols = dict(zip(sigs, cs))
            lines = [f"{n}:{c}" for n, c in zip(nm, cs)]
            orders = list(itertools.permutations(range(len(sigs))))
            o = orders if perms is None else [orders[i % len(orders)]]
            for p in o:
                ls = [lines[k] for k in p]
                style = (i + sum(p)) % 6
                if style == 1: ls = ["zz:9"] + ls + [nm[0] + "x:7", "q_1:0"]
                if style == 2: ls = [l.replace(":", " : ") for l in ls]
                if style == 3: ls = ls[:1] + ["other:1"] + ls[1:]
                cases.append(("\n".join(ls) + ("\n" if style != 4 else ""), None, cols))
            if len(set(cs)) == len(sigs):
                h = dict(zip(nm, cs))
                for j, hd in enumerate((header(h), header(h, " "), header(h, "", True), header(h, "", "near"))):
                    cases.append((None, hd, cols))
                if max(cs) < len(sigs):
                    # a name again in a later column: the right-most column counts
                    row = [None] * len(sigs)
                    for n_, c_ in h.items(): row[c_] = n_
                    cases.append((None, "#" + ",".join(row + [nm[i % len(nm)]]) + "\n" + ",".join(["0"] * (len(sigs) + 1)) + "\n", {**cols, sigs[i % len(nm)]: len(sigs)}))
                # both given: the map decides
                other = dict(zip(nm, [(c + 1) % len(sigs) if max(cs) < len(sigs) else c for c in cs]))
                cases.append(("\n".join(lines) + "\n", header(other) if len(set(other.values())) == len(sigs) else header(h), cols))
        for k in range(len(sigs)):
            short = {n: j for j, n in enumerate(nm) if j != k}
            if not any(sigs[k] in bz.signals(f) for f in forms): continue
            cases.append(("".join(f"{n}:{j}\n" for n, j in short.items()) or "zz:0\n", None, None))
            cases.append(("".join(f"{n}:{j}\n" for n, j in short.items()) + nm[k] + "x:0\n", None, None))
            if short: cases.append((None, header(short), None))
        return [dict(base, cases=cases[i::8]) for i in range(8)]
    d3 = "INPUT\n  a,b,ab: bool;\n"
    names = {P0: "a", P1: "b", P2: "ab"}
    its = make(d3, names, ps, forms, 4, dict(), ncol=4) + make(d3, names, ps, hist, 4, dict(), past=True, ncol=4) + make(d3, names, ps, forms, 4, dict(bz=True), ncol=4 if thorough else 3, perms=1)
    its += make("INPUT\n  ab: bool;\n  b: bool;\n  a: bool;\n", names, ps, forms[::-1], 4, dict(rewrite=False, cse=False), ncol=4, perms=1)
    out.append(("every assignment of three Boolean signals to columns", bound, its))
    mixed = [('>', I0, ('ci', 0)), ('<', X0, ('cf', 0.5)), P0, ('F', 0, 1, ('&&', P0, ('==', I0, ('ci', 0)))), ('==', ('+', I0, I1), ('ci', 1)), ('>=', I1, I0), ('&&', ('>', X0, ('cf', 0.5)), ('!=', I1, ('ci', 0)))]
    nmix = {I0: "i0", X0: "x", P0: "p", I1: "i"}
    its = make("INPUT\n  i0,i: int;\n  x: float;\n  p: bool;\n", nmix, [I0, X0, P0, I1], mixed, 3, dict(bz=True), perms=1)
    out.append(("every assignment of integer, float and Boolean signals to columns", bound, its))
    # arrays
    its = []
    for n in (2, 3, 11, 12, 30, 101):
        names = {('p', k): f"A[{k}]" for k in range(n)}; names[('p', n)] = "b"
        F = [('p', 0), ('p', n - 1), ('U', 0, 1, ('p', n // 2), ('p', n - 1)), ('&&', ('p', n), ('!', ('p', 1)))]
        used = sorted({s[1] for f in F for s in bz.signals(f)})
        decl = f"INPUT\n  A: bool[{n}];\n  b: bool;\n"
        cases = []
        for off in (0, 1, 5, 100):
            sl = {('p', k): k + off for k in range(n)}
            if off: cases.append((f"A[0..{n - 1}]:{off}\nb:0\n", None, {**sl, ('p', n): 0}))
            cases.append((f"b:{n + off}\nA[0..{n - 1}]:{off}\n", None, {**sl, ('p', n): n + off}))
            cases.append(("".join(f"A[{k}]:{k + off}\n" for k in range(n)) + f"b:{n + off}\n", None, {**sl, ('p', n): n + off}))
            cases.append(("".join(f"A[{k}]:{off + n - k}\n" for k in reversed(range(n))) + f"b:{off}\n", None, {**{('p', k): off + n - k for k in range(n)}, ('p', n): off}))
            for cut in {1, n // 2, n - 1, min(10, n - 1)} - {0}:
                m = {('p', k): off + 50 + k for k in range(cut)}; m.update({('p', k): off + k - cut for k in range(cut, n)}); m[('p', n)] = off + 120
                cases.append((f"A[{cut}..{n - 1}]:{off}\nb:{off + 120}\nA[0..{cut - 1}]:{off + 50}\n", None, m))
                # one index again, later: the latest value counts
                m2 = dict(m); m2[('p', n - 1)] = off + 121
                cases.append((f"A[{cut}..{n - 1}]:{off}\nb:{off + 120}\nA[0..{cut - 1}]:{off + 50}\nA[{n - 1}]:{off + 121}\n", None, m2))
        hs = [f"A[{k}]" for k in range(n)] + ["b"]
        for r in range(0, n + 1, max(1, n // 4)):
            row = hs[r:] + hs[:r]
            cases.append((None, "#" + ", ".join(row) + "\n" + ",".join(["0"] * len(row)) + "\n", {('p', k): row.index(h) for k, h in enumerate(hs)}))
        cases.append((f"A[0..{n - 2}]:0\nb:{n}\n", None, None))
        its += [dict(decl=decl, names=names, forms=F, D=3, opts=o, cases=cases) for o in (dict(), dict(bz=True))]
    out.append(("arrays: single indices, slices and headers", bound, its))
    # every sequence of map lines over an alphabet: the latest line that names a signal counts
    def lines():
        for a, b in ((0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)):
            for c in (0, 2): yield (f"A[{a}]:{c}" if a == b and c else f"A[{a}..{b}]:{c}"), {('p', k): c + k - a for k in range(a, b + 1)}
        for c in (1, 5): yield f"b:{c}", {('p', 3): c}
        yield "other:3", {}
    names = {('p', k): f"A[{k}]" for k in range(3)}; names[('p', 3)] = "b"
    F = [('p', 0), ('p', 1), ('p', 2), ('p', 3)]
    cases = []
    for n in (1, 2, 3):
        for seq in itertools.product(list(lines()), repeat=n):
            m = {}
            for _, d in seq: m.update(d)
            # without the missing ones the compiler has to refuse; complete the scalar so that most are complete
            t = [l for l, _ in seq]
            if ('p', 3) not in m: t.insert(len(cases) % (n + 1), "b:6"); m[('p', 3)] = 6
            cases.append(("\n".join(t) + "\n", None, m if len(m) == 4 else None))
    full, rej = [c for c in cases if c[2]], [c for c in cases if not c[2]]
    cases = full + (rej if thorough else rej[::7])
    decl = "INPUT\n  A: bool[3];\n  b: bool;\n"
    out.append(("every sequence of up to three map lines", bound, [dict(decl=decl, names=names, forms=F, D=1, opts=dict(), cases=cases[i::16]) for i in range(16)]))
    far = []
    for c in itertools.product((0, 1, 127, 128, 254, 255), repeat=2):
        if c[0] != c[1]: far.append((f"a:{c[0]}\nb:{c[1]}\n", None, {P0: c[0], P1: c[1]}))
    out.append(("columns up to the last one", bound, [dict(decl="INPUT\n  a,b: bool;\n", names={P0: "a", P1: "b"}, forms=[P0, ('U', 0, 1, P0, P1)], D=3, opts=o, cases=far) for o in (dict(), dict(bz=True))]))
    return out


def signal_maps(chk):
    prepare()
    chk.assumptions = ["Maps and headers that name every signal of the formulas; repeated columns only for signals of one type.",
                       "Columns not named for a signal of the formulas are never loaded in the exploration; P13 fills unused columns with values."]
    for name, fn, its in items14(common.THOROUGH, common.SEED):
        if chk.nviol >= 3: break
        sweep_multi(chk, name, its, fn, 1.0, chunk=1)
    return chk.finish()
