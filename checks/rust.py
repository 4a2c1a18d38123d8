"""P28-P30: the Rust monitor. P28: verdicts against MLTL semantics. P29: values of atomic propositions and reports of overflow.
P30: update_binary_file and reset against a fresh monitor."""
import re, subprocess
import numpy as np
from lib import common, comp, clirun, mon, sweep, bz, families as fam
import ltl, bzc, multi, cliout, memory
from bzc import I0, I1, X0

ASSUME = ["The crate r2u2_core is compiled from the working tree with rustc. The crates it depends on (vstd, const_env, libm, byteorder) are not installed; "
          "lib/rust has stand-ins with the functions it uses (the specification syntax of Verus is stripped).",
          "The monitor runs in process, driven through its public functions."]
KINDS = ("wrong verdict", "crash", "verdict", "specification rejected", "step ")


def verdicts(chk):
    """Families of P01-P04 on the Rust monitor; every second program of the large families (quick tier)."""
    sweep.prepare("rust")
    chk.assumptions = ASSUME + ["Deadlines are the worst-case reach of the written formula; past-time formulas must be decided in the same step."]
    T, seed = common.THOROUGH, common.SEED
    fams = [(f"{'past' if past else 'future'}: {n}", its, fr) for past in (False, True) for n, its, fr in ltl.items(past, T, seed)]
    fams += [("streams: " + n, its, fr) for n, its, fr in ltl.stream_items(T, seed)]
    for k, (name, its, frac) in enumerate(fams):
        if chk.nviol >= 3: break
        if not T and len(its) > 600: its = its[k % 3::3] if name.startswith("streams") else its[k % 2::2]
        its = [dict(it, variant="rust", deadlines=1, order=True) for it in its]
        sweep.sweep_all(chk, name, its, KINDS, min(1.0, frac))
    return chk.finish()


EXT = {'i': (-2147483648, -2147483647, -1073741825, -65536, -46341, -3, -2, -1, 0, 1, 2, 3, 46341, 65536, 1073741824, 2147483646, 2147483647)}
EXT2 = {'i': (-2147483648, -46341, -2, -1, 0, 1, 3, 65536, 2147483647)}


def over_items(T):
    out = []
    ops = ('+', '-', '*', '/', '%')
    one = [(u, I0) for u in ('neg', 'abs', '~')] + [(o, x, y) for o in ops for x, y in ((I0, I1), (I0, ('ci', 3)), (I0, ('ci', -1)), (('ci', -2147483648), I1), (('ci', 2147483647), I1), (I0, ('ci', 65536)))]
    one += [('pow', I0, ('ci', n)) for n in (0, 1, 2, 3, 4, 5, 30, 31, 32, 33)]
    val = lambda e: [('==', e, ('ci', v)) for v in (2147483647, -2147483648, 0, -1)] + [('<', e, I1)]
    o = lambda k: [dict(rewrite=False), dict(rewrite=False, cse=False)][k % 2]
    out.append(("one operator, overflow included", [dict(forms=val(e), sigs=[I0, I1], vals=EXT, D=1, overflow=True, opts=o(k), variant="rust") for k, e in enumerate(one)] +
                [dict(forms=[('==', e, I0)], sigs=[I0, I1] if I1 in bz.signals(e) else [I0], vals=EXT2, D=2, overflow=True, opts=o(k), variant="rust") for k, e in enumerate(one)]))
    two = [f for f in bzc.ints(2, [I0, I1, ('ci', 2147483647)], pw=(2, 3))[2] if bz.signals(f)]
    two = two if T else two[::3]
    n = 3
    out.append(("two operators, overflow included", [dict(forms=[('<', e, ('ci', 1)) for e in two[i:i + n]], sigs=[I0, I1], vals=EXT2, D=1, overflow=True, opts=o(i // n), variant="rust") for i in range(0, len(two), n)]))
    it = []
    for i, x in enumerate(one):
        for j, y in enumerate(one[::3]):
            it.append(dict(forms=[('&&', ('<', x, ('ci', 7)), ('>=', y, ('ci', 0))), ('F', 0, 1, ('==', I0, I1))], sigs=[I0, I1], vals=EXT2, D=1, overflow=True, opts=o(i + j), past=False, variant="rust"))
    out.append(("two operations side by side", it))
    hist = [dict(forms=[('==', ('prev', ('ci', 2147483647), ('+', I0, ('ci', 1))), ('*', I0, I0))], sigs=[I0], vals={'i': (-65536, -1, 0, 2147483647)}, D=4, overflow=True, stateful=True, opts=o(k), variant="rust") for k in range(2)]
    hist += [dict(forms=[('<', ('-', I0, ('prev', ('ci', c), I0)), ('ci', 0)), ('==', ('neg', I0), I0)], sigs=[I0], vals={'i': (-2147483648, -1, 0, 2147483647)}, D=4, overflow=True, stateful=True, opts=o(c), variant="rust") for c in (0, 1)]
    hist += [dict(forms=[('<', ('*', TAU, I0), ('ci', 5))], sigs=[I0], vals={'i': (-2147483648, -1, 2147483647)}, D=4, overflow=True, stateful=True, opts=o(0), variant="rust")]
    out.append(("overflow in some steps of a run", hist))
    return out


TAU = ('tau',)


def values(chk):
    sweep.prepare("rust")
    T, seed = common.THOROUGH, common.SEED
    chk.assumptions = ASSUME + ["Integers saturate; the report of overflow concerns all integer operations of the step, division by zero included (whose result is 0).",
                                "Floats within R2U2_FLOAT_EPSILON of each other are equal; differences close to it, not-a-number comparisons and negative integer exponents are left out.",
                                "The overflow families are compiled without rewriting: which operations the compiler may remove is not part of this property."]
    for name, its in over_items(T):
        if chk.nviol >= 3: break
        bzc.sweep_bz(chk, name, its)
    for k, (name, its, frac) in enumerate(bzc.items08(T, seed) + bzc.items09(T, seed)):
        if chk.nviol >= 3: break
        if not T and len(its) > 120: its = its[k % 2::2]
        bzc.sweep_bz(chk, name, [dict(it, variant="rust") for it in its], frac)
    return chk.finish()


def reloads(chk):
    sweep.prepare("rust")
    multi.programs()
    chk.assumptions = ASSUME + ["Twelve programs cover every instruction of the monitor, both sections, previous values and the step counter.",
                                "soft and hard reset are reset(), clock reset is clock_reset()."]
    for name, its, frac in multi.items11(common.THOROUGH, common.SEED):
        if chk.nviol >= 3: break
        multi.sweep_multi(chk, name, [dict(it, variant="rust") for it in its], multi.reload_, frac, chunk=1)
    return chk.finish()


# ---- P31 ----------------------------------------------------------------------------------------------------------
FEATURES = {"plain": (), "aux": ("aux_string_specs",), "debug": ("debug_print_std",), "aux_debug": ("aux_string_specs", "debug_print_std")}
EXE = {}


def drive(exe, binary, sigs, traces, names=False):
    """Output of the driver for every trace (list of texts), or a description of the failure."""
    d = comp.tmpdir()
    b, t = d / "r.bin", d / "r.csv"
    b.write_bytes(binary)
    t.write_text("\n".join(cliout.csv_of(sigs, rows) for rows in traces))
    p = subprocess.run([str(EXE[exe]), str(b), str(t)] + (["names"] if names else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    if p.returncode: return f"exit status {p.returncode}: {p.stderr.decode(errors='replace')[-300:]}"
    parts = re.split(r"^-\n", p.stdout.decode(), flags=re.M)
    return parts[:-1] if len(parts) == len(traces) + 1 else f"{len(parts) - 1} traces"


def reports(it):
    """it as in cliout.channels: every variant of the Rust monitor, names and numbers, for every trace."""
    sigs, D = it["sigs"], it["D"]
    spec, labels = bz.decl(sigs), []
    for past, fs in it["parts"]:
        spec += "PTSPEC\n" if past else "FTSPEC\n"
        for l, f in fs:
            spec += f"  {(l + ': ') if l else ''}{bz.show(f)};\n"
            labels.append(l)
    o = dict(dict(bz=any(s[0] != 'p' for s in sigs)), **it.get("opts", {}))
    bins = {aux: comp.cli(spec, map_text=bz.sig_map(sigs), aux=aux, **o) for aux in (True, False)}
    for c in bins.values():
        if not c.ok: return dict(kind="not compiled", rc=c.rc, exc=c.exc, err=(c.err + c.out)[:300], spec=spec), 0, 0, True
    traces = it.get("rows") or cliout.rows_of(sigs, D)
    refs = [cliout.log_of("rust", bins[True].binary, sigs, rows, len(labels)) for rows in traces]
    n = sum(len(r) for r in traces)
    names = {}
    for exe in EXE:
        for aux in (True, False):
            outs = drive(exe, bins[aux].binary, sigs, traces, True)
            if isinstance(outs, str): return dict(kind="monitor failed", variant=exe, aux_data=aux, what=outs, spec=spec), n, len(traces), True
            for rows, ref, out in zip(traces, refs, outs):
                where = dict(variant=exe, aux_data=aux, spec=spec, rows=rows)
                if isinstance(ref, str): return dict(kind=ref, **where), n, len(traces), True
                v, other = clirun.stream(out.encode())
                if other: return dict(kind="unexpected line", line=other[0], **where), n, len(traces), True
                got = [(int(x.split("|")[0]), t, b) for x, t, b in v]
                if got != ref:
                    k = next((i for i, (x, y) in enumerate(zip(got, ref)) if x != y), min(len(got), len(ref)))
                    return dict(kind="variants differ", got=got[k:k + 2], plain=ref[k:k + 2], **where), n, len(traces), True
                for x, _, _ in v:
                    f, name = x.split("|", 1)
                    f = int(f)
                    want = "" if not (aux and "aux" in exe) else labels[f]
                    if want is None: want = names.setdefault(f, name)
                    if name != want: return dict(kind="verdict under the wrong name", formula=f, name=name, expected=want, **where), n, len(traces), True
    if len(set(names.values()) | {l for l in labels if l}) != len(names) + sum(1 for l in labels if l): return dict(kind="two formulas under one name", names=str(names), spec=spec), n, len(traces), True
    return None, n, len(traces), True


def agc(it):
    """it as in cliout.contracts, run by the Rust monitor."""
    cliout.EXE["aux"] = EXE["aux"]
    return cliout.contracts(it)


def hundred():
    """Numbers of up to three digits."""
    a, b = cliout.P0, cliout.P1
    sig, F = [a, b], [lambda i: ('F', 0, i, b), lambda i: ('G', 0, i, a), lambda i: ('F', i, i, a)]
    g = lambda past: cliout.past_of if past else (lambda z: z)
    rows = [[[bool((t * 5 + k) % 3), bool((t + k) % 4 == 0)] for t in range(n)] for n in (1, 2, 124) for k in range(2)]
    row = lambda past, n, off=0: [((f"n{i}" if (i + off) % 4 else None), g(past)(F[(i + off) % 3](i))) for i in range(n)]
    fs = [dict(sigs=sig, parts=p, D=0, rows=rows) for p in ([(False, row(False, 122))], [(True, row(True, 112, 1))], [(True, row(True, 60)), (False, [(f"m{i}", f) for i, (_, f) in enumerate(row(False, 58, 2))])])]
    cs = []
    for past in (False, True):
        h = g(past)
        plain = [("f", f"n{i}", h(F[i % 3](i % 16))) for i in range(95)]
        ag = [("c", f"c{j}", h(x), h(y)) for j, (x, y) in enumerate([(a, ('F', 0, 1, b)), (b, ('G', 0, 2, a)), (('F', 0, 3, b), a), (('G', 0, 1, a), ('F', 0, 4, b))])]
        for items in (plain + ag, ag[:2] + plain + ag[2:], [("c", f"k{i}", h(a), h(('F', 0, i % 20, b))) for i in range(39)]):
            cs.append(dict(past=past, sigs=sig, D=0, rows=rows[:3] + [r[:56] for r in rows[4:]], items=items))
    return fs, cs


def named(chk):
    for v, f in FEATURES.items(): EXE[v] = common.build_rust(features=f, exe=True)
    sweep.prepare("rust")
    chk.assumptions = ASSUME + ["The crates fixedstr and libc-print have stand-ins, too. The monitor is built with and without each of the features aux_string_specs and debug_print_std, "
                                "behind a driver that loads the signals as strings, as r2u2_cli does.",
                                "A contract report that stands for several steps is accepted when the status holds at each of them."]
    fs, cs = hundred()
    for name, its in [("more than a hundred formulas", fs)] + cliout.items27(common.THOROUGH, common.SEED):
        if chk.nviol >= 3: break
        multi.sweep_multi(chk, name, its, reports, 1.0, chunk=1)
    for name, its in [("contracts of formulas with numbers above a hundred", cs)] + cliout.items21(common.THOROUGH, common.SEED):
        if chk.nviol >= 3: break
        multi.sweep_multi(chk, name, its, agc, 1.0, chunk=1)
    return chk.finish()


# ---- P32 ----------------------------------------------------------------------------------------------------------
SETTING = re.compile(r'^(\w+) = \{ value = "([^"]*)", force = true \}$', re.M)


def sufficient(it):
    o = dict(it.get("opts") or {})
    c = comp.cli(it["spec"], map_text=it["map"], trace_text=it.get("trace"), bounds=".toml", **o)
    if not c.ok:
        if it.get("mayrefuse") and not c.exc: return None, 0, 0, False
        return dict(kind="not compiled", rc=c.rc, exc=c.exc, err=(c.err + c.out)[-300:]), 0, 0, False
    if not c.console: return dict(kind="no bounds written", err=(c.err + c.out)[-300:]), 0, 0, False
    env = dict(SETTING.findall(c.console))
    bad = [l for l in c.console.splitlines() if l.strip() and not l.startswith("#") and l != "[env]" and not SETTING.match(l)]
    if bad: return dict(kind="bounds file is not as documented", line=bad[0]), 0, 0, False
    aux = ("aux_string_specs",)
    try: so = common.build_rust(env=env, features=aux, opt=0, tmp=True, checked=True)
    except common.CheckError as e: return dict(kind="monitor does not build with the generated bounds", err=str(e)[-600:], bounds=c.console), 0, 0, False
    S = mon.Server(so)
    try:
        x = memory.tree(it, S, c.binary)
        err = S.lasterr if x.status in (3, 4, 7) else ""
    finally:
        S.close()
        so.unlink()
    if x.status: return dict(kind=x.why, path=x.path, formula=x.formula, time=x.time, err=err[-700:], bounds=c.console), x.nodes, 0, True
    if "ample" not in EXE: EXE["ample"] = mon.Server(AMPLE[0])
    y = memory.tree(it, EXE["ample"], c.binary)
    if y.status: return dict(kind="ample bounds: " + y.why, path=y.path), x.nodes, 0, True
    if not np.array_equal(x.leaves, y.leaves):
        i, k = [int(a[0]) for a in np.nonzero((x.leaves != y.leaves).reshape(x.nleaf, it["nf"], -1).any(axis=2))]
        return dict(kind="other verdicts than with ample bounds", formula=k, leaf=i, got=x.leaves[i, k].tolist(), expected=y.leaves[i, k].tolist(), bounds=c.console), x.nodes, 0, True
    return None, x.nodes, x.nleaf, True


AMPLE = []


def bounds(chk):
    T = common.THOROUGH
    AMPLE.append(common.build_rust(env=dict(R2U2_MAX_SIGNALS="4096", R2U2_MAX_ATOMICS="4096"), features=("aux_string_specs",), checked=True))
    its = [dict(it, str="1") for it in memory.items(T, common.SEED)]
    # formulas whose verdicts of several steps come at once
    late = ["p0 && F[0,%d] p1", "!(p0 -> G[0,%d] p1)", "(F[0,%d] p1) <-> p0", "p0 && (p1 U[0,%d] p0)", "(p0 && F[0,%d] p1) || G[1,1] p1", "F[1,%d] p1 <-> G[0,1] p0"]
    many = []
    for k in (2, 4, 6) if T else (4, 5):
        for i, f in enumerate(late):
            f %= k
            for spec, nf in ((f"FTSPEC\n {f};\n", 1), (f"FTSPEC\n c: {f} => !({f});\n", 3), (f"FTSPEC\n {f};\n c: {f} => p1 || {f};\n p0;\n", 5)):
                many.append(memory.B("INPUT p0, p1: bool;\n" + spec, "p0:0\np1:1\n", [('p', 0), ('p', 1)], nf, 8 if T else 7, opts=dict(rewrite=bool(i % 2), cse=bool(k % 2)), extra=False))
    memory.report(chk, "many verdicts at once", many, sufficient, 0.5)
    memory.report(chk, "explored", its, sufficient, 0.9)
    chk.cov["bounds"] = "one to 40 formulas, intervals up to 128, sparse signal maps up to column 255, complete input trees to depth 3-5, block traces up to 210 steps"
    chk.assumptions = ASSUME + ["The monitor is built with the settings of the generated config.toml in the environment, as cargo does, with auxiliary strings and arithmetic checks.",
                                "Columns no signal is bound to may be loaded by the caller (trace files may have more columns)."]
    return chk.finish()
