"""P22: every bounded sequence of compiler commands in one console session, explored as a state graph."""
import hashlib, re, time
from lib import common, mltl, comp, sweep, mon, pool, bz, session, families as fam

P0, P1, P2, I0 = ('p', 0), ('p', 1), ('p', 2), ('i', 0)
A = """INPUT p0,p1,p2: bool;
DEFINE d := p0 && p1; e := d || p2;
FTSPEC
  f1: d && e;
  F[0,2] (p1 && p0 && p2);
  c: p0 => G[0,1] p1;
  (p0 R[0,2] p1) -> d;
PTSPEC
  H[0,1] (p0 -> p2);
"""
B = """STRUCT S1: { b: bool[2]; n: int; };
ENUM E1: {LO, HI};
INPUT p0, p1: bool; i0: int; m0: E1;
DEFINE s := S1({p0, p1}, i0); v := i0 + 1;
FTSPEC
  foreach(k: s.b)(k) || v > 1;
  u: F[0,1] (s.n > 0 && prev(false, p0));
  m0 == HI;
  forexactly(k: {p0, p1}, 1)(k) U[0,1] p1;
"""
C = """INPUT p0,p1: bool;
PTSPEC
  past: p0 S[0,2] p1;
  O[1,2] (p0 && p1);
  q: p0 => H[0,1] p1;
"""
M = "INPUT p0: bool; p1: bool;\nFTSPEC G[0,M] (p0 || p1); p0 U[1,M] p1;\n"
ML = "a0 U[0,2] a1\nG[0,1] (a1 & a0) | !a0\n"
EQ = "vars:\n  bool p q\n\nbounds:\n  a b\n\n"
FILES = {"a.c2po": A, "b.c2po": B, "c.c2po": C, "m.c2po": M, "l.mltl": ML, "syn.c2po": "INPUT p0: bool; FTSPEC p0 && ;\n", "typ.c2po": "INPUT p0,p1,p2: bool; i0: int;\nFTSPEC p0; p1 && i0; q9;\n",
         "many.c2po": "INPUT p0,p1: bool;\nFTSPEC\n" + "".join(f"  n{'x' * 40}{i}: G[0,1] (p0 && p1);\n" for i in range(3)) + f"  {'z' * 49}: p0;\n  {'y' * 60}: p1;\n",
         "a.map": "p0:0\np1:1\np2:2\n", "a2.map": "p0:5\np2:3\np1:0\n", "b.map": "p0:0\np1:1\ni0:2\nm0:3\n", "miss.map": "p1:0\np0:7\n", "bad.map": "p0:0\np1 1\n", "none.map": "", "t.csv": "# p1,p0,p2,i0,m0\n0,1,0,2,1\n",
         "t2.csv": "# p1\n1\n", "l2.mltl": "a0 & (\n", "mix.mltl": "a0 U[0,1] (O[0,1] a1)\n", "sp ace.c2po": C}
imp = lambda a, b: ('->', a, b)
SPECS = {  # the expressions of every formula and the columns of the signals
    "a": [('&&', ('&&', P0, P1), ('||', ('&&', P0, P1), P2)), ('F', 0, 2, ('&&', ('&&', P1, P0), P2)), P0, imp(P0, ('G', 0, 1, P1)), ('&&', P0, ('G', 0, 1, P1)), imp(('R', 0, 2, P0, P1), ('&&', P0, P1)), ('H', 0, 1, imp(P0, P2))],
    "b": [('||', ('&&', P0, P1), ('>', ('+', I0, ('ci', 1)), ('ci', 1))), ('F', 0, 1, ('&&', ('>', I0, ('ci', 0)), ('prev', ('cb', False), P0))), ('==', ('i', 9), ('ci', 1)), ('U', 0, 1, ('xor', P0, P1), P1)],
    "c": [('S', 0, 2, P0, P1), ('O', 1, 2, ('&&', P0, P1)), P0, imp(P0, ('H', 0, 1, P1)), ('&&', P0, ('H', 0, 1, P1))],
    "l": [('U', 0, 2, P0, P1), ('||', ('G', 0, 1, ('&&', P1, P0)), ('!', P0))],
    "m": [('G', 0, 3, ('||', P0, P1)), ('U', 1, 3, P0, P1)]}
SIGS = {"a": [P0, P1, P2], "b": [P0, P1, I0, ('i', 9)], "c": [P0, P1], "l": [P0, P1], "m": [P0, P1]}
SYM = {P0: "p0", P1: "p1", P2: "p2", I0: "i0", ('i', 9): "m0"}
MAPS = {"a": dict(p0=0, p1=1, p2=2), "a2": dict(p0=5, p2=3, p1=0), "b": dict(p0=0, p1=1, i0=2, m0=3), "miss": dict(p1=0, p0=7), "t": dict(p1=0, p0=1, p2=2, i0=3, m0=4)}
DECL = {"a": ["p0", "p1", "p2"], "b": ["p0", "p1", "i0", "m0"], "c": ["p0", "p1"], "l": ["p0", "p1"], "m": ["p0", "p1"]}
F = "{d}/"
PARSE = [f"parse_c2po {F}{x}.c2po" for x in ("a", "b", "c", "m")] + [f"parse_mltl {F}l.mltl"]
PARSE_BAD = [f"parse_c2po {F}syn.c2po", f"parse_c2po {F}nosuch.c2po", f"parse_mltl {F}l2.mltl", f"parse_mltl {F}mix.mltl", f"parse_c2po {F}l.mltl", f"parse_mltl {F}a.c2po", f"parse_equiv {F}a.c2po"]
MAP = [f"parse_map {F}{x}.map" for x in ("a", "a2", "b")] + [f"parse_trace {F}t.csv", "generate_map"]
MAP_BAD = [f"parse_map {F}miss.map", f"parse_map {F}bad.map", f"parse_map {F}none.map", f"parse_map {F}nosuch", f"parse_trace {F}t2.csv", f"parse_trace {F}nosuch", f"parse_trace {F}none.map"]
SUGAR = ["expand_definitions", "convert_function_calls_to_structs", "resolve_enum_references", "resolve_contracts", "unroll_set_aggregation", "resolve_struct_accesses", "resolve_array_accesses", "unroll_array_accesses"]
TRANS = ["optimize_rewrites", "optimize_cse", "to_nnf", "to_bnf", "remove_extended_operators", "multi_operators_to_binary", "flatten_multi_operators", "sort_operands_by_pd", "remove_release_operators"]
LATE = ["compute_atomics", "compute_scq_sizes", f"unsafe_assemble {F}o.bin", f"assemble {F}o.bin", f"assemble --no-aux --scq-constant 2 {F}o.bin", f"compile {F}o.bin", "convert_atomics_to_signals"]
OPTS = ["enable_booleanizer", "disable_booleanizer", "set_mission_time 3"]
LOOK = ["print_c2po", "print_prefix", "print_mltl", "print_stats %F,%f0,%scq,%dagsize,%numtlo,%asmnum,%asmbz,%asmtl,%asmcg,%asmtltemp", f"write_c2po {F}o.c2po", f"write_prefix {F}o.prefix", f"write_mltl {F}o.mltl", f"write_pickle {F}o.pickle",
        f"write_bounds_c {F}o.h", f"write_bounds_rust --print {F}o.toml", f"generate_map --output {F}o.map", f"generate_trace --seed 1 --output {F}o.csv 3 0.0 5.0", f"write_smt_encoding uflia {F}o.smt"]
REST = ["generate_sabre_code", "check_sat uflia", "check_equiv uflia", "run_r2u2 {d}/nosuch.bin {d}/t.csv",
        "help", "echo hello", "frobnicate", "parse_c2po", "parse_c2po --nosuch x", "set_mission_time x", 'echo "open', "print_stats_format", "set_log_level 0", "suppress_warnings", f"write_c2po {F}nosuchdir/o.x", f"assemble {F}nosuchdir/o.bin", f"parse_c2po \"{F}sp ace.c2po\"", "generate_trace 3 5.0 1.0", "generate_trace -2 0.0 1.0"]
STACK = ["push", "pop"]
COMPOSITE = {f"assemble {F}o.bin": ["compute_atomics", "compute_scq_sizes", f"unsafe_assemble {F}o.bin"], f"assemble --no-aux --scq-constant 2 {F}o.bin": ["compute_atomics", "compute_scq_sizes --scq-constant 2", f"unsafe_assemble --no-aux {F}o.bin"],
             f"assemble {F}nosuchdir/o.bin": ["compute_atomics", "compute_scq_sizes", f"unsafe_assemble {F}nosuchdir/o.bin"],
             f"compile {F}o.bin": ["type_check", "desugar", "optimize_rewrites", "remove_extended_operators", "multi_operators_to_binary", "optimize_cse", "compute_atomics", "compute_scq_sizes", f"unsafe_assemble {F}o.bin"],
             "desugar": SUGAR}
MUT = PARSE + PARSE_BAD[:1] + MAP + MAP_BAD[:2] + ["type_check", "desugar"] + SUGAR + TRANS + LATE + OPTS + STACK
ALL = PARSE + PARSE_BAD + MAP + MAP_BAD + ["type_check", "desugar"] + SUGAR + TRANS + LATE + OPTS + LOOK + REST + STACK
PROBES = [[x] for x in LOOK] + [[f"compile {F}o.bin"], [f"assemble --print {F}o.bin", f"write_bounds_c {F}o.h"], ["type_check", "desugar", "multi_operators_to_binary", f"assemble --print {F}o.bin"], ["type_check", "print_prefix"],
                               ["enable_booleanizer", f"compile {F}o.bin"], ["pop", "print_c2po"], [f"parse_map {F}b.map", f"compile {F}o.bin"], [f"unsafe_assemble {F}o.bin"]] + [[x, "print_prefix"] for x in ["desugar"] + TRANS]
MIDDLES = [[x] for x in ["type_check", "desugar", "optimize_rewrites", "optimize_cse", "to_bnf", "multi_operators_to_binary", f"assemble {F}o.bin", f"compile {F}o.bin", f"parse_c2po {F}c.c2po", f"parse_c2po {F}b.c2po", f"parse_mltl {F}l.mltl",
                         f"parse_c2po {F}syn.c2po", f"parse_map {F}a2.map", f"parse_map {F}miss.map", "enable_booleanizer", "disable_booleanizer", "set_mission_time 3", "convert_atomics_to_signals", "compute_atomics", "set_r2u2_bin_path /nosuch", "set_smt_solver_path /nosuch", "resolve_contracts", f"generate_trace 2 0.0 1.0"]] + \
          [[f"parse_c2po {F}c.c2po", f"parse_map {F}a.map", f"compile {F}o.bin"], ["push", "pop"], ["push", f"compile {F}o.bin", "pop", f"parse_c2po {F}b.c2po"], ["enable_booleanizer", f"compile {F}o.bin"]] + \
          [[f"parse_c2po {F}c.c2po", "type_check", "desugar", "generate_map"], ["enable_booleanizer", f"parse_c2po {F}b.c2po", "type_check", "desugar", "generate_map", f"compile {F}o.bin"], ["type_check", "desugar", "generate_map"],
           [f"parse_c2po {F}b.c2po", f"parse_trace {F}t.csv", "type_check", "desugar", "compute_atomics"], [f"parse_c2po {F}c.c2po", "set_mission_time 3", f"parse_map {F}a2.map", "type_check", "desugar", "optimize_cse", "convert_atomics_to_signals"]]
MAPPED = lambda s, m="a": [f"parse_c2po {F}{s}.c2po", f"parse_map {F}{m}.map"]
STARTS = [[], ["enable_booleanizer"], ["set_mission_time 3"], [f"parse_map {F}a.map"], [f"parse_c2po {F}a.c2po"], MAPPED("a"), MAPPED("a") + ["type_check"], MAPPED("a") + ["type_check", "desugar"],
          MAPPED("a") + [f"compile {F}o.bin"], ["enable_booleanizer"] + MAPPED("a") + [f"compile {F}o.bin"], ["enable_booleanizer"] + MAPPED("b", "b"), ["enable_booleanizer"] + MAPPED("b", "b") + ["type_check"],
          ["enable_booleanizer"] + MAPPED("b", "b") + ["type_check", "desugar"], ["enable_booleanizer"] + MAPPED("b", "b") + [f"compile {F}o.bin"], MAPPED("b", "b"), MAPPED("c") + ["type_check", "desugar", "optimize_cse"],
          [f"parse_mltl {F}l.mltl"], [f"parse_mltl {F}l.mltl", f"compile {F}o.bin"], ["set_mission_time 3"] + MAPPED("m") + ["type_check"], MAPPED("a") + [f"compile {F}o.bin", "push"] + MAPPED("c"),
          [f"parse_c2po {F}typ.c2po"], [f"parse_c2po {F}many.c2po", f"parse_map {F}a.map"], MAPPED("a") + ["type_check", "desugar", "compute_atomics"], ["enable_booleanizer"] + MAPPED("a") + ["type_check", "desugar", "compute_atomics"],
          [f"parse_equiv {F}a.c2po"], MAPPED("a", "a2") + ["type_check", "desugar", "flatten_multi_operators"]]


class Model:
    """What the session should hold: the specification parsed last, the signal mapping in force, the saved states."""
    def __init__(self, spec=None, mp=None, valid=False, bz=False, mission=-1, stack=()):
        self.spec, self.mp, self.valid, self.bz, self.mission, self.stack = spec, mp, valid, bz, mission, stack

    def next(self, line, ok):
        n = Model(self.spec, self.mp, self.valid, self.bz, self.mission, self.stack)
        w = line.split()
        if not ok: return n
        c = w[0]
        if c == "parse_c2po":
            n.spec, n.valid = w[-1].split("/")[-1].split(".")[0], False
            if n.spec == "m" and n.mission != 3: n.spec = "?"
        elif c == "parse_mltl": n.spec, n.mp, n.valid = "l", None, True
        elif c in ("parse_map", "parse_trace"):
            k = w[1].split("/")[1].split(".")[0]
            if k in MAPS: n.mp, n.valid = k, n.spec is not None
        elif c == "generate_map":
            if not n.valid: n.mp, n.valid = "decl", True
        elif c == "enable_booleanizer": n.bz = True
        elif c == "disable_booleanizer": n.bz = False
        elif c == "set_mission_time": n.mission = 3
        elif c == "convert_atomics_to_signals": n.spec = "?"
        elif c == "push": n.stack = self.stack + ((self.spec, self.mp, self.valid, self.bz, self.mission),)
        elif c == "pop": n.spec, n.mp, n.valid, n.bz, n.mission = self.stack[-1]; n.stack = self.stack[:-1]
        return n

    def meaning(self):
        """(spec, columns) of a binary assembled now, or None if it is not known"""
        if self.spec not in SPECS: return None
        if self.spec == "l" and self.mp is None: return "l", (("a0", 0), ("a1", 1))
        ids = {s: j for j, s in enumerate(DECL[self.spec])} if self.mp == "decl" else MAPS.get(self.mp)
        if ids is None: return None
        if self.spec == "l": return None
        return self.spec, tuple((s, ids.get(s)) for s in DECL[self.spec])


def node(it):
    model = it["model"]
    ok, r = session.visit(dict(files=FILES, path=it["path"], alphabet=it["alphabet"], probes=PROBES, composite=COMPOSITE, stack=it["stack"]))
    return ok, r


def truth(it):
    """A binary the session produced against the specification it should come from."""
    spec, cols = it["meaning"]
    forms, sigs = SPECS[spec], SIGS[spec]
    ids = dict(cols) if spec != "l" else {"p0": 0, "p1": 1}
    idmap = {s: ids[SYM[s]] for s in sigs}
    if any(v is None for v in idmap.values()): return dict(kind="assembled without a signal number for every signal")
    vals = bz.product(sigs, {'p': (0, 1), 'i': (0, 1)})
    D = {2: 6, 3: 4, 4: 3}[len(sigs)]
    e, x = bz.explore(it["binary"], sigs, vals, D, forms, idmap=idmap, deadlines=False)
    return e, x.nodes, x.nleaf if hasattr(x, "nleaf") else len(x.leaves)


def check_step(line, r):
    """Status, messages and files of one command."""
    if r["exc"]: return f"crash: {r['exc']}"
    if re.search(r"internal: |unexpected error|Traceback|unexpected result type", r["err"]): return "internal error: " + r["err"][:400]
    said = re.search(r"(^|\n)(\w+: )?error: |^usage:|error parsing", r["err"]) is not None
    if r["rc"] and not said: return f"status {r['rc']} and no error message ({r['err'][:200]!r})"
    if said and not r["rc"]: return f"error message and status 0: {r['err'][:300]}"
    c = line.split()[0]
    if r["rc"] == 0 and (c.startswith("write_") or "assemble" in c or c == "compile") and "{d}/o." in line:
        if not r["files"]: return "success and no file"
        if any(not b for n, b in r["files"].items()) and not r["dummy"]: return "success and an empty file"
    if r["rc"] and any(n == "o.bin" for n in r["files"]): return f"status {r['rc']} and a binary was written"
    return None


def run(chk):
    T = common.THOROUGH
    sweep.prepare()
    depth = 3 if T else 1
    seen, bins, edges, nodes = {}, {}, 0, 0
    frontier = []
    for p in STARTS: frontier.append((p, None))
    model_of = {}

    def model_for(path, outcome=None):
        return model_of[tuple(path)]
    # models along the start paths: every command of them is expected to succeed unless the visit says otherwise
    for p in STARTS:
        m = Model()
        for l in p: m = m.next(l, not any(x in l for x in ("syn.", "typ.c", "parse_equiv")))
        if any("typ." in l or "many." in l for l in p): m.spec = "?"
        model_of[tuple(p)] = m
    level = [list(p) for p in STARTS]
    seen = set()
    for lv in range(depth + 1):
        its = [dict(path=p, model=model_of[tuple(p)], alphabet=ALL, stack=MIDDLES if lv <= (1 if T else 0) else MIDDLES[:2]) for p in level]
        nxt, done = [], 0
        for it, (ok, r) in pool.run(node, its, chunk=1, left=lambda: chk.left() - 40):
            done += 1
            path, m = it["path"], it["model"]
            if not ok: raise common.CheckError(f"visit of {path}: {r}")
            if lv == 0: seen.add(r["F"])
            nodes += 1
            for line, s in r["steps"]:
                edges += 1
                s["dummy"] = m.spec is None
                w = check_step(line, s)
                if w: bad(chk, path, line, w, s)
                if s.get("obs"):
                    d = s["obs"]
                    bad(chk, path, line, f"fails and changes the session: then {d[0]} gives {d[2]} instead of {d[1]}"[:900], dict(diff=s.get("diff")))
                okc = s["rc"] == 0 and not s["exc"]
                n = m.next(line, okc)
                if okc and "o.bin" in s["files"] and not line.startswith("unsafe") and "contains extended operators" not in s["err"]:
                    mean = n.meaning()
                    if mean: bins.setdefault((mean, s["files"]["o.bin"]), (path, line))
                if okc and not s["same"] and line in MUT and s["F"] not in seen and lv < depth:
                    seen.add(s["F"])
                    q = path + [line]
                    model_of[tuple(q)] = n
                    nxt.append(q)
            for mid, x in r["stack"]:
                edges += 1
                if x: bad(chk, path, "push " + str(mid) + " pop", f"does not bring the specification back: {x}"[:900], {})
            if chk.nviol >= 12: break
        chk.cov.setdefault("families", {})[f"states at depth {lv}"] = dict(done=done, of=len(its), exhaustive=done == len(its))
        level = sorted(nxt)
        if chk.nviol >= 12 or chk.left() < 45: break
    chk.add(states=nodes, transitions=edges, traces_validated_against_impl=edges)
    its = [dict(meaning=k[0], binary=k[1], path=v[0], line=v[1]) for k, v in bins.items()]
    n = 0
    for it, r in pool.run(truth, its, chunk=1, left=chk.left):
        n += 1
        e, a, b = r if isinstance(r, tuple) else (r, 0, 0)
        chk.add(states=a, transitions=a, traces_validated_against_impl=b)
        if e: bad(chk, it["path"], it["line"], f"the binary does not mean the specification: {e}", {})
    chk.cov.setdefault("families", {})["binaries explored"] = dict(done=n, of=len(its), exhaustive=n == len(its))
    chk.sample(dict(start=STARTS[8], alphabet=len(ALL)))
    return chk.finish()


def bad(chk, path, line, what, s):
    key = f"{';'.join(path)};{line}".replace("{d}/", "").replace(" ", "_")[:160]
    chk.violation(key, f"after {path}: {line}: {what}", dict(path=path, command=line, files=FILES, **{k: v for k, v in s.items() if k in ("rc", "err", "out", "diff")}))
