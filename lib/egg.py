"""The egglog programs the compiler writes: reading, the term language MLTL as formulas, pattern rewriting."""
import re
import itertools
from . import mltl

TOK = re.compile(r'\s+|;[^\n]*|("[^"]*"|[()]|[^\s()";]+)')


def sexprs(text):
    out, st = [], []
    pos = 0
    while pos < len(text):
        m = TOK.match(text, pos)
        if not m: raise ValueError(f"cannot read egglog text at {text[pos:pos + 30]!r}")
        pos = m.end()
        t = m.group(1)
        if t is None: continue
        if t == '(': st.append([])
        elif t == ')':
            if not st: raise ValueError("unbalanced )")
            x = tuple(st.pop()); (st[-1] if st else out).append(x)
        else: (st[-1] if st else out).append(t)
    if st: raise ValueError("unbalanced (")
    return out


class Rejected(Exception):
    """egglog would not accept the program."""


SORTS = {"i64", "bool", "String"}


def program(text):
    """Reads a program. Returns dict(cons: name -> argument sorts, rules: [(name, lhs, rhs, conditions)], root: term, lets)."""
    cons, rules, lets, root, sets, other = {}, [], {}, None, set(), []
    def datatype(d):
        for c in d[2:]:
            if isinstance(c, tuple) and not c[0].startswith(":"): cons[c[0]] = (c[1:], d[1])
    for f in sexprs(text):
        if not isinstance(f, tuple) or not f: raise Rejected(f"bare {f!r}")
        h = f[0]
        if h == "sort": SORTS.add(f[1])
        elif h == "constructor": cons[f[1]] = (f[2], f[3])
        elif h == "datatype": datatype(f)
        elif h == "with-dynamic-cost":
            for d in f[1:]:
                if d[0] == "datatype": datatype(d)
        elif h == "ruleset": sets.add(f[1])
        elif h in ("rewrite", "birewrite"):
            opt = list(f[3:]); cond = (); rs = None
            while opt:
                o = opt.pop(0)
                if o == ":when": cond = opt.pop(0)
                elif o == ":ruleset": rs = opt.pop(0)
                elif o != ":subsume": raise Rejected(f"option {o}")
            if rs is not None and rs not in sets: raise Rejected(f"no ruleset {rs}")
            rules.append((f[1], f[2], cond))
            if h == "birewrite": rules.append((f[2], f[1], cond))
        elif h == "rule":
            for a in f[2]:
                if a[0] in ("set", "set-cost"): continue
                if a[0] == "union": other.append(f)
                elif a[0] not in ("let",): raise Rejected(f"action {a[0]}")
        elif h == "function": pass
        elif h == "let":
            if f[1] in lets: raise Rejected(f"{f[1]} bound twice")
            lets[f[1]] = ground(f[2], lets, cons)
        elif h == "run-schedule":
            for s in f[1:]:
                if s[0] == "saturate" and s[1] not in sets: raise Rejected(f"no ruleset {s[1]}")
        elif h == "extract":
            if f[1] not in lets: raise Rejected(f"unbound {f[1]}")
            root = lets[f[1]]
        else: raise Rejected(f"unknown command {h}")
    if other: raise ValueError("rule with union: not modelled")
    if root is None and lets: root = list(lets.values())[-1]
    return dict(cons=cons, rules=rules, root=root, lets=lets)


def ground(t, lets, cons):
    if isinstance(t, str):
        if t.startswith("$"):
            if t not in lets: raise Rejected(f"unbound symbol {t}")
            return lets[t]
        if t in ("true", "false"): return t == "true"
        if t.startswith('"'): return t[1:-1]
        try: return int(t)
        except ValueError: raise Rejected(f"unbound symbol {t}")
    if t[0] not in cons: raise Rejected(f"unknown constructor {t[0]}")
    sorts, _ = cons[t[0]]
    if len(sorts) != len(t) - 1: raise Rejected(f"{t[0]} takes {len(sorts)} arguments")
    args = tuple(ground(x, lets, cons) for x in t[1:])
    for a, s in zip(args, sorts):
        ok = {"i64": isinstance(a, int) and not isinstance(a, bool), "bool": isinstance(a, bool), "String": isinstance(a, str)}.get(
            s, isinstance(a, tuple) and a[0] in cons and cons[a[0]][1] == s)
        if not ok: raise Rejected(f"argument {a!r} of {t[0]} is not of sort {s}")
    return (t[0],) + args


OP1 = {"Global": "G", "Future": "F"}
OP2 = {"Until": "U", "Release": "R"}


class IllFormed(Exception): pass


def formula(t, name):
    """MLTL formula of a term; name: name of a Var -> atom number."""
    h = t[0]
    r = lambda x: formula(x, name)
    if h == "Var": return ('a', name(t[1]))
    if h == "Bool": return ('tt',) if t[1] else ('ff',)
    if h == "Not": return ('!', r(t[1]))
    if h == "Implies": return ('->', r(t[1]), r(t[2]))
    if h == "Equiv": return ('<->', r(t[1]), r(t[2]))
    if re.fullmatch(r"(And|Or)\d", h):
        o = '&' if h[0] == 'A' else '|'
        f = r(t[1])
        for x in t[2:]: f = (o, f, r(x))
        return f
    if h in OP1 or h in OP2:
        l, u = t[1][1], t[1][2]
        if not 0 <= l <= u: raise IllFormed(f"interval [{l},{u}]")
        return (OP1.get(h) or OP2[h], l, u) + tuple(r(x) for x in t[2:])
    raise IllFormed(h)


def show(t):
    if isinstance(t, bool): return "true" if t else "false"
    if isinstance(t, int): return str(t)
    if isinstance(t, str): return f'"{t}"'
    return "(" + " ".join([t[0]] + [show(x) for x in t[1:]]) + ")"


# --- patterns ---------------------------------------------------------------------------------------------------------

def is_var(p): return isinstance(p, str) and not p.startswith('"') and p not in ("true", "false") and not re.fullmatch(r"-?\d+", p)


def match(p, t, env):
    if isinstance(p, tuple):
        if not isinstance(t, tuple) or t[0] != p[0] or len(t) != len(p): return None
        for a, b in zip(p[1:], t[1:]):
            env = match(a, b, env)
            if env is None: return None
        return env
    if is_var(p):
        if p in env: return env if env[p] == t and type(env[p]) is type(t) else None
        return {**env, p: t}
    return env if lit(p) == t and type(lit(p)) is type(t) else None


def lit(p):
    if p in ("true", "false"): return p == "true"
    if p.startswith('"'): return p[1:-1]
    return int(p)


FN = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "min": min, "max": max}
REL = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b, "!=": lambda a, b: a != b}


def num(p, env):
    if isinstance(p, tuple): return FN[p[0]](*[num(x, env) for x in p[1:]])
    return env[p] if is_var(p) else lit(p)


def conditions(cond, env):
    for c in cond:
        if c[0] == "=":
            if is_var(c[1]) and c[1] not in env: env = {**env, c[1]: num(c[2], env)}
            elif num(c[1], env) != num(c[2], env): return None
        elif not REL[c[0]](num(c[1], env), num(c[2], env)): return None
    return env


def build(p, env):
    if isinstance(p, tuple):
        if p[0] in FN: return num(p, env)
        return (p[0],) + tuple(build(x, env) for x in p[1:])
    return env[p] if is_var(p) else lit(p)


def successors(t, rules):
    """Every term one rule application away, anywhere in t."""
    for k, (l, r, c) in enumerate(rules):
        e = match(l, t, {})
        if e is None: continue
        e = conditions(c, e)
        if e is None: continue
        yield k, build(r, e)
    if t[0] in ("Var", "Bool", "Interval"): return
    for i in range(1, len(t)):
        if isinstance(t[i], tuple) and t[i][0] != "Interval":
            for k, s in successors(t[i], rules): yield k, t[:i] + (s,) + t[i + 1:]


def rule_vars(l):
    """(term variables, number variables) of a left-hand side."""
    tv, nv = [], []
    def go(p, num_):
        if isinstance(p, tuple):
            for x in p[1:]: go(x, p[0] == "Interval")
        elif is_var(p):
            v = nv if num_ else tv
            if p not in v: v.append(p)
    go(l, False)
    return tv, nv


def instances(rule, bound):
    """Both sides of the rule for all interval bounds up to `bound`, over the atoms 0.. in the place of its term variables."""
    l, r, c = rule
    tv, nv = rule_vars(l)
    for vs in itertools.product(range(bound + 1), repeat=len(nv)):
        env = dict(zip(nv, vs)); env.update({v: ("Var", f"a{i}") for i, v in enumerate(tv)})
        try: left = formula(build(l, env), lambda s: int(s[1:]))
        except IllFormed: continue  # no formula has such an interval
        e = conditions(c, env)
        if e is None: continue
        yield dict(zip(nv, vs)), left, build(r, e), len(tv)


def differ(f, g, na, full=16):
    """First (trace, position) where two future formulas differ on all traces as long as their reach, or None."""
    D = max(mltl.wpd(f), mltl.wpd(g)) + 1
    if na * D > 22: return "too large"
    A = mltl.all_traces(na, D)
    (T1, F1), (T2, F2) = mltl.ev(f, A, D), mltl.ev(g, A, D)
    import numpy as np
    bad = ((T1 & F2) | (F1 & T2)) & np.uint64(1)
    if not ((T1 | F1) & (T2 | F2) & np.uint64(1)).all(): raise AssertionError("reach")
    if bad.any():
        i = int(np.nonzero(bad)[0][0])
        return mltl.digits(i, 1 << na, D)
    return None


# --- e-graphs ---------------------------------------------------------------------------------------------------------

class EGraph:
    """Classes of terms known to be equal. A node is (operator, argument, ...) with arguments ('#', class) or literals."""
    def __init__(self): self.up, self.nodes = [], {}

    def copy(self):
        g = EGraph(); g.up, g.nodes = list(self.up), dict(self.nodes); return g

    def find(self, i):
        while self.up[i] != i: i = self.up[i]
        return i

    def canon(self, n): return (n[0],) + tuple(('#', self.find(a[1])) if isinstance(a, tuple) and a[0] == '#' else a for a in n[1:])

    def add(self, n):
        n = self.canon(n)
        if n not in self.nodes:
            self.up.append(len(self.up)); self.nodes[n] = len(self.up) - 1
        return self.find(self.nodes[n])

    def term(self, t):
        return self.add((t[0],) + tuple(a if not isinstance(a, tuple) or a[0] == "Interval" else ('#', self.term(a)) for a in t[1:]))

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a == b: return False
        self.up[max(a, b)] = min(a, b)
        while True:
            new, again = {}, False
            for n, c in self.nodes.items():
                n, c = self.canon(n), self.find(c)
                if n in new and new[n] != c: self.up[max(new[n], c)] = min(new[n], c); again = True
                new[n] = self.find(c)
            self.nodes = new
            if not again: return True

    def classes(self):
        out = {}
        for n, c in self.nodes.items(): out.setdefault(self.find(c), []).append(n)
        return out

    def match(self, p, a, env, cl):
        """Bindings under which pattern p matches argument a."""
        if is_var(p):
            if p in env:
                if env[p] == a: yield env
            else: yield {**env, p: a}
        elif isinstance(p, tuple) and p[0] != "Interval":
            for n in cl.get(a[1], ()):
                if n[0] == p[0] and len(n) == len(p): yield from self.args(p[1:], n[1:], env, cl)
        else:
            e = match(p, a, env)
            if e is not None: yield e

    def args(self, ps, xs, env, cl):
        if not ps: yield env; return
        for e in self.match(ps[0], xs[0], env, cl): yield from self.args(ps[1:], xs[1:], e, cl)

    def put(self, p, env):
        if is_var(p): return env[p][1]
        return self.add((p[0],) + tuple(build(a, env) if isinstance(a, tuple) and a[0] == "Interval" else ('#', self.put(a, env)) if isinstance(a, tuple) else
                                        (env[a] if is_var(a) else lit(a)) for a in p[1:]))

    def steps(self, rules):
        """Every e-graph one rule application away."""
        cl = self.classes()
        for l, r, c in rules:
            for k in list(cl):
                for e in self.match(l, ('#', k), {}, cl):
                    e2 = conditions(c, e)
                    if e2 is None: continue
                    g = self.copy()
                    m = len(g.nodes)
                    if g.union(k, g.put(r, e2)) or len(g.nodes) > m: yield g

    def name(self):
        """The same for equal e-graphs made in different orders (in most cases)."""
        cl = self.classes()
        h = {c: "" for c in cl}
        for _ in range(4):
            h = {c: str(hash(tuple(sorted(str((n[0],) + tuple(h[a[1]] if isinstance(a, tuple) and a[0] == '#' else a for a in n[1:])) for n in ns)))) for c, ns in cl.items()}
        return tuple(sorted(h.values()))

    def json(self, root):
        out, lits, rep = {}, {}, {}
        cl = self.classes()
        k = 0
        ids = {}
        for c, ns in sorted(cl.items()):
            for n in sorted(ns, key=str):
                k += 1; ids[n] = f"function-{k}-{n[0]}"; rep.setdefault(c, ids[n])
        for n, i in ids.items():
            ch = []
            for a in n[1:]:
                if isinstance(a, tuple) and a[0] == '#': ch.append(rep[a[1]]); continue
                if isinstance(a, tuple):
                    j = f"function-9{len(lits)}-Interval" if a not in lits else lits[a]
                    if a not in lits:
                        lits[a] = j
                        ks = []
                        for x in a[1:]:
                            ks.append(f"i64-{x}"); out[ks[-1]] = dict(op=str(x), children=[], eclass=f"i64-{x}", cost=1.0, subsumed=False)
                        out[j] = dict(op="Interval", children=ks, eclass=f"IntervalSort-{len(lits)}", cost=1.0, subsumed=False)
                elif isinstance(a, bool):
                    j = f"bool-{str(a).lower()}"; out[j] = dict(op=str(a).lower(), children=[], eclass=j, cost=1.0, subsumed=False)
                else:
                    j = f"String-{a}"; out[j] = dict(op=f'"{a}"', children=[], eclass=j, cost=1.0, subsumed=False)
                ch.append(j)
            out[i] = dict(op=n[0], children=ch, eclass=f"MLTL-{self.find(self.nodes[n])}", cost=1.0, subsumed=False)
        data = {v["eclass"]: dict(type=v["eclass"].split("-")[0]) for v in out.values()}
        return dict(nodes=out, root_eclasses=[f"MLTL-{self.find(root)}"], class_data=data)


def egraphs(root, rules, steps, cap, size):
    """(e-graph, root class) reachable by at most `steps` rule applications, breadth first, no larger than `size` nodes."""
    g = EGraph(); r = g.term(root)
    seen, level, out, trans = {g.name()}, [g], [g], 0
    for _ in range(steps):
        nxt = []
        for x in level:
            for y in x.steps(rules):
                trans += 1
                k = y.name()
                if k in seen or len(y.nodes) > size: continue
                seen.add(k); nxt.append(y); out.append(y)
                if len(out) >= cap: return out, r, trans
        level = nxt
    return out, r, trans
