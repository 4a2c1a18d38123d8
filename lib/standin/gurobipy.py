"""Stand-in for Gurobi, for small models only: optimize() enumerates every assignment of the binary variables, derives the
integer variables from the constraints, and keeps every optimal solution. CHOICE picks one of them, MODE makes it fail."""
import os, signal
CHOICE = 0
MODE = "ok"
NEAR = 0.0       # how far off an integer a value may be reported (Gurobi's IntFeasTol)
TIES = 0         # how many optimal solutions the last model had
EXPLORED = 0     # assignments visited


class GurobiError(Exception):
    pass


class GRB:
    BINARY, INTEGER, CONTINUOUS = "B", "I", "C"
    MINIMIZE, MAXIMIZE = 1, -1
    LOADED, OPTIMAL, INFEASIBLE, INF_OR_UNBD, UNBOUNDED = 1, 2, 3, 4, 5
    NODE_LIMIT, TIME_LIMIT, INTERRUPTED, MEM_LIMIT = 8, 9, 11, 17
    INFINITY = 1e100
    LESS_EQUAL, GREATER_EQUAL, EQUAL = "<", ">", "="


class Limit(Exception):
    """The model is too large for the stand-in."""


class Expr:
    def __init__(self, t=None): self.t = t or {}
    @staticmethod
    def of(x):
        if isinstance(x, Expr): return x
        if isinstance(x, Var): return Expr({(x.i,): 1})
        return Expr({(): x})
    def __add__(self, o):
        t = dict(self.t)
        for k, v in Expr.of(o).t.items(): t[k] = t.get(k, 0) + v
        return Expr(t)
    __radd__ = __add__
    def __neg__(self): return Expr({k: -v for k, v in self.t.items()})
    def __sub__(self, o): return self + (-Expr.of(o))
    def add(self, o, k=1): self.t = (self + Expr.of(o) * k).t
    def addTerms(self, cs, vs):
        for c, v in zip(cs if isinstance(cs, (list, tuple)) else [cs], vs if isinstance(vs, (list, tuple)) else [vs]): self.add(v, c)
    def __rsub__(self, o): return Expr.of(o) - self
    def __mul__(self, o):
        t = {}
        for a, x in self.t.items():
            for b, y in Expr.of(o).t.items():
                k = tuple(sorted(a + b)); t[k] = t.get(k, 0) + x * y
        if any(len(k) > 2 for k in t): raise GurobiError("not quadratic")
        return Expr(t)
    __rmul__ = __mul__
    def __eq__(self, o): return Con(self, "=", o)
    def __le__(self, o): return Con(self, "<", o)
    def __ge__(self, o): return Con(Expr.of(o), "<", self)
    __hash__ = None


class Var:
    def __init__(self, i, name, vtype, lb, ub): self.i, self.VarName, self.vtype, self.lb, self.ub, self.X = i, name, vtype, lb, ub, None
    varName = property(lambda s: s.VarName)
    x = property(lambda s: s.X)
    def e(self): return Expr.of(self)
    def __add__(self, o): return self.e() + o
    __radd__ = __add__
    def __sub__(self, o): return self.e() - o
    def __rsub__(self, o): return Expr.of(o) - self.e()
    def __neg__(self): return -self.e()
    def __mul__(self, o): return self.e() * o
    __rmul__ = __mul__
    def __eq__(self, o): return Con(self, "=", o)
    def __le__(self, o): return Con(self.e(), "<", o)
    def __ge__(self, o): return Con(Expr.of(o), "<", self)
    def __hash__(self): return hash(id(self))


class General:
    def __init__(self, fn, args, const): self.fn, self.args, self.const = fn, args, const


def _gen(fn, args, constant):
    if len(args) == 1 and isinstance(args[0], (list, tuple)): args = tuple(args[0])
    if any(not isinstance(a, Var) for a in args): raise GurobiError("general constraints take variables")
    return General(fn, [a.i for a in args], constant)


def max_(*args, constant=None): return _gen(max, args, constant)
def min_(*args, constant=None): return _gen(min, args, constant)


def quicksum(xs):
    t = {}
    for x in xs:
        for k, v in Expr.of(x).t.items(): t[k] = t.get(k, 0) + v
    return Expr(t)


def LinExpr(x=0.0, v=None):
    if v is None: return Expr.of(int(x) if isinstance(x, float) else x)
    return quicksum(c * y for c, y in zip(x, v)) if isinstance(x, (list, tuple)) else x * Expr.of(v)
QuadExpr = LinExpr


class Con:
    """lhs = general, or an expression = 0 or <= 0."""
    def __init__(self, l, op, r):
        self.op = op
        if isinstance(r, General) or isinstance(l, General):
            if isinstance(l, General): l, r = r, l
            if not isinstance(l, Var) or op != "=": raise GurobiError("general constraint")
            self.res, self.g = l.i, r
        else:
            self.g = None
            e = Expr.of(l) - Expr.of(r)
            self.t = [(k, v) for k, v in e.t.items() if v]

    def vars(self): return ({self.res} | set(self.g.args)) if self.g else {i for k, _ in self.t for i in k}

    def reduce(self, X):
        """(constant, {var: coeff}) under the partial assignment, or None if not linear."""
        c, lin = 0, {}
        for k, v in self.t:
            if len(k) == 0: c += v
            elif len(k) == 1:
                x = X[k[0]]
                if x is None: lin[k[0]] = lin.get(k[0], 0) + v
                else: c += v * x
            else:
                x, y = X[k[0]], X[k[1]]
                if x == 0 or y == 0: continue
                if x is not None and y is not None: c += v * x * y
                elif x is not None: lin[k[1]] = lin.get(k[1], 0) + v * x
                elif y is not None: lin[k[0]] = lin.get(k[0], 0) + v * y
                else: return None
        return c, {k: v for k, v in lin.items() if v}


class Env:
    def __init__(self, *a, empty=False, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def setParam(self, *a): pass
    def dispose(self): pass
    def close(self): pass
    def start(self):
        if MODE == "license": raise GurobiError("Unable to open Gurobi license file")
        if MODE == "start": raise GurobiError("Network")


class Model:
    def __init__(self, name="", env=None): self.v, self.c, self.obj, self.sense, self.status, self.ObjVal = [], [], Expr(), 1, GRB.LOADED, None
    def addVar(self, lb=0.0, ub=GRB.INFINITY, obj=0.0, vtype=GRB.CONTINUOUS, name="", column=None):
        if vtype == GRB.BINARY: lb, ub = 0, 1
        v = Var(len(self.v), name, vtype, int(lb), ub); self.v.append(v); return v
    def addConstr(self, c, name=""):
        if MODE == "build": raise GurobiError("model building")
        if MODE == "build-memory": raise GurobiError("Out of memory")
        if not isinstance(c, Con): raise GurobiError(f"not a constraint: {c!r}")
        self.c.append(c); return c
    addLConstr = addQConstr = addGenConstr = addConstr
    def addVars(self, *ix, **k):
        ks = ix[0] if len(ix) == 1 and not isinstance(ix[0], int) else range(ix[0])
        n = k.pop("name", "C")
        return {i: self.addVar(name=f"{n}[{i}]", **k) for i in ks}
    def addGenConstrMax(self, r, vs, constant=None, name=""): return self.addConstr(Con(r, "=", _gen(max, vs, constant)))
    def addGenConstrMin(self, r, vs, constant=None, name=""): return self.addConstr(Con(r, "=", _gen(min, vs, constant)))
    def addConstrs(self, cs, name=""): return [self.addConstr(c) for c in cs]
    def setObjective(self, e, sense=GRB.MINIMIZE): self.obj, self.sense = Expr.of(e), sense
    def update(self): pass
    def setParam(self, *a): pass
    def getVars(self): return list(self.v)
    def getAttr(self, a): return {"Runtime": 0.01, "Status": self.status, "ObjVal": self.ObjVal}[a]
    Runtime = 0.01
    objVal = property(lambda s: s.ObjVal)
    Status = property(lambda s: s.status)
    def write(self, f): open(f, "w").write("model\n")
    def computeIIS(self): pass
    def dispose(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False

    def optimize(self, *a):
        global TIES
        # solving may take long: an alarm that is still set goes off
        if signal.getitimer(signal.ITIMER_REAL)[0] > 0: os.kill(os.getpid(), signal.SIGALRM)
        if MODE in ("timeout", "memory", "interrupted", "unbounded"):
            self.status = dict(timeout=GRB.TIME_LIMIT, memory=GRB.MEM_LIMIT, interrupted=GRB.INTERRUPTED, unbounded=GRB.INF_OR_UNBD)[MODE]; return
        if MODE == "infeasible": self.status = GRB.INFEASIBLE; return
        if MODE == "too-large": raise GurobiError("Model too large for size-limited license")
        if MODE == "out-of-memory": raise GurobiError("Out of memory")
        if MODE == "error": raise GurobiError("internal")
        best, sols = None, {}
        bins = [v.i for v in self.v if v.vtype == GRB.BINARY]
        for X in self._solutions(bins):
            o = self._value(self.obj, X) * self.sense
            if best is None or o < best: best, sols = o, {}
            if o == best: sols.setdefault(tuple(X[b] for b in bins), X)
        TIES = len(sols)
        if not sols: self.status = GRB.INFEASIBLE; return
        X = sols[sorted(sols)[CHOICE % TIES]]
        self.status, self.ObjVal = GRB.OPTIMAL, float(best * self.sense)
        for v in self.v: v.X = float(X[v.i]) + (NEAR if v.vtype == GRB.BINARY and X[v.i] == 0 else -NEAR if v.vtype == GRB.BINARY else 0.0)

    def _value(self, e, X):
        s = 0
        for k, v in e.t.items():
            for i in k: v = v * X[i]
            s += v
        return s

    def _solutions(self, bins):
        global EXPLORED
        B = set(bins)
        bc = [c for c in self.c if not c.g and c.vars() <= B]
        rest = [c for c in self.c if c.g or not c.vars() <= B]
        watch = {b: [c for c in bc if b in c.vars()] for b in bins}
        X = [None] * len(self.v)

        def feasible(c):
            c0, lo, hi = 0, 0, 0
            for k, v in c.t:
                xs = [X[i] for i in k]
                if 0 in xs: continue
                if None not in xs: c0 += v
                elif v < 0: lo += v
                else: hi += v
            return (c0 + lo <= 0) if c.op == "<" else (c0 + lo <= 0 <= c0 + hi)

        def dfs(k):
            global EXPLORED
            EXPLORED += 1
            if EXPLORED > 3_000_000: raise Limit("too many assignments")
            if k == len(bins):
                s = self._integers(rest, list(X))
                if s is not None: yield s
                return
            b = order[k]
            for x in (0, 1):
                X[b] = x
                if all(feasible(c) for c in watch[b]): yield from dfs(k + 1)
                X[b] = None
        # variables that share constraints close to each other
        order, seen, todo = [], set(), []
        for b0 in sorted(bins, key=lambda b: -len(watch[b])):
            todo.append(b0)
            while todo:
                b = todo.pop(0)
                if b in seen: continue
                seen.add(b); order.append(b)
                for c in watch[b]: todo.extend(sorted(c.vars() - seen))
        EXPLORED = 0
        for c in bc:
            if not c.vars() and not feasible(c): return
        yield from dfs(0)

    def _integers(self, cons, X):
        eq = [c for c in cons if c.op == "="]
        le = [c for c in cons if c.op == "<"]
        # order constraints: y >= x + c, by relaxation from the lower bounds
        low = {}
        rel = []
        for c in le:
            r = c.reduce(X)
            if r is None: raise Limit("not linear")
            c0, lin = r
            if not lin:
                if c0 > 0: return None
                continue
            rel.append((c0, lin))
        for _ in range(len(self.v) + 2):
            moved = False
            for c0, lin in rel:
                neg = [(i, v) for i, v in lin.items() if v < 0]
                s = c0 + sum(v * low.get(i, self.v[i].lb) for i, v in lin.items())
                if s > 0:
                    if len(neg) != 1: return None
                    i, v = neg[0]
                    low[i] = low.get(i, self.v[i].lb) + -(-s // -v); moved = True
            if not moved: break
        else: return None
        work = list(eq)
        while True:
            todo, moved = [], False
            for c in work:
                if c.g:
                    if any(X[a] is None for a in c.g.args): todo.append(c); continue
                    vals = [X[a] for a in c.g.args] + ([c.g.const] if c.g.const is not None else [])
                    y = c.g.fn(vals)
                    if X[c.res] is None: X[c.res] = y; moved = True
                    elif X[c.res] != y: return None
                    continue
                r = c.reduce(X)
                if r is None: todo.append(c); continue
                c0, lin = r
                if not lin:
                    if c0 != 0: return None
                elif len(lin) == 1:
                    (i, v), = lin.items()
                    if c0 % v: return None
                    X[i] = -c0 // v; moved = True
                else: todo.append(c)
            work = todo
            if not work: break
            if not moved:  # a cycle: the least value
                c = work[0]
                i = next(i for i in sorted(c.vars()) if X[i] is None)
                X[i] = max(self.v[i].lb, low.get(i, 0))
        for v in self.v:
            if X[v.i] is None: X[v.i] = max(low.get(v.i, v.lb), v.lb)
            if X[v.i] < v.lb or X[v.i] > v.ub: return None
        for c in cons:
            if c.g: continue
            c0, _ = c.reduce(X)
            if c0 > 0 or (c0 < 0 and c.op == "="): return None
        return X
