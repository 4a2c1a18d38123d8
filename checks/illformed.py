"""P19: every bounded specification is either well formed and compiles, or is rejected with a message, a failing status and no binary."""
import itertools, re, shlex, subprocess, sys, time
from lib import common, comp, pool, families as fam
import binary

DECL = """STRUCT
  St: { b: bool; n: int; };
  Zt: { v: int[2]; };
ENUM
  En: {LO, HI};
  De: {UP, DOWN};
INPUT
  p, q: bool;
  i, j: int;
  x, y: float;
  m, k: En;
  w: De;
  A, B: int[2];
  C: int[3];
  P: bool[2];
  X: float[2];
DEFINE
  di := i + 1;
  dp := p && q;
  s := St(p, i);
  t := St(q, j);
  z := Zt(A);
  dA := A;
  dS := C[1..2];
FTSPEC
  lab: p;
  con: p => q;
"""
MAP = "p:0\nq:1\ni:2\nj:3\nx:4\ny:5\nm:6\nk:7\nw:8\nA[0]:9\nA[1]:10\nB[0]:11\nB[1]:12\nC[0]:13\nC[1]:14\nC[2]:15\nP[0]:16\nP[1]:17\nX[0]:18\nX[1]:19\n"
B, I, F = "b", "i", "f"
E = lambda n: ("e", n)
ST = lambda n: ("s", n)
AR = lambda t, n: ("a", t, n)
# text -> (type, kind); kind: "" variable, "c" constant, "m" enum member, "!" not usable as a value
ATOMS = {"p": (B, ""), "q": (B, ""), "true": (B, "c"), "false": (B, "c"), "lab": (B, ""), "dp": (B, ""), "P[0]": (B, ""), "s.b": (B, ""), "P[1]": (B, ""),
         "i": (I, ""), "j": (I, ""), "1": (I, "c"), "0": (I, "c"), "-3": (I, "c"), "TAU": (I, ""), "di": (I, ""), "A[0]": (I, ""), "A[1]": (I, ""), "s.n": (I, ""), "z.v[1]": (I, ""), "C[2]": (I, ""), "2147483647": (I, "c"), "-2147483648": (I, "c"),
         "x": (F, ""), "y": (F, ""), "1.5": (F, "c"), "0.0": (F, "c"), "-2.25": (F, "c"), "X[0]": (F, ""),
         "m": (E("En"), ""), "k": (E("En"), ""), "w": (E("De"), ""), "LO": (E("En"), "m"), "HI": (E("En"), "m"), "UP": (E("De"), "m"), "DOWN": (E("De"), "m"),
         "s": (ST("St"), ""), "t": (ST("St"), ""), "z": (ST("Zt"), ""), "A": (AR(I, 2), ""), "B": (AR(I, 2), ""), "C": (AR(I, 3), ""), "C[0..1]": (AR(I, 2), ""), "C[0..2]": (AR(I, 3), ""), "dA": (AR(I, 2), ""), "dS": (AR(I, 2), ""), "dA[1]": (I, ""), "dS[1]": (I, ""), "C[1..2][1]": (I, ""), "{p, q}[1]": (B, ""), "{1, 2}[0]": (I, ""), "St(p, i).n": (I, ""), "{i, j}": (AR(I, 2), ""), "P": (AR(B, 2), ""), "X": (AR(F, 2), ""), "z.v": (AR(I, 2), ""),
         "St(p, i)": (ST("St"), ""), "{p, q}": (AR(B, 2), ""), "{1, 2}": (AR(I, 2), "c"),
         "nosuch": (None, "!"), "con": (None, "!"), "St": (None, "!"), "En": (None, "!"), "2147483648": (None, "!"), "-2147483649": (None, "!"), "99999999999999999999": (None, "!"),
         "A[2]": (None, "!"), "A[7]": (None, "!"), "A[0..2]": (None, "!"), "A[1..2]": (None, "!"), "A[2..2]": (None, "!"), "{p, q}[2]": (None, "!"), "{p, q}[0..2]": (None, "!"), "z.v[2]": (None, "!"), "z.v[0..2]": (None, "!"), "dA[2]": (None, "!"), "dA[0..2]": (None, "!"), "dS[2]": (None, "!"), "C[0..1][2]": (None, "!"), "A[0][0]": (None, "!"), "A[i]": (None, "!"), "A[1.5]": (None, "!"), "A[1+0]": (None, "!"), "A[]": (None, "!"), "A[0..]": (None, "!"), "A[99999999999]": (None, "!"), "C[1..3]": (None, "!"), "C[2..1]": (None, "!"), "p[0]": (None, "!"), "i[0..1]": (None, "!"), "s.q": (None, "!"), "p.b": (None, "!"), "m.b": (None, "!"), "A.b": (None, "!"), "nosuch.b": (None, "!"), "nosuch[0]": (None, "!"), "s[0]": (None, "!"), "m[0]": (None, "!"),
         "St()": (None, "!"), "St(p)": (None, "!"), "St(i, p)": (None, "!"), "St(p, i, i)": (None, "!"), "St(p, x)": (None, "!"), "Zt(C)": (None, "!"), "Zt(X)": (None, "!"), "Zt(i)": (None, "!"), "En(p)": (None, "!"), "nosuch(p)": (None, "!"), "p(q)": (None, "!"), "{p, i}": (None, "!"), "{1, 1.5}": (None, "!"),
         "A[-3]": (None, "!"), "C[-4..1]": (None, "!"), "A[-1]": (None, "?"), "A[-2]": (None, "?"), "{}": (None, "?"), "{A, B}": (None, "?"), "{s, t}": (None, "?")}
SHORT = ["p", "true", "i", "1", "0", "-3", "TAU", "x", "1.5", "0.0", "m", "LO", "UP", "w", "s", "z", "A", "C", "P", "X", "{1, 2}", "nosuch", "con", "St", "En"]


class Ill(Exception): pass
class Unspec(Exception): pass


def atom(a):
    t, k = ATOMS[a]
    if k == "!": raise Ill(a)
    if k == "?": raise Unspec(a)
    return t, k


LOG = ["&&", "||", "xor", "->", "<->"]
REL = ["==", "!=", "<", ">", "<=", ">="]
AR2 = ["+", "-", "*", "/", "%", "pow"]
BW2 = ["&", "|", "^", "<<", ">>"]
UN = ["!", "-", "~", "sqrt ", "abs "]
FT1, FT2, PT1, PT2 = ["G", "F"], ["U", "R"], ["H", "O"], ["S", "T"]


def ty(e):
    """(type, constness) of an expression; Ill when a rule of the language is broken, Unspec when the language leaves it open."""
    if isinstance(e, str): return atom(e)
    op, *a = e
    ill, ts, un = None, [], None
    for c in a:
        if isinstance(c, int): continue
        try: ts.append(ty(c))
        except Ill as x: ill = x
        except Unspec as x: un = x
    if ill: raise ill
    if un: raise un
    t = [x[0] for x in ts]; ks = [x[1] for x in ts]
    c = "c" if all(k == "c" for k in ks) else ""
    if op == "!" or op in LOG:
        if any(x != B for x in t): raise Ill(f"{op} on {t}")
        return B, c
    if op in FT1 + FT2 + PT1 + PT2:
        if any(x != B for x in t): raise Ill(f"{op} on {t}")
        if e[1] > e[2]: raise Ill("interval")
        return B, c
    if op in REL:
        if t[0] != t[1]: raise Ill(f"{op} on {t}")
        if isinstance(t[0], tuple) and t[0][0] == "s": raise Ill(f"{op} on {t}")
        if t[0] == B and op in REL[2:]: raise Unspec("order of truth values")
        if isinstance(t[0], tuple) and t[0][0] == "e" and (op in REL[2:] or ks == ["m", "m"]): raise Unspec("order of enum members, or two members")
        if isinstance(t[0], tuple) and t[0][0] == "a" and t[0][1] not in (I, F): raise Unspec("comparison of Boolean arrays")
        if t[0] == B and any(map(logical, a)): raise Unspec("truth value that the Booleanizer does not compute")
        return B, c
    if op in AR2 or op in UN[1:2] + UN[3:]:
        if any(x not in (I, F) for x in t):
            if all(isinstance(x, tuple) and x[0] == "e" for x in t) and len(set(t)) == 1: raise Unspec("arithmetic on enum values")
            raise Ill(f"{op} on {t}")
        if len(set(t)) > 1: raise Ill(f"{op} on {t}")
        if op in ("/", "%") and a[1] in ("0", "0.0"): raise Ill("division by zero")
        if op == "%" and t[0] == F: raise Unspec("remainder of floats")
        if op in ("/", "%") and ks[1] != "c": raise Unspec("divisor that is not a constant")
        if op in ("/", "%") and not isinstance(a[1], str): raise Unspec("divisor that is not a literal")
        if op == "pow":
            if t[0] == I and ks[1] == "c" and isinstance(a[1], str) and a[1].startswith("-"): raise Ill("negative exponent")
            if t[0] == I and a[1] != "TAU" and ks[1] != "c": raise Ill("exponent that may be negative")
            if not isinstance(a[1], str): raise Unspec("exponent that is not a literal")
        if op == "sqrt " and t[0] == I: raise Unspec("square root of an int")
        return t[0], c
    if op == "~" or op in BW2:
        if any(x not in (I, B) and not (isinstance(x, tuple) and x[0] == "e") for x in t) or len(set(t)) > 1: raise Ill(f"{op} on {t}")
        if op in ("<<", ">>"): raise Unspec("shift")
        if t[0] != I: raise Unspec("bitwise operator on bool or enum")
        return t[0], c
    if op == "prev":
        if t[0] != t[1]: raise Ill(f"prev on {t}")
        if isinstance(t[1], tuple) and t[1][0] != "e": raise Ill(f"prev on {t}")
        if ks[0] not in ("c", "m") or not isinstance(a[0], str): raise Ill("initial value is not a constant") if isinstance(a[0], str) else Unspec("initial value")
        if ks[1] == "m": raise Unspec("two enum members")
        if has(a[1], "prev"): raise Unspec("nested prev")
        if logical(a[1]): raise Unspec("truth value that the Booleanizer does not compute")
        return t[1], ""
    raise AssertionError(op)


def logical(x):
    """Is the truth value computed by the temporal logic engine?"""
    if isinstance(x, str): return x == "dp"
    return x[0] in REL and any(isinstance(y, str) and isinstance(ATOMS[y][0], tuple) and ATOMS[y][0][0] == "a" for y in x[1:]) or x[0] == "!" or x[0] in LOG + FT1 + FT2 + PT1 + PT2


def has(e, o): return not isinstance(e, (str, int)) and (e[0] == o or any(has(c, o) for c in e[1:]))


def show(e):
    if isinstance(e, str): return e
    op, *a = e
    if op in FT1 + PT1: return f"{op}[{a[0]},{a[1]}] ({show(a[2])})"
    if op in FT2 + PT2: return f"({show(a[2])}) {op}[{a[0]},{a[1]}] ({show(a[3])})"
    if op == "prev": return f"prev({show(a[0])}, {show(a[1])})"
    if len(a) == 1: return f"{op}({show(a[0])})"
    return f"({show(a[0])}) {op} ({show(a[1])})"


CMP = {B: "q", I: "j", F: "y"}


def verdict(e):
    try: return "ok", ty(e)
    except Ill as x: return "bad", None
    except Unspec as x: return "open", None


def in_spec(e):
    """[(formula text, expectation)] for an expression as a whole formula and as an operand of a comparison."""
    v, t = verdict(e)
    s = show(e)
    if v != "ok":       # in every context that the value could fit in
        a = [c for c in e[1:] if isinstance(c, str)] if not isinstance(e, str) else ["j", "q", "y", "m", "A"]
        return [(s, v)] + [(f"({s}) == ({r})", v) for r in dict.fromkeys(a)]
    t, k = t
    if t == B: return [(s, "open" if k == "c" else "ok"), (f"({s}) == q", verdict(("==", e, "q"))[0])]      # a formula without signals is not supported
    if isinstance(t, tuple) and t[0] == "s": return [(s, "bad"), (f"({s}).b && p" if t[1] == "St" else f"({s}).v[0] == j", "open")]
    if isinstance(t, tuple) and t[0] == "a": return [(s, "bad"), (f"({s}) == ({s})", "ok" if t[1] in (I, F) else "open")]
    if isinstance(t, tuple): return [(s, "bad"), (f"({s}) == {'m' if t[1] == 'En' else 'w'}", "ok")]
    return [(s, "bad"), (f"({s}) == {CMP[t]}", "ok"), (f"({s}) > {CMP[t]}", "ok")]


def exprs1(atoms, ops2=True):
    for a in atoms: yield a
    for o in UN:
        for a in atoms: yield (o, a)
    for o in FT1:
        for a in atoms: yield (o, 0, 2, a)
    if ops2:
        for o in LOG + REL + AR2 + BW2 + ["prev"]:
            for a, b in itertools.product(atoms, repeat=2): yield (o, a, b)
        for o in FT2:
            for a, b in itertools.product(atoms, repeat=2): yield (o, 1, 2, a, b)


def judge(o, expect, text):
    """None, or what is wrong with the outcome of a compilation."""
    said = o.err + o.out
    if o.exc: return f"exception: {o.exc}"
    if re.search(r"unexpected error|internal|Traceback", said, re.I): return "internal error reported: " + said[-200:]
    if o.rc:
        if o.binary is not None: return "rejected, but a binary was written"
        if not re.search(r"error", said, re.I): return "rejected without a message"
        return None if expect != "ok" else "well-formed specification rejected: " + re.sub(r"\s+", " ", said)[-250:]
    if o.binary is None: return "success reported, but no binary written"
    if re.search(r"\berror: ", said): return "success reported along with an error: " + said[-200:]
    if expect == "bad": return "ill-formed specification accepted"
    rc, dec, lo = binary.dump(o.binary, 1, True)
    if rc: return f"binary of an accepted specification cannot be read by the monitor (status {rc})"
    if lo[0] != ("ST", 0): return f"binary of an accepted specification refused by the monitor {lo[0]}"
    return None


def one(it):
    fam_, spec, expect, o = it
    r = comp.cli(spec, **o)
    return judge(r, expect, spec), r.rc == 0


def f1(T):
    """Every operator form over every operand, Booleanizer on."""
    out = []
    for e in exprs1(list(ATOMS), False):
        for s, v in in_spec(e): out.append((DECL + f"  {s};\n", v))
    for e in exprs1(list(ATOMS) if T else SHORT):
        if isinstance(e, str): continue
        for s, v in in_spec(e): out.append((DECL + f"  {s};\n", v))
    return [("operand types", s, v, dict(bz=True, map_text=MAP)) for s, v in out]


def f2(T):
    """Nested expressions: every operator over every one-operator expression over few operands, on either side."""
    few = ["p", "i", "x", "m", "A", "s", "1", "1.5"] if T else ["p", "i", "x", "m"]
    inner = [e for e in exprs1(few) if not isinstance(e, str) and (verdict(e)[0] == "ok" or e[1] != e[-1])]
    good = [e for e in inner if verdict(e)[0] == "ok"]
    bad = [e for e in inner if verdict(e)[0] == "bad"]
    out = []
    for e in good + bad[:: 1 if T else 3]:
        for o in UN: out.append((o, e))
        out += [("G", 1, 3, e), ("prev", "0", e), ("prev", "true", e), ("prev", e, "i"), ("prev", e, "p")]
        for o in ("&&", "<->", "==", "<", "+", "/", "&", "pow"):
            for a in few[:6]: out += [(o, e, a), (o, a, e)]
        for a in few[:2]: out += [("U", 0, 1, e, a), ("R", 2, 2, a, e)]
    r = []
    for e in out:
        for s, v in in_spec(e)[:2]: r.append(("nested operand types", DECL + f"  {s};\n", v, dict(bz=True, map_text=MAP)))
    return r


def f3(T):
    """Both sections: every temporal operator under every other operator, bounds of every order, the mission time."""
    out = []
    dec = "INPUT p, q: bool;\n"
    mk = dict(map_text="p:0\nq:1\n")
    one_ = lambda o, l, h, a, b: f"{o}[{l},{h}] ({a})" if o in FT1 + PT1 else f"({a}) {o}[{l},{h}] ({b})"
    fut, pas = FT1 + FT2, PT1 + PT2
    for sec in ("FTSPEC", "PTSPEC"):
        mine = fut if sec == "FTSPEC" else pas
        for o in fut + pas:
            for l, h in itertools.product(range(4), repeat=2):
                x = "ok" if o in mine and l <= h else "bad"
                out.append((f"{dec}{sec}\n  {one_(o, l, h, 'p', 'q')};\n", x))
                out.append((f"{dec}{sec}\n  q && !{one_(o, l, h, 'p', 'q')};\n", x))
                out.append((f"{dec}{sec}\n  c: q => {one_(o, l, h, 'p', 'q')};\n", x))
                if not l: out.append((f"{dec}{sec}\n  {one_(o, l, h, 'p', 'q').replace(f'[{l},{h}]', f'[{h}]')};\n", "ok" if o in mine else "bad"))
            for o2 in fut + pas:
                x = "ok" if o in mine and o2 in mine else "bad"
                out.append((f"{dec}{sec}\n  {one_(o, 0, 2, one_(o2, 1, 2, 'p', 'q'), 'q')};\n", x))
                out.append((f"{dec}{sec}\n  {one_(o, 0, 2, 'p', one_(o2, 1, 2, 'p', 'q'))};\n", x if o not in FT1 + PT1 else ("ok" if o in mine else "bad")))
                out.append((f"{dec}{sec}\n  foreach(k: {{p, q}})({one_(o, 0, 2, one_(o2, 0, 1, 'k', 'q'), 'k')});\n", x))
            for b in ("-1", "-5,3", "0,-1", "-3,-1", "", ",", "1,", ",1", "1.5", "0,1.5", "p", "0,p", "1,2,3", "0..2", "true", "M,1" if False else "i", "(1)", "1+1", "0,1+1", "00", "01", "0,02", "4294967296", "0,4294967296", "18446744073709551616", "0,99999999999999999999999"):
                out.append((f"{dec}{sec}\n  {one_(o, 7, 7, 'p', 'q').replace('[7,7]', f'[{b}]')};\n", "bad"))
            for b in ("0,2147483647", "2147483647,2147483647", "0,4294967295"):
                out.append((f"{dec}{sec}\n  {one_(o, 7, 7, 'p', 'q').replace('[7,7]', f'[{b}]')};\n", "open" if o in mine else "bad"))
            # an operator through a definition that the section may not contain
            out.append((f"{dec}DEFINE d := {one_(o, 0, 2, 'p', 'q')};\n{sec}\n  d;\n", "ok" if o in mine else "bad"))
            out.append((f"{dec}DEFINE d := {one_(o, 0, 2, 'p', 'q')}; e := !d;\n{sec}\n  q || e;\n", "ok" if o in mine else "bad"))
            other = "PTSPEC" if sec == "FTSPEC" else "FTSPEC"
            for o2 in mine:      # a label of the other section under an operator of this one
                out.append((f"{dec}{other}\n  lab: {one_(o, 0, 2, 'p', 'q')};\n{sec}\n  {one_(o2, 0, 1, 'lab', 'q')};\n", "bad"))
            out.append((f"{dec}{other}\n  lab: {one_(o, 0, 2, 'p', 'q')};\n{sec}\n  lab && q;\n", "bad"))
    r = [("sections and intervals", s, v, mk) for s, v in out]
    for b in ("M", "0,M", "1,M", "M,M", "2,M", "3,M", "M,0", "M,3"):
        for mt in (-1, 0, 2):
            lo, hi = ([0] + b.split(","))[-2:] if "," not in b else b.split(",")
            lo, hi = (mt if v == "M" else int(v) for v in (lo, hi))
            x = "bad" if mt < 0 else ("ok" if lo <= hi else "bad")
            for sec, o in (("FTSPEC", "G"), ("PTSPEC", "O"), ("FTSPEC", "U"), ("PTSPEC", "S")):
                r.append(("mission time", f"{dec}{sec}\n  {one_(o, 7, 7, 'p', 'q').replace('[7,7]', f'[{b}]')};\n", x, dict(map_text="p:0\nq:1\n", mission=mt)))
    return r


KINDS = {  # what a name can be declared as -> (section text, a term that uses it as a value)
    "signal": ("INPUT\n  N: bool;\n", "N"),
    "array": ("INPUT\n  N: bool[2];\n", "N[1]"),
    "definition": ("DEFINE\n  N := h;\n", "N"),
    "struct": ("STRUCT\n  N: { b: bool; };\n", "N(h).b"),
    "enum": ("ENUM\n  N: {ON#, OFF#};\n", None),
    "member": ("ENUM\n  En#: {N, OTHER#};\n", None),
    "label": ("FTSPEC\n  N: h;\n", "N"),
    "contract": ("FTSPEC\n  N: h => g;\n", None),
}


def f4(T):
    """Names: every pair of declarations of one name, in one section or two; every use before or without a declaration; reserved words."""
    H = "INPUT\n  h, g: bool;\n"
    MP = "v:7\nv[0]:8\nv[1]:9\nh:0\ng:1\nN:2\nN[0]:3\nN[1]:4\nn1:5\nn2:6\n"
    o = dict(bz=True, map_text=MP)
    r = []
    add = lambda s, v, n="names": r.append((n, s, v, o))
    use = "FTSPEC\n  h && g;\n"
    for (k1, (d1, u1)), (k2, (d2, u2)) in itertools.product(KINDS.items(), repeat=2):
        a, b = d1.replace("#", "1"), d2.replace("#", "2")
        two = "ok" if k1 == k2 == "member" else "bad"           # two enums may share the names of members
        add(H + a + b + use, two)
        add(H + a + use + b + use, two)
        if k1 != k2:
            add(H + a + re.sub(r'\bN\b', 'n2', b) + use, "ok")
        if a.split("\n")[0] == b.split("\n")[0]: add(H + a + b.split("\n", 1)[1] + use, two)
        for u in {u1, u2} - {None}: add(H + a + b + f"FTSPEC\n  {u} && g;\n", "bad")
    for k, (d, u) in KINDS.items():
        d = d.replace("#", "1")
        add(H + d + use, "ok")
        if u:
            add(H + d + f"FTSPEC\n  {u} && g;\n", "ok")
            add(H + f"FTSPEC\n  {u} && g;\n", "bad")                     # never declared
            add(H + f"FTSPEC\n  {u} && g;\n" + d, "bad")                 # declared after its use
            add(H + f"DEFINE z := {u};\n" + d + "FTSPEC\n  z && g;\n", "bad")
            add(H + f"DEFINE z := {u};\n" + d + "FTSPEC\n  h && g;\n", "bad")
            add(d.replace("h", "true") + f"FTSPEC\n  {u};\n", "open")
            # bound variables
            for q in ("foreach", "forsome"):
                add(H + d + f"FTSPEC\n  {q}(N: {{h, g}})(N);\n", "bad" if k in ("signal", "array", "definition") else "open")
            add(H + f"FTSPEC\n  foreach(N: {{h, g}})(N);\n", "ok")
            add(H + f"FTSPEC\n  foreach(N: {{h, g}})(N) && N;\n", "bad")
            add(H + f"FTSPEC\n  N && foreach(N: {{h, g}})(N);\n", "bad")
            add(H + f"FTSPEC\n  foreach(N: {{h, N}})(N);\n", "bad")
            add(H + f"FTSPEC\n  foreach(N: {{h, g}})(N);\n  N;\n", "bad")
        else:
            add(H + d + "FTSPEC\n  N && g;\n", "bad")
            add(H + d + "FTSPEC\n  N;\n", "bad")
        add(H + d + "FTSPEC\n  N == 1;\n", "bad")
        if k not in ("array",): add(H + d + "FTSPEC\n  N[0] && g;\n", "bad")
        add(H + d + "FTSPEC\n  N.b && g;\n", "bad")
        if k != "struct": add(H + d + "FTSPEC\n  N(h).b && g;\n", "bad")
    # a name of the program within its own declaration
    for s in ("DEFINE\n  N := N;\n", "DEFINE\n  N := !N && h;\n", "DEFINE\n  N := n1; n1 := N;\n", "FTSPEC\n  N: N;\n", "FTSPEC\n  N: N && h;\n", "FTSPEC\n  N: n1; n1: N;\n", "FTSPEC\n  N: N => h;\n", "FTSPEC\n N: h => N;\n", "STRUCT\n N: { b: N; };\n DEFINE n1 := N(N(h));\n",
              "FTSPEC\n  n1: h => g; n2: n1 && h;\n", "FTSPEC\n  n1: h => g; n2: n1 => h;\n", "DEFINE n1 := h => g;\n", "FTSPEC\n  h => g;\n", "FTSPEC\n  N: (h => g);\n", "FTSPEC\n  N: h => g => h;\n", "FTSPEC\n  N: h && (g => h);\n", "FTSPEC\n  N: G[0,1] (h => g);\n",
              "FTSPEC\n N: i9 => g;\n", "FTSPEC\n N: 1 => g;\n", "FTSPEC\n N: h => 1;\n", "FTSPEC\n N: h => h + g;\n", "FTSPEC\n N: h =>;\n", "FTSPEC\n N: => h;\n", "FTSPEC\n : h;\n", "FTSPEC\n N : ;\n", "FTSPEC\n N;\n", "FTSPEC\n h\n", "FTSPEC\n h;;\n", "FTSPEC\n ;\n", "FTSPEC\n", "DEFINE\n", "INPUT\n", "STRUCT\n", "ENUM\n", "FTSPEC DEFINE\n"):
        add(H + s + use, "bad")
    for w in "STRUCT ENUM INPUT DEFINE FTSPEC PTSPEC foreach forsome forexactly foratleast foratmost pow sqrt abs xor prev G F H O U R S M true false T TAU".split():
        for k, (d, u) in KINDS.items(): add(H + re.sub(r"\bN\b", w, d).replace("#", "1") + use, "bad")
        add(H + f"FTSPEC\n foreach({w}: {{h, g}})(h);\n", "bad")
        add(H + f"STRUCT\n N: {{ {w}: bool; }};\n" + use, "bad")
    for w in ("1a", "a-b", "a b", "a.b", "$a", "a$", "é", "'a'", '"a"', "a,", "", "@"):
        for k, (d, u) in KINDS.items():
            if k == "member" and w in ("a,",): continue
            x = "open" if w == "a," else "bad"
            add(H + re.sub(r"\bN\b", lambda _: w, d).replace("#", "1") + use, x)
    # declarations
    T1 = "STRUCT\n St: { b: bool; n: int; };\nENUM\n En: {LO, HI};\n"
    for s, v in [("INPUT\n v: nosuch;\n", "bad"), ("INPUT\n v: nosuch[2];\n", "bad"), ("INPUT\n v: En;\n", "ok"), ("INPUT\n v: St;\n", "open"), ("INPUT\n v: St[2];\n", "open"), ("INPUT\n v: En[2];\n", "open"), ("INPUT\n v: int[2][2];\n", "open"), ("INPUT\n v: int[];\n", "open"), ("INPUT\n v: int[0];\n", "open"), ("INPUT\n v: int[-1];\n", "bad"), ("INPUT\n v: int[1.5];\n", "bad"), ("INPUT\n v: int[n];\n", "bad"), ("INPUT\n v: Int;\n", "bad"), ("INPUT\n v: h;\n", "bad"), ("INPUT\n v: LO;\n", "bad"), ("INPUT\n v, v: bool;\n", "bad"), ("INPUT\n v: bool; v: int;\n", "bad"), ("INPUT\n v bool;\n", "bad"), ("INPUT\n v: ;\n", "bad"), ("INPUT\n v: bool\n", "bad"),
                 ("STRUCT\n N: { b: bool; b: int; };\n", "bad"), ("STRUCT\n N: { b, b: bool; };\n", "bad"), ("STRUCT\n N: { b: nosuch; };\n", "bad"), ("STRUCT\n N: { b: nosuch[]; };\n", "bad"), ("STRUCT\n N: { b: St; };\n", "ok"), ("STRUCT\n N: { b: En; };\n", "ok"), ("STRUCT\n N: { b: Later; }; Later: { c: bool; };\n", "bad"), ("STRUCT\n N: { };\n", "open"), ("STRUCT\n N: { b: int[]; };\n", "ok"), ("STRUCT\n N: { b: St[2]; };\n", "ok"), ("STRUCT\n N: { b: bool; }\n", "bad"),
                 ("STRUCT\n N: { b: En; };\nINPUT v: En;\nDEFINE d := N(v);\nFTSPEC d.b == HI;\n", "ok"), ("STRUCT\n N: { b: En; };\nINPUT v: int;\nDEFINE d := N(v);\n", "bad"), ("STRUCT\n N: { b: St; };\nINPUT v: int;\nDEFINE d := N(St(true, v));\nFTSPEC d.b.n == 2;\n", "ok"), ("STRUCT\n N: { b: St; };\nINPUT v: int;\nDEFINE d := N(v);\n", "bad"),
                 ("INPUT\n v: St;\nFTSPEC v.b;\n", "open"), ("INPUT\n v: St;\nFTSPEC v;\n", "bad"), ("INPUT\n v: En[2];\nFTSPEC v[1] == HI;\n", "open"), ("INPUT\n v: En[2];\nFTSPEC v[1] == 1;\n", "bad"), ("INPUT\n v: int[2][2];\nFTSPEC v[0][1] == 1;\n", "open"), ("INPUT\n v: St[2];\nFTSPEC v[0].b;\n", "open"), ("INPUT\n v: int[];\nFTSPEC v[0] == 1;\n", "open"), ("INPUT\n v: int[0];\nFTSPEC foreach(k: v)(k > 1);\n", "open"),
                 ("ENUM\n N: {n1, n1};\n", "bad"), ("ENUM\n N: {n1, n2}; n3: {n1};\n", "ok"), ("ENUM\n N: {n1, n2}; n3: {n2, n1};\nINPUT v: n3;\nFTSPEC v == n1;\n", "ok"), ("ENUM\n N: {n1, n2}; n3: {n1, n1};\n", "bad"), ("ENUM\n N: {n1, n2}; n3: {N};\n", "bad"), ("ENUM\n N: {n1: h};\n", "bad"), ("ENUM\n N: {n1: 1.5};\n", "bad"), ("ENUM\n N: {n1: true};\n", "open"), ("ENUM\n N: {n1: LO};\n", "bad"), ("ENUM\n N: {n1: 1 + 1};\n", "open"), ("ENUM\n N: {n1: -1};\n", "ok"), ("ENUM\n N: {n1: 2147483647};\n", "ok"), ("ENUM\n N: {n1: 2147483648};\n", "bad"), ("ENUM\n N: {n1: 5000000000};\nINPUT n2: N;\nFTSPEC n2 == n1;\n", "bad"), ("ENUM\n N: {};\n", "bad"), ("ENUM\n N: {n1: };\n", "bad"), ("ENUM\n N: {n1; n2};\n", "bad"), ("ENUM\n N: {n1 n2};\n", "bad"),
                 ("DEFINE\n d := 1 + true;\n", "bad"), ("DEFINE\n d := h + g;\n", "bad"), ("DEFINE\n d := nosuch;\n", "bad"), ("DEFINE\n d := St(h);\n", "bad"), ("DEFINE\n d := St(h, 1, 2);\n", "bad"), ("DEFINE\n d := {h, 1};\n", "bad"), ("DEFINE\n d := G[2,1] h;\n", "bad"), ("DEFINE\n d := 3000000000;\n", "bad"), ("DEFINE\n d = h;\n", "bad"), ("DEFINE\n d := ;\n", "bad"), ("DEFINE\n d: h;\n", "bad"), ("DEFINE\n d := h; d := g;\n", "bad"), ("DEFINE\n d := foreach(k: h)(k);\n", "bad"), ("DEFINE\n d := foreach(k: {h, g})(1);\n", "bad"), ("DEFINE\n d := foreach(k: {1, 2})(k);\n", "bad"), ("DEFINE\n d := forexactly(k: {h, g}, 1.5)(k);\n", "bad"), ("DEFINE\n d := forexactly(k: {h, g})(k);\n", "bad"), ("DEFINE\n d := foreach(k: {h, g}, 1)(k);\n", "bad"), ("DEFINE\n d := foreach(k, {h, g})(k);\n", "bad"), ("DEFINE\n d := foreach(h: {h, g})(h);\n", "bad"),
                 ("DEFINE\n d := foreach(k: {h, g})(foreach(k: {h, g})(k));\n", "open"), ("DEFINE\n d := foreach(k: {})(k);\n", "open"), ("DEFINE\n d := foreach(k: {h})(nosuch);\n", "bad"), ("DEFINE\n d := foratleast(k: {h, g}, h + 1)(k);\n", "bad"), ("DEFINE\n d := foratmost(k: {h, g}, -1)(k);\n", "open"), ("DEFINE\n d := foratmost(k: {h, g}, 1 + 1)(k);\n", "open")]:
        add(H + T1 + s + "FTSPEC\n  h && g;\n", v, "declarations")
        add(T1 + s.replace("h", "true").replace("g", "false") + H + "FTSPEC\n  h && g;\n", "open" if v == "ok" else ("open" if re.search(r"\b[hg]\b|true|false", s.replace("h", "true")) and "h" in s else v), "declarations")
        if s.startswith("DEFINE\n d :="):
            x = s[len("DEFINE\n d := "):]
            add(H + T1 + ("FTSPEC\n  " + x if "\nFTSPEC" not in x else s), v, "declarations") if v == "bad" else None
    # signals without a column
    for txt, v in (("h:0\ng:1\n", "ok"), ("h:0\n", "bad"), ("", "bad"), ("g:1\n", "bad"), ("h:0\ng:1\nzz:9\n", "ok"), ("h:0\ng:0\n", "ok"), ("h 0\ng:1\n", "bad"), ("h:x\ng:1\n", "bad"), ("h:-1\ng:1\n", "bad"), ("h:0\ng:1", "ok"), ("h:0 g:1\n", "bad"), ("h:1.5\ng:1\n", "bad"), ("h:\ng:1\n", "bad"), (":0\nh:0\ng:1\n", "bad")):
        r.append(("signal maps", H + use, v, dict(map_text=txt)))
        r.append(("signal maps", H + "PTSPEC\n O[0,2] (h && g);\n", v, dict(map_text=txt)))
    r.append(("signal maps", H + use, "bad", {}))
    return r


def f5(T):
    """Booleanizer off: every operator over operands of every type."""
    dec = "ENUM\n En: {LO, HI};\nINPUT\n  p, q: bool;\n  i: int;\n  x: float;\n  m: En;\n  P: bool[2];\nDEFINE\n  dp := p && q;\nFTSPEC\n  lab: p;\n"
    mp = "p:0\nq:1\ni:2\nx:3\nm:4\nP[0]:5\nP[1]:6\n"
    at = {"p": B, "q": B, "P[1]": B, "dp": B, "lab": B, "true": B, "i": None, "x": None, "m": None, "1": "n", "0": "n", "1.5": "n", "LO": "n", "P": "n", "P[2]": None, "nosuch": None}
    r = []
    def v2(op, *a):
        t = [at[x] for x in a]
        if None in t: return "bad"
        if op in ("!", "G", "F", "U", "R") or op in LOG: return "ok" if all(x == B for x in t) else "bad"
        if op in ("==", "!="): return ("ok" if all(x == B for x in t) else "bad") if B in t else "open"
        if op == "prev": return "open"
        return "bad" if op in AR2 + UN[1:] + BW2 + REL else "open"
    for a in at:
        for op, s in [("!", f"!({a})"), ("G", f"G[0,1] ({a})"), ("F", f"F[1,2] ({a})")] + [(u, f"{u}({a})") for u in UN[1:]]: r.append((s, v2(op, a), [a]))
        for b in at:
            for op in LOG + REL + AR2 + BW2: r.append((f"({a}) {op} ({b})", v2(op, a, b), [a, b]))
            r += [(f"({a}) U[0,1] ({b})", v2("U", a, b), [a, b]), (f"({a}) R[0,1] ({b})", v2("R", a, b), [a, b]), (f"prev({a}, {b})", v2("prev", a, b), [a, b])]
    out = []
    for s, v, a in r:
        if v == "ok" and all(x == "true" for x in a): v = "open"
        out.append(("Booleanizer off", dec + f"  {s};\n", v, dict(map_text=mp)))
        out.append(("Booleanizer off", dec + f"  q && ({s});\n", v, dict(map_text=mp)))
        out.append(("Booleanizer off", dec.replace("FTSPEC", f"  e := {s};\nFTSPEC", 1) + "  q && e;\n", "open" if v == "ok" else ("bad" if v == "bad" and "lab" not in s and " F[" not in s else "open"), dict(map_text=mp)))
    return out


BASE = {
    "c2po": ["STRUCT\n St: { b: bool; n: int[2]; };\nENUM\n En: {LO, HI: 4};\nINPUT\n p, q: bool; A: int[2]; m: En;\nDEFINE\n d := p -> q; s := St(p, A);\nFTSPEC\n f: d && G[0,3] (s.n[1] >= 2);\n foreach(k: {p, q})(k) U[1,2] m == HI;\n",
             "INPUT\n p, q: bool; i: int; x: float;\nFTSPEC\n c: p => F[0,2] !q;\n prev(0, i) + 2 * -i < (i & 3);\n forexactly(k: {p, q}, 1)(k) xor x > 1.5;\nPTSPEC\n O[1,3] p || (p S[0,2] q);\n",
             "-- comment\nINPUT A, C: float[3];\nFTSPEC\n A[0..1] == C[1..2]; abs A[0] <= sqrt C[2];\n TAU % 2 == 0 <-> ~TAU > -1;\n"],
    "mltl": ["G[0,5] a0 & (a1 U[5,10] a4)\n(a0 | !a53) R[0,15] a2\n", "a0 -> F[2] (a1 <-> true)\nO[0,2] a1\n"],
}
EXTRA = {"c2po": "( ) [ ] { } ; : , . .. := => -> <-> && || ! == < + - * / % & | ^ ~ << >> 0 1 -1 1.5 true G F U R H O S T M TAU p zz i prev pow sqrt abs xor foreach forexactly INPUT DEFINE FTSPEC PTSPEC STRUCT ENUM bool int @ # = \"".split(),
         "mltl": "( ) [ ] , & | ! -> <-> && || == 0 1 -1 1.5 true false G F U R H O S T M a0 a b p ; : xor @ \n -".split(" ")}
TOK = re.compile(r"--.*|<->|->|=>|:=|==|>=|<=|!=|&&|\|\||<<|>>|\.\.|-?\d*\.\d+|-?\d+|\w+|\S|\n")


def f6(T):
    """Token mutations: every deletion, duplication, exchange of neighbours and replacement by another token."""
    r = []
    mp = "p:0\nq:1\ni:2\nx:3\nm:4\nA[0]:5\nA[1]:6\nA[2]:7\nC[0]:8\nC[1]:9\nC[2]:10\n"
    for kind, texts in BASE.items():
        for t in texts:
            tk = TOK.findall(t)
            var = [tk]
            for n in range(len(tk)):
                var.append(tk[:n] + tk[n + 1:]); var.append(tk[:n + 1] + tk[n:]); var.append(tk[:n])
                if n + 1 < len(tk): var.append(tk[:n] + [tk[n + 1], tk[n]] + tk[n + 2:]); var.append(tk[:n] + tk[n + 2:])
                for x in EXTRA[kind]: var.append(tk[:n] + [x] + tk[n + 1:]); var.append(tk[:n] + [x] + tk[n:])
                if T:
                    for k in range(n + 2, len(tk)): var.append(tk[:n] + [tk[k]] + tk[n + 1:k] + [tk[n]] + tk[k + 1:])
            for v in var:
                r.append(("token mutations", " ".join(v).rstrip() + "\n", "ok" if v is tk and (kind != "mltl" or "O" not in v) else "open", dict(kind=kind, bz=kind == "c2po", **(dict(map_text=mp) if kind == "c2po" else {}))))
    return r


def f7(T):
    """MLTL files: what is not in the format."""
    r = []
    for s, v in [("a0\n", "ok"), ("a0", "open"), ("", "open"), ("\n", "open"), ("a0\n\na1\n", "open"), ("b0\n", "bad"), ("a\n", "bad"), ("a0 a1\n", "bad"), ("a0 &\n", "bad"), ("& a0\n", "bad"), ("a0 & & a1\n", "bad"), ("(a0\n", "bad"), ("a0)\n", "bad"), ("G a0\n", "bad"), ("G[1] a0\n", "ok"), ("G[3,1] a0\n", "bad"), ("G[-1,1] a0\n", "bad"), ("G[1,-1] a0\n", "bad"), ("G[1.5] a0\n", "bad"), ("G[0,a1] a0\n", "bad"), ("a0 U a1\n", "bad"), ("a0 U[0,1]\n", "bad"), ("U[0,1] a0\n", "bad"), ("a0 G[0,1] a1\n", "bad"), ("a0 R[5,2] a1\n", "bad"), ("a0 + a1\n", "bad"), ("a0 == a1\n", "bad"), ("a-1\n", "bad"), ("a1.5\n", "bad"),
                 ("a0 & O[0,1] a1\n", "ok?"), ("(G[0,1] a0) & O[0,1] a1\n", "bad"), ("G[0,1] O[0,1] a0\n", "bad"), ("O[0,1] G[0,1] a0\n", "bad"), ("G[0,1] a0\nO[0,1] a1\n", "open"), ("a0 S[0,2] F[0,1] a1\n", "bad"), ("G[0,4294967296] a0\n", "bad"), ("G[0,99999999999999999999] a0\n", "bad"), ("a99999999999\n", "open"), ("a4294967296\n", "open"), ("a0; a1;\n", "bad"), ("f: a0\n", "bad"), ("TRUE\n", "bad"), ("G[M] a0\n", "bad"), ("G[0,M] a0\n", "bad")]:
        r.append(("MLTL files", s, "open" if v == "ok?" else v, dict(kind="mltl")))
    return r


def f8():
    """The command as a process: exit status, message and output file for one specification of every kind of outcome."""
    ok, past = "INPUT p: bool;\nFTSPEC F[0,2] p;\n", "INPUT p: bool;\nPTSPEC O[0,2] p;\n"
    sp = [("good", ok, "p:0\n", "ok"), ("past", past, "p:0\n", "ok"), ("syntax", "INPUT p: bool;\nFTSPEC p &&;\n", "p:0\n", "bad"), ("types", "INPUT p: bool;\nFTSPEC p + p == p;\n", "p:0\n", "bad"), ("names", "INPUT p: bool;\nFTSPEC q;\n", "p:0\n", "bad"),
          ("mixed", "INPUT p: bool;\nPTSPEC F[0,2] p;\n", "p:0\n", "bad"), ("interval", "INPUT p: bool;\nFTSPEC F[2,0] p;\n", "p:0\n", "bad"), ("unmapped", ok, "q:0\n", "bad"), ("badmap", ok, "p=0\n", "bad"), ("constant", "INPUT p: bool;\nFTSPEC true;\n", "p:0\n", "open"), ("wide", "INPUT p: bool;\nFTSPEC F[0,4294967296] p;\n", "p:0\n", "bad"), ("long", "INPUT p: bool;\nFTSPEC " + "n" * 80 + ": p;\n", "p:0\n", "open")]
    out = []
    for n, s, m, v in sp:
        for f in ("a", "with space", "qu'ote", 'dq"uote', "semi;colon", "do$lar", "-dash"):
            if f != "a" and n not in ("good", "syntax"): continue
            for o in ([], ["--debug"], ["-q"], ["--no-rewrite", "--no-cse"], ["-v"]) if f == "a" else ([],):
                out.append((n, s, m, v, f, o, "bin"))
    for how in ("nospec", "nomap", "outdir", "nodir", "badopt", "badext", "both", "none"):
        out.append((how, ok, "p:0\n", "bad" if how not in ("both",) else "ok", "a", [], how))
    for o in (["-p"], ["-tc"], ["-c"]):
        for n, s, m, v in sp[:6]: out.append((n + o[0], s, m, "stop-ok" if v == "ok" or (o == ["-p"] and n in ("types", "names", "mixed")) else "stop-bad", "a", o, "bin"))
    return out


def proc(it):
    n, s, m, v, f, o, how = it
    d = comp.tmpdir() / f"p{abs(hash((n, f, tuple(o), how))) % 10 ** 8}"
    d.mkdir(exist_ok=True)
    for x in d.iterdir(): x.unlink() if x.is_file() else None
    sp, mp, ob = d / f"{f}.c2po", d / f"{f}.map", d / f"{f}.bin"
    sp.write_text(s); mp.write_text(m)
    a = [sys.executable, str(common.REPO / "compiler" / "c2po.py"), "--spec", str(sp), "--map", str(mp), "--output", str(ob)] + o
    if how == "nospec": sp.unlink()
    if how == "nomap": mp.unlink()
    if how == "outdir": ob.mkdir()
    if how == "nodir": a[a.index(str(ob))] = str(d / "no" / "x.bin")
    if how == "badopt": a.append("--no-such-option")
    if how == "badext": sp.rename(d / "a.txt"); a[a.index(str(sp))] = str(d / "a.txt")
    if how == "both": (d / "t.csv").write_text("# p\n1\n"); a += ["--trace", str(d / "t.csv")]
    if how == "none": a = a[:2]
    r = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60, cwd=str(d), stdin=subprocess.DEVNULL)
    bins = [x for x in d.iterdir() if x.is_file() and x.suffix == ".bin"]
    if ob.is_dir(): ob.rmdir()
    said = r.stdout + r.stderr
    if re.search(r"unexpected error|internal|Traceback", said): return "internal error reported: " + said[-300:]
    if v == "stop-ok": return None if r.returncode == 0 else f"exit status {r.returncode} for a well-formed specification: " + said[-200:]
    if v == "stop-bad": return None if r.returncode and not bins else f"exit status {r.returncode}, binary written: {bool(bins)}"
    if r.returncode < 0: return f"killed by signal {-r.returncode}"
    if bool(r.returncode) == bool(bins): return f"exit status {r.returncode} although {'a' if bins else 'no'} binary was written: {said[-200:]}"
    if v == "ok" and r.returncode: return "well-formed specification rejected: " + said[-200:]
    if v == "bad" and not r.returncode: return "ill-formed specification accepted"
    if r.returncode and not said.strip() and "-q" not in o: return "rejected without a message"
    return None


def run(chk):
    T = common.THOROUGH
    binary._exes()
    for name, fn in (("operand types", f1), ("nested operand types", f2), ("sections and intervals", f3), ("names and declarations", f4), ("Booleanizer off", f5), ("MLTL files", f7), ("token mutations", f6)):
        its = list({(i[1], str(i[3])): i for i in fn(T)}.values())
        done = acc = 0
        cnt = {"ok": 0, "bad": 0, "open": 0}
        for it, (e, a) in pool.run(one, its, chunk=16, left=chk.left):
            done += 1; acc += a; cnt[it[2]] += 1
            if e and chk.nviol < 6:
                last = it[1].strip().splitlines()[-1].strip() if it[0] != "token mutations" else it[1]
                chk.violation(f"illformed:{it[0].replace(' ', '_')}:" + re.sub(r"\s+", "", last)[:80], f"{e[:300]}: {last[:160]} [{it[2]}]", dict(spec=it[1], expected=it[2], options=it[3], outcome=e))
        chk.add(states=done, transitions=done, traces_validated_against_impl=done, programs=done, accepted=acc)
        chk.cov.setdefault("families", {})[name] = dict(done=done, of=len(its), exhaustive=done == len(its), accepted=acc, **{"expected_" + k: v for k, v in cnt.items()})
        chk.sample(dict(family=name, specification=its[len(its) // 2][1][-200:], expected=its[len(its) // 2][2]))
    its = f8(); done = 0
    for it, e in pool.run(proc, its, chunk=2, left=chk.left):
        done += 1
        if e: chk.violation(f"process:{it[0]}:{it[4]}:{''.join(it[5])}", f"command line, {it[0]}, file name {it[4]!r}, options {it[5]}: {e}", dict(item=list(it)))
    chk.add(states=done, transitions=done, traces_validated_against_impl=done)
    chk.cov["families"]["command as a process"] = dict(done=done, of=len(its), exhaustive=done == len(its))
    return chk.finish()
