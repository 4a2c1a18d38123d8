"""Runs the real command-line monitor on trace files."""
import subprocess, os
from . import comp


def run(exe, binary, csv, stdin=False, timeout=20):
    d = comp.tmpdir()
    b, t = d / "cli.bin", d / "cli.csv"
    b.write_bytes(binary)
    csv = csv if isinstance(csv, bytes) else csv.encode()
    cmd = [str(exe), str(b)]
    if not stdin:
        t.write_bytes(csv); cmd.append(str(t))
    try:
        p = subprocess.run(cmd, input=csv if stdin else b"", stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "timeout", b"", b""
    return p.returncode, p.stdout, p.stderr


def run_many(exe, binary, csvs, stdin=False, timeout=20):
    return [run(exe, binary, c, stdin, timeout) for c in csvs]


def stream(out):
    """Verdict lines `name:time,T|F` in order; other lines are returned separately."""
    v, other = [], []
    for l in out.decode("latin1").splitlines():
        n, s, r = l.rpartition(":")
        t, c, b = r.partition(",")
        if s and c and t.isdigit() and b in ("T", "F"): v.append((n, int(t), b == "T"))
        else: other.append(l)
    return v, other


def truth(verdicts, names):
    """{name: [truth per step]} from aggregated verdicts; raises ValueError when the order is broken."""
    out = {n: [] for n in names}
    for n, t, b in verdicts:
        r = out[n]
        if t < len(r): raise ValueError(f"{n}: verdict for step {t} after step {len(r) - 1}")
        r += [b] * (t + 1 - len(r))
    return out
