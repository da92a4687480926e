"""Hand-written behaviour-preserving rewrites: every check has to stay quiet on them.

manual.py [NAME...]: applies each in memory and reports obligations that differ or cannot be decided, and rule findings."""
import sys, time, multiprocessing as mp
sys.path.insert(0, "/verif")
from pgstatic.model import Program
from pgstatic.tables import Decider
from pgstatic import rules as R

RF = []
def rf(name, *edits): RF.append((name, edits))
import importlib.util, os
HERE = os.path.dirname(os.path.abspath(__file__))
for _n in sorted(os.listdir(HERE)):
    if _n.startswith("manual_rewrites"):
        exec(open(os.path.join(HERE, _n)).read())

def overlay(edits):
    ov = {}
    for f, old, new in edits:
        k = "pygerber/" + f
        if old is None:
            ov[k] = new; continue
        s = ov.get(k) or open("/repo/src/pygerber/" + f).read()
        if old not in s: raise SystemExit(f"NOT FOUND in {f}: {old[:60]!r}")
        ov[k] = s.replace(old, new, 1)
    for k, s in ov.items(): compile(s, k, "exec")
    return ov

def debug(name, oid):
    d = Decider(Program(overlay=overlay(dict(RF)[name])))
    print(d.decide(oid))

def one(a):
    name, edits = a
    ov = overlay(edits)
    prog = Program(overlay=ov)
    d = Decider(prog)
    out = []
    t = time.time()
    for o in d.ref:
        v = d.decide(o)
        if v.state != "equal": out.append(f"{v.state} {o} {str(v.witness or v.cases)[:(6000 if os.environ.get("LONG") else 600)]}")
    for r in R.RULES:
        res = R.run_rule(r, d)
        if res is None: continue
        for x in res.violations: out.append(f"RULE {r} {x}")
        for x in res.undecided: out.append(f"RULE-UNDECIDED {r} {x}")
    t = time.time() - t
    if t > 60: out.append(f"slow {t:.0f}s")
    return name, out

if __name__ == "__main__":
    sel = [a for a in RF if not sys.argv[1:] or any(x in a[0] for x in sys.argv[1:])]
    with mp.Pool(6, maxtasksperchild=4) as pool:
        for n, out in pool.imap(one, sel, chunksize=1):
            print(("ok   " if not out else "BAD  ") + n)
            for x in out[:8]: print("      ", x)
