"""one.py KIND SEED OID: rebuild a rewrite of run_refactors and show both summaries of OID."""
import sys
sys.path.insert(0, "/verif"); sys.path.insert(0, "/verif/tools")
import run_refactors as rr
from pgstatic.model import Program
from pgstatic.tables import Decider
kind, seed, oid = sys.argv[1], int(sys.argv[2]), sys.argv[3]
lvl = int(sys.argv[4]) if len(sys.argv) > 4 else 0
overlay, applied = rr.rewrite(kind, seed)
import pprint
import signal; signal.signal(signal.SIGPIPE, signal.SIG_DFL)
for m, xs in applied.items():
    for x in xs:
        if x.split("\n")[0].split(".")[-1] == oid.split(".")[-1]: print(x)
d = Decider(Program(overlay=overlay))
from pgstatic.compare import show
v = d.decide(oid)
print(v.state, v.witness)
row = d.ref[oid]; L = row.get(f"L{lvl}", row["L0"])
print("REF"); pprint.pprint((d.vals[L[0]], d.vals[L[1]]), width=180)
print("CUR"); pprint.pprint(d.s.summary(oid, lvl)[:3], width=180)
