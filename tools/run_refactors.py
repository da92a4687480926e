"""Apply every kind of rewrite to every module many times and report alarms."""
import ast, copy, random, sys, time, multiprocessing as mp
from collections import Counter
sys.path.insert(0, "/verif"); sys.path.insert(0, "/verif/tools")
from pgstatic.model import Program
from pgstatic.tables import Decider
from pgstatic.rules import RULES, run_rule
from refactors import KINDS, R

def fns(tree):
    out = []
    for s in tree.body:
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)): out.append((s, None))
        elif isinstance(s, ast.ClassDef):
            for f in s.body:
                if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)): out.append((f, s))
    return out

BASE = None
KNOWN = None
def known():
    global KNOWN
    if KNOWN is None:
        d = Decider(BASE)
        KNOWN = {k for r in RULES for k, _, _ in run_rule(r, d).violations}
    return KNOWN
def rewrite(kind, seed):
    rng = random.Random(seed)
    global BASE
    if BASE is None: BASE = Program()
    # apply kind to several random functions (one per module) at once
    overlay = {}; applied = {}
    mods = list(BASE.modules.values())
    for m in mods:
        t = copy.deepcopy(m.tree)
        cand = fns(t); rng.shuffle(cand)
        r = R(rng); r.n = rng.randint(1, 10**6)
        k = 0
        for f, c in cand:
            before = ast.unparse(f)
            if getattr(r, kind)(f, c, t):
                applied.setdefault(m.name, []).append((c.name + "." if c else "") + f.name + "\n--- before\n" + before + "\n--- after\n" + ast.unparse(ast.fix_missing_locations(f)))
                k += 1
                if k >= 3: break
        if k:
            ast.fix_missing_locations(t)
            overlay[str(m.path.relative_to(BASE.root / "src"))] = ast.unparse(t)
    return overlay, applied


def work(job):
    kind, seed = job
    overlay, applied = rewrite(kind, seed)
    p = Program(overlay=overlay)
    d = Decider(p)
    out = []; und = []
    for o in d.ref:
        v = d.decide(o)
        if v.state in ("different", "gone"): out.append((o, v.where, v.witness))
        elif v.state == "unknown": und.append((o, v.witness))
    base = known()
    for r in RULES:
        res = run_rule(r, d)
        out += [(f"rule {r}:{k}", w, t) for k, w, t in res.violations if k not in base]
        if res.n + len(res.undecided) < res.floor: out.append((f"rule {r}", "?", f"{res.n} instances"))
    return kind, seed, sum(map(len, applied.values())), out, und, applied

if __name__ == "__main__":
    n = int(sys.argv[1]); only = sys.argv[2].split(",") if len(sys.argv) > 2 else KINDS
    s0 = int(sys.argv[3]) if len(sys.argv) > 3 else 0
    jobs = [(k, s0 + s) for k in only for s in range(n)]
    tot = Counter(); al = Counter(); un = Counter(); seen = set()
    with mp.Pool(8) as pool:
        for kind, seed, ap, out, und, applied in pool.imap_unordered(work, jobs):
            tot[kind] += ap; al[kind] += len(out); un[kind] += len(und)
            for o, w, wit in out:
                k = (kind, (w or "").split(":")[0], o.split(".")[-1])
                if k in seen: continue
                seen.add(k)
                print("ALARM", kind, seed, o, w, "\n     ", wit)
                if "-v" in sys.argv:
                    for m, xs in applied.items():
                        for x in xs:
                            if x.split("\n")[0].split(".")[-1] == o.split(".")[-1]: print(x)
            if "-u" in sys.argv:
                for o, w in und:
                    print("UNDECIDED", kind, o, w)
                    for m, xs in applied.items() if "-v" in sys.argv else ():
                        for x in xs:
                            if x.split("\n")[0].split(".")[-1] == o.split(".")[-1]: print(x)
    print("applied", dict(tot)); print("alarms", dict(al)); print("undecided", dict(un))
