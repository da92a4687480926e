#!/usr/bin/env python3
"""Decide one property of pygerber from the source in /repo (static analysis, no execution).

usage: check.py <property id> [--thorough] [--repo PATH]

exit 0: the property's obligations and rules hold; exit 1 with a VIOLATION line: a construct
breaks it; exit 2: the analysis itself is broken (nothing to analyse).
"""
from __future__ import annotations

import argparse
import ast
import json
import os
import sys
import time
import traceback
from collections import Counter
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
sys.setrecursionlimit(20000)

from pgstatic.explain import explain  # noqa: E402
from pgstatic.model import Program  # noqa: E402
from pgstatic.properties import BY_ID  # noqa: E402
from pgstatic.rules import LENSES, run_rule  # noqa: E402
from pgstatic.tables import Decider  # noqa: E402

FINDINGS = HERE / "known_findings.txt"
ASSUMPTIONS = [
    "the confirmed obligation table spec/obligations.json describes the intended behaviour of each entry point (it was "
    "written after reviewing and repairing the code; see DESIGN.md)",
    "calls into other libraries (pyparsing, pydantic, Pillow, shapely, click, pygls) are uninterpreted: equal arguments in equal order give equal effects",
    "arithmetic is exact (rational polynomials); floating point rounding is not modelled",
    "attribute access has no hidden side effects other than those of properties defined in the repository; no monkey patching",
]


def findings(pid: str):
    out = []
    if FINDINGS.exists():
        for line in FINDINGS.read_text().splitlines():
            if line.startswith("finding:"):
                head, _, what = line[len("finding:"):].strip().partition(" :: ")
                kv = head.split(" key=", 1)
                if len(kv) == 2 and kv[0].strip() == f"property={pid}":
                    out.append((kv[1].strip(), what.strip()))
    return out


def still_referenced(prog: Program, name: str) -> bool:
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and n.attr == name or isinstance(n, ast.Name) and n.id == name:
                return True
    return False


def gone_is_violation(d: Decider, oid: str) -> bool:
    """An entry point that vanished: a broken promise when something still refers to it (or it is an
    operator of a class that still exists); a rename of an unreferenced name is not."""
    kind, name = oid.split(" ", 1)
    if kind not in ("fn", "method", "enum"):
        return False
    last = name.split(":")[-1].split(".")[-1]
    if kind == "method":
        cls = name.split(":")[-1].rsplit(".", 1)[0]
        if d.prog.maybe_cls(cls) is None:
            return False
        if last.startswith("__"):
            return True
    return still_referenced(d.prog, last)


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--repo", default="/repo")
    a = ap.parse_args()
    p = BY_ID[a.pid]
    tier = "thorough" if a.thorough or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    prog = Program(Path(a.repo))
    d = Decider(prog, budget=30000 if tier == "thorough" else 3000)
    ids = [o for o, r in d.ref.items() if p.matches(o, r["module"])]
    states: Counter = Counter()
    kinds: Counter = Counter()
    cases = 0
    bad, undecided, samples = [], [], []
    for o in ids:
        v = d.decide(o)
        kinds[o.split(" ", 1)[0]] += 1
        cases += v.cases
        st = v.state
        if st == "gone":
            if gone_is_violation(d, o):
                bad.append((o, "?", "obligation", f"{o} no longer exists although it is still used"))
            else:
                undecided.append(f"{o}: no longer exists under this name")
        elif st == "different":
            bad.append((o, v.where, "obligation", explain(d, o, v)))
        elif st == "unknown":
            why = (v.witness or {}).get("why") if isinstance(v.witness, dict) else v.witness
            undecided.append(f"{o}: {why}")
        else:
            if len(samples) < 8 and o.split(" ")[0] in ("method", "fn") and len(samples) * max(1, len(ids) // 8) <= sum(states.values()):
                samples.append(f"{o} ({v.where}): summary equal in {max(1, v.cases)} case(s)")
        states[st] += 1
    lens = {}
    for ln in p.lens:
        f, n, hit = LENSES[ln], 0, 0
        for o in d.ref:
            if o in ids or not o.startswith(("fn ", "method ")):
                continue
            both = d.both(o)
            if both is None or not (f(both[0]) or f(both[1])):
                continue
            n += 1
            if f(both[0]) != f(both[1]):
                v = d.decide(o)
                if v.state == "different":
                    hit += 1
                    bad.append((o, v.where, f"obligation, {ln} only", explain(d, o, v)))
        lens[ln] = {"entry_points": n, "different": hit}
    rules = {}
    broken = []
    for rn in p.rules:
        r = run_rule(rn, d)
        if r is None:
            broken.append(f"rule {rn} is missing")
            continue
        rules[rn] = {"rule": r.rule, "instances": r.n, "undecided": len(r.undecided), "violations": len(r.violations), "samples": r.samples[:4]}
        if r.n + len(r.undecided) < r.floor:
            broken.append(f"rule {rn}: {r.n} instances, expected at least {r.floor}")
        for key, where, text in r.violations:
            bad.append((f"{rn}:{key}", where, r.rule, text))
    if ids and states["gone"] * 2 > len(ids):
        broken.append(f"{states['gone']} of {len(ids)} entry points have vanished")
    known = []
    for key, what in findings(p.id):
        if key in d.ref:
            if d.decide(key).state == "equal":
                known.append(what)
        elif any(b[0] == key for b in bad):
            bad = [b for b in bad if b[0] != key]
            known.append(what)
    ev = {
        "property": p.id, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Every entry point anchoring the property is summarised from /repo's current source by path sensitive symbolic "
            "dataflow over the syntax tree (helpers inlined, guards as decision diagrams, arithmetic as polynomials, writes, "
            "raises, calls and loop bodies as ordered guarded effects) and compared, guard case by guard case, with the confirmed "
            "summary; structural rules (call graph, import graph, effects, tables) are evaluated on the same source. The code is never run.",
            "modules_parsed": len(prog.modules),
            "obligations": len(ids), "discharged": states["equal"], "different": states["different"], "gone": states["gone"],
            "undecided": len(undecided), "guard_cases_compared": cases,
            "obligation_kinds": dict(kinds), "lenses": lens, "rules": rules, "samples": samples or [f"{k}: {v['samples'][:1]}" for k, v in rules.items()],
            "undecided_list": undecided[:40], "known_findings": known,
            "modules": sorted({d.ref[o]["module"] for o in ids}),
        },
        "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - t0, 3), "violations": len(bad),
    }
    evd = HERE / "evidence"
    evd.mkdir(exist_ok=True)
    (evd / f"{p.id}.json").write_text(json.dumps(ev, indent=1) + "\n")
    for k in known:
        print(f"KNOWN-FINDING: property={p.id} {k}")
    if bad:
        rp = evd / f"{p.id}.violations.txt"
        with rp.open("w") as f:
            f.write(f"{p.id} {p.title}\n\n")
            for key, where, rule, text in bad:
                f.write(f"construct: {key}\nwhere: {where}\nrule: {rule}\n{text}\n\n")
        for key, where, rule, text in bad[:10]:
            print(f"  {where}: {key}: {text.splitlines()[0][:300] if text else rule}")
        print(f"VIOLATION property={p.id} replay={rp}")
        return 1
    if broken:
        print(f"analysis broken: {'; '.join(broken)}", file=sys.stderr)
        return 2
    print(f"{p.id}: {states['equal']}/{len(ids)} obligations equal, {len(undecided)} undecided, rules "
          f"{ {k: v['instances'] for k, v in rules.items()} } ({ev['wall_s']} s)")
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SyntaxError as e:
        print(f"cannot parse {e.filename}:{e.lineno}: {e.msg}", file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
