"""Human readable report of one differing obligation."""
from __future__ import annotations


def explain(d, oid, v) -> str:
    w = v.witness or {}
    out = [f"behaviour of {oid} differs from the confirmed one: {w.get('what', 'effect')}"]
    if w.get("case"):
        out.append(f"  in the case: {w['case']}")
    for k, label in (("ref", "expected"), ("cur", "found")):
        if k in w:
            out.append(f"  {label}: {w[k]}")
    for k, x in w.items():
        if k not in ("what", "case", "ref", "cur"):
            out.append(f"  {k}: {x}")
    return "\n".join(out)
