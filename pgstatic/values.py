"""Canonical value graph: hash-consed tuples, decision diagrams, polynomial normal form.

Values are nested tuples.  Booleans and gated (phi) values are multi terminal decision
diagrams ``('B', atom, hi, lo)`` ordered by atom text, so that re-nesting of branches,
early returns, De Morgan rewrites or swapped branches give the same value.
Arithmetic is kept in a rational polynomial normal form, strings / lists / generators as
sequences of (guarded) pieces.
"""
from __future__ import annotations

import hashlib
from fractions import Fraction
from typing import Dict, Tuple

class V(tuple):
    """Interned value node: a tuple with cached hash, digest and operator set."""

    def __hash__(self):
        h = self.__dict__.get("h")
        if h is None:
            h = self.__dict__["h"] = tuple.__hash__(self)
        return h


_intern: Dict[tuple, "V"] = {}


def I(v):
    """Intern a value (and every nested tuple)."""
    if type(v) is V:
        return v
    r = _intern.get(v)
    if r is None:
        r = V(I(x) if isinstance(x, tuple) else x for x in v)
        _intern[r] = r
    return r


T = I(("T",))
F = I(("F",))
NONE = I(("none",))


def key(v) -> str:
    """Deterministic content digest; total order used for canonical forms."""
    if type(v) is not V:
        v = I(v)
    k = v.__dict__.get("k")
    if k is None:
        h = hashlib.sha1()
        for x in v:
            if isinstance(x, tuple):
                h.update(b"(" + key(x).encode())
            else:
                h.update(type(x).__name__[:1].encode() + repr(x).encode("utf8", "replace") + b",")
        k = v.__dict__["k"] = h.hexdigest()
    return k


_NOOPS = frozenset()


def ops(v) -> frozenset:
    """All operator names occurring in v."""
    if type(v) is not V:
        v = I(v)
    o = v.__dict__.get("o")
    if o is None:
        s = set()
        if v and isinstance(v[0], str):
            s.add(v[0])
        for x in v:
            if isinstance(x, tuple):
                s |= ops(x)
        o = v.__dict__["o"] = frozenset(s)
    return o


def mkB(atom, hi, lo):
    if hi == lo:
        return hi
    return I(("B", atom, hi, lo))


def is_bool(v) -> bool:
    if v == T or v == F:
        return True
    if v[0] != "B":
        return False
    d = I(v).__dict__
    if "bool" not in d:
        d["bool"] = is_bool(v[2]) and is_bool(v[3])
    return d["bool"]


_ite_memo: Dict[tuple, tuple] = {}


class TooBig(Exception):
    pass


def _top(*vs):
    best = None
    for v in vs:
        if v[0] == "B":
            k = key(v[1])
            if best is None or k < best[0]:
                best = (k, v[1])
    return best[1]


def _cof(v, atom, val):
    if v[0] == "B" and v[1] == atom:
        return v[2] if val else v[3]
    return v


def ite(c, a, b):
    if c == T:
        return a
    if c == F:
        return b
    if a == b:
        return a
    if a == T and b == F:
        return c
    c, a, b = I(c), I(a), I(b)
    k = (c, a, b)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    if c[0] != "B":
        raise TypeError(f"not a boolean: {c!r}")
    atom = _top(c, a, b)
    hi = ite(_cof(c, atom, True), _cof(a, atom, True), _cof(b, atom, True))
    lo = ite(_cof(c, atom, False), _cof(a, atom, False), _cof(b, atom, False))
    r = _ite_memo[k] = mkB(atom, hi, lo)
    return r


_con_memo: Dict[tuple, tuple] = {}


def constrain(v, c):
    """Generalised cofactor: a diagram which agrees with v wherever c holds and depends
    on v only there (two values equal under c have the same result)."""
    if c == T or c == F or v[0] != "B":
        return v
    v, c = I(v), I(c)
    k = (v, c)
    r = _con_memo.get(k)
    if r is not None:
        return r
    atom = _top(v, c)
    c1, c0 = _cof(c, atom, True), _cof(c, atom, False)
    if c1 == F:
        r = constrain(_cof(v, atom, False), c0)
    elif c0 == F:
        r = constrain(_cof(v, atom, True), c1)
    else:
        r = mkB(atom, constrain(_cof(v, atom, True), c1), constrain(_cof(v, atom, False), c0))
    _con_memo[k] = r
    return r


def atom_bool(a):
    """Boolean diagram of a single atom."""
    if a == T or a == F:
        return a
    if a[0] == "B":
        return a
    return I(("B", a, T, F))


def b_not(a):
    return ite(a, F, T)


def b_and(a, b):
    return ite(a, b, F)


def b_or(a, b):
    return ite(a, T, b)


def leaves(v, limit: int = 64):
    """[(guard, leaf)] of a diagram."""
    out = []

    def rec(v, g):
        if v[0] == "B":
            rec(v[2], b_and(g, atom_bool(v[1])))
            rec(v[3], b_and(g, b_not(atom_bool(v[1]))))
        else:
            out.append((g, v))
            if len(out) > limit:
                raise TooBig

    rec(v, T)
    # merge equal leaves
    merged: Dict[tuple, tuple] = {}
    order = []
    for g, l in out:
        if l in merged:
            merged[l] = b_or(merged[l], g)
        else:
            merged[l] = g
            order.append(l)
    return [(merged[l], l) for l in order]


def map_leaves(v, fn):
    """Apply fn at every leaf of a diagram (fn may return diagrams)."""
    if v[0] == "B":
        hi = map_leaves(v[2], fn)
        lo = map_leaves(v[3], fn)
        return ite(atom_bool(v[1]), hi, lo)
    return fn(v)


def n_leaves(v) -> int:
    if v[0] != "B":
        return 1
    d = I(v).__dict__
    if "leaves" not in d:
        d["leaves"] = n_leaves(v[2]) + n_leaves(v[3])
    return d["leaves"]


# ------------------------------------------------------------------ constants
def num(x) -> tuple:
    return ("n", Fraction(str(x)) if isinstance(x, float) else Fraction(x))


def const(x):
    if x is None:
        return NONE
    if x is True:
        return T
    if x is False:
        return F
    if isinstance(x, (int, float)):
        if isinstance(x, float) and (x != x or x in (float("inf"), float("-inf"))):
            return ("k", repr(x))
        return num(x)
    if isinstance(x, str):
        return ("seq", "str", (("c", T, x),) if x else ())
    if isinstance(x, bytes):
        return ("k", repr(x))
    if x is Ellipsis:
        return ("k", "...")
    return ("k", repr(x))


def is_const(v) -> bool:
    if v in (T, F, NONE) or v[0] in ("n", "k", "enum", "cls", "fn"):
        return True
    return const_str(v) is not None


def const_str(v):
    if v[0] == "seq" and v[1] == "str":
        if not v[2]:
            return ""
        if len(v[2]) == 1 and v[2][0][0] == "c" and v[2][0][1] == T:
            return v[2][0][2]
    return None


# ------------------------------------------------------------------ polynomials
def to_poly(v) -> Dict[tuple, Fraction]:
    if v[0] == "n":
        return {(): v[1]} if v[1] else {}
    if v[0] == "poly":
        return dict(v[1])
    if v == T:
        return {(): Fraction(1)}
    if v == F:
        return {}
    return {((v, 1),): Fraction(1)}


def from_poly(p: Dict[tuple, Fraction]):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return ("n", Fraction(0))
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return ("n", c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return I(("poly", tuple(sorted(p.items(), key=lambda t: key(t[0])))))


def p_add(a, b, sign=1):
    pa = to_poly(a)
    for m, c in to_poly(b).items():
        pa[m] = pa.get(m, Fraction(0)) + sign * c
    return from_poly(pa)


def _mono_mul(m1, m2):
    d: Dict[tuple, int] = {}
    for a, e in (*m1, *m2):
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda t: key(t)))


def p_mul(a, b):
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > 400:
        raise TooBig
    out: Dict[tuple, Fraction] = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mono_mul(m1, m2)
            out[m] = out.get(m, Fraction(0)) + c1 * c2
    return from_poly(out)


def p_inv(b):
    pb = to_poly(b)
    if len(pb) == 1:
        (m, c), = pb.items()
        return from_poly({tuple((a, -e) for a, e in m): 1 / c})
    return from_poly({((b, -1),): Fraction(1)})


def p_div(a, b):
    if b[0] == "n" and b[1] == 0:
        return ("op", "/", (a, b))
    return p_mul(a, p_inv(b))


def p_neg(a):
    return p_mul(("n", Fraction(-1)), a)


def p_canon_sign(d):
    """Scale so that the leading (in canonical order) non constant coefficient is 1.
    Returns (d', flipped)."""
    p = to_poly(d)
    ms = sorted((m for m in p if m != ()), key=key)
    if not ms:
        return d, False
    c = p[ms[0]]
    return from_poly({m: x / c for m, x in p.items()}), c < 0


# ------------------------------------------------------------------ sequences
def seq(kind, pieces):
    ps = norm_pieces(pieces, kind)
    if kind == "dictc" and not ps:
        return I(("dict", ()))
    return I(("seq", kind, ps))


def unless_empty(g, x):
    """The condition under which the items of x are used; it need not exclude an empty x."""
    if not isinstance(g, tuple) or g in (T, F) or "eq0" not in ops(g):
        return g
    for _ in range(4):
        a = ("eq0", ("call", "len", (x,), ()))
        g = subst(g, lambda t: F if t == a else None)
        if x[0] == "call" and x[1] in (".items", ".values", ".keys", "list", "tuple", "enumerate", "reversed", "sorted", "iter") and x[2]:
            x = x[2][0]
        else:
            break
    return g


def norm_pieces(pieces, kind="list"):
    out = []
    for p in pieces:
        if p[1] == F:
            continue
        if p[1] != T and (p[0] in ("s", "f") or kind == "str" and p[0] == "i"):
            p = (p[0], unless_empty(p[1], p[2]), *p[2:])
        if p[0] == "c":
            if not p[2]:
                continue
            if out and out[-1][0] == "c" and out[-1][1] == p[1]:
                out[-1] = ("c", p[1], out[-1][2] + p[2])
                continue
        if p[0] in ("i", "s") and p[2][0] == "seq" and (
            p[0] == "s" or (kind == "str" and p[2][1] == "str")
        ):
            for q in p[2][2]:
                q = (q[0], b_and(p[1], q[1]), *q[2:])
                if q[1] == F:
                    continue
                if q[0] == "c" and out and out[-1][0] == "c" and out[-1][1] == q[1]:
                    out[-1] = ("c", q[1], out[-1][2] + q[2])
                else:
                    out.append(q)
            continue
        if p[0] == "f" and not p[3]:
            continue
        if p[0] == "f" and len(p[3]) == 1 and p[3][0][0] == "i" and p[3][0][1] == T and kind != "str":
            e = p[3][0][2]
            if e[0] == "elem" and len(e) == 3 and e[2] == p[2]:
                # for e in xs: append(e)  ==  extend(xs)
                out.extend(norm_pieces([("s", p[1], p[2])], kind))
                continue
        if p[0] in ("i", "s") and p[2][0] == "B" and (p[0] == "s" or kind == "str"):
            try:
                ls = leaves(p[2], 16)
            except TooBig:
                ls = None
            if ls and any(l[0] == "seq" for _, l in ls):
                sub = norm_pieces([(p[0], b_and(p[1], g), l) for g, l in ls], kind)
                for q in sub:
                    if q[0] == "c" and out and out[-1][0] == "c" and out[-1][1] == q[1]:
                        out[-1] = ("c", q[1], out[-1][2] + q[2])
                    else:
                        out.append(q)
                continue
        out.append(p)
    return tuple(out)


def guard_pieces(pieces, g):
    return tuple((p[0], b_and(g, p[1]), *p[2:]) for p in pieces)


# ------------------------------------------------------------------ generic traversal
def rebuild(v):
    """Re-normalise a tuple whose children changed."""
    op = v[0] if v else None
    if not isinstance(op, str):
        return v
    if op == "B":
        a = v[1]
        if a == T:
            return v[2]
        if a == F:
            return v[3]
        return ite(atom_bool(a), v[2], v[3])
    if op == "seq" and len(v) == 3:
        return seq(v[1], v[2])
    if op == "poly":
        total = ("n", Fraction(0))
        for m, c in v[1]:
            t = ("n", c)
            for a, e in m:
                base = a
                if e < 0:
                    base = p_inv(a)
                    e = -e
                for _ in range(e):
                    t = p_mul(t, base)
            total = p_add(total, t)
        return total
    return v


def subst(v, fn, memo=None):
    """Bottom-up rewriting: fn(tuple) -> replacement or None (applied before children)."""
    if memo is None:
        memo = {}
    if not isinstance(v, tuple):
        return v
    v = I(v)
    r = memo.get(v)
    if r is not None:
        return r
    r = fn(v) if v and isinstance(v[0], str) else None
    if r is None:
        changed = False
        ch = []
        for x in v:
            if isinstance(x, tuple):
                y = subst(x, fn, memo)
                changed = changed or y is not x and y != x
                ch.append(y)
            else:
                ch.append(x)
        r = rebuild_atom(tuple(ch)) if changed else v
    r = memo[v] = I(r)
    return r


def rebuild_atom(v):
    from . import atoms

    r = atoms.renorm(v)
    if r is not None:
        return r
    return rebuild(v)


def contains(v, pred, memo=None) -> bool:
    if not isinstance(v, tuple):
        return False
    if memo is None:
        memo = {}
    v = I(v)
    r = memo.get(v)
    if r is not None:
        return r
    memo[v] = False
    r = bool(v) and isinstance(v[0], str) and pred(v) or any(contains(x, pred, memo) for x in v if isinstance(x, tuple))
    r = memo[v] = bool(r)
    return r
