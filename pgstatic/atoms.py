"""Boolean atoms: construction, normalisation and the small theory between them."""
from __future__ import annotations

import re
import re._parser as sre_parse
from fractions import Fraction

from .values import (
    F, NONE, T, TooBig, atom_bool, b_and, b_not, b_or, const, const_str, is_bool, is_const, key,
    leaves, map_leaves, n_leaves, p_add, p_canon_sign, to_poly,
)

ZERO = ("n", Fraction(0))


def is_len(v):
    return v[0] == "call" and v[1] == "len"


def a_isnone(v):
    if v[0] == "B" and n_leaves(v) <= 32:
        return map_leaves(v, a_isnone)
    if v == NONE:
        return T
    if v in (T, F) or v[0] in ("n", "k", "seq", "new", "enum", "cls", "fn", "poly", "dict", "lam"):
        return F
    if v[0] == "call" and v[1] in ("re.match", "re.search") and len(v[2]) == 2 and not v[3] and const_str(v[2][0]) is not None:
        # a pattern which only asks for a text: does the subject start with it, does it contain it?
        t = literal_pattern(const_str(v[2][0]), v[1] == "re.match")
        if t:
            lit = const(t)
            if v[1] == "re.match":
                return b_not(atom_bool(("t", ("call", ".startswith", (v[2][1], lit), ()))))
            return b_not(atom_bool(("in", lit, v[2][1])))
    return atom_bool(("isnone", v))


_literals: dict = {}


def literal_pattern(pat, prefix):
    """The text t such that the pattern matches exactly the subjects that start with t (contain t), if it is of that kind."""
    k = (pat, prefix)
    if k not in _literals:
        out = None
        try:
            items = list(sre_parse.parse(pat))
            out = ""
            while items and str(items[0][0]) == "LITERAL":
                out += chr(items.pop(0)[1])
            for op, a in items:
                # what follows can match nothing
                if str(op) not in ("MAX_REPEAT", "MIN_REPEAT") or a[0] != 0 or any(str(o) in ("ASSERT", "ASSERT_NOT", "AT") for o, _ in a[2]):
                    out = None
                    break
        except re.error:
            out = None
        _literals[k] = out
    return _literals[k]


def a_eq(a, b, numeric=False, strict_num=False):
    if a == b:
        return T
    for x, y in ((a, b), (b, a)):
        if x[0] == "B" and n_leaves(x) <= 32 and not is_bool(x):
            return map_leaves(x, lambda l: a_eq(l, y, numeric))
    if is_bool(a) and is_bool(b):
        from .values import ite
        return ite(a, b, b_not(b))
    if a == NONE:
        return a_isnone(b)
    if b == NONE:
        return a_isnone(a)
    if is_const(a) and is_const(b):
        return F  # distinct constants
    for x, y in ((a, b), (b, a)):
        if const_str(y) == "" or (y[0] == "seq" and y[1] in ("list", "tuple") and not y[2]):
            if x[0] == "seq":
                return b_not(a_truthy_seq(x))
            return atom_bool(("eq0", ("call", "len", (x,), ())))
    if numeric or a[0] in ("n", "poly") or b[0] in ("n", "poly"):
        d = p_add(a, b, -1)
        return a_sign("eq0", d)
    if key(a) > key(b):
        a, b = b, a
    if is_const(a):
        a, b = b, a
    return atom_bool(("eq", a, b))


def a_sign(kind, d):
    """kind in eq0 / lt0 / gt0."""
    if d[0] == "n":
        x = d[1]
        return T if {"eq0": x == 0, "lt0": x < 0, "gt0": x > 0}[kind] else F
    d, flipped = p_canon_sign(d)
    if flipped and kind != "eq0":
        kind = "gt0" if kind == "lt0" else "lt0"
    p = to_poly(d)
    # len(x) - c
    ms = [m for m in p if m != ()]
    if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1 and is_len(ms[0][0][0]):
        c = -p.get((), Fraction(0))  # len ? c
        ln = ms[0][0][0]
        if c == 0:
            if kind == "gt0":
                return b_not(atom_bool(("eq0", ln)))
            if kind == "lt0":
                return F
        elif c == 1 and kind == "lt0":
            return atom_bool(("eq0", ln))
        elif c < 0:
            return {"gt0": T, "lt0": F, "eq0": F}[kind]
        elif kind == "lt0" and c.denominator == 1:
            # len < c  <=>  not len > c-1
            return b_not(atom_bool(("gt0", p_add(ln, ("n", c - 1), -1))))
    return atom_bool((kind, d))


def a_lt(a, b):
    return a_sign("lt0", p_add(a, b, -1))


def a_gt(a, b):
    return a_sign("gt0", p_add(a, b, -1))


def a_truthy_seq(v):
    g = F
    rest = []
    for p in v[2]:
        if p[0] in ("i", "c") and v[1] != "str" or p[0] == "c":
            g = b_or(g, p[1])
        elif p[0] == "s" and p[2][0] not in ("seq", "B"):
            g = b_or(g, b_and(p[1], b_not(atom_bool(("eq0", ("call", "len", (p[2],), ()))))))
        else:
            rest.append(p)
    if g == T or not rest:
        return g
    return b_or(g, b_not(atom_bool(("eq0", ("call", "len", (v,), ())))))


def a_truthy(v, ty=None):
    if is_bool(v):
        return v
    if v[0] == "B":
        return map_leaves(v, lambda l: a_truthy(l, ty))
    if v == NONE:
        return F
    if v[0] == "n":
        return T if v[1] else F
    if v[0] == "seq":
        return a_truthy_seq(v)
    if v[0] in ("enum", "cls", "fn", "lam"):
        return T
    if v[0] == "new":
        return T
    if v[0] == "dict":
        return T if v[1] else F
    if ty == "num":
        return b_not(a_sign("eq0", v))
    if ty == "coll":
        return b_not(atom_bool(("eq0", ("call", "len", (v,), ()))))
    if ty == "optobj":
        return b_not(a_isnone(v))
    if ty == "obj":
        return T
    if ty == "bool":
        return atom_bool(("t", v))
    return atom_bool(("t", v))


def seq_item(v, k):
    """Item of a list or tuple whose items up to it, counted from the end the index counts from, are all there."""
    if k[0] == "n" and v[1] in ("list", "tuple") and k[1].denominator == 1:
        i = int(k[1])
        if -len(v[2]) <= i < len(v[2]) and all(p[:2] == ("i", T) for p in (v[2][i:] if i < 0 else v[2][:i + 1])):
            return v[2][i][2]
    return None


def renorm(v):
    """Re-normalise atoms / values whose children were substituted (returns None if n/a)."""
    op = v[0] if v and isinstance(v[0], str) else None
    if op == "isnone":
        return a_isnone(v[1])
    if op == "eq":
        a, b = v[1], v[2]
        if a[:2] == ("seq", "tuple") and b[:2] == ("seq", "tuple") and all(p[:2] == ("i", T) for p in (*a[2], *b[2])):
            if len(a[2]) != len(b[2]):
                return F
            r = T
            for p, q in zip(a[2], b[2]):
                r = b_and(r, renorm(("eq", p[2], q[2])))
            return r
        return a_eq(a, b)
    if op == "item" and len(v) == 3 and v[1][0] == "seq":
        return seq_item(v[1], v[2])
    if op in ("eq0", "lt0", "gt0") and len(v) == 2:
        if v[1][0] == "call" and v[1][1] == "len" and v[1][2] and v[1][2][0][0] == "seq" and op == "eq0":
            return b_not(a_truthy_seq(v[1][2][0]))
        r = a_sign(op, v[1])
        if r[0] == "B" and r[1] == v and r[2] == T and r[3] == F:
            return v
        return r
    if op == "in" and len(v) == 3 and v[2] in (("dict", ()), ("seq", "list", ()), ("seq", "tuple", ()), ("seq", "set", ())):
        return F
    if op == "t":
        r = a_truthy(v[1])
        if r[0] == "B" and r[1] == v:
            return v
        return r
    if op == "B":
        a = v[1]
        if a == T:
            return v[2]
        if a == F:
            return v[3]
        if a[0] == "B":
            from .values import ite
            return ite(a, v[2], v[3])
        return None
    return None
