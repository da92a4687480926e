"""Type independent form of summaries.

The canonical form of an expression depends on inferred types (numbers become polynomials,
known methods bind their arguments by name).  A rewrite can take a type annotation away from
the inference without any change of behaviour, so a difference which disappears in this
coarser form is not reported: it is a difference of what is known, not of what is computed.
"""
from __future__ import annotations

from .atoms import a_eq, a_sign
from .values import F, I, T, atom_bool, b_not, ite, num, p_add, p_div, p_mul, p_neg, rebuild_atom, seq, to_poly


class Weaken:
    def __init__(self, prog) -> None:
        self.sig = {}
        for f in prog.all_funcs():
            if f.cls is None or f.is_static or f.node.args.vararg or f.node.args.kwarg:
                continue
            names = tuple(p.arg for p in f.params[1:])
            self.sig.setdefault(f.name, set()).add(names)
        self.memo = {}

    def __call__(self, v):
        if not isinstance(v, tuple):
            return v
        v = I(v)
        r = self.memo.get(v)
        if r is None:
            r = self.memo[v] = I(self._one(v))
        return r

    def _one(self, v):
        ch = tuple(self(x) if isinstance(x, tuple) else x for x in v)
        if not ch or not isinstance(ch[0], str):
            return ch
        op = ch[0]
        if op == "B":
            return ite(self.atom(ch[1]), ch[2], ch[3])
        if op == "op" and len(ch) == 3:
            a = ch[2]
            if ch[1] == "neg":
                return p_neg(a[0])
            if ch[1] == "pos":
                return a[0]
            if ch[1] in "+-*/" and not any(x[0] in ("seq", "dict") for x in a):
                r = a[0]
                for x in a[1:]:
                    r = {"+": p_add, "-": lambda p, q: p_add(p, q, -1), "*": p_mul, "/": p_div}[ch[1]](r, x)
                return r
        if op == "poly":
            return self.poly(v)
        if op == "call" and len(ch) == 4 and isinstance(ch[1], str) and ch[1].startswith(".") and len(ch[2]) > 1:
            return (op, ch[1], *self.named(ch[1], ch[2], ch[3]))
        if op == "call" and len(ch) == 5 and isinstance(ch[2], str) and ch[2].startswith(".") and len(ch[3]) > 1:
            return (op, ch[1], ch[2], *self.named(ch[2], ch[3], ch[4]))
        if op == "i" and len(ch) == 3 and ch[2][:2] == ("call", "str") and len(ch[2][2]) == 1 and not ch[2][3]:
            return ("i", ch[1], ch[2][2][0])
        if op == "seq" and len(ch) == 3:
            return seq(ch[1], ch[2])
        return rebuild_atom(ch)

    def named(self, name, args, kw):
        sigs = self.sig.get(name[1:], ())
        if len(sigs) != 1:
            return args, kw
        (names,) = sigs
        pos = args[1:]
        if len(pos) > len(names) or any(a[0] == "star" for a in pos):
            return args, kw
        both = dict(kw)
        for n, a in zip(names, pos):
            both[n] = a
        return args[:1], tuple(sorted(both.items()))

    def poly(self, v):
        out = num(0)
        for m, c in to_poly(v).items():
            t = ("n", c)
            for b, e in m:
                w = self(b)
                for _ in range(abs(e)):
                    t = p_mul(t, w) if e > 0 else p_div(t, w)
            out = p_add(out, t)
        return out

    def atom(self, a):
        """Boolean value of a weakened atom."""
        if a[0] == "eq" and len(a) == 3:
            return a_eq(a[1], a[2], True)
        if a[0] == "eq0":
            x = a[1]
            if x[0] == "call" and x[1] == "len":
                return b_not(atom_bool(("t", x[2][0])))
            if x[0] not in ("n", "poly"):
                return b_not(atom_bool(("t", x)))
            return a_sign("eq0", x)
        return atom_bool(a) if a[0] not in ("T", "F", "B") else a
