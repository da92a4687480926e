"""Equivalence of effect summaries modulo a small theory.

Two summaries (ordered guarded effects + gated return value) are compared by case
splitting on the branch atoms in which they differ; each case is closed under a small
theory (constant equality, sign of differences, None-ness, class hierarchy, enum
exhaustiveness) and infeasible cases are discarded.  In a case without open branches the
effects are straight line and are compared modulo commutation of independent effects.

Outcome: EQUAL, DIFFERENT (with the case and the differing effect) or UNKNOWN (budget or
weakly modelled construct); only DIFFERENT is ever reported.
"""
from __future__ import annotations

import ast
import heapq
import itertools
import math
from fractions import Fraction
from typing import Dict, List, Optional, Tuple

from .atoms import a_truthy
from .values import (
    F, I, NONE, T, TooBig, const_str, from_poly, is_const, key, norm_pieces, ops, p_add, p_canon_sign, seq, subst, to_poly,
)

EQUAL, DIFFERENT, UNKNOWN = "equal", "different", "unknown"

ATOMS = {"isnone", "eq", "eq0", "lt0", "gt0", "t", "isinst", "in", "exc", "lt", "le", "cmp", "loopexit", "opq"}


class Budget(Exception):
    pass


class Infeasible(Exception):
    pass


class World:
    """Facts about the analysed program the theory needs."""

    def __init__(self, prog, facts) -> None:
        self.prog = prog
        self.facts = facts
        self._rel: Dict[tuple, str] = {}
        self._methods: Optional[frozenset] = None
        self.closed: Dict[tuple, frozenset] = {}  # classes an object can have by its declared type

    def enum_members(self, cls: str) -> Optional[frozenset]:
        c = self.prog.maybe_cls(cls)
        if c is None or not c.is_enum:
            return None
        return frozenset(c.consts)

    def relation(self, a: str, b: str) -> str:
        """'sub' (a <= b), 'super', 'disjoint' or '?'"""
        k = (a, b)
        r = self._rel.get(k)
        if r is None:
            ca, cb = self.prog.maybe_cls(a), self.prog.maybe_cls(b)
            if ca is None or cb is None:
                builtin = {"str", "int", "float", "list", "dict", "tuple", "set", "bytes"}
                streams = {"BinaryIO", "BytesIO", "TextIO", "StringIO", "IO", "TextIOBase", "IOBase"}
                plain = builtin | {"Path", "PurePath"}
                ta, tb = a.split(".")[-1], b.split(".")[-1]
                if a != b and (a in builtin and b in builtin or ta in plain and tb in plain and "Path" in (ta, tb) and not (
                        "Path" in ta and "Path" in tb) or ta in plain and tb in streams or ta in streams and tb in plain):
                    r = "disjoint"
                elif (ca or cb) and (b if ca else a) in builtin and all(
                        x.split(".")[-1] in ("BaseModel", "ABC", "object", "Generic", "Protocol")
                        for c in self.prog.subclasses(ca or cb) + [ca or cb] for x in c.ext_bases()):
                    r = "disjoint"
                else:
                    r = "?"
            elif ca.is_sub(cb):
                r = "sub"
            elif cb.is_sub(ca):
                r = "super"
            else:
                common = set(map(id, self.prog.subclasses(ca))) & set(map(id, self.prog.subclasses(cb)))
                r = "?" if common else "disjoint"
            self._rel[k] = r
        return r

    def never_none(self, x) -> bool:
        """Is x the result of arithmetic, of joining sequences, a bound method or a fold of such values?"""
        if x[0] in ("op", "poly", "n", "k", "seq", "new", "enum", "cls", "fn", "lam", "dict", "slice"):
            return True
        if x[0] == "B":
            return self.never_none(x[2]) and self.never_none(x[3])
        if x[0] == "attr" and len(x) == 3:
            return x[2] in self.methods()
        if x[0] == "fold" and len(x) == 5:
            return all(self.never_none(p[0]) and self.never_none(p[1]) for p in x[4][:1])
        return False

    def methods(self) -> frozenset:
        """Names which only ever denote methods."""
        if self._methods is None:
            m, other = set(), set()
            for c in (c for cs in self.prog.class_by_name.values() for c in cs):
                for n, f in c.methods.items():
                    (other if f.is_property else m).add(n)
                other |= set(c.fields) | set(c.consts)
            for mod in self.prog.modules.values():
                for n in ast.walk(mod.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        other.add(n.attr)
            self._methods = frozenset(m - other)
        return self._methods

    def touches(self, callee: str):
        """(attribute names read or written by callee, known?)"""
        name = callee.split(".")[-1].split(":")[-1]
        m = self.facts.mods.get(name)
        if m is None:
            return None
        return m | self.facts.reads.get(name, frozenset())


def split_const(d):
    p = dict(to_poly(d))
    c = p.pop((), Fraction(0))
    return from_poly(p), c

NUMBERLIKE = {"attr", "p", "elem", "item", "call", "poly", "n", "mu", "val", "key", "lp", "self"}


class Ctx:
    def __init__(self, world: World, lits: Optional[Dict[tuple, bool]] = None, order=()) -> None:
        self.w = world
        self.lits = dict(lits or {})
        self.order = list(order)
        self.sub: Dict[tuple, tuple] = {}
        self.iv: Dict[tuple, list] = {}
        self.memo: Dict[tuple, tuple] = {}
        for a, v in self.lits.items():
            self._note(a, v)

    def assume(self, atom, val) -> "Ctx":
        if atom[0] in ATOMS:
            d = self.decide(atom)
            if d is not None and (d == T) != val:
                raise Infeasible
        c = Ctx(self.w, {**self.lits, atom: val}, [*self.order, (atom, val)])
        c._check()
        return c

    def _note(self, a, v):
        if a[0] == "isnone" and v:
            self.sub[a[1]] = NONE
        elif a[0] == "eq" and v and is_const(a[2]):
            self.sub[a[1]] = a[2]
        elif a[0] == "t" and a[1][0] in ("attr", "p") and False:
            pass
        if a[0] == "eq":
            a = self._as_diff(a) or a
        if a[0] in ("eq0", "lt0", "gt0"):
            b, c = split_const(a[1])  # b + c ? 0
            k = -c
            iv = self.iv.setdefault(b, [None, False, None, False, set()])  # lo, strict, hi, strict, neq
            op = {"eq0": "==" if v else "!=", "lt0": "<" if v else ">=", "gt0": ">" if v else "<="}[a[0]]
            if op in ("==", ">=", ">"):
                st = op == ">"
                if iv[0] is None or k > iv[0] or (k == iv[0] and st):
                    iv[0], iv[1] = k, st
            if op in ("==", "<=", "<"):
                st = op == "<"
                if iv[2] is None or k < iv[2] or (k == iv[2] and st):
                    iv[2], iv[3] = k, st
            if op == "!=":
                iv[4].add(k)
            if op == "==":
                p = to_poly(b)
                if len(p) == 1:
                    (m, co), = p.items()
                    if len(m) == 1 and m[0][1] == 1 and co == 1 and m[0][0][0] != "call":
                        self.sub[m[0][0]] = I(("n", k))
            if b[0] == "call" and b[1] == "len":
                # a whole number which is not negative
                lo = iv[0] if iv[0] is not None and iv[0] > 0 else 0
                lo = math.floor(lo) + 1 if lo == iv[0] and iv[1] else math.ceil(lo)
                while lo in iv[4]:
                    lo += 1
                iv[0], iv[1] = lo, False

    @staticmethod
    def _as_diff(a):
        """x == y as x - y == 0, as the order of the two is written."""
        x, y = a[1], a[2]
        if x[0] in NUMBERLIKE and y[0] in NUMBERLIKE and (x[0] != "n" and y[0] != "n"):
            return ("eq0", p_canon_sign(p_add(x, y, -1))[0])
        return None

    def _check(self):
        for b, (lo, ls, hi, hs, neq) in self.iv.items():
            if lo is not None and hi is not None:
                if lo > hi or (lo == hi and (ls or hs or lo in neq)):
                    raise Infeasible
        for x, names in self.w.closed.items():
            if all(self.decide(I(("isinst", x, n))) == F for n in names):
                raise Infeasible
        # enum exhaustiveness
        out: Dict[tuple, set] = {}
        for a, v in self.lits.items():
            if a[0] == "eq" and not v and a[2][0] == "enum":
                out.setdefault((a[1], a[2][1]), set()).add(a[2][2])
        for (x, cls), excl in out.items():
            mem = self.w.enum_members(cls)
            if mem is not None and mem <= excl:
                # x may still be None / of another type when typed Optional: only prune if not None-able
                if self.lits.get(I(("isnone", x))) is False or x[0] in ("attr", "p", "elem", "item") and not self._maybe_none(x):
                    raise Infeasible

    def _maybe_none(self, x):
        return I(("isnone", x)) in self.seen_isnone

    seen_isnone: set = set()

    def decide(self, a):
        v = self.lits.get(a)
        if v is not None:
            return T if v else F
        op = a[0]
        if op == "eq":
            d = self._as_diff(a)
            if d is not None and split_const(d[1])[0] in self.iv:
                r = self.decide(d)
                if r is not None:
                    return r
            x, y = a[1], a[2]
            if is_const(y):
                s = self.sub.get(x)
                if s is not None and is_const(s):
                    return T if s == y else F
                if y[0] == "enum":
                    mem = self.w.enum_members(y[1])
                    if mem is not None and len(mem) > 1:
                        if all(self.lits.get(I(("eq", x, ("enum", y[1], m)))) is False for m in mem if m != y[2]):
                            if self.lits.get(I(("isnone", x))) is False:
                                return T
        elif op == "isnone":
            x = a[1]
            s = self.sub.get(x)
            if s is not None:
                return T if s == NONE else F
            if self.w.never_none(x):
                return F
            for b, v in self.lits.items():
                if v and b[0] == "isinst" and b[1] == x:
                    return F
                if v and b[0] == "t" and b[1] == x:
                    return F
        elif op == "t":
            s = self.sub.get(a[1])
            if s is not None:
                r = a_truthy(s)
                if r in (T, F):
                    return r
            if self.lits.get(I(("isnone", a[1]))):
                return F
            e = self.lits.get(I(("eq0", ("call", "len", (a[1],), ()))))
            if e is not None:
                return F if e else T
            if any(v and b[0] == "in" and b[2] == a[1] for b, v in self.lits.items()):
                return T
        elif op in ("eq0", "lt0", "gt0"):
            if op == "eq0" and a[1][0] == "call" and a[1][1] == "len":
                t = self.lits.get(I(("t", a[1][2][0])))
                if t is not None:
                    return F if t else T
                if any(v and b[0] == "in" and b[2] == a[1][2][0] for b, v in self.lits.items()):
                    return F
            b, c = split_const(a[1])
            iv = self.iv.get(b)
            if iv is not None:
                k = -c
                lo, ls, hi, hs, neq = iv
                # relation of b to k
                gt = lo is not None and (lo > k or (lo == k and ls))
                ge = lo is not None and lo >= k
                lt = hi is not None and (hi < k or (hi == k and hs))
                le = hi is not None and hi <= k
                ne = k in neq or gt or lt
                if op == "eq0":
                    if ne:
                        return F
                    if ge and le:
                        return T
                elif op == "lt0":
                    if lt or (le and ne):
                        return T
                    if ge:
                        return F
                else:
                    if gt or (ge and ne):
                        return T
                    if le:
                        return F
        elif op == "isinst":
            for b, v in self.lits.items():
                if b[0] == "isinst" and b[1] == a[1]:
                    rel = self.w.relation(a[2], b[2])
                    if v:
                        if rel == "super":
                            return T
                        if rel == "disjoint":
                            return F
                    elif rel == "sub":
                        return F
            if self.lits.get(I(("isnone", a[1]))):
                return F
        elif op == "in":
            if self.decide(I(("eq0", ("call", "len", (a[2],), ())))) == T:
                return F
        return None

    def empty(self) -> frozenset:
        """Collections without items in this case."""
        out = set()
        for a, v in self.lits.items():
            if v and a[0] == "eq0" and a[1][0] == "call" and a[1][1] == "len":
                out.add(a[1][2][0])
                _parts(a[1][2][0], out)
            elif not v and a[0] == "t" and a[1] not in self.sub:
                out.add(a[1])  # what is iterated and false has no items
        return frozenset(out)

    def simp(self, v):
        if not self.lits:
            return I(v)
        return subst(v, self._rw, self.memo)

    def _rw(self, t):
        if t[0] in ATOMS:
            r = self.decide(t)
            if r is not None:
                return r
            return None
        r = self.sub.get(t)
        if r is not None:
            return r
        if t[0] in ("s", "f") and len(t) > 2 and t[1] != F:
            if self._none_in is None:
                self._none_in = self.empty()
            if t[2] in self._none_in:
                return I((t[0], F, *t[2:]))
        return None

    _none_in = None


# ------------------------------------------------------------------ finding split atoms
def first_atom(v):
    """Some branch atom occurring in v outside loop bodies (deterministic)."""
    if not isinstance(v, tuple):
        return None
    v = I(v)
    if "B" not in ops(v):
        return None
    d = v.__dict__
    if "fa" not in d:
        d["fa"] = _first_atom(v)
    return d["fa"]


def _first_atom(v):
    if v and v[0] == "B":
        a = v[1]
        inner = first_atom(a)
        return inner if inner is not None else a
    if v and v[0] == "lam":
        return None
    if v and v[0] in ("fold", "wfold", "last", "lastx", "loopret", "wlast"):
        return None
    if v and v[0] == "f" and len(v) == 4:
        return first_atom(v[1]) or first_atom(v[2])
    if v and v[0] == "xloop" and len(v) == 4:
        return first_atom(v[1]) or (first_atom(v[3][0]) if v[2] == "for" else None)
    for x in v:
        if isinstance(x, tuple):
            r = first_atom(x)
            if r is not None:
                return r
    return None


def _arguments(x, y):
    """Differing arguments of two constructor calls which agree in everything else."""
    if x[0] == y[0] == "new" and len(x) == len(y) == 3 and x[1] == y[1] and [k for k, _ in x[2]] == [k for k, _ in y[2]]:
        return [(p, q) for (_, p), (_, q) in zip(x[2], y[2]) if p != q]
    return None


def focus(x, y):
    """A branch atom of the parts in which x and y differ."""
    if x == y or not isinstance(x, tuple) or not isinstance(y, tuple):
        return None
    hx, hy = x[:1], y[:1]
    if hx == ("B",) or hy == ("B",):
        return first_atom(x if hx == ("B",) else y)
    if hx == hy and hx and hx[0] == "seq" and len(x) == len(y) == 3:
        dr, dc = _minus(x[2], y[2]), _minus(y[2], x[2])
        for p in (*dr, *dc):
            a = first_atom(p[1])
            if a is not None:
                return a
        for p, q in itertools.zip_longest(dr, dc):
            a = focus(p, q) if p is not None and q is not None else first_atom(p or q)
            if a is not None:
                return a
        return None
    if hx == hy and hx and hx[0] in ("lam", "fold", "wfold", "last", "lastx", "loopret", "wlast"):
        return None
    if hx == hy and hx and hx[0] in ("f", "xloop") and len(x) == len(y) == 4:
        return focus(x[1], y[1]) or (focus(x[2], y[2]) if hx[0] == "f" else None)
    if len(x) == len(y) and (hx == hy or not isinstance(x[0], str) and not isinstance(y[0], str)):
        for p, q in zip(x, y):
            a = focus(p, q)
            if a is not None:
                return a
        return None
    return first_atom(x) or first_atom(y)


def binder_atom(a, depth) -> bool:
    """Does atom a talk about the element of a loop at depth >= depth?"""
    return _mentions(a, depth)


_BINDERS = frozenset(("elem", "idx", "key", "val", "mu", "muc", "lp"))


def _mentions(v, depth, lam=False):
    if not isinstance(v, tuple):
        return False
    v = I(v)
    if not _BINDERS & ops(v):
        return False
    k = ("mentions", depth, lam)
    r = v.__dict__.get(k)
    if r is None:
        r = v.__dict__[k] = _mentions_(v, depth, lam)
    return r


def _mentions_(v, depth, lam):
    if v and v[0] in ("elem", "idx", "key", "val", "mu", "muc") and len(v) > 1 and isinstance(v[1], int):
        if v[1] >= depth:
            return True
    if v and v[0] == "lp":
        return not lam
    # loop terms bind their own element: only what they iterate over can mention an outer one
    if v and v[0] == "lam":
        return False
    if v and v[0] == "fold" and len(v) > 2:
        return _mentions(v[2], depth, lam)
    if v and v[0] in ("last", "lastx", "loopret") and len(v) > 1:
        return isinstance(v[1], tuple) and _mentions(v[1], depth, lam)
    if v and v[0] == "f" and len(v) == 4:
        return _mentions(v[2], depth, lam)
    if v and v[0] in ("wfold", "wlast"):
        return False
    if v and v[0] == "xloop" and len(v) == 4:
        return _mentions(v[1], depth, lam) or v[2] == "for" and _mentions(v[3][0], depth, lam)
    return any(_mentions(x, depth, lam) for x in v if isinstance(x, tuple))


# ------------------------------------------------------------------ events as tuples
# event tuple: (kind, guard, *data)
def ev_names(e) -> Optional[frozenset]:
    """Attribute names an effect touches; None = anything."""
    k = e[0]
    if k == "store":
        return frozenset({e[3]})
    if k == "out":
        ch = e[2]
        return frozenset({ch[1][2]}) if ch[0] == "list" and ch[1][0] == "attr" else None
    if k in ("sstore", "del"):
        b = e[2]
        return frozenset({b[2]}) if b[0] == "attr" else None
    if k == "mut":
        b = e[3][0]
        return frozenset({b[2]}) if b[0] == "attr" else None
    return None


class Straight:
    """Canonical form of a straight line effect sequence."""

    def __init__(self, world: World):
        self.w = world

    def conflict(self, a, b) -> bool:
        ka, kb = a[0], b[0]
        if ka == "call" and kb == "call":
            return True
        if ka in ("mark", "raise", "return", "break", "for", "while") or kb in (
            "mark", "raise", "return", "break", "for", "while"):
            return True
        if ka == "out" and kb == "out":
            return a[2] == b[2]
        if kb == "call":
            a, b, ka, kb = b, a, kb, ka
        if ka == "call":
            t = self.w.touches(a[2])
            n = ev_names(b)
            if n is None:
                return True
            if t is None:
                # external callee: conflicts only if it is handed the object
                base = b[2][1] if kb == "out" else b[2]
                return _occurs(a[3:], base) or base[0] not in ("self", "attr", "p")
            return bool(t & n)
        na, nb = ev_names(a), ev_names(b)
        if na is None or nb is None:
            if ka == "out" or kb == "out":
                o, s = (a, b) if ka == "out" else (b, a)
                if o[2][0] in ("emit", "yield") and s[0] == "store":
                    return False
            return True
        return bool(na & nb)

    def canon(self, evs) -> List[tuple]:
        out: List[tuple] = []
        for e in evs:
            if e[1] == F:
                continue
            if e[0] == "store":
                # no-op store of the value the location already has
                if e[4] == ("attr", e[2], e[3]) and not any(
                    x[0] != "store" and self.conflict(x, e) or x[0] == "store" and x[3] == e[3] for x in out
                ):
                    continue
                i = len(out) - 1
                repl = False
                while i >= 0:
                    x = out[i]
                    if x[0] == "store" and x[2] == e[2] and x[3] == e[3]:
                        del out[i]
                        break
                    if self.conflict(x, e):
                        break
                    i -= 1
                out.append(e)
            elif e[0] == "out":
                kind = "str" if e[2][0] == "emit" else "list"
                pcs = norm_pieces(e[3], kind)
                if not pcs:
                    continue
                e = ("out", e[1], e[2], pcs)
                i = len(out) - 1
                while i >= 0:
                    x = out[i]
                    if x[0] == "out" and x[2] == e[2]:
                        out[i] = ("out", x[1], x[2], norm_pieces([*x[3], *e[3]], kind))
                        break
                    if self.conflict(x, e):
                        i = -1
                        break
                    i -= 1
                if i < 0:
                    out.append(e)
            else:
                out.append(e)
        # lexicographic topological order
        out = [I(e) for e in out]
        n = len(out)
        preds = [set() for _ in range(n)]
        for j in range(n):
            for i in range(j):
                if self.conflict(out[i], out[j]):
                    preds[j].add(i)
        succ = [[] for _ in range(n)]
        need = [len(p) for p in preds]
        for j in range(n):
            for i in preds[j]:
                succ[i].append(j)
        heap = [((out[j][0], key(out[j])), j) for j in range(n) if not need[j]]
        heapq.heapify(heap)
        done: List[int] = []
        while heap:
            j = heapq.heappop(heap)[1]
            done.append(j)
            for k in succ[j]:
                need[k] -= 1
                if not need[k]:
                    heapq.heappush(heap, ((out[k][0], key(out[k])), k))
        return [out[j] for j in done]


def _occurs(v, x):
    x, seen, todo = I(x), set(), [I(v)]
    while todo:
        y = todo.pop()
        if y is x:
            return True
        if id(y) not in seen:
            seen.add(id(y))
            todo.extend(z for z in y if isinstance(z, tuple))
    return False


WEAK_OPS = {"fold", "wfold", "wlast", "lastx", "loopret", "lam", "opq", "xloop", "muc", "last", "raise", "undef", "missing",
            "excval"}
HEAVY = {"fold", "wfold", "wlast", "lastx", "loopret", "lam", "xloop", "last"}
WEAK_CALLS = {
    "functools.reduce", "itertools.chain", "itertools.chain.from_iterable", "next", "zip", "operator.attrgetter",
    "operator.itemgetter", "divmod", "map", "filter", "any", "all", "()", "range", "getattr", "hasattr", "setattr",
    "functools.partial", "itertools.accumulate", "itertools.product", "itertools.islice", "collections.deque",
    "collections.OrderedDict", "collections.defaultdict", "collections.ChainMap", "slice", "enumerate", "iter",
    "vars", "type", "sum", ".join",
}


def _fills(v) -> bool:
    """Is an entry of a fresh literal container assigned (which is followed no further)?"""
    v = I(v)
    if "sstore" not in ops(v):
        return False
    if "fills" not in v.__dict__:
        v.__dict__["fills"] = _fills_(v)
    return v.__dict__["fills"]


def _fills_(v) -> bool:
    if v and v[0] == "sstore" and len(v) > 2:
        b = v[2]
        while b[0] in ("item", "elem"):
            b = b[1] if b[0] == "item" else b[2]
        if b[0] in ("seq", "dict"):
            return True
    return any(_fills(x) for x in v if isinstance(x, tuple) and x)


class Comparer:
    def __init__(self, world: World, budget: int = 3000):
        self.w = world
        self.st = Straight(world)
        self.budget = budget
        self.unknown: List[str] = []
        self.cases = 0

    # -------------------------------------------------------------- public
    def compare(self, ref, cur) -> Tuple[str, Optional[dict]]:
        """ref/cur: (events tuple, ret)."""
        self.n = 0
        self.quick = 150
        self.in_lam = 0
        self.unknown = []
        self.cases = 0
        seen = set()
        self.caught = set()
        for v in (ref, cur):
            _collect_isnone(v, seen)
            self.caught |= {e[3] for e in v[0] if e[0] == "mark" and e[2] == "except" and len(e) > 3}
        Ctx.seen_isnone = seen
        try:
            ref, cur = I(ref), I(cur)
            self.atoms = atoms_of(ref), atoms_of(cur)
            cur = self._align(ref, cur)
            if ref == cur:
                self.cases = 1
                return EQUAL, None
            self.atoms = atoms_of(ref), atoms_of(cur)
            w = self._solve(Ctx(self.w), I(ref[0]), I(ref[1]), I(cur[0]), I(cur[1]), 0)
        except (Budget, TooBig, RecursionError):
            return UNKNOWN, {"why": "budget"}
        if w is not None:
            if _fills(ref[0]) != _fills(cur[0]):
                return UNKNOWN, {"why": "a local container is filled by position on one side only"}
            return DIFFERENT, w
        if self.unknown:
            return UNKNOWN, {"why": self.unknown[0]}
        return EQUAL, None

    def _related(self, ctx) -> bool:
        """Does the case rest on a loop result that only one side tests?"""
        ra, ca = self.atoms
        r, c = ([a for a in x - y if a[0] == "isnone" and a[1][0] == "call" and a[1][1].startswith("re.")]
                for x, y in ((ra, ca), (ca, ra)))
        if r and c and len(r) != len(c) and any(a in r or a in c for a, _ in ctx.order):
            self.unknown.append("patterns were put together or taken apart")
            return True
        heavy = [a for a, _ in ctx.order if weak_ops(a)]
        r = [a for a in heavy if a in ra and a not in ca]
        c = [a for a in heavy if a in ca and a not in ra]
        if not r and not c:
            return False
        for x in r:
            for y in c:
                if skeleton(x, y):
                    return False
        for x in r:
            for y in c:
                if x[0] == y[0] and self._folds_differ(ctx, x, y):
                    return False
        self.unknown.append("a loop result is tested on one side only")
        return True

    def _folds_differ(self, ctx, x, y) -> bool:
        """Do two terms differ in nothing but one loop result, and that on a few items already?"""
        if not (isinstance(x, tuple) and isinstance(y, tuple)) or len(x) != len(y):
            return False
        if x[0] == y[0] == "fold":
            if self.probing or len(x) != 5 or x[:4] != y[:4]:
                return False
            self.probing = True
            kept = self.unknown
            self.unknown = []
            try:
                return self._fold_diff(Ctx(self.w), x, y, "", 0, None, None) is not None
            finally:
                self.unknown, self.probing = kept, False
        diff = [(p, q) for p, q in zip(x, y) if p != q]
        return len(diff) == 1 and self._folds_differ(ctx, *diff[0])

    probing = False

    # -------------------------------------------------------------- alignment
    ALIGN = ("fold", "wfold", "last", "lastx", "loopret", "wlast", "lam", "seq", "f")

    def _align(self, ref, cur):
        """Replace loop / sequence terms of cur by equal (not identical) terms of ref."""
        for _ in range(8):
            sr, sc = set(), set()
            _subterms(ref, self.ALIGN, sr, set())
            order: List[tuple] = []
            _subterms(cur, self.ALIGN, sc, set(), order)
            only_r = [t for t in sr if t not in sc and _big(t)]
            only_c = [t for t in order if t not in sr and _big(t)]  # innermost first
            if not only_r or not only_c or len(only_r) > 40:
                return cur
            done = False
            for c in only_c[:24]:
                for r in sorted((r for r in only_r if r[0] == c[0]), key=key):
                    if self._quick_equal(r, c):
                        cur = subst(cur, lambda t: r if t == c else None)
                        done = True
                        break
                if done:
                    break
            if not done:
                return cur
        return cur

    def _quick_equal(self, r, c) -> bool:
        n, u, k, b = self.n, list(self.unknown), self.cases, self.budget
        self.unknown, self.n, self.budget = [], 0, 250
        try:
            self.quick -= 1
            if self.quick < 0:
                return False
            w = self._val_diff(Ctx(self.w), r, c, "", 99)  # every atom of the term is free
            return w is None and not self.unknown
        except (Budget, TooBig, RecursionError):
            return False
        finally:
            self.n, self.budget = n, b
            self.unknown, self.cases = u, k

    # -------------------------------------------------------------- engine
    def _tick(self):
        self.n += 1
        if self.n > self.budget:
            raise Budget

    def _solve(self, ctx, er, rr, ec, rc, depth):
        """None when equal in every feasible case, else a witness dict."""
        self._tick()
        er, rr, ec, rc = ctx.simp(er), ctx.simp(rr), ctx.simp(ec), ctx.simp(rc)
        if er == ec and rr == rc:
            self.cases += 1
            return None
        er = tuple(e for e in er if e[1] != F)
        ec = tuple(e for e in ec if e[1] != F)
        empty = ctx.empty()
        if empty:
            er, ec = without(er, empty), without(ec, empty)
            if er == ec and rr == rc:
                self.cases += 1
                return None
        if er == ec and any(e[0] == "raise" and e[1] == T for e in er) and not any(e[0] == "mark" for e in er):
            self.cases += 1
            return None  # nothing is returned
        # strip common prefix / suffix to focus the split
        i = 0
        while i < len(er) and i < len(ec) and er[i] == ec[i]:
            i += 1
        a = None
        # what distinguishes the two sides is split first
        dr, dc = _minus(er[i:], ec[i:]), _minus(ec[i:], er[i:])
        if (dr or dc) and len(dr) + len(dc) < len(er) + len(ec) - 2 * i:
            for e in (*dr, *dc):
                if e[1][0] == "B":
                    a = self._atom_at(e[1], depth)
                    if a is not None:
                        break
            if a is None and all(e[1][0] != "B" for e in (*dr, *dc)):
                for e in (*dr, *dc):
                    a = self._ev_atom(e, depth)
                    if a is not None:
                        break
        for v in [*[e[1] for e in er[i:]], *[e[1] for e in ec[i:]]] if a is None else ():
            if v[0] == "B":
                a = self._atom_at(v, depth)
                if a is not None:
                    break
        if a is None and rr != rc:
            for e in (*er, *ec):  # nothing is returned where an exception is raised
                if e[0] == "raise" and e[1][0] == "B":
                    a = self._atom_at(e[1], depth)
                    if a is not None:
                        break
        if a is None and rr != rc and (er == ec or not dr and not dc) and not any(e[0] in ("raise", "mark") for e in er):
            parts = _arguments(rr, rc)
            if parts is not None:
                # the arguments of a constructor are compared one by one
                for p, q in parts:
                    w = self._solve(ctx, I(()), p, I(()), q, depth)
                    if w is not None:
                        return w
                return None
            w = self._extra_item(ctx, rr, rc)
            if w is not None:
                return w
        if a is None:
            if rr != rc:
                a = focus(rr, rc)
                if a is not None and _mentions(a, depth, self.in_lam > 0):
                    a = None
                a = a or self._first(rr, depth) or self._first(rc, depth)
        if a is None:
            for e in [*er[i:], *ec[i:]]:
                a = self._ev_atom(e, depth)
                if a is not None:
                    break
        if a is not None:
            for val in (True, False):
                try:
                    c = ctx.assume(a, val)
                except Infeasible:
                    continue
                w = self._solve(c, er, rr, ec, rc, depth)
                if w is not None:
                    return w
            return None
        self.cases += 1
        # straight line
        cr, cc = self.st.canon(er), self.st.canon(ec)
        tried = any(e[0] == "mark" for e in er)
        noret = any(e[0] == "raise" and e[1] == T for e in (er[-1:] if tried else er))
        if cr == cc and (rr == rc or noret):
            return None
        return self._straight(ctx, cr, rr, cc, rc, depth)

    def _extra_item(self, ctx, rr, rc):
        """Sequences that agree but for items which are in one of them for sure."""
        if rr[0] != "seq" or rc[:2] != rr[:2] or rr[1] not in ("list", "tuple"):
            return None
        x, y = list(rr[2]), list(rc[2])
        while x and y and x[0] == y[0]:
            x.pop(0), y.pop(0)
        while x and y and x[-1] == y[-1]:
            x.pop(), y.pop()
        if bool(x) == bool(y) or not all(p[0] == "i" and p[1] == T for p in (*x, *y)) or self._related(ctx):
            return None
        return {"what": "number of items", "case": _case(ctx), "expected": show(rr), "found": show(rc), "in": None}

    def _atom_at(self, v, depth):
        a = self._first(v, depth)
        return a

    def _first(self, v, depth):
        a = first_atom(v)
        if a is not None and _mentions(a, depth, self.in_lam > 0):
            return None
        return a

    def _ev_atom(self, e, depth):
        if e[0] in ("for", "while"):
            return self._first(e[2], depth)
        for x in e[2:]:
            if isinstance(x, tuple):
                a = self._first(x, depth)
                if a is not None:
                    return a
        return None

    def _straight(self, ctx, cr, rr, cc, rc, depth):
        w = self._lost(ctx, cr, cc)
        if w is not None:
            return w
        n = max(len(cr), len(cc))
        for i in range(n):
            a = cr[i] if i < len(cr) else None
            b = cc[i] if i < len(cc) else None
            if a == b:
                continue
            if a is not None and b is not None and a[0] == b[0]:
                w = self._ev_diff(ctx, a, b, depth)
                if w is None:
                    continue
                return w
            return self._report(ctx, a, b, "effect", depth)
        if rr != rc:
            return self._val_diff(ctx, rr, rc, "return value", depth)
        return None

    def _lost(self, ctx, cr, cc):
        """An effect which exists on one side only, whatever it is computed from."""
        w = self._lost_(ctx, cr, cc)
        return None if w is not None and self._related(ctx) else w

    def _lost_(self, ctx, cr, cc):
        only_r = _minus(cr, cc)
        only_c = _minus(cc, cr)
        kr, kc = channels(cr), channels(cc)
        tried = any(x[0] == "mark" for x in (*cr, *cc))
        if not tried:
            er = [e for e in cr if e[0] == "raise" and e[1] == T]
            ec = [e for e in cc if e[0] == "raise" and e[1] == T]
            here = {e[2] for e in (*er, *ec)}
            if here & self.caught:
                return None  # raised and caught within the function: a jump
            if bool(er) != bool(ec) and (("raise",) in kr) != (("raise",) in kc):
                a, b = (er or cr or [None])[0], (ec or cc or [None])[0]
                return {"what": "exception", "case": _case(ctx), "expected": show(a) if a else "(nothing)",
                        "found": show(b) if b else "(nothing)", "in": None}
        if _rewound(only_r, only_c) or _rewound(only_c, only_r):
            self.unknown.append("a loop over items on one side, until a test on the other")
            return None
        for what, big, small, kb, ks in (("effect lost", only_r, only_c, kr, kc), ("effect gained", only_c, only_r, kc, kr)):
            strong = {k for k in kb - ks if self._strong(k)}
            ob, os_ = channels(big), channels(small)
            if not strong and os_ <= ob:
                strong = {k for k in ob - os_ if self._strong(k)}
            if strong and ks <= kb or not small and any(channels([e]) for e in big):
                e = next((e for e in big if channels([e]) & strong), big[0] if big else None)
                if e is None or e[0] == "raise" and tried:
                    continue
                lost = what == "effect lost"
                return {"what": what, "case": _case(ctx), "expected": show(e) if lost else "(nothing)",
                        "found": "(nothing)" if lost else show(e), "in": None}
        return None

    def _strong(self, k):
        if k[0] == "call":
            return self.w.touches(k[1]) is not None
        return True

    def _ev_diff(self, ctx, a, b, depth):
        """Same kind, not identical."""
        k = a[0]
        if a[1] != b[1]:
            w = self._val_diff(ctx, a[1], b[1], "condition of effect " + show_ev(b), depth, a, b)
            if w is not None:
                return w
        if k in ("for", "while"):
            if k == "while" and (a[2] == T) != (b[2] == T):
                self.unknown.append("while")  # left by its test or by a break
                return None
            w = self._val_diff(ctx, a[2], b[2], "iteration of loop", depth)
            if w is not None:
                return w
            w = self._solve(ctx, a[3], NONE, b[3], NONE, depth + 1)
            if w is not None:
                return w
            if a[4] != b[4]:
                return self._val_diff(ctx, a[4], b[4], "loop carried value", depth)
            return None
        if k == "out":
            if a[2] != b[2]:
                return self._report(ctx, a, b, "effect", depth)
            return self._pieces(ctx, a[3], b[3], a, b, depth)
        if k == "call" and a[2] != b[2]:
            return self._report(ctx, a, b, "effect", depth)
        if k == "call" and _permuted(("call", *a[2:]), ("call", *b[2:])):
            return {"what": "arguments exchanged", "case": _case(ctx), "expected": show(a), "found": show(b), "in": None}
        if k == "store" and (a[2], a[3]) != (b[2], b[3]):
            return self._report(ctx, a, b, "effect", depth)
        return self._val_diff(ctx, a[2:], b[2:], "effect " + show_ev(b), depth, a, b)

    def _pieces(self, ctx, pa, pb, a, b, depth):
        """Compare two piece lists whose outer guards are constant."""
        pa, pb = list(pa), list(pb)
        dr, dc = _minus(pa, pb), _minus(pb, pa)
        if bool(dr) != bool(dc) and any(p[1] == T and (p[0] == "i" or p[0] == "c" and p[2]) for p in (*dr, *dc)):
            # one side has additional items
            return {"what": "number of items", "case": _case(ctx), "expected": show(a), "found": show(b), "in": None}
        i, n = 0, len(self.unknown)
        while i < max(len(pa), len(pb)):
            if len(self.unknown) > n and len(pa) != len(pb):
                return None  # the items no longer correspond
            x = pa[i] if i < len(pa) else None
            y = pb[i] if i < len(pb) else None
            i += 1
            if x == y:
                continue
            if x is not None and y is not None and x[0] == y[0] and x[1] != y[1]:
                w = self._val_diff(ctx, x[1], y[1], "condition of emitted item", depth, a, b)
                if w is not None:
                    return w
            if x is not None and y is not None and x[0] == y[0] == "f" and x[2] == y[2]:
                ea = tuple(("out", p[1], ("list", ("self",)), ((p[0], T, *p[2:]),)) for p in x[3])
                eb = tuple(("out", p[1], ("list", ("self",)), ((p[0], T, *p[2:]),)) for p in y[3])
                w = self._solve(ctx, I(ea), NONE, I(eb), NONE, depth + 1)
                if w is not None:
                    return w
                continue
            if x is not None and y is not None and x[0] == y[0] == "f" and (_copied(x[2], y[2]) or _copied(y[2], x[2])):
                self.unknown.append("items of a copy")
                continue
            if x is not None and y is not None and x[0] == y[0] == "f":
                body = subst(y[3], lambda t: x[2] if t == y[2] else None)
                if body == x[3]:
                    w = self._val_diff(ctx, x[2], y[2], "iterated items", depth, a, b)
                    if w is not None:
                        return w
                    continue
            if x is not None and y is not None and x[0] == y[0] == "xloop" and x[2] == y[2]:
                w = self._ev_diff(ctx, I((x[2], T, *x[3])), I((y[2], T, *y[3])), depth)
                if w is not None:
                    return w
                continue
            if x is not None and y is not None and x[0] == y[0] and x[0] in ("i", "s"):
                w = self._val_diff(ctx, x[2], y[2], "emitted item", depth, a, b)
                if w is not None:
                    return w
                continue
            return self._report(ctx, x, y, "emitted item", depth, a, b)
        return None

    def _val_diff(self, ctx, x, y, what, depth, ra=None, rb=None):
        """Values differ structurally with no open (outer) branch: localise."""
        if x == y:
            return None
        if x[:1] == y[:1] and x and x[0] == "B":
            # branch on a loop variable (binder): compare by splitting
            a = x[1] if key(x[1]) <= key(y[1]) else y[1]
            for val in (True, False):
                try:
                    c = ctx.assume(a, val)
                except Infeasible:
                    continue
                w = self._val_diff(c, c.simp(x), c.simp(y), what, depth, ra, rb)
                if w is not None:
                    return w
            return None
        if (x and x[0] == "B") or (y and y[0] == "B"):
            a = (x if x[0] == "B" else y)[1]
            self._tick()
            for val in (True, False):
                try:
                    c = ctx.assume(a, val)
                except Infeasible:
                    continue
                w = self._val_diff(c, c.simp(x), c.simp(y), what, depth, ra, rb)
                if w is not None:
                    return w
            return None
        if x and y and x[0] == y[0] == "seq" and x[1] == y[1]:
            ea = tuple(("out", p[1], ("emit" if x[1] == "str" else "list", ("self",)), ((p[0], T, *p[2:]),)) for p in x[2])
            eb = tuple(("out", p[1], ("emit" if x[1] == "str" else "list", ("self",)), ((p[0], T, *p[2:]),)) for p in y[2])
            if any(first_atom(p[1]) is not None for p in (*x[2], *y[2])):
                return self._solve(ctx, I(ea), NONE, I(eb), NONE, depth + 1)
            return self._pieces(ctx, x[2], y[2], ra or x, rb or y, depth)
        if x and y and x[0] == y[0] == "lam" and len(x) == len(y) == 4 and x[1] == y[1]:
            self.in_lam += 1
            try:
                return self._solve(ctx, x[3], x[2], y[3], y[2], depth)
            finally:
                self.in_lam -= 1
        if x and y and x[0] == y[0] == "fold" and len(x) == len(y) == 5 and x[:3] == y[:3]:
            return self._fold_diff(ctx, x, y, what, depth, ra, rb)
        if _permuted(x, y):
            return {"what": "arguments exchanged in " + what, "case": _case(ctx), "expected": show(x), "found": show(y),
                    "in": show_ev(rb) if rb is not None else None}
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and x and (
            x[0] == y[0] or not isinstance(x[0], str) and not isinstance(y[0], str)) and x[0] not in (
            "poly", "n", "k", "enum", "cls", "fn", "p", "none", "T", "F", "call", "new", "attr", "dict", "i", "s", "c", "f"
        ) or _same_call(x, y):
            for p, q in zip(x, y):
                if p == q:
                    continue
                if isinstance(p, tuple) and isinstance(q, tuple):
                    w = self._val_diff(ctx, p, q, what, depth, ra, rb)
                    if w is not None:
                        return w
                else:
                    return self._report(ctx, x, y, what, depth, ra, rb)
            return None
        return self._report(ctx, x, y, what, depth, ra, rb)

    def _fold_diff(self, ctx, x, y, what, depth, ra, rb):
        """Two folds over the same items: equal bodies, or else the values after one item."""
        n = len(self.unknown)
        if len(x[4]) == len(y[4]):
            w = None
            for p, q in ((x[3], y[3]), *zip(x[4], y[4])):
                if p != q:
                    if not (isinstance(p, tuple) and isinstance(q, tuple)):
                        self.unknown.append("loops left differently in " + what)
                        continue
                    for s, t in [(p, q)] if p[:1] == ("B",) or q[:1] == ("B",) else zip(p, q):
                        w = w or self._val_diff(ctx, s, t, what, depth, ra, rb)
            if w is None and len(self.unknown) == n:
                return None
        else:
            self.unknown.append("loops carry different variables in " + what)
        kept, self.unknown = self.unknown, []
        try:
            w = self._val_diff(ctx, step(x), step(y), what + " after one iteration", 99, ra, rb)
            if w is None and not self.unknown and x[3] == y[3] and not isinstance(x[3], tuple) and depth < 90:
                w = self._val_diff(ctx, step2(x), step2(y), what + " after two iterations", 99, ra, rb)
            return w
        finally:
            self.unknown = kept if len(kept) > n else [*kept, "loop bodies differ in " + what]

    def _report(self, ctx, a, b, what, depth, ra=None, rb=None):
        if self._related(ctx):
            return None
        wa = weak_ops(a) if a is not None else set()
        wb = weak_ops(b) if b is not None else set()
        if (wa or wb) and a is not None and b is not None and (clash(a, b) or skeleton(a, b) or reordered(a, b)):
            pass
        elif (wa or wb) and wa != wb:
            self.unknown.append(f"weakly modelled construct {sorted(wa ^ wb)[:3]} in {what}")
            return None
        elif (wa & HEAVY) and a is not None and b is not None and tokens(a) == tokens(b):
            # the same operations on the same data, arranged differently around a loop
            self.unknown.append(f"loop terms could not be aligned in {what}")
            return None
        return {
            "what": what,
            "case": _case(ctx),
            "expected": show(a) if a is not None else "(nothing)",
            "found": show(b) if b is not None else "(nothing)",
            "in": show_ev(rb) if rb is not None else None,
        }


def _parts(v, out):
    """What an empty text or list is put together from is empty."""
    if v[0] == "seq":
        for p in v[2]:
            if p[1] == T and p[0] in (("i", "s") if v[1] == "str" else ("s",)):
                out.add(p[2])
                _parts(p[2], out)


def without(evs, empty):
    """Effects without loops over collections known to be empty."""
    out = []
    for e in evs:
        if e[0] == "for" and e[2] in empty:
            continue
        kinds = ("s", "f", "i") if e[0] == "out" and e[2][0] == "emit" else ("s", "f")
        if e[0] == "out" and any(p[0] in kinds and p[2] in empty for p in e[3]):
            ps = tuple(p for p in e[3] if not (p[0] in kinds and p[2] in empty))
            if not ps:
                continue
            e = ("out", e[1], e[2], ps)
        out.append(e)
    return tuple(I(e) for e in out)


def step(f):
    """Value of a fold over a single item."""
    init = {k: p[0] for k, p in enumerate(f[4])}
    return subst(f[4][0][1], lambda t: init.get(t[2]) if t[0] == "muc" and len(t) == 3 and t[1] == f[1] else None)


def step2(f):
    """Value of a fold over two items."""
    def at(v, n):
        return subst(v, lambda t: ("item", t[2], ("n", Fraction(n))) if t[0] == "elem" and len(t) == 3 and t[1] == f[1] and t[2] == f[2] else None)

    def upd(v, vals):
        return subst(v, lambda t: vals.get(t[2]) if t[0] == "muc" and len(t) == 3 and t[1] == f[1] else None)

    init = {k: p[0] for k, p in enumerate(f[4])}
    one = {k: upd(at(p[1], 0), init) for k, p in enumerate(f[4])}
    return upd(at(f[4][0][1], 1), one)


def _case(ctx):
    return [f"{'' if v else 'not '}{show(x)}" for x, v in ctx.order]


def _minus(xs, ys):
    ys = list(ys)
    out = []
    for x in xs:
        if x in ys:
            ys.remove(x)
        else:
            out.append(x)
    return out


def channels(evs) -> frozenset:
    """What a list of effects acts upon."""
    out = set()
    for e in evs:
        k = e[0]
        if k == "store":
            out.add(("store", e[3]))
        elif k == "out":
            out.add(("out", _root(e[2])))
        elif k in ("sstore", "del"):
            out.add((k, _root(e[2])))
        elif k == "mut":
            out.add(("mut", e[2], _root(e[3][0]) if e[3] else ""))
        elif k == "call":
            out.add(("call", e[2]))
        elif k == "raise":
            out.add(("raise",))
        elif k in ("for", "while"):
            out |= channels(e[3])
    return frozenset(out)


def _root(v):
    """Attribute name of the object v denotes."""
    if isinstance(v, tuple) and v:
        if v[0] == "attr":
            return v[2]
        if v[0] in ("list", "emit") and len(v) > 1:
            return v[0] + ":" + _root(v[1])
        return v[0] if isinstance(v[0], str) else "?"
    return "?"


CLASH = {"new", "none", "n", "enum", "T", "F", "cls", "k"}


def clash(a, b) -> bool:
    """Can a and b never be equal because of their outermost constructor?"""
    if not (a and b and isinstance(a[0], str) and isinstance(b[0], str)):
        return False
    ha = a[0] if a[0] != "seq" else "seq:" + ("str" if a[1] == "str" else "many")
    hb = b[0] if b[0] != "seq" else "seq:" + ("str" if b[1] == "str" else "many")
    if ha == hb == "new":
        return len(a) == 3 and len(b) == 3 and a[1] != b[1]
    strong = CLASH | {"seq:str", "seq:many"}
    if ha in strong and hb in strong:
        if ha != hb:
            return {ha, hb} not in ({"k", "seq:str"}, {"n", "T"}, {"n", "F"}, {"k", "n"})
        return is_const(a) and is_const(b) and a != b
    if ha == hb == "poly" or {ha, hb} == {"poly", "n"}:
        p, q = dict(to_poly(a)), to_poly(b)
        for m, c in q.items():
            p[m] = p.get(m, Fraction(0)) - c
        d = from_poly({m: c for m, c in p.items() if c})
        return not weak_ops(d)
    return False


def _copied(a, b) -> bool:
    """Is a a list made of b's own items, in their order?"""
    if a[0] != "seq":
        return False
    if b[0] == "seq" and a[1] != b[1] and a[2] == b[2] and {a[1], b[1]} <= {"list", "tuple", "gen"}:
        return True
    if a[1] not in ("list", "tuple") or len(a[2]) != 1 or a[2][0][0] != "s":
        return False
    v = a[2][0][2]
    return v == b or v[0] == "call" and v[1] in (".values", ".keys", ".items") and v[2] == (b,)


def _rewound(a, b) -> bool:
    """Is there a while loop in a, and none but for loops in b (or none at all while b's items are in folds)?"""
    return any(e[0] == "while" for e in a) and not any(e[0] == "while" for e in b) and any(e[0] in ("for", "out") for e in b)


def reordered(a, b) -> bool:
    """Is one of them the other, sorted or reversed?"""
    def strip(v):
        while v[0] == "seq" and len(v[2]) == 1 and v[2][0][0] == "s" and v[2][0][1] == T:
            v = v[2][0][2]
        return v

    for x, y in ((a, b), (b, a)):
        x, y = strip(x), strip(y)
        if x[0] == "call" and x[1] in ("sorted", "reversed") and x[2] and strip(x[2][0]) == y:
            return y[0] in ("attr", "p", "item") or y[0] == "call" and y[1] not in ("sorted", "reversed")
    return False


LEAF = {"n", "k", "enum", "p", "T", "F", "cls", "fn", "g"}


def skeleton(a, b) -> bool:
    """Do a and b have the same structure and differ only in constants and names?"""
    if a == b:
        return True
    if not (isinstance(a, tuple) and isinstance(b, tuple)):
        return isinstance(a, str) and isinstance(b, str)
    a, b = I(a), I(b)
    k = ("skeleton", id(b))
    if k not in a.__dict__:
        a.__dict__[k] = _skeleton(a, b)
    return a.__dict__[k]


def _skeleton(a, b) -> bool:
    if a and b and a[0] in LEAF and b[0] in LEAF:
        return True
    if a and b and a[0] == b[0] == "poly":
        ra, rb = _minus(a[1], b[1]), _minus(b[1], a[1])
        if len(ra) != len(rb) or len(ra) > 2:
            return False
        return any(all(_monomial(x, y) for x, y in zip(ra, p)) for p in itertools.permutations(rb))
    if len(a) != len(b) or not a:
        return False
    if isinstance(a[0], str) != isinstance(b[0], str):
        return False
    if a[0] == b[0] == "attr" and a[3:] != b[3:]:
        return False
    if isinstance(a[0], str) and a[0] != b[0] and {a[0], b[0]} - {"eq0", "lt0", "gt0", "lt", "le"}:
        if not (len(a) == 2 and isinstance(a[1], tuple) and a[0] not in SHAPED and b[0] not in SHAPED):
            return False
    k = 1 if isinstance(a[0], str) else 0
    return all(skeleton(x, y) for x, y in zip(a[k:], b[k:]))


SHAPED = ATOMS | WEAK_OPS | {"seq", "B", "elem", "mu", "mug", "idx", "key", "val", "lp", "call", "new", "attr", "item", "dict", "poly", "op"}


def _monomial(x, y) -> bool:
    """Same factors apart from coefficient, exponents and the names in them."""
    fa, fb = [b for b, _ in x[0]], [b for b, _ in y[0]]
    return len(fa) == len(fb) and all(skeleton(p, q) for p, q in zip(fa, fb))


def _big(t):
    if t[0] == "seq":
        return t[1] != "str" and any(p[1] != T or p[0] == "f" for p in t[2])
    return True


def _subterms(v, heads, out, memo, order=None):
    if not isinstance(v, tuple) or id(v) in memo:
        return
    memo.add(id(v))
    for x in v:
        if isinstance(x, tuple):
            _subterms(x, heads, out, memo, order)
    if v and v[0] in heads and len(v) >= 3 and v not in out:
        out.add(v)
        if order is not None:
            order.append(v)


COMMUTES = {"min", "max", "math.gcd", "math.hypot", "math.isclose", "zip", "isinstance"}


def _permuted(x, y) -> bool:
    """The same call with two arguments exchanged."""
    if not _same_call(x, y) or x[0] not in ("call", "new") or x[1] in COMMUTES:
        return False
    if x[0] == "new":
        va, vb = [v for _, v in x[2]], [v for _, v in y[2]]
    else:
        if len(x) != 4:
            return False
        va, vb = [*x[2], *(v for _, v in x[3])], [*y[2], *(v for _, v in y[3])]
    return va != vb and not _minus(va, vb) and not _minus(vb, va)


def _same_call(x, y):
    if not (x and y and x[0] == y[0] and len(x) == len(y)):
        return False
    if x[0] == "call":
        return x[1] == y[1] and len(x[2]) == len(y[2]) and [k for k, _ in x[3]] == [k for k, _ in y[3]]
    if x[0] == "new":
        return x[1] == y[1] and [k for k, _ in x[2]] == [k for k, _ in y[2]]
    if x[0] == "attr":
        return x[2:] == y[2:]
    if x[0] == "dict":
        return len(x[1]) == len(y[1])
    return False


def children(v):
    """Sub terms of v; the names of keyword arguments are not terms."""
    if v and v[0] == "new" and len(v) == 3 and isinstance(v[2], tuple):
        return [x for _, x in v[2] if isinstance(x, tuple)]
    if v and v[0] == "call" and len(v) >= 4 and isinstance(v[-1], tuple):
        out = [x for x in v[1:-1] if isinstance(x, tuple)]
        for p in v[-1]:
            if isinstance(p, tuple) and len(p) == 2 and isinstance(p[0], str):
                if isinstance(p[1], tuple):
                    out.append(p[1])
            elif isinstance(p, tuple):
                out.append(p)
        return out
    return [x for x in v if isinstance(x, tuple)]


_weak_memo: Dict[tuple, frozenset] = {}


def weak_ops(v) -> frozenset:
    if not isinstance(v, tuple):
        return frozenset()
    v = I(v)
    r = _weak_memo.get(v)
    if r is None:
        s = set()
        if v and isinstance(v[0], str):
            if v[0] in WEAK_OPS:
                s.add(v[0])
            elif v[0] == "call" and len(v) > 1 and v[1] in WEAK_CALLS:
                s.add(v[1])
            elif v[0] in ("while",):
                s.add(v[0])
            elif v[0] == "eq0" and v[1][0] == "idx":
                s.add("position")
            elif v[0] == "mark" and len(v) > 2:
                s.add("try")
        for x in children(v):
            s |= weak_ops(x)
        r = _weak_memo[v] = frozenset(s)
    return r


_tok_memo: Dict[tuple, frozenset] = {}


def tokens(v) -> frozenset:
    """Operations, names and constants which occur in v."""
    if not isinstance(v, tuple):
        return frozenset((v,)) if isinstance(v, str) else frozenset()
    v = I(v)
    r = _tok_memo.get(v)
    if r is None:
        s = set()
        op = v[0] if v else None
        if op in ("n", "k", "c", "enum", "p", "cls", "fn"):
            s.add(v if op != "c" else ("c", v[2] if len(v) > 2 else ""))
            if op == "k" or op == "c":
                r = _tok_memo[v] = frozenset(s)
                return r
        for x in v[1:] if isinstance(op, str) and op in STRUCT else v:
            if isinstance(x, tuple):
                s |= tokens(x)
            elif isinstance(x, str) and not x.startswith("after:"):
                s.add(x)
        r = _tok_memo[v] = frozenset(s)
    return r


STRUCT = {"B", "T", "F", "seq", "i", "s", "f", "xloop", "c", "mu", "muc", "mug", "poly", "fold", "last", "out"}


def atoms_of(v) -> frozenset:
    out, memo = set(), set()

    def go(x):
        if not isinstance(x, tuple) or id(x) in memo:
            return
        memo.add(id(x))
        if x and x[0] == "B":
            out.add(x[1])
        for y in x:
            go(y)

    go(v)
    return frozenset(out)


def _collect_isnone(v, out, memo=None):
    if memo is None:
        memo = set()
    if not isinstance(v, tuple) or id(v) in memo:
        return
    memo.add(id(v))
    if v and v[0] == "isnone":
        out.add(I(v))
    for x in v:
        if isinstance(x, tuple):
            _collect_isnone(x, out, memo)


# ------------------------------------------------------------------ printing
def show_ev(e) -> str:
    return show(e)


def show(v, d: int = 0) -> str:
    s = _show(v, 0)
    return s if len(s) < 400 else s[:397] + "..."


def _show(v, d) -> str:
    if not isinstance(v, tuple):
        return str(v)
    if d > 14:
        return "…"
    n = d + 1
    op = v[0] if v else None
    if op in ("T", "F"):
        return {"T": "True", "F": "False"}[op]
    if op == "none":
        return "None"
    if op == "self":
        return "self"
    if op == "n":
        return str(float(v[1])) if v[1].denominator != 1 else str(v[1].numerator)
    if op == "k":
        return v[1]
    if op == "p":
        return v[1]
    if op == "enum":
        return f"{v[1]}.{v[2]}"
    if op in ("cls", "fn", "g") and len(v) == 2:
        return str(v[1])
    if op == "attr" and len(v) >= 3:
        return f"{_show(v[1], n)}.{v[2]}" + ("'" if len(v) > 3 else "")
    if op == "elem":
        return f"each({_show(v[2], n)})"
    if op == "item" and len(v) == 3:
        return f"{_show(v[1], n)}[{_show(v[2], n)}]"
    if op == "B":
        if v[2] == T and v[3] == F:
            return _show(v[1], n)
        if v[2] == F and v[3] == T:
            return f"not {_show(v[1], n)}"
        return f"({_show(v[2], n)} if {_show(v[1], n)} else {_show(v[3], n)})"
    if op == "poly":
        ts = []
        for m, c in v[1]:
            fs = [f"{_show(a, n)}" + (f"^{e}" if e != 1 else "") for a, e in m]
            if c != 1 or not fs:
                fs.insert(0, str(c))
            ts.append("*".join(fs))
        return "(" + " + ".join(ts) + ")"
    if op == "call" and len(v) >= 4:
        if isinstance(v[1], str):
            args = [_show(a, n) for a in v[2]]
            if v[1].startswith(".") and args:
                f = f"{args[0]}{v[1]}"
                args = args[1:]
            else:
                f = v[1]
            args += [f"{k}={_show(x, n)}" for k, x in v[3]]
            return f"{f}({', '.join(args)})"
        return _show(("call", *v[2:]), n)  # event tuple
    if op == "new":
        return f"{v[1]}({', '.join(f'{k}={_show(x, n)}' for k, x in v[2])})"
    if op == "seq":
        if v[1] == "str":
            return "f" + repr("".join(_piece(p, n, True) for p in v[2]))
        return f"{v[1]}[" + ", ".join(_piece(p, n, False) for p in v[2]) + "]"
    if op == "dict":
        return "{" + ", ".join(f"{_show(k, n)}: {_show(x, n)}" for k, x in v[1]) + "}"
    if op == "eq":
        return f"{_show(v[1], n)} == {_show(v[2], n)}"
    if op == "isnone":
        return f"{_show(v[1], n)} is None"
    if op in ("eq0", "lt0", "gt0") and len(v) == 2:
        return f"{_show(v[1], n)} {({'eq0': '==', 'lt0': '<', 'gt0': '>'})[op]} 0"
    if op == "t":
        return f"bool({_show(v[1], n)})"
    if op == "isinst":
        return f"isinstance({_show(v[1], n)}, {v[2]})"
    if op == "in":
        return f"{_show(v[1], n)} in {_show(v[2], n)}"
    if op == "store":
        return f"{_g(v[1], n)}{_show(v[2], n)}.{v[3]} = {_show(v[4], n)}"
    if op == "sstore":
        return f"{_g(v[1], n)}{_show(v[2], n)}[{_show(v[3], n)}] = {_show(v[4], n)}"
    if op == "out":
        return f"{_g(v[1], n)}{_show(v[2], n)} << [" + ", ".join(_piece(p, n, False) for p in v[3]) + "]"
    if op in ("i", "s", "c", "f") and len(v) >= 3:
        return _piece(v, n, False)
    if op == "raise" and len(v) == 3:
        return f"{_g(v[1], n)}raise {_show(v[2], n)}"
    if op in ("for", "while"):
        return f"{_g(v[1], n)}{op} {_show(v[2], n)}: " + "; ".join(_show(x, n) for x in v[3])
    if op == "op":
        return f"{v[1]}({', '.join(_show(x, n) for x in v[2])})"
    return f"{op}(" + ", ".join(_show(x, n) for x in v[1:]) + ")" if isinstance(op, str) else "(" + ", ".join(_show(x, n) for x in v) + ")"


def _g(g, n):
    return "" if g == T else f"[if {_show(g, n)}] "


def _piece(p, n, text):
    g = "" if p[1] == T else f"[if {_show(p[1], n)}]"
    if p[0] == "c":
        return g + (p[2] if text else repr(p[2]))
    if p[0] == "i":
        return g + ("{" + _show(p[2], n) + "}" if text else _show(p[2], n))
    if p[0] == "s":
        return g + "*" + _show(p[2], n)
    if p[0] == "f":
        return g + f"for each in {_show(p[2], n)}: (" + ", ".join(_piece(q, n, text) for q in p[3]) + ")"
    return g + str(p[0])
