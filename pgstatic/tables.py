"""Confirmed obligation tables and the decision per obligation."""
from __future__ import annotations

import ast
import itertools
import json
import re
import re._parser as sre_parse
import signal
import threading
import time
from pathlib import Path
from typing import Dict, List, Optional

from .compare import ATOMS, DIFFERENT, EQUAL, UNKNOWN, Comparer, World, channels, show, tokens
from .model import Program
from .summaries import Summariser, Table, known_publics
from .values import I, T, TooBig, atom_bool, ops, subst
from .weaken import Weaken

NOT_VALUES = {"i", "s", "f", "c", "xloop", "for", "while", "out", "store", "sstore", "del", "mut", "raise", "mark", "star", "**"}
SPEC = Path(__file__).resolve().parent.parent / "spec" / "obligations.json"


def confirm(prog: Program, path: Path = SPEC) -> dict:
    """Write the obligation table from prog (run by hand after reviewing the code)."""
    known = known_publics(prog)
    s = Summariser(prog, known)
    tb = Table()
    obs = {}
    for oid, (_, module) in sorted(s.uni.items.items()):
        row = {"module": module}
        for lv in (0, 2):
            ev, ret, bad = s.summary(oid, lv)[:3]
            if lv == 2 and (bad or oid.split()[0] not in ("fn", "method")):
                continue
            row[f"L{lv}"] = [tb.put(ev), tb.put(ret)]
            if bad:
                row["undecidable"] = bad[:1]
        if row.get("L2") == row["L0"]:
            del row["L2"]
        obs[oid] = row
    privs, todo = {}, []
    for oid, ((kind, f, c), _) in sorted(s.uni.items.items()):
        if kind == "fn" and "undecidable" not in obs[oid]:
            ev, ret, bad, ps, _ = s.opaque(f, c)
            if ps and not bad:
                obs[oid]["X"] = [tb.put(ev), tb.put(ret), sorted(ps)]
                todo += sorted(ps.items())
    while todo:
        k, (f, c) = todo.pop()
        if k not in privs:
            ev, ret, bad, ps, _ = s.opaque(f, c)
            privs[k] = [tb.put(ev), tb.put(ret), sorted(ps)] if not bad else None
            todo += sorted(ps.items())
    path.parent.mkdir(exist_ok=True)
    rows = ",\n".join(json.dumps(n, separators=(",", ":")) for n in tb.nodes)
    obl = ",\n".join(f"{json.dumps(k)}:{json.dumps(v, separators=(',', ':'))}" for k, v in obs.items())
    path.write_text(
        '{"known":%s,\n"types":%s,\n"obligations":{\n%s\n},\n"privs":%s,\n"nodes":[\n%s\n]}\n'
        % (json.dumps(sorted(known)), json.dumps(s.types.dump(), separators=(",", ":")), obl,
           json.dumps(dict(sorted(privs.items())), separators=(",", ":")), rows)
    )
    return obs


def _own_names(v, out):
    for x in v:
        if isinstance(x, str) and "_" in x and len(x) < 80:
            n = x.split(".")[-1].split(":")[-1]
            if n.startswith("_") and not n.startswith("__") and n.isidentifier():
                out.add(n)


def private_names(v, out, memo=None):
    memo = set() if memo is None else memo
    if not isinstance(v, tuple) or id(v) in memo:
        return
    memo.add(id(v))
    _own_names(v, out)
    for x in v:
        if isinstance(x, tuple):
            private_names(x, out, memo)


def callees(v, out=None, memo=None):
    """Names of the functions called in a summary."""
    top = out is None
    if top:
        out, memo = set(), set()
    if isinstance(v, tuple) and id(v) not in memo:
        memo.add(id(v))
        if len(v) > 1 and v[0] in ("call", "mut", "new"):
            n = v[1] if isinstance(v[1], str) else v[2] if len(v) > 2 else None
            if isinstance(n, str):
                out.add(n)
        for x in v:
            if isinstance(x, tuple):
                callees(x, out, memo)
    return frozenset(out) if top else None


def _call_sites(v, names):
    """Number of the distinct calls of each name."""
    out, memo = {}, set()

    def go(v):
        if not isinstance(v, tuple) or id(v) in memo:
            return
        memo.add(id(v))
        if len(v) > 1 and v[0] in ("call", "mut"):
            n = v[1] if isinstance(v[1], str) else v[2] if len(v) > 2 else None
            if isinstance(n, str) and n.split(".")[-1] in names:
                out[n] = out.get(n, 0) + 1
        for x in v:
            go(x)

    go(v)
    return out


def literals(v):
    """The literals, enumeration members and named functions of a value."""
    out, seen, todo = set(), set(), [v]
    while todo:
        x = todo.pop()
        if not isinstance(x, tuple) or id(x) in seen:
            continue
        seen.add(id(x))
        if x and x[0] in ("n", "k", "enum", "fn", "cls") or len(x) == 3 and x[0] == "c" and isinstance(x[2], str) and x[1] == T:
            out.add(x)
        else:
            todo.extend(x)
    return out


def _pattern(x):
    """What a text means as a regular expression, written in one way."""
    if x[0] != "c":
        return x
    t = x[2]
    try:
        return repr(sre_parse.parse(t.replace("\\d", "[0-9]")))
    except (re.error, OverflowError):
        return t


def mismatches(a, b, limit=4, deep=False):
    """Pairs of subterms in which two summaries differ, when they agree in everything around
    them; None when they differ in too many places."""
    out, memo = {}, {}

    def add(x, y):
        out[(x, y)] = None
        if len(out) > limit:
            raise OverflowError

    def go(x, y):
        """True when x and y have nothing in common."""
        if x == y:
            return False
        k = (id(x), id(y))
        if k not in memo:
            memo[k] = False
            memo[k] = walk(x, y)
        return memo[k]

    def walk(x, y):
        same = (isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and x
                and (x[0] == y[0] if isinstance(x[0], str) else not isinstance(y[0], str))
                and x[0] not in ("n", "k", "enum", "p", "poly", "cls", "fn", "none", "T", "F")
                and all(isinstance(p, tuple) == isinstance(q, tuple) and (isinstance(p, tuple) or p == q) for p, q in zip(x, y)))
        if not same or not deep and x[0] == "B" and x[1] != y[1] and (x[2], x[3]) != (y[2], y[3]):
            return True
        bad = [(p, q) for p, q in zip(x, y) if isinstance(p, tuple) and go(p, q)]
        if not bad:
            return False
        if not isinstance(x[0], str) or x[0] in NOT_VALUES or x[0] == "B" and len(bad) > 1 and x[1] == y[1]:
            return True  # not a value, or both branches: the difference is the whole
        for p, q in bad:
            if isinstance(p[0], str) and isinstance(q[0], str) if p and q else False:
                add(p, q)
            else:
                return True
        return False

    try:
        if go(a, b):
            return None
    except OverflowError:
        return None
    return list(out)


class Verdict:
    __slots__ = ("oid", "state", "witness", "where", "cases", "level")

    def __init__(self, oid, state, witness, where, cases, level):
        self.oid, self.state, self.witness, self.where, self.cases, self.level = (
            oid, state, witness, where, cases, level)


class _Limit:
    """Bounds the processor time spent on one obligation, and on all of them together."""

    ONE, ALL = 60.0, 400.0
    spent = 0.0
    active = False

    def __init__(self, one=None):
        self.one = one or self.ONE

    def __enter__(self):
        self.outer = not _Limit.active and threading.current_thread() is threading.main_thread()
        if self.outer:
            _Limit.active = True
            self.t = time.process_time()
            self.old = signal.signal(signal.SIGVTALRM, self._stop)
            signal.setitimer(signal.ITIMER_VIRTUAL, self.one if _Limit.spent < self.ALL else 2.0, 1.0)
        return self

    def _stop(self, *_):
        raise TooBig

    def __exit__(self, *_):
        if self.outer:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, self.old)
            _Limit.active = False
            _Limit.spent += time.process_time() - self.t
        return False


class Decider:
    def __init__(self, prog: Program, path: Path = SPEC, budget: int = 3000) -> None:
        data = json.loads(path.read_text())
        self.known = set(data["known"])
        self.ref = data["obligations"]
        self.privs = data["privs"]
        self.vals = Table.load(data["nodes"])
        self.prog = prog
        self.s = Summariser(prog, self.known, data.get("types"))
        self.cmp = Comparer(World(prog, self.s.facts), budget)
        self.types = data.get("types")
        self.renamed = False
        self._memo: Dict[str, Verdict] = {}
        self._alt: Dict[tuple, Decider] = {}

    def decide(self, oid: str) -> Verdict:
        v = self._memo.get(oid)
        if v is None:
            with _Limit():
                try:
                    v = self._decide(oid)
                except TooBig:
                    v = Verdict(oid, UNKNOWN, {"why": "time"}, self.s.uni.where.get(oid), 0, 0)
                if v.state != EQUAL and not self.renamed:
                    try:
                        for ren in self._candidates(oid):
                            v2 = self._under(ren).decide(oid)
                            if v2.state == EQUAL:
                                v = v2
                                break
                    except TooBig:
                        v = Verdict(oid, UNKNOWN, {"why": "time"}, v.where, v.cases, 0)
            if v.state == UNKNOWN and not self.renamed:
                with _Limit(20.0):
                    try:
                        v = self._by_literal(oid) or self._by_subterm(oid) or self._by_parts(oid) or self._by_loss(oid) or v
                    except TooBig:
                        pass
            self._memo[oid] = v
        return v

    def _both(self, oid):
        row, cur = self.ref[oid], self.s.summary(oid, 0)
        if cur is None or cur[2] or "undecidable" in row:
            return None
        self.cmp.w.closed = cur[-1]
        return (self.vals[row["L0"][0]], self.vals[row["L0"][1]]), self._new_consts(
            (self.vals[row["L0"][0]], self.vals[row["L0"][1]]), cur[:2])

    both = lambda self, oid: self._both(oid)  # noqa: E731

    def _by_literal(self, oid):
        """Summaries which agree but for one literal (or named function, or member) in all its places."""
        both = self._both(oid)
        if not both:
            return None
        la, lb = literals(both[0]), literals(both[1])
        gone, new = la - lb, lb - la
        if len(gone) != 1 or len(new) != 1:
            return None
        (x,), (y,) = gone, new
        if x[0] != y[0] or _pattern(x) == _pattern(y) or subst(I(both[0]), lambda t: y if t == x else None) != I(both[1]):
            return None
        return Verdict(oid, DIFFERENT, {"what": "literal", "case": [], "expected": show(x), "found": show(y), "in": None},
                       self.s.uni.where[oid], 1, 0)

    def _by_subterm(self, oid):
        """Summaries which agree but for a few subterms are compared by these."""
        both = self._both(oid)
        if not both:
            return None
        cand = mismatches(*both, limit=24, deep=True) or mismatches(*both, limit=24)
        if not cand:
            return None
        pairs = cand
        if len(cand) > 1:
            pairs = mismatches(*both)
            for x, y in sorted(cand, key=lambda p: len(repr(p)))[:8]:
                if x[0] not in ("T", "F") and y[0] not in ("T", "F") and subst(I(both[0]), lambda t: y if t == x else None) == I(both[1]):
                    pairs = [(x, y)]
                    break
        if not pairs:
            return None
        diff = []
        for x, y in pairs:
            if not (isinstance(x, tuple) and isinstance(y, tuple) and x and y and isinstance(x[0], str) and isinstance(y[0], str)):
                return None
            if x[0] in NOT_VALUES or y[0] in NOT_VALUES:
                return None
            if any({"mu", "muc", "mug", "lp"} & ops(v) for v in (I(x), I(y))):
                return None  # part of a loop: what it means depends on the rest
            if x[0] in ATOMS and y[0] in ATOMS:
                x, y = atom_bool(x), atom_bool(y)
            elif x[0] in ATOMS or y[0] in ATOMS:
                return None
            st, w = self._compare((I(()), x), (I(()), y))
            if st == UNKNOWN:
                return None
            if st == DIFFERENT:
                diff.append(w)
        where = self.s.uni.where[oid]
        if not diff:
            return Verdict(oid, EQUAL, None, where, len(pairs), 0)
        if len(diff) > 1:
            return None
        return Verdict(oid, DIFFERENT, diff[0], where, len(pairs), 0)

    def _by_loss(self, oid):
        """Effects which vanished while nothing new appeared that could stand for them."""
        both = self._both(oid)
        if not both:
            return None
        a, b = channels(both[0][0]), channels(both[1][0])
        lost = {k for k in a - b if k[0] in ("store", "call", "out") and self.cmp._strong(k)}
        if b <= a and lost and tokens(both[1]) <= tokens(both[0]):
            return Verdict(oid, DIFFERENT, {"what": "effect lost", "case": [], "expected": " ".join(map(str, sorted(lost)[0])),
                                            "found": "(nothing)", "in": None}, self.s.uni.where[oid], 1, 0)
        return None

    def _properties(self):
        """Names of the properties of the program's classes."""
        if self._props is None:
            self._props = {f.name for f in self.prog.all_funcs() if f.is_property}
        return self._props

    _props = None

    def _by_parts(self, oid):
        """Decide an entry point by its body and, separately, each private helper it had and still has.

        Sound for reporting a difference only when everything but one part is equal, and
        the parts are called at as many places as before."""
        row = self.ref[oid]
        if "X" not in row or oid not in self.s.uni.items:
            return None
        (_, f, c), _ = self.s.uni.items[oid]
        parts = {}
        todo = [(None, row["X"], f, c)]
        while todo:
            k, ref, f, c = todo.pop()
            if k in parts:
                continue
            if ref is None:
                return None
            ev, ret, bad, ps, closed = self.s.opaque(f, c)
            if bad or sorted(ps) != ref[2]:
                return None
            a, b = (self.vals[ref[0]], self.vals[ref[1]]), (ev, ret)
            if a == b:
                parts[k] = EQUAL, None, f
            else:
                names = {x.split("|")[1].split(".")[-1] for x in ps}
                if _call_sites(a, names) != _call_sites(b, names):
                    return None
                self.cmp.w.closed = closed
                st, w = self._compare(a, b)
                if st == UNKNOWN:
                    return None
                parts[k] = st, w, f
            todo += [(x, self.privs.get(x), *fc) for x, fc in ps.items()]
        diff = [p for p in parts.values() if p[0] == DIFFERENT]
        if len({p[2].qual for p in diff}) != 1 or any(p[1]["what"].startswith("iteration of loop") for p in diff):
            return None
        return Verdict(oid, DIFFERENT, {**diff[0][1], "in": diff[0][2].qual}, diff[0][2].where, len(parts), 0)

    def _under(self, ren: Dict[str, str]) -> "Decider":
        """A decider of the program in which private names are named as in the reference."""
        key = tuple(sorted(ren.items()))
        if key not in self._alt:
            overlay = dict(self.prog.overlay)
            pat = re.compile(r"\b(" + "|".join(map(re.escape, ren)) + r")\b")
            for m in self.prog.modules.values():
                rel = str(m.path.relative_to(self.prog.root / "src"))
                text = overlay[rel] if rel in overlay else m.path.read_text(encoding="utf-8")
                new = pat.sub(lambda x: ren[x.group(1)], text)
                if new != text:
                    overlay[rel] = new
            d = Decider.__new__(Decider)
            d.__dict__.update(self.__dict__)
            d._memo, d._alt, d._cur_names, d._wk, d.renamed = {}, {}, None, None, True
            d.prog = Program(self.prog.root, overlay=overlay)
            d.s = Summariser(d.prog, self.known, self.types)
            d.cmp = Comparer(World(d.prog, d.s.facts), self.cmp.budget)
            self._alt[key] = d
        return self._alt[key]

    def _candidates(self, oid):
        row = self.ref[oid]
        cur = self.s.summary(oid, 0)
        if cur is not None and "undecidable" not in row:
            where = self.s.uni.where[oid]
            for k, l in ((0, "L0"), (2, "L2")):
                if l in row:
                    c = cur if k == 0 else self.s.summary(oid, 2)
                    yield from self._renames((self.vals[row[l][0]], self.vals[row[l][1]]), c[:2], where)
        elif cur is None and "." in oid.split()[-1]:
            cls, name = oid.split()[-1].rsplit(".", 1)
            for c in self.prog.class_by_name.get(cls, []):
                for k in c.mro():
                    new = [n for n in k.methods if n.startswith("_") and not n.startswith("__") and n not in self._ref_names()]
                    for n in new[:3]:
                        yield {n: name}

    # -------------------------------------------------------------- private renames
    def _new_consts(self, ref, cur):
        """Class constants which nothing of the reference reads; their uses are analysed by value."""
        if ref[1][0] != "fields" or cur[1][0] != "fields":
            return cur
        had = {c[0] for c in ref[1][2]}
        drop = set()
        for c in cur[1][2]:
            if c[0] not in had and c[0].isupper() and c[0] not in self._ref_names() and 1 == sum(
                    c[0] in k.consts or c[0] in k.fields or c[0] in k.methods
                    for ks in self.prog.class_by_name.values() for k in ks):
                drop.add(c[0])
        r = cur[1]
        return cur[0], I(("fields", r[1], tuple(c for c in r[2] if c[0] not in drop), *r[3:]))

    def _compare(self, ref, cur):
        cur = self._new_consts(ref, cur)
        st, w = self.cmp.compare(ref, cur)
        if st == EQUAL:
            return st, w
        cases = self.cmp.cases
        if st == DIFFERENT:
            try:
                wk = self._weaken()
                s2, w2 = self.cmp.compare(tuple(wk(v) for v in ref), tuple(wk(v) for v in cur))
                if s2 == EQUAL or s2 == UNKNOWN and w2["why"] != "budget":
                    st, w = UNKNOWN, {"why": "equal up to inferred types" + (": " + w2["why"] if w2 else "")}
            except (TooBig, RecursionError):
                pass
        self.cmp.cases = cases
        return st, w

    def _weaken(self):
        if self._wk is None:
            self._wk = Weaken(self.prog)
        return self._wk

    _wk = None

    def _renames(self, ref, cur, where=None):
        """Candidate bijections cur name -> ref name between private names that vanished
        from the program and private names it did not have before."""
        a, b = set(), set()
        for v in ref:
            private_names(v, a)
        for v in cur:
            private_names(v, b)
        here = self._names(where.split(":")[0] if where else None)
        gone = sorted(n for n in a - b if n not in here or n not in self._names())
        new = sorted(n for n in b - a if n not in self._ref_names())
        if not gone or len(gone) != len(new) or len(gone) > 3:
            return
        for perm in itertools.permutations(gone):
            yield dict(zip(new, perm))

    def _names(self, path=None):
        """Names used in the program, or in the one file given."""
        if self._cur_names is None:
            self._cur_names = {}
        if path not in self._cur_names:
            out = set()
            for m in self.prog.modules.values():
                if path is not None and not str(m.path).endswith(path):
                    continue
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute):
                        out.add(n.attr)
                    elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                        out.add(n.name)
                    elif isinstance(n, ast.Name):
                        out.add(n.id)
            self._cur_names[path] = out
        return self._cur_names[path]

    def _ref_names(self):
        if self._rn is None:
            out = set()
            for v in self.vals:
                _own_names(v, out)
            self._rn = out
        return self._rn

    _cur_names = None
    _rn = None

    def _decide(self, oid: str) -> Verdict:
        row = self.ref[oid]
        cur = self.s.summary(oid, 0)
        if cur is None:
            cls, _, name = oid.split()[-1].rpartition(".")
            if name.startswith("_") and not name.endswith("_") and not any(
                    name in k.methods for c in self.prog.class_by_name.get(cls, []) for k in c.mro()):
                return Verdict(oid, UNKNOWN, {"why": "private method renamed or no longer used as a value"}, None, 0, 0)
            return Verdict(oid, "gone", None, None, 0, 0)
        where = self.s.uni.where[oid]
        if "undecidable" in row:
            return Verdict(oid, UNKNOWN, {"why": row["undecidable"][0]}, where, 0, 0)
        r0 = (self.vals[row["L0"][0]], self.vals[row["L0"][1]])
        if r0[0] == cur[0] and r0[1] == cur[1]:
            return Verdict(oid, EQUAL, None, where, 1, 0)
        self.cmp.w.closed = cur[-1]
        st, w = self._compare(r0, cur[:2])
        cases = self.cmp.cases
        if st == EQUAL:
            return Verdict(oid, EQUAL, None, where, cases, 0)
        if cur[2]:
            return Verdict(oid, UNKNOWN, {"why": cur[2][0]}, where, cases, 0)
        if "L2" in row or row["L0"] and oid.split()[0] in ("fn", "method"):
            l2 = row.get("L2", row["L0"])
            r2 = (self.vals[l2[0]], self.vals[l2[1]])
            c2 = self.s.summary(oid, 2)
            if not c2[2]:
                if r2[0] == c2[0] and r2[1] == c2[1]:
                    return Verdict(oid, EQUAL, None, where, cases + 1, 2)
                self.cmp.w.closed = c2[-1]
                s2, w2 = self._compare(r2, c2[:2])
                cases += self.cmp.cases
                if s2 == EQUAL:
                    return Verdict(oid, EQUAL, None, where, cases, 2)
                if st == DIFFERENT and s2 == UNKNOWN and (tokens(cur[:2]) - tokens(r0)) & self._properties():
                    return Verdict(oid, UNKNOWN, w2, where, cases, 2)
                if st == DIFFERENT and s2 == UNKNOWN and w2["why"] != "budget" and callees(r0) != callees(cur[:2]) and not tokens(cur[:2]) <= tokens(r0):
                    return Verdict(oid, UNKNOWN, w2, where, cases, 2)
                if st == UNKNOWN and s2 == DIFFERENT:
                    return Verdict(oid, UNKNOWN, w, where, cases, 0)
        return Verdict(oid, st, w, where, cases, 0)
