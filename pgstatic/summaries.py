"""Obligations: everything observable of a program, as canonical summaries.

An obligation is an entry point a user or another part of the system can reach: a public
method as resolved for one concrete class, a public function, the fields of a data class,
the members of an enum, a module level table, the decorators (CLI options) of a command.
Private helpers never are obligations of their own: they are inlined into the entry
points which use them.
"""
from __future__ import annotations

import ast
import json
from fractions import Fraction
from typing import Dict, Iterable, List, Optional

from .interp import Facts, Interp
from .model import Class, Func, Module, Program, dotted
from .types import Types
from .values import F, I, NONE, T, TooBig, V, const, seq


def public(name: str) -> bool:
    # _missing_ and the like are hooks called by the standard library
    return not name.startswith("_") or (len(name) > 2 and name.endswith("_"))


SKIP_METHODS = {"__repr__", "__str__x"}


def class_key(prog: Program, c: Class) -> str:
    return c.name if len(prog.class_by_name[c.name]) == 1 else f"{c.module.name}:{c.name}"


def func_key(prog: Program, f: Func, by_name) -> str:
    return f.name if len(by_name[f.name]) == 1 else f"{f.module.name}:{f.name}"


def escaping(prog: Program) -> set:
    """Private methods which are used as values (stored as handlers), not only called."""
    out = set()
    for f in prog.all_funcs():
        if f.cls is None or not f.params:
            continue
        called = {id(n.func) for n in ast.walk(f.node) if isinstance(n, ast.Call)}
        for n in ast.walk(f.node):
            if (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and id(n) not in called
                    and isinstance(n.value, ast.Name) and n.value.id == f.params[0].arg and not public(n.attr)):
                m = f.cls.find(n.attr)
                if m is not None and not m.is_property:
                    out.add(m.qual)
    # private methods which subclasses override are called through the base class
    for m in prog.modules.values():
        for c in m.classes.values():
            for n, f in c.methods.items():
                if not public(n) and any(n in k.methods for k in c.mro()[1:]):
                    out.add(f.qual)
                    out.update(k.methods[n].qual for k in c.mro()[1:] if n in k.methods)
    return out


class Universe:
    """All obligations of a program, addressable by id."""

    def __init__(self, prog: Program) -> None:
        self.prog = prog
        self.items: Dict[str, tuple] = {}
        self.where: Dict[str, str] = {}
        by_name: Dict[str, list] = {}
        esc = escaping(prog)
        for m in prog.modules.values():
            for f in m.funcs.values():
                by_name.setdefault(f.name, []).append(f)
        for m in prog.modules.values():
            for f in m.funcs.values():
                k = func_key(prog, f, by_name)
                if public(f.name):
                    self._add(f"fn {k}", ("fn", f, None), f.where, m.name)
                    if f.node.decorator_list:
                        self._add(f"deco {k}", ("deco", f, None), f.where, m.name)
                self._add(f"sig {k}", ("sig", f, None), f.where, m.name) if public(f.name) else None
            for name, e in m.consts.items():
                if name.startswith("__") or name in ("T", "P", "S"):
                    continue
                self._add(f"const {m.name}:{name}", ("const", m, e), f"{m.rel}:{e.lineno}", m.name)
            for c in m.classes.values():
                ck = class_key(prog, c)
                if c.name.split(".")[-1].startswith("_"):
                    continue
                if c.is_enum:
                    self._add(f"enum {ck}", ("enum", c, None), c.where, m.name)
                self._add(f"fields {ck}", ("fields", c, None), c.where, m.name)
                seen = set()
                for k in c.mro():
                    for n, f in k.methods.items():
                        if n in seen or n in SKIP_METHODS or not (public(n) or f.qual in esc):
                            continue
                        seen.add(n)
                        self._add(f"method {ck}.{n}", ("fn", f, c), f.where, m.name)
                        if k is c:
                            self._add(f"sig {ck}.{n}", ("sig", f, c), f.where, m.name)

    def _add(self, oid, item, where, module):
        self.items[oid] = (item, module)
        self.where[oid] = where


def known_publics(prog: Program) -> set:
    """Boundary set: public functions (and tables) that exist at confirmation time."""
    out = set()
    for f in prog.all_funcs():
        if public(f.name):
            out.add(f.qual)
        elif not f.name.startswith("__"):
            out.add("priv:" + f.qual)
        if Facts.is_getter(f):
            out.add("get:" + f.qual)
    for m in prog.modules.values():
        for n in m.consts:
            out.add("g:" + n)
    return out


class Summariser:
    def __init__(self, prog: Program, known: set, types_data=None) -> None:
        self.prog = prog
        self.types = Types(prog)
        if types_data:
            self.types.load(types_data)
        self.facts = Facts(prog, self.types)
        self.uni = Universe(prog)
        self.ips = {
            lv: Interp(prog, known, lv, self.types, self.facts) for lv in (0, 2, -1)
        }
        self._memo: Dict[tuple, tuple] = {}

    def summary(self, oid: str, level: int):
        """(events, return value, unsupported, inlined) or None when the entry is gone."""
        ent = self.uni.items.get(oid)
        if ent is None:
            return None
        k = (oid, level)
        if k not in self._memo:
            self._memo[k] = (*self._compute(ent[0], level), dict(self.ips[level].closed))
        return self._memo[k]

    def opaque(self, f: Func, cls):
        """Summary with calls of the reference's private helpers left as calls, and these helpers."""
        k = (f.qual, cls.name if cls else None)
        if k not in self._memo:
            r = self._compute(("fn", f, cls), -1)
            self._memo[k] = (r[0], r[1], r[2], dict(self.ips[-1].privs), dict(self.ips[-1].closed))
        return self._memo[k]

    def _compute(self, item, level):
        kind, a, b = item
        ip = self.ips[level]
        ip.steps = 0
        ip.unsupported = []
        ip.inlined = set()
        ip.privs = {}
        ip.closed = {}
        try:
            if kind == "fn":
                # the same function inherited by several classes
                ev, r = ip.summarise(a, b)
                return I(tuple(e.t() for e in ev)), I(ip.esc(r)), list(ip.unsupported), {
                    (e.t()): e.where for e in ev}
            if kind == "const":
                v = ip.esc(ip.eval_module_expr(a, b))
                return I(()), I(v), list(ip.unsupported), {}
            if kind == "enum":
                es = []
                for n, e in a.consts.items():
                    es.append((n, ip.esc(ip.eval_module_expr(a.module, e, a))))
                return I(()), I(("dict", tuple(es))), list(ip.unsupported), {}
            if kind == "fields":
                return I(()), self._fields(ip, a), list(ip.unsupported), {}
            if kind == "sig":
                return I(()), self._sig(ip, a), list(ip.unsupported), {}
            if kind == "deco":
                ds = [ip.esc(ip.eval_module_expr(a.module, d)) for d in a.node.decorator_list]
                return I(()), I(("seq", "list", tuple(("i", T, d) for d in ds))), list(ip.unsupported), {}
        except (TooBig, RecursionError):
            return I(()), I(("opq", "too big")), ["analysis bound exceeded"], {}
        raise AssertionError(kind)

    def _fields(self, ip: Interp, c: Class):
        out = []
        for n, (owner, a) in sorted(c.all_fields().items()):
            ann = norm_ann(a.annotation)
            dv = ip.field_default_opt(owner, a)
            out.append((n, ("k", ann), dv if dv is not None else ("k", "<required>")))
        consts = []
        for k in reversed(c.mro()):
            for n, e in k.consts.items():
                if k.is_enum:
                    continue
                consts = [x for x in consts if x[0] != n]
                if not n.startswith("_"):
                    consts.append((n, ("k", "classvar"), ip.esc(ip.eval_module_expr(k.module, e, k))))
        bases = tuple(sorted({k.name for k in c.mro()[1:] if not k.name.startswith("_")} | set(c.ext_bases())))
        return I(("fields", tuple(out), tuple(sorted(consts, key=lambda t: t[0])), ("k", ",".join(bases))))

    def _sig(self, ip: Interp, f: Func):
        a = f.node.args
        out = []
        defs = {}
        allpos = [*a.posonlyargs, *a.args]
        for p, d in zip(reversed(allpos), reversed(a.defaults)):
            defs[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defs[p.arg] = d
        for p in [*allpos, *a.kwonlyargs]:
            if p.arg in defs:
                out.append((p.arg, ip.esc(ip.eval_module_expr(f.module, defs[p.arg]))))
        return I(("defaults", tuple(out)))


def norm_ann(a: ast.expr) -> str:
    t = ast.unparse(a).replace('"', "").replace("'", "").replace("typing.", "")
    return t.replace(" ", "")


# ------------------------------------------------------------------ table (de)serialisation
class Table:
    """Value DAG serialised as a node list."""

    def __init__(self) -> None:
        self.nodes: List[list] = []
        self.ix: Dict[tuple, int] = {}

    def put(self, v) -> int:
        v = I(v)
        i = self.ix.get(v)
        if i is None:
            row = []
            for x in v:
                if isinstance(x, tuple):
                    row.append([self.put(x)])
                elif isinstance(x, Fraction):
                    row.append({"q": str(x)})
                else:
                    row.append(x)
            i = len(self.nodes)
            self.nodes.append(row)
            self.ix[v] = i
        return i

    @staticmethod
    def load(nodes: List[list]) -> List[V]:
        out: List[V] = []
        for row in nodes:
            r = []
            for x in row:
                if isinstance(x, list):
                    r.append(out[x[0]])
                elif isinstance(x, dict):
                    r.append(Fraction(x["q"]))
                else:
                    r.append(x)
            out.append(I(tuple(r)))
        return out
