"""Annotation driven type inference (resolved against the program model)."""
from __future__ import annotations

import ast
from typing import Optional

from .model import Class, Func, Module, Program, dotted

NUM = ("num",)
STR = ("str",)
BOOL = ("bool",)
COLL = ("coll", None)


class Types:
    def __init__(self, prog: Program) -> None:
        self.prog = prog
        self._attr_cache = {}
        self._confirmed = {}

    # -------------------------------------------------------------- confirmed attribute types
    def dump(self):
        """Attribute types inferred so far, as plain data."""
        def enc(t):
            if isinstance(t, Class):
                return {"c": f"{t.module.name}:{t.name}"}
            if isinstance(t, tuple):
                return [enc(x) for x in t]
            return t

        by_id = {id(c): c for cs in self.prog.class_by_name.values() for c in cs}
        return {
            f"{by_id[i].module.name}:{by_id[i].name}.{n}": enc(t)
            for (i, n), t in sorted(self._attr_cache.items(), key=lambda kv: (by_id[kv[0][0]].name, kv[0][1]))
            if t is not None and i in by_id
        }

    def load(self, data) -> None:
        """Types confirmed earlier: used where inference on the current source finds none."""
        self._confirmed = data

    def _from_confirmed(self, cls: Class, name: str):
        def dec(t):
            if isinstance(t, dict):
                cs = self.prog.class_by_name.get(t["c"].split(":")[1])
                if not cs:
                    raise KeyError
                for c in cs:
                    if c.module.name == t["c"].split(":")[0]:
                        return c
                return cs[0]
            if isinstance(t, list):
                return tuple(dec(x) for x in t)
            return t

        t = self._confirmed.get(f"{cls.module.name}:{cls.name}.{name}")
        if t is None:
            return None
        try:
            return dec(t)
        except KeyError:
            return None

    # -------------------------------------------------------------- annotations
    def ann(self, m: Module, node: Optional[ast.AST], cls: Optional[Class] = None):
        if node is None:
            return None
        if isinstance(node, ast.Constant):
            if node.value is None:
                return ("none",)
            if isinstance(node.value, str):
                try:
                    return self.ann(m, ast.parse(node.value, mode="eval").body, cls)
                except SyntaxError:
                    return None
            return None
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
            return self.union([self.ann(m, node.left, cls), self.ann(m, node.right, cls)])
        if isinstance(node, ast.Subscript):
            base = (dotted(node.value) or "").split(".")[-1]
            sl = node.slice
            args = sl.elts if isinstance(sl, ast.Tuple) else [sl]
            if base == "Optional":
                return self.union([self.ann(m, args[0], cls), ("none",)])
            if base == "Union":
                return self.union([self.ann(m, a, cls) for a in args])
            if base in ("List", "list", "Sequence", "Iterable", "Iterator", "Set", "set", "FrozenSet",
                        "frozenset", "Generator", "Collection", "MutableSequence", "Deque", "deque"):
                return ("coll", self.ann(m, args[0], cls))
            if base in ("Tuple", "tuple"):
                if len(args) == 2 and isinstance(args[1], ast.Constant) and args[1].value is Ellipsis:
                    return ("coll", self.ann(m, args[0], cls))
                return ("tup", tuple(self.ann(m, a, cls) for a in args))
            if base in ("Dict", "dict", "Mapping", "DefaultDict", "defaultdict"):
                return ("map", self.ann(m, args[1], cls) if len(args) > 1 else None)
            if base in ("Annotated", "ClassVar", "Final"):
                return self.ann(m, args[0], cls)
            if base in ("Type", "type"):
                return ("type", self.ann(m, args[0], cls))
            if base == "Literal":
                if all(isinstance(a, ast.Constant) and isinstance(a.value, str) for a in args):
                    return STR
                return None
            return None
        d = dotted(node)
        if d is None:
            return None
        last = d.split(".")[-1]
        if last in ("float", "int", "complex", "Double", "Integer"):
            return NUM
        if last == "str":
            return STR
        if last == "bool":
            return BOOL
        if last in ("list", "tuple", "set", "List", "Sequence", "Iterable"):
            return COLL
        if last in ("dict", "Dict"):
            return ("map", None)
        if last == "None":
            return ("none",)
        if last == "Self" and cls is not None:
            return ("C", cls)
        ent = self.prog.resolve(m, d)
        if ent is None:
            return None
        if ent[0] == "class":
            return ("C", ent[1])
        if ent[0] == "const":
            mod, expr, _ = ent[1]
            if isinstance(expr, ast.Call):
                # TypeVar / NewType
                fn = dotted(expr.func) or ""
                if fn.endswith("NewType") and len(expr.args) == 2:
                    return self.ann(mod, expr.args[1])
                for k in expr.keywords:
                    if k.arg == "bound":
                        return self.ann(mod, k.value)
                return None
            return self.ann(mod, expr)
        return ("ext", ent[1]) if ent[0] == "ext" else None

    def union(self, ts):
        flat = []
        for t in ts:
            if t is None:
                return None
            if t[0] == "union":
                flat.extend(t[1])
            else:
                flat.append(t)
        uniq = []
        for t in flat:
            if t not in uniq:
                uniq.append(t)
        if len(uniq) == 1:
            return uniq[0]
        return ("union", tuple(uniq))

    @staticmethod
    def strip_none(t):
        if t and t[0] == "union":
            r = tuple(x for x in t[1] if x != ("none",))
            return r[0] if len(r) == 1 else ("union", r)
        return t

    # -------------------------------------------------------------- attributes
    def attr(self, cls: Class, name: str):
        k = (id(cls), name)
        if k in self._attr_cache:
            return self._attr_cache[k]
        self._attr_cache[k] = None
        r = self._attr(cls, name)
        if r is None:
            r = self._from_confirmed(cls, name)
        self._attr_cache[k] = r
        return r

    def _attr(self, cls: Class, name: str):
        for c in cls.mro():
            if name in c.fields:
                return self.ann(c.module, c.fields[name].annotation, cls)
            if name in c.methods:
                f = c.methods[name]
                if f.is_property:
                    return self.ann(c.module, f.node.returns, cls)
                return None
        for c in cls.mro():
            for f in c.methods.values():
                t = self._scan_self_assign(c, f, name)
                if t is not None:
                    return t
        return None

    def _scan_self_assign(self, c: Class, f: Func, name: str):
        args = f.params
        if not args:
            return None
        selfname = args[0].arg
        for n in ast.walk(f.node):
            if isinstance(n, ast.AnnAssign) and self._is_self_attr(n.target, selfname, name):
                return self.ann(c.module, n.annotation, c)
            if isinstance(n, (ast.Assign, ast.NamedExpr)):
                for t, v in self._pairs(n):
                    if self._is_self_attr(t, selfname, name):
                        ty = self._simple_expr_type(c, f, v)
                        if ty is not None:
                            return ty
        return None

    @staticmethod
    def _pairs(n):
        """(target, value) pairs of an assignment, tuple assignments taken apart."""
        for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
            todo = [(t, n.value)]
            while todo:
                t, v = todo.pop()
                if isinstance(t, (ast.Tuple, ast.List)):
                    if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                        todo.extend(zip(t.elts, v.elts))
                else:
                    yield t, v

    @staticmethod
    def _is_self_attr(t, selfname, name):
        return (
            isinstance(t, ast.Attribute)
            and t.attr == name
            and isinstance(t.value, ast.Name)
            and t.value.id == selfname
        )

    def _simple_expr_type(self, c: Class, f: Func, e, depth: int = 0):
        if depth > 6:
            return None
        rec = lambda x: self._simple_expr_type(c, f, x, depth + 1)  # noqa: E731
        if isinstance(e, ast.Name):
            if f.params and e.id == f.params[0].arg and not f.is_static:
                return ("C", c)
            for a in [*f.params]:
                if a.arg == e.id:
                    return self.ann(c.module, a.annotation, c)
            found = None
            for n in ast.walk(f.node):
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == e.id:
                    return self.ann(c.module, n.annotation, c)
                if isinstance(n, (ast.Assign, ast.NamedExpr)):
                    for t, v in self._pairs(n):
                        if isinstance(t, ast.Name) and t.id == e.id:
                            ty = rec(v)
                            if ty is not None and ty != ("none",):
                                found = found or ty
            return found
        if isinstance(e, ast.Attribute):
            t = self.strip_none(rec(e.value))
            return self.attr(t[1], e.attr) if t and t[0] == "C" else None
        if isinstance(e, ast.Call):
            d = dotted(e.func)
            if d:
                if d in ("tuple", "list", "set", "sorted"):
                    return COLL
                if d in ("str", "repr"):
                    return STR
                if d in ("float", "int", "len", "abs", "round"):
                    return NUM
                ent = self.prog.resolve(c.module, d)
                if ent and ent[0] == "class":
                    return ("C", ent[1])
                if ent and ent[0] == "func":
                    return self.ann(ent[1].module, ent[1].node.returns)
                if ent and ent[0] == "method":
                    return self.ann(ent[1][1].module, ent[1][1].node.returns, ent[1][0])
            if isinstance(e.func, ast.Attribute):
                t = self.strip_none(rec(e.func.value))
                if t and t[0] == "C":
                    g = t[1].find(e.func.attr)
                    if g is not None:
                        return self.ann(g.module, g.node.returns, t[1])
            return None
        if isinstance(e, ast.NamedExpr):
            return rec(e.value)
        if isinstance(e, (ast.BoolOp, ast.IfExp)):
            vs = e.values if isinstance(e, ast.BoolOp) else [e.body, e.orelse]
            ts = [rec(v) for v in vs]
            ts = [t for t in ts if t is not None and t != ("none",)]
            return ts[0] if ts else None
        if isinstance(e, ast.JoinedStr):
            return STR
        if isinstance(e, ast.BinOp):
            ts = [rec(e.left), rec(e.right)]
            if STR in ts:
                return STR
            return NUM if ts == [NUM, NUM] else None
        if isinstance(e, ast.Constant):
            if isinstance(e.value, bool):
                return BOOL
            if isinstance(e.value, (int, float)):
                return NUM
            if isinstance(e.value, str):
                return STR
        if isinstance(e, (ast.List, ast.ListComp, ast.Tuple)):
            return COLL
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return ("map", None)
        return None
