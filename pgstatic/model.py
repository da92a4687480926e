"""Resolved program model of /repo/src/pygerber, built from source with `ast`.

Nothing of pygerber is imported or executed: modules are parsed, names are resolved
through imports / re-exports, classes get a linearised MRO, methods and fields.
"""
from __future__ import annotations

import ast
import os
from dataclasses import dataclass, field
from functools import cached_property
from pathlib import Path
from typing import Dict, List, Optional, Tuple


def repo_root() -> Path:
    return Path(os.environ.get("PGSTATIC_REPO", "/repo"))


class AnalysisBroken(Exception):
    """Raised when an anchor of a rule has vanished (error exit, never a pass)."""


@dataclass(eq=False, repr=False)
class Func:
    name: str
    node: ast.AST
    module: "Module"
    cls: Optional["Class"] = None
    outer: Optional["Func"] = None

    @property
    def qual(self) -> str:
        if self.cls is not None:
            return f"{self.cls.name}.{self.name}"
        return self.name if self.outer is None else f"{self.outer.qual}.{self.name}"

    @property
    def where(self) -> str:
        return f"{self.module.rel}:{self.node.lineno}"

    def decorators(self) -> List[str]:
        out = []
        for d in getattr(self.node, "decorator_list", []):
            t = d.func if isinstance(d, ast.Call) else d
            out.append(dotted(t) or "?")
        return out

    @cached_property
    def is_property(self) -> bool:
        return any(
            d.split(".")[-1] in ("property", "cached_property", "abstractproperty")
            for d in self.decorators()
        )

    @cached_property
    def is_setter(self) -> bool:
        return any(d.endswith(".setter") for d in self.decorators())

    @cached_property
    def is_static(self) -> bool:
        return "staticmethod" in self.decorators()

    @cached_property
    def is_classmethod(self) -> bool:
        return "classmethod" in self.decorators()

    @cached_property
    def is_contextmanager(self) -> bool:
        return any(
            d.split(".")[-1] in ("contextmanager", "asynccontextmanager")
            for d in self.decorators()
        )

    @cached_property
    def is_generator(self) -> bool:
        for n in walk_scope(self.node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
        return False

    @property
    def params(self) -> List[ast.arg]:
        a = self.node.args
        return [*a.posonlyargs, *a.args, *a.kwonlyargs]


def walk_scope(fn: ast.AST):
    """Walk a function body without descending into nested scopes."""
    stack = list(getattr(fn, "body", [])) if not isinstance(fn, ast.Lambda) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def dotted(node: ast.AST) -> Optional[str]:
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        parts.append(node.id)
        return ".".join(reversed(parts))
    return None


@dataclass(eq=False, repr=False)
class Class:
    name: str
    node: ast.ClassDef
    module: "Module"
    methods: Dict[str, Func] = field(default_factory=dict)
    setters: Dict[str, Func] = field(default_factory=dict)
    fields: Dict[str, ast.AnnAssign] = field(default_factory=dict)
    consts: Dict[str, ast.expr] = field(default_factory=dict)
    bases: List[object] = field(default_factory=list)  # Class or ext name
    _mro: Optional[List["Class"]] = None
    nested: Dict[str, "Class"] = field(default_factory=dict)

    @property
    def where(self) -> str:
        return f"{self.module.rel}:{self.node.lineno}"

    def mro(self) -> List["Class"]:
        if self._mro is None:
            seqs = [list(b.mro()) for b in self.bases if isinstance(b, Class)]
            seqs.append([b for b in self.bases if isinstance(b, Class)])
            out = [self]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                for s in seqs:
                    cand = s[0]
                    if not any(cand in t[1:] for t in seqs):
                        break
                else:
                    cand = seqs[0][0]
                out.append(cand)
                for s in seqs:
                    if s and s[0] is cand:
                        del s[0]
            self._mro = out
        return self._mro

    def ext_bases(self) -> List[str]:
        return [b for c in self.mro() for b in c.bases if isinstance(b, str)]

    def find(self, name: str) -> Optional[Func]:
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_after(self, owner: "Class", name: str) -> Optional[Func]:
        mro = self.mro()
        idx = mro.index(owner) if owner in mro else 0
        for c in mro[idx + 1 :]:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_field(self, name: str) -> Optional[Tuple["Class", ast.AnnAssign]]:
        for c in self.mro():
            if name in c.fields:
                return c, c.fields[name]
        return None

    def find_const(self, name: str) -> Optional[Tuple["Class", ast.expr]]:
        for c in self.mro():
            if name in c.consts:
                return c, c.consts[name]
        return None

    def all_fields(self) -> Dict[str, Tuple["Class", ast.AnnAssign]]:
        out: Dict[str, Tuple[Class, ast.AnnAssign]] = {}
        for c in reversed(self.mro()):
            for k, v in c.fields.items():
                out[k] = (c, v)
        return out

    @cached_property
    def is_enum(self) -> bool:
        return any(b.split(".")[-1] in ("Enum", "IntEnum", "StrEnum", "Flag") for b in self.ext_bases())

    @cached_property
    def is_model(self) -> bool:
        return any(b.split(".")[-1] in ("BaseModel",) for b in self.ext_bases())

    @cached_property
    def is_dataclass(self) -> bool:
        return any(
            (dotted(d.func if isinstance(d, ast.Call) else d) or "").split(".")[-1] == "dataclass"
            for c in self.mro()
            for d in c.node.decorator_list
        )

    @property
    def is_exception(self) -> bool:
        return any(
            b.endswith("Error") or b.endswith("Exception") or b in ("BaseException", "KeyboardInterrupt")
            for b in self.ext_bases()
        )

    def is_sub(self, other: "Class") -> bool:
        return other in self.mro()


@dataclass(eq=False, repr=False)
class Module:
    name: str
    path: Path
    rel: str
    tree: ast.Module
    is_pkg: bool
    imports: Dict[str, str] = field(default_factory=dict)
    classes: Dict[str, Class] = field(default_factory=dict)
    funcs: Dict[str, Func] = field(default_factory=dict)
    consts: Dict[str, ast.expr] = field(default_factory=dict)


class Program:
    def __init__(self, root: Optional[Path] = None, package: str = "pygerber",
                 overlay: Optional[Dict[str, str]] = None) -> None:
        """overlay: {path relative to src: source text} replaces files (used by self tests)."""
        self.root = root or repo_root()
        overlay = overlay or {}
        self.overlay = overlay
        self.package = package
        self.modules: Dict[str, Module] = {}
        src = self.root / "src" / package
        if not src.is_dir():
            raise AnalysisBroken(f"source tree {src} is missing")
        for path in sorted(src.rglob("*.py")):
            rel = path.relative_to(self.root / "src")
            parts = list(rel.with_suffix("").parts)
            is_pkg = parts[-1] == "__init__"
            if is_pkg:
                parts.pop()
            name = ".".join(parts)
            try:
                text = overlay.get(str(rel))
                tree = ast.parse(path.read_text("utf-8") if text is None else text, filename=str(path))
            except SyntaxError as e:
                raise AnalysisBroken(f"{path}: {e}") from e
            self.modules[name] = Module(name, path, str(path.relative_to(self.root)), tree, is_pkg)
        for m in self.modules.values():
            self._scan(m)
        for m in self.modules.values():
            for c in list(m.classes.values()):
                self._link(c)
        self.class_by_name: Dict[str, List[Class]] = {}
        for m in self.modules.values():
            for c in m.classes.values():
                self.class_by_name.setdefault(c.name, []).append(c)
        self._subs: Dict[int, List[Class]] = {}
        for cs in self.class_by_name.values():
            for c in cs:
                for b in c.mro():
                    self._subs.setdefault(id(b), []).append(c)

    # ------------------------------------------------------------------ scanning
    def _scan(self, m: Module) -> None:
        self._scan_body(m, m.tree.body)
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for k, v in self.import_bindings(m, n).items():
                    m.imports.setdefault(k, v)

    def import_bindings(self, m: Module, n: ast.AST) -> Dict[str, str]:
        out: Dict[str, str] = {}
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    out[a.asname] = a.name
                else:
                    out[a.name.split(".")[0]] = a.name.split(".")[0]
        else:
            base = n.module or ""
            if n.level:
                pk = m.name.split(".")
                if not m.is_pkg:
                    pk = pk[:-1]
                pk = pk[: len(pk) - (n.level - 1)]
                base = ".".join(pk + ([base] if base else []))
            for a in n.names:
                out[a.asname or a.name] = f"{base}.{a.name}"
        return out

    def _scan_body(self, m: Module, body: List[ast.stmt]) -> None:
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.funcs[s.name] = Func(s.name, s, m)
            elif isinstance(s, ast.ClassDef):
                self._scan_class(m, s, s.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        m.consts[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                m.consts[s.target.id] = s.value
            elif isinstance(s, ast.If):
                self._scan_body(m, s.body)
                self._scan_body(m, s.orelse)
            elif isinstance(s, ast.Try):
                self._scan_body(m, s.body)
                for h in s.handlers:
                    self._scan_body(m, h.body)

    def _scan_class(self, m: Module, s: ast.ClassDef, name: str) -> Class:
        c = Class(name, s, m)
        m.classes[name] = c
        for b in s.body:
            self._scan_class_stmt(m, c, b)
        return c

    def _scan_class_stmt(self, m: Module, c: Class, b: ast.stmt) -> None:
        if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = Func(b.name, b, m, c)
            if f.is_setter:
                c.setters[b.name] = f
            else:
                c.methods[b.name] = f
        elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
            ann = ast.unparse(b.annotation)
            if "ClassVar" in ann or ann.startswith("Final"):
                if b.value is not None:
                    c.consts[b.target.id] = b.value
            else:
                c.fields[b.target.id] = b
        elif isinstance(b, ast.Assign):
            for t in b.targets:
                if isinstance(t, ast.Name):
                    if isinstance(b.value, ast.Name) and b.value.id in c.methods:
                        c.methods[t.id] = c.methods[b.value.id]
                    else:
                        c.consts[t.id] = b.value
        elif isinstance(b, ast.ClassDef):
            nested = self._scan_class(m, b, f"{c.name}.{b.name}")
            c.nested[b.name] = nested
        elif isinstance(b, ast.If):
            for x in [*b.body, *b.orelse]:
                self._scan_class_stmt(m, c, x)

    def _link(self, c: Class) -> None:
        if c.bases:
            return
        for b in c.node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            d = dotted(b)
            if d is None:
                continue
            ent = self.resolve(c.module, d)
            if ent and ent[0] == "class":
                self._link(ent[1])
                c.bases.append(ent[1])
            else:
                c.bases.append(ent[1] if ent and ent[0] == "ext" else d)

    # ------------------------------------------------------------------ resolution
    def resolve(self, m: Module, name: str, _seen=None):
        """Resolve dotted name in module: ('class',Class)|('func',Func)|('module',Module)
        |('const',(Module,expr))|('ext',str)|None."""
        head, *rest = name.split(".")
        ent = self._resolve_head(m, head, _seen or set())
        for r in rest:
            ent = self._member(ent, r, _seen or set())
            if ent is None:
                return None
        return ent

    def _resolve_head(self, m: Module, head: str, seen):
        key = (m.name, head)
        if key in seen:
            return None
        seen = seen | {key}
        if head in m.classes:
            return ("class", m.classes[head])
        if head in m.funcs:
            return ("func", m.funcs[head])
        if head in m.consts:
            return ("const", (m, m.consts[head], head))
        if head in m.imports:
            return self._qualified(m.imports[head], seen)
        return None

    def _qualified(self, q: str, seen):
        if q.split(".")[0] != self.package:
            return ("ext", q)
        if q in self.modules:
            return ("module", self.modules[q])
        mod, _, attr = q.rpartition(".")
        if mod in self.modules:
            ent = self._resolve_head(self.modules[mod], attr, seen)
            if ent is not None:
                return ent
            return ("ext", q)
        ent = self._qualified(mod, seen) if mod else None
        if ent:
            return self._member(ent, attr, seen)
        return ("ext", q)

    def _member(self, ent, attr: str, seen):
        if ent is None:
            return None
        k, v = ent
        if k == "module":
            sub = f"{v.name}.{attr}"
            r = self._resolve_head(v, attr, seen)
            if r is not None:
                return r
            if sub in self.modules:
                return ("module", self.modules[sub])
            return None
        if k == "ext":
            return ("ext", f"{v}.{attr}")
        if k == "class":
            if attr in v.nested:
                return ("class", v.nested[attr])
            f = v.find(attr)
            if f:
                return ("method", (v, f))
            c = v.find_const(attr)
            if c:
                return ("cconst", (v, c[0], c[1], attr))
            fl = v.find_field(attr)
            if fl:
                return ("cfield", (v, attr))
        return None

    # ------------------------------------------------------------------ helpers
    def cls(self, name: str, module: Optional[str] = None) -> Class:
        cs = self.class_by_name.get(name, [])
        if module:
            cs = [c for c in cs if c.module.name == module] or cs
        if not cs:
            raise AnalysisBroken(f"class {name} not found")
        return cs[0]

    def maybe_cls(self, name: str) -> Optional[Class]:
        cs = self.class_by_name.get(name, [])
        return cs[0] if len(cs) == 1 else None

    def subclasses(self, c: Class) -> List[Class]:
        return self._subs.get(id(c), [])

    def module(self, name: str) -> Module:
        if name not in self.modules:
            raise AnalysisBroken(f"module {name} not found")
        return self.modules[name]

    def all_funcs(self) -> List[Func]:
        out = []
        for m in self.modules.values():
            out.extend(m.funcs.values())
            for c in m.classes.values():
                out.extend(c.methods.values())
        return out
