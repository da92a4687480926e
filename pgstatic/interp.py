"""Interprocedural gated value-graph dataflow over function bodies.

One forward pass per function; branches are evaluated once each and merged with gated
(phi) values, calls to helpers are inlined, loops are summarised as one symbolic
iteration.  The result of a function is an *effect summary*: the ordered list of guarded
observable effects (writes to attributes, emitted text, appended items, calls across API
boundaries, raises, yields) plus the gated return value.  No code is executed and no path
is enumerated.
"""
from __future__ import annotations

import ast
import builtins
import copy
import functools
import re
from typing import Dict, List, Optional

from .atoms import (
    a_eq, a_gt, a_isnone, a_lt, a_truthy, seq_item,
)
from .model import Class, Func, Module, Program, dotted, walk_scope
from .types import BOOL, NUM, STR, Types
from .values import (
    _cof, _top, mkB,
    F, I, NONE, T, TooBig, atom_bool, b_and, b_not, b_or, const, const_str, constrain, contains,
    guard_pieces, is_bool, is_const, ite, key, leaves, map_leaves, n_leaves, num, ops,
    p_add, p_canon_sign, p_div, p_mul, p_neg, seq, subst, unless_empty,
)

PURE_BUILTINS = {
    "len", "str", "int", "float", "min", "max", "abs", "round", "sorted", "list", "tuple",
    "dict", "set", "frozenset", "isinstance", "issubclass", "getattr", "hasattr", "zip",
    "enumerate", "range", "repr", "type", "hash", "any", "all", "sum", "iter", "reversed",
    "map", "filter", "bool", "bytes", "chr", "ord", "divmod", "pow", "id", "format", "object",
    "callable", "slice", "super", "vars", "bytearray",
}
PURE_EXT_PREFIX = (
    "math.", "re.", "itertools.", "functools.", "operator.", "typing.", "json.loads", "json.dumps",
    "hashlib.", "base64.", "pathlib.Path", "shapely", "enum.", "collections.", "importlib.util",
    "io.StringIO", "io.BytesIO", "pyparsing.", "PIL.Image.new", "PIL.ImageDraw.Draw", "PIL.ImageOps",
    "copy.", "textwrap.", "string.", "decimal.", "fractions.", "lsprotocol.", "pydantic.", "contextlib.suppress",
    "dataclasses.", "click.option", "click.argument", "click.Choice", "click.Path", "datetime.", "asyncio.Lock",
    "threading.Lock", "time.", "xml.", "numpy.",
)
IGNORED_EXT = ("logging.", "warnings.")
PURE_METHODS = {
    "lower", "upper", "strip", "rstrip", "lstrip", "split", "rsplit", "splitlines", "join", "format",
    "startswith", "endswith", "replace", "casefold", "zfill", "ljust", "rjust", "center", "find", "rfind",
    "count", "index", "isdigit", "encode", "decode", "title", "capitalize", "removeprefix", "removesuffix",
    "partition", "rpartition", "translate", "isalpha", "isspace", "swapcase",
    "get", "items", "keys", "values", "copy", "group", "groups", "groupdict", "match", "search", "fullmatch", "findall",
    "read_text", "read_bytes", "expanduser", "resolve", "as_posix", "with_suffix", "with_name", "relative_to",
    "exists", "is_file", "is_dir", "getvalue", "hexdigest", "digest", "model_copy", "model_dump",
    "model_dump_json", "union", "difference", "intersection", "buffer", "getchannel", "convert", "get_image",
    "resize", "rotate", "transpose", "crop", "total_seconds", "bit_length", "is_integer", "as_integer_ratio",
    "most_common", "__class__", "set_results_name", "setResultsName", "set_parse_action", "setParseAction",
    "set_name", "add_parse_action", "suppress", "leave_whitespace", "parse_with_tabs", "enable_packrat_",
    "as_list", "as_dict", "new", "get_bounds", "simplify", "to_bytes", "isoformat", "span", "start", "end",
    "set_debug", "copy_", "streamline", "set_whitespace_chars", "__contains__", "issubset", "issuperset",
}
RE_FUNCS = {"match", "search", "fullmatch", "findall", "finditer"}
MUTATORS = {
    "append", "extend", "insert", "add", "update", "remove", "pop", "clear", "setdefault", "discard",
    "sort", "reverse", "popleft", "appendleft", "popitem", "extendleft",
}
OPERATOR = {
    "add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "floordiv": "FloorDiv", "mod": "Mod", "pow": "Pow", "matmul": "MatMult",
    "eq": "Eq", "ne": "NotEq", "lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "is": "Is", "is_not": "IsNot", "and": "BitAnd", "or": "BitOr",
}
IN_PLACE = {"set_name", "set_parse_action"}
ELEMENT = {".set_name", ".set_parse_action", ".set_results_name", ".copy"}
STREAM = {"append", "extend", "write", "writelines"}


class Ev:
    __slots__ = ("kind", "g", "data", "mods", "where")

    def __init__(self, kind, g, data, mods=frozenset(), where=""):
        self.kind, self.g, self.data, self.mods, self.where = kind, g, data, mods, where

    def t(self):
        return (self.kind, self.g, *self.data)


class Frame:
    def __init__(self, func: Func, env: Dict[str, tuple], cls: Optional[Class], module: Module):
        self.func, self.env, self.cls, self.module = func, env, cls, module
        self.returns: List[tuple] = []
        self.globals: set = set()
        self.nonlocals: set = set()
        self.loop: List[dict] = []
        self.imports: Dict[str, str] = {}
        self.alias: dict = {}
        self.snaps: list = []


TRANSPARENT = {
    "property", "classmethod", "staticmethod", "abstractmethod", "abstractproperty", "override",
    "contextmanager", "asynccontextmanager", "wraps", "overload", "final", "setter", "computed_field",
}
_EMPTY = ast.parse("def _(): pass").body[0]




class _Named(ast.NodeTransformer):
    def __init__(self, old, new):
        self.old, self.new = old, new

    def visit_Name(self, n):
        return ast.copy_location(ast.Name(self.new, n.ctx), n) if n.id == self.old else n


class Unsupported(Exception):
    pass


class Facts:
    """Name based mod/impurity summaries used for versioning reads across calls."""

    def static_class(self, f: Func, e, depth=0):
        """Class of the object denoted by e in f, from annotations (None = unknown)."""
        if depth > 6:
            return None
        if isinstance(e, ast.Name):
            ps = f.params
            if f.cls is not None and ps and ps[0].arg == e.id and not f.is_static:
                return f.cls
            for a in ps:
                if a.arg == e.id:
                    t = Types.strip_none(self.types.ann(f.module, a.annotation, f.cls))
                    return t[1] if t and t[0] == "C" else None
            vals = []
            for n in walk_scope(f.node):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
                    vals.append(n.value)
                elif isinstance(n, ast.Name) and n.id == e.id and isinstance(n.ctx, ast.Store):
                    vals.append(None)
            vals = [v for v in vals if v is not None]
            stores = sum(1 for n in walk_scope(f.node) if isinstance(n, ast.Name) and n.id == e.id and isinstance(n.ctx, ast.Store))
            if len(vals) == 1 and stores == 1:
                return self.static_class(f, vals[0], depth + 1)
            return None
        if isinstance(e, ast.Attribute):
            c = self.static_class(f, e.value, depth + 1)
            if c is not None:
                t = Types.strip_none(self.types.attr(c, e.attr))
                if t and t[0] == "C":
                    return t[1]
            return None
        if isinstance(e, ast.Call):
            d = dotted(e.func)
            ent = self.prog.resolve(f.module, d) if d else None
            if ent and ent[0] == "class":
                return ent[1]
            if isinstance(e.func, ast.Attribute):
                c = self.static_class(f, e.func.value, depth + 1)
                m = c.find(e.func.attr) if c is not None else None
                if m is not None:
                    t = Types.strip_none(self.types.ann(m.module, m.node.returns, c))
                    return t[1] if t and t[0] == "C" else None
        return None

    def may_store(self, c: Class, attr: str) -> bool:
        """May any function of the program write attribute attr of an instance of c?"""
        k = (id(c), attr)
        r = self._ms.get(k)
        if r is None:
            os = self.owners.get(attr, ())
            r = any(o is None or o.is_sub(c) or c.is_sub(o) for o in os)
            self._ms[k] = r
        return r

    def __init__(self, prog: Program, types=None) -> None:
        self._evaluators: Dict[str, bool] = {}
        self._by_name = None
        self._own_names = None
        self.rebound: set = set()      # attributes some function other than a constructor binds to another object
        self.prog = prog
        self.types = types or Types(prog)
        self.owners: Dict[str, set] = {}
        self._ms: Dict[tuple, bool] = {}
        self._attrs = None
        self._closed(prog)

    def _own(self, f, attr_node):
        self.owners.setdefault(attr_node.attr, set()).add(self.static_class(f, attr_node.value))

    def _mut_params(self, prog) -> None:
        """Parameters (by function name: positions without self, names) mutated in place."""
        mp: Dict[str, set] = {}
        passes = []
        for f in prog.all_funcs():
            ps = [p.arg for p in f.params]
            if f.cls is not None and not f.is_static:
                ps = ps[1:]
            if not ps:
                continue
            ix = {p: i for i, p in enumerate(ps)}
            out = mp.setdefault(f.name, set())
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call):
                    fn = n.func
                    if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in ix and fn.attr in MUTATORS:
                        out.add(ix[fn.value.id]); out.add(fn.value.id)
                    name = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else None
                    for i, a in enumerate(n.args):
                        if isinstance(a, ast.Name) and a.id in ix:
                            passes.append((f.name, ix[a.id], a.id, name, i))
                    for k in n.keywords:
                        if isinstance(k.value, ast.Name) and k.value.id in ix:
                            passes.append((f.name, ix[k.value.id], k.value.id, name, k.arg))
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id in ix:
                    out.add(ix[n.value.id]); out.add(n.value.id)
        changed = True
        while changed:
            changed = False
            for f, i, p, callee, j in passes:
                if callee in mp and j in mp[callee] and i not in mp[f]:
                    mp[f] |= {i, p}
                    changed = True
        self.mut_params = {k: v for k, v in mp.items() if v}

    def methods_named(self, name: str):
        if self._by_name is None:
            self._by_name = {}
            for f in self.prog.all_funcs():
                if f.cls is not None:
                    self._by_name.setdefault(f.name, []).append(f)
        return self._by_name.get(name, [])

    def only_property(self, name: str):
        """The property of this name, if a single class has it and nothing else in the program has an attribute so named."""
        fs = self.methods_named(name)
        if len(fs) != 1 or not fs[0].is_property or fs[0].cls is None:
            return None
        if self._own_names is None:
            self._own_names = {n for cs in self.prog.class_by_name.values() for c in cs for n in (*c.fields, *c.consts)} | {
                n.attr for m in self.prog.modules.values() for n in ast.walk(m.tree)
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
        return None if name in self._own_names else fs[0]

    @staticmethod
    def is_getter(f: Func) -> bool:
        """A method which does nothing but hand out an attribute of its object."""
        if f.cls is None or f.is_static or f.is_classmethod or f.is_property or f.node.decorator_list or len(f.params) != 1:
            return False
        body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        if len(body) != 1 or not isinstance(body[0], ast.Return):
            return False
        v = body[0].value
        return isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == f.params[0].arg

    def is_evaluator(self, f: Func) -> bool:
        """A method of a visitor which keeps nothing but plain attributes of its own and returns what it computed by
        visiting its argument: its calls affect nothing else, and each other only through what evaluating resets
        (which the summary of the method itself says)."""
        r = self._evaluators.get(f.qual)
        if r is None:
            r = False
            c = f.cls
            if (c is not None and not f.name.startswith(("_", "on_")) and not f.is_property and not f.is_static
                    and not f.is_classmethod and c.find("__init__") is not None and any(k.name == "AstVisitor" for k in c.mro()[1:])
                    and isinstance(f.node.returns, ast.Name) and f.node.returns.id in ("float", "int", "bool", "str", "Double")
                    and all(k is c for k in self.prog.subclasses(c))):
                own = [m for m in c.methods.values() if m.name != "__init__"]
                r = all(self._only_own(m) for m in own)
            self._evaluators[f.qual] = r
        return r

    @staticmethod
    def _only_own(m: Func) -> bool:
        """Does m change nothing but attributes of its own object?"""
        me = m.params[0].arg if m.params and not m.is_static else None
        for n in ast.walk(m.node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                return False
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                return False
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and not (
                    isinstance(n.value, ast.Name) and n.value.id == me):
                return False
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and isinstance(
                    n.func.value, ast.Attribute):
                return False
        return True

    def _held(self, f):
        """Attributes whose object a local name of f may hold."""
        out: Dict[str, list] = {}

        def parts(e):
            if isinstance(e, ast.Attribute):
                return [e]
            if isinstance(e, ast.IfExp):
                return parts(e.body) + parts(e.orelse)
            if isinstance(e, ast.BoolOp):
                return [x for v in e.values for x in parts(v)]
            if isinstance(e, ast.NamedExpr):
                return parts(e.value)
            return []

        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        out.setdefault(t.id, []).extend(parts(n.value))
                    elif isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts):
                        for a, b in zip(t.elts, n.value.elts):
                            if isinstance(a, ast.Name):
                                out.setdefault(a.id, []).extend(parts(b))
            elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and isinstance(n.target, ast.Name) and n.value is not None:
                out.setdefault(n.target.id, []).extend(parts(n.value))
            elif isinstance(n, ast.For) and isinstance(n.iter, (ast.Tuple, ast.List)) and isinstance(n.target, ast.Name):
                for e in n.iter.elts:
                    out.setdefault(n.target.id, []).extend(parts(e))
        return {k: v for k, v in out.items() if v}

    def _named(self, e):
        """Attribute names which the (partly constant) name expression of a setattr can denote."""
        if isinstance(e, ast.Constant):
            return [e.value]
        if not isinstance(e, ast.JoinedStr) or not any(isinstance(x, ast.Constant) for x in e.values):
            return []
        if self._attrs is None:
            self._attrs = {n.attr for m in self.prog.modules.values() for n in ast.walk(m.tree) if isinstance(n, ast.Attribute)}
            self._attrs |= {x for cs in self.prog.class_by_name.values() for c in cs for x in c.fields}
        rx = re.compile("".join(re.escape(x.value) if isinstance(x, ast.Constant) else ".*" for x in e.values))
        return sorted(a for a in self._attrs if rx.fullmatch(a))

    def _closed(self, prog) -> None:
        direct: Dict[str, set] = {}
        imp: Dict[str, bool] = {}
        calls: Dict[str, set] = {}
        reads: Dict[str, set] = {}
        props = {f.name for f in prog.all_funcs() if f.is_property}
        self._mut_params(prog)
        for f in prog.all_funcs():
            rd = reads.setdefault(f.name, set())
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    rd.add(n.attr)
                    if n.attr in props:
                        calls.setdefault(f.name, set()).add(n.attr)
            d = direct.setdefault(f.name, set())
            c = calls.setdefault(f.name, set())
            for dn in f.decorators():
                c.add(dn.split(".")[-1])
            held = self._held(f)
            for n in ast.walk(f.node):
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
                    for x in held.get(n.value.id, ()):
                        d.add(x.attr)
                        self._own(f, x)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and isinstance(n.func.value, ast.Name):
                    for x in held.get(n.func.value.id, ()):
                        d.add(x.attr)
                        self._own(f, x)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3:
                    for name in self._named(n.args[1]):
                        d.add(name)
                        self.rebound.add(name)
                        self._own(f, ast.Attribute(n.args[0], name, ast.Store()))
                if isinstance(n, ast.Call):
                    cal = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                    mut = self.mut_params.get(cal, ())
                    for i, a in [*enumerate(n.args), *((k.arg, k.value) for k in n.keywords)]:
                        if i in mut and isinstance(a, ast.Attribute):
                            d.add(a.attr)
                            self._own(f, a)
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
                    ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
                    for t in ts:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                                if f.name != "__init__":
                                    d.add(x.attr)
                                    self.rebound.add(x.attr)
                                    self._own(f, x)
                            if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                                b = x.value
                                if isinstance(b, ast.Attribute):
                                    d.add(b.attr)
                                    self._own(f, b)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    if n.func.attr in MUTATORS:
                        if isinstance(n.func.value, ast.Attribute):
                            d.add(n.func.value.attr)
                            self._own(f, n.func.value)
                    elif n.func.attr == "write":
                        imp[f.name] = True
                    else:
                        c.add(n.func.attr)
                        if n.func.attr in ("save", "write_text", "write_bytes", "paste", "show_message_log", "echo"):
                            imp[f.name] = True
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                    c.add(n.func.id)
                    if n.func.id in ("open", "print"):
                        imp[f.name] = True
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    pass
                elif isinstance(n, ast.Global):
                    imp[f.name] = True
        for name, d in direct.items():
            if d:
                imp[name] = True
        for name in direct:
            if name == "visit" or name.startswith("on_"):
                imp[name] = True
        changed = True
        while changed:
            changed = False
            for name, cs in calls.items():
                for c in cs:
                    if c in direct and c != name:
                        if not direct[c] <= direct[name]:
                            direct[name] |= direct[c]
                            changed = True
                        if imp.get(c) and not imp.get(name):
                            imp[name] = True
                            changed = True
                        if not reads[c] <= reads[name]:
                            reads[name] |= reads[c]
                            changed = True
        self.reads = {k: frozenset(v) for k, v in reads.items()}
        self.mods = {k: frozenset(v) for k, v in direct.items()}
        self.impure = imp


class Interp:
    def __init__(self, prog: Program, known: Optional[set] = None, level: int = 0, types=None, facts=None):
        self.prog = prog
        self.known = known
        self.level = level
        self.insts = {}
        self.types = types or Types(prog)
        self.facts = facts or Facts(prog, self.types)
        self.unsupported: List[str] = []
        self.inlined: set = set()
        self.privs: dict = {}
        self.closed: dict = {}
        self.steps = 0

    # ================================================================ entry points
    def summarise(self, func: Func, cls: Optional[Class] = None):
        """Effect summary of func evaluated for receiver class cls."""
        self.g = T
        self.logs: List[List[Ev]] = [[]]
        self.depth = 0
        self.ctype: Dict[tuple, object] = {}
        self.declared: Dict[tuple, object] = {}
        self.stack: List[tuple] = []
        self.closures: Dict[int, tuple] = {}
        self.lams: Dict[tuple, tuple] = {}
        self.exact_self = cls
        self.unsupported = []
        self.call_count: Dict[str, int] = {}
        env: Dict[str, tuple] = {}
        params = func.params
        start = 0
        if func.cls is not None and params and not func.is_static:
            env[params[0].arg] = ("self",) if not func.is_classmethod else ("cls", (cls or func.cls).name)
            start = 1
        for a in params[start:]:
            v = ("p", a.arg)
            env[a.arg] = v
            self.ctype[v] = self.types.ann(func.module, a.annotation, cls)
        if func.node.args.vararg:
            v = env[func.node.args.vararg.arg] = ("p", "*" + func.node.args.vararg.arg)
            self.ctype[v] = ("coll", self.types.ann(func.module, func.node.args.vararg.annotation, cls))
        if func.node.args.kwarg:
            v = env[func.node.args.kwarg.arg] = ("p", "**" + func.node.args.kwarg.arg)
            self.ctype[v] = ("map", None)
        fr = Frame(func, env, cls, func.module)
        self.frames = [fr]
        for name in self.opaque_decorators(func):
            self.emit_ev("deco", (("k", name),), node=func.node)
        wraps = self.wrappers(func)
        if wraps:
            args = [env[a.arg] for a in [*func.node.args.posonlyargs, *func.node.args.args]]
            kw = {a.arg: env[a.arg] for a in func.node.args.kwonlyargs}
            if func.node.args.vararg:
                args.append(("star", env[func.node.args.vararg.arg]))
            if func.node.args.kwarg:
                kw["**"] = env[func.node.args.kwarg.arg]
            ret = self.call_value(self.wrap(func, wraps, cls), args, kw, func.node)
            return [e for e in self.logs[0]], ret
        self.stack.append((func.node, None))
        self.block(func.node.body)
        if self.g != F:
            fr.returns.append((self.g, NONE))
        ret = self.merge_returns(fr.returns)
        return [e for e in self.logs[0]], ret

    # ---------------------------------------------------------------- decorators
    def wrappers(self, func: Func):
        """Decorator expressions of func which are functions of the program."""
        c = getattr(func, "_wrappers", None)
        if c is None:
            c = []
            for d in getattr(func.node, "decorator_list", []):
                t = dotted(d.func if isinstance(d, ast.Call) else d)
                ent = self.prog.resolve(func.module, t) if t else None
                if ent is not None and ent[0] == "func" and func.cls is not None:
                    c.append(d)
            func._wrappers = c
        return c

    def opaque_decorators(self, func: Func):
        out = []
        for d in getattr(func.node, "decorator_list", []):
            t = dotted(d.func if isinstance(d, ast.Call) else d)
            if t is None or t.split(".")[-1] in TRANSPARENT or t.endswith(".setter"):
                continue
            if func.cls is None:
                continue  # described by the decorator obligation of the function
            ent = self.prog.resolve(func.module, t)
            if ent is not None and ent[0] == "func":
                continue
            out.append(t.split(".")[-1])
        return out

    def wrap(self, func: Func, wraps, cls):
        """Value of the decorated function."""
        i = len(self.closures)
        base = self.frames[0]
        self.closures[i] = (func, base, cls)
        v = ("clo", i)
        saved = self.frames
        self.frames = [*saved, Frame(Func("<decorators>", _EMPTY, func.module, None), {}, None, func.module)]
        for d in reversed(wraps):
            v = self.call_value(self.ev(d), [v], {}, d)
        self.frames = saved
        return v

    def eval_module_expr(self, m: Module, e: ast.expr, cls: Optional[Class] = None):
        self.reset(m, cls)
        return self.ev(e)

    # ================================================================ utilities
    @property
    def fr(self) -> Frame:
        return self.frames[-1]

    def bad(self, node, why):
        self.unsupported.append(f"{self.fr.module.rel}:{getattr(node, 'lineno', 0)} {why}")

    def emit_ev(self, kind, data, mods=frozenset(), node=None):
        if self.g == F:
            return
        w = f"{self.fr.module.rel}:{getattr(node, 'lineno', self.fr.func.node.lineno)}"
        g = self.g
        if kind == "for":
            g = unless_empty(g, data[0])
        elif kind == "out" and len(data[1]) == 1 and (data[1][0][0] in ("s", "f") or data[0][0] == "emit" and data[1][0][0] == "i"):
            g = unless_empty(g, data[1][0][2])
        self.logs[-1].append(Ev(kind, I(g), I(data), mods, w))

    def merge_returns(self, rets):
        if not rets:
            return ("noreturn",)
        v = rets[-1][1]
        for g, x in reversed(rets[:-1]):
            v = self.phi(g, x, v)
        return v

    def phi(self, c, a, b):
        if c == T:
            return a
        if c == F:
            return b
        if a == b:
            return a
        if a[0] == "seq" and b[0] == "seq" and a[1] == b[1]:
            i = 0
            pa, pb = a[2], b[2]
            while i < len(pa) and i < len(pb) and pa[i] == pb[i]:
                i += 1
            if a[1] in ("list", "gen", "set", "dictc") or (i > 0):
                return seq(a[1], [*pa[:i], *guard_pieces(pa[i:], c), *guard_pieces(pb[i:], b_not(c))])
        if a[:2] == ("seq", "dictc") and b[0] == "dict" or b[:2] == ("seq", "dictc") and a[0] == "dict":
            return self.phi(c, to_dictc(a), to_dictc(b))
        if a[0] == "clo" or b[0] == "clo":
            a, b = self.esc(a), self.esc(b)
        if c[0] == "B" and c[1][0] in ("lt0", "gt0") and a[0] not in ("B", "seq") and b[0] not in ("B", "seq") and (
                is_bool(c) and c[2] in (T, F) and c[3] in (T, F)):
            # (a if a < b else b) is the smaller of the two
            for n, cs in (("min", (a_lt(a, b), b_not(a_gt(a, b)))), ("max", (a_gt(a, b), b_not(a_lt(a, b))))):
                if c in cs:
                    r = ("call", n, tuple(sorted((a, b), key=key)), ())
                    self.ctype[r] = NUM
                    return r
        return ite(c, a, b)

    # ================================================================ types
    def ty(self, v):
        t = self.ctype.get(v)
        if t is not None:
            return t
        op = v[0]
        if op in ("n", "poly"):
            return NUM
        if v in (T, F):
            return BOOL
        if op == "seq":
            return STR if v[1] == "str" else ("map", None) if v[1] == "dictc" else ("coll", None)
        if op == "dict":
            return ("map", None)
        if op == "self" and self.exact_self is not None:
            return ("C", self.exact_self)
        if op == "new":
            c = self.prog.maybe_cls(v[1])
            return ("C", c) if c else None
        if op == "enum":
            c = self.prog.maybe_cls(v[1])
            return ("C", c) if c else None
        if op == "attr":
            bt = Types.strip_none(self.ty(v[1]))
            return self.attr_type(bt, v[2])
        if op == "elem":
            t = Types.strip_none(self.ty(v[2]))
            if t and t[0] in ("coll",) and t[1] is not None:
                return t[1]
            if t and t[0] == "tup" and len(set(t[1])) == 1:
                return t[1][0]
            return self.item_type(v[2]) if t and t[0] == "coll" else None
        if op == "item":
            t = Types.strip_none(self.ty(v[1]))
            if t and t[0] == "tup" and isinstance(v[2], tuple) and v[2][0] == "n":
                i = int(v[2][1])
                if -len(t[1]) <= i < len(t[1]):
                    return t[1][i]
            if t and t[0] == "coll":
                return t[1]
            if t and t[0] == "map":
                return t[1]
            return None
        if op == "B":
            for _, l in leaves(v, 4096):
                if l != NONE:
                    return self.ty(l)
        if op == "call" and "." in v[1][1:]:
            c = self.prog.maybe_cls(v[1].rpartition(".")[0])
            f = c.find(v[1].rpartition(".")[2]) if c else None
            if f is not None:
                return self.types.ann(f.module, f.node.returns, c)
        return None

    def item_type(self, v):
        """Class of the items which a collection built in the function is made of."""
        todo, seen, out = [v], set(), set()
        while todo and len(seen) < 60:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x[0] == "seq" and x[1] not in ("str", "dictc"):
                todo += [("seq", x[1], (p,)) for p in x[2]] if len(x[2]) != 1 else []
                if len(x[2]) == 1:
                    p = x[2][0]
                    if p[0] == "i":
                        out.add(self.ty(p[2]))
                    elif p[0] == "s":
                        todo.append(p[2])
                    elif p[0] == "f":
                        todo.append(("seq", x[1], p[3]))
                    else:
                        return None
            elif x[0] == "fold" and len(x) == 5:
                todo += [y for y in x[4][0]]
            elif x[0] == "B":
                todo += [x[2], x[3]]
            elif x[0] in ("mu", "muc"):
                continue
            else:
                t = Types.strip_none(self.ty(x))
                out.update({t[1]} if t and t[0] == "coll" else set(t[1]) if t and t[0] == "tup" else {None})
        return out.pop() if len(out) == 1 else None

    def attr_type(self, bt, name):
        if bt is None:
            return None
        if bt[0] == "union":
            ts = [self.attr_type(t, name) for t in bt[1]]
            ts = [t for t in ts if t is not None]
            return ts[0] if ts else None
        if bt[0] == "C":
            return self.types.attr(bt[1], name)
        return None

    def tkind(self, v):
        """num | str | bool | coll | optobj | obj | None for truthiness / arithmetic."""
        t = self.ty(v)
        if t is None:
            return None
        opt = t[0] == "union" and ("none",) in t[1]
        t = Types.strip_none(t)
        if t[0] == "union":
            ks = {self._tk(x) for x in t[1]}
            k = ks.pop() if len(ks) == 1 else None
        else:
            k = self._tk(t)
        if k == "obj" and opt:
            return "optobj"
        if opt:
            return "opt" + k if k else None
        return k

    def _tk(self, t):
        if t[0] == "num":
            return "num"
        if t[0] == "str":
            return "coll"
        if t[0] == "bool":
            return "bool"
        if t[0] in ("coll", "map", "tup"):
            return "coll"
        if t[0] == "C":
            c = t[1]
            if c.find("__bool__") or c.find("__len__"):
                return None
            if any(b.split(".")[-1] in ("str", "int", "float", "list", "dict", "tuple") for b in c.ext_bases()):
                return None
            return "obj"
        return None

    def is_str(self, v):
        if v[0] == "seq":
            return v[1] == "str"
        t = Types.strip_none(self.ty(v))
        if t and t[0] == "C" and any(b.split(".")[-1] == "str" for b in t[1].ext_bases()):
            return True
        return t == STR

    def is_num(self, v):
        if v[0] in ("n", "poly"):
            return True
        if v[0] == "B":
            return all(self.is_num(l) for _, l in leaves(v, 4096))
        return Types.strip_none(self.ty(v)) == NUM

    def cond(self, e: ast.expr):
        v = self.ev(e)
        return self.truthy(v)

    def truthy(self, v):
        if is_bool(v):
            return v
        if v[0] == "B":
            return map_leaves(v, self.truthy)
        if v[0] == "call" and v[1] in ("re.match", "re.search", "re.fullmatch"):
            return b_not(a_isnone(v))
        if v[0] == "call" and v[1] == ".group" and len(v[2]) == 2 and self._sure_group(*v[2]):
            return T
        k = self.tkind(v)
        if k and k.startswith("opt") and k != "optobj":
            # Optional[list] etc: truthy <=> not None and non-empty; keep one atom
            return atom_bool(("t", v))
        return a_truthy(v, k)

    def _sure_group(self, m, name):
        """Does every match of a literal pattern give this group some text?"""
        if m[0] != "call" or m[1] not in ("re.match", "re.search", "re.fullmatch") or len(m[2]) != 2:
            return False
        pat, name = const_str(m[2][0]), const_str(name)
        if pat is None or name is None:
            return False
        import re._parser as sre
        try:
            tree = sre.parse(pat)
        except re.error:
            return False
        n = tree.state.groupdict.get(name)
        return any(str(op) == "SUBPATTERN" and a[0] == n and a[3].getwidth()[0] > 0 for op, a in tree)

    # ================================================================ locations
    def read_attr(self, base, name):
        v = I(("attr", base, name))
        c = self.cls_of(base)
        stable = c is not None and not self.facts.may_store(c, name)
        for log in self.logs:
            for e in log:
                if name not in e.mods:
                    continue
                if stable and e.kind != "store":
                    continue
                if e.kind == "store" and e.data[1] == name:
                    if e.data[0] == base:
                        v = ite(e.g, self.esc(e.data[2]), v)
                    continue
                ver = ("attr", base, name, e.data[0] if e.kind in ("loopmark", "endloop") else self.ver(e))
                self.ctype[ver] = self.ty(("attr", base, name))
                v = ite(e.g, ver, v)
        return v

    def _entry(self, v, k):
        """(value of v[k], is k in v) for a mapping held in an attribute, seen through earlier v[k] = x."""
        if v[0] != "attr":
            return I(("item", v, k)), atom_bool(("in", k, v))
        base, name = v[1], v[2]
        v0 = I(("attr", base, name))
        val, has = I(("item", v0, k)), atom_bool(("in", k, v0))
        c = self.cls_of(base)
        stable = c is not None and not self.facts.may_store(c, name)
        for log in self.logs:
            for e in log:
                if name not in e.mods or stable and e.kind not in ("store", "sstore", "del", "mut", "loopmark", "endloop"):
                    continue
                if e.kind == "store" and e.data[1] == name:
                    if e.data[0] == base:
                        x = self.esc(e.data[2])
                        val, has = ite(e.g, self.item(x, k), val), ite(e.g, self.compare(ast.In(), k, x, None), has)
                    continue
                if e.kind == "sstore" and e.data[0][0] == "attr" and e.data[0][1:3] == (base, name):
                    if e.data[1] == k:
                        val, has = ite(e.g, e.data[2], val), ite(e.g, T, has)
                        continue
                    if is_const(e.data[1]) and is_const(k):
                        continue
                ver = ("attr", base, name, e.data[0] if e.kind in ("loopmark", "endloop") else self.ver(e))
                self.ctype[ver] = self.ty(("attr", base, name))
                val, has = ite(e.g, I(("item", ver, k)), val), ite(e.g, atom_bool(("in", k, ver)), has)
        return val, has

    def _same_entry(self, base, k, v):
        """When v is the very object which base[k] is."""
        if base[0] == "B":
            hs = {l[1:3] if l[0] == "attr" else None for _, l in leaves(base, 4096)}
            if len(hs) != 1 or None in hs:
                return F
            base = ("attr", *hs.pop())
        if base[0] != "attr" or not self.is_map(("attr", *base[1:3])) or n_leaves(v) > 8:
            return F
        own = lambda x: x[0] == "item" and x[1][0] == "attr" and x[1][1:3] == base[1:3] and x[2] == k  # noqa: E731
        ls = leaves(v) if v[0] == "B" else [(T, v)]
        if not any(own(l) for _, l in ls):
            return F
        for log in self.logs:
            for e in log:
                if base[2] in e.mods and not (
                        e.kind == "out" and e.data[0][0] == "list" and own(e.data[0][1])
                        or e.kind == "mut" and e.data[1] and own(e.data[1][0])):
                    return F
        return functools.reduce(b_or, (g for g, l in ls if own(l)))

    def is_map(self, v):
        t = Types.strip_none(self.ty(v))
        return bool(t and t[0] == "map")

    def ver(self, e):
        if e.kind == "call" and isinstance(e.data[0], str):
            # which call it was matters: two visits of different nodes leave different values
            return I(("after", *e.data))
        return "after:" + str(e.data[0] if isinstance(e.data[0], str) else e.kind)

    # ================================================================ blocks
    def block(self, stmts):
        for s in stmts:
            if self.g == F:
                return
            self.steps += 1
            if self.steps > 200000:
                raise TooBig
            m = getattr(self, "st_" + type(s).__name__, None)
            if m is None:
                self.bad(s, f"statement {type(s).__name__}")
                continue
            m(s)

    def st_Pass(self, s):
        pass

    def st_Global(self, s):
        self.fr.globals |= set(s.names)

    def st_Nonlocal(self, s):
        self.fr.nonlocals |= set(s.names)

    def st_Import(self, s):
        self.fr.imports.update(self.prog.import_bindings(self.fr.module, s))

    st_ImportFrom = st_Import

    def st_Assert(self, s):
        pass

    def st_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def st_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        if self.fr.loop:
            # return from inside a loop
            self.fr.loop[-1]["exits"].append((self.g, self.esc(v)))
            self.emit_ev("return", (self.esc(v),), node=s)
        else:
            self.fr.returns.append((self.g, v))
        self.snapshot(s)
        self.g = F

    def snapshot(self, node):
        """Containers of the caller as they are when the inlined function returns."""
        al = self.fr.alias
        if al:
            if self.fr.loop and any(self.fr.env.get(p) != al[p][2] for p in al):
                self.bad(node, "container changed before a return inside a loop")
            self.fr.snaps.append((self.g, {p: self.fr.env.get(p) for p in al}))

    def st_Raise(self, s):
        v = self.ev(s.exc) if s.exc is not None else ("k", "reraise")
        v = self.exc_name(v)
        self.emit_ev("raise", (v,), node=s)
        self.g = F

    def exc_name(self, v):
        if v[0] == "B":
            return map_leaves(v, self.exc_name)
        if v[0] in ("new", "cls"):
            return ("k", v[1])
        if v[0] == "call":
            return ("k", v[1])
        return v

    def st_If(self, s):
        c = self.cond(s.test)
        self.branch(c, lambda: self.block(s.body), lambda: self.block(s.orelse))

    def branch(self, c, then, other):
        g0 = self.g
        env0 = self.fr.env
        if c == T:
            then()
            return
        if c == F:
            other()
            return
        gt, ge = b_and(g0, c), b_and(g0, b_not(c))
        self.fr.env = dict(env0)
        self.g = gt
        if gt != F:
            then()
        env1, g1 = self.fr.env, self.g
        self.fr.env = dict(env0)
        self.g = ge
        if ge != F:
            other()
        env2, g2 = self.fr.env, self.g
        if g1 == F:
            self.fr.env, self.g = env2, g2
        elif g2 == F:
            self.fr.env, self.g = env1, g1
        else:
            self.g = b_or(g1, g2)
            env = {}
            for k in [*env1, *[k for k in env2 if k not in env1]]:
                if k in env1 and k in env2:
                    env[k] = self.phi(c, env1[k], env2[k])
                else:
                    env[k] = env1.get(k, env2.get(k))
            self.fr.env = env

    # ---------------------------------------------------------------- assignment
    def st_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def st_AnnAssign(self, s):
        if s.value is not None:
            v = self.ev(s.value)
            if v[0] not in ("n", "seq", "poly", "dict", "none", "T", "F", "clo") and self.ctype.get(v) is None:
                self.ctype[v] = self.types.ann(self.fr.module, s.annotation, self.fr.cls)
            self.assign(s.target, v)

    def st_AugAssign(self, s):
        cur = self.ev(self._as_load(s.target))
        v = self.ev(s.value)
        if isinstance(s.op, ast.Add) and isinstance(s.target, ast.Attribute):
            t = self.ty(cur)
            if t and t[0] == "coll":
                self.stream(("list", cur), [("s", T, self.esc(v))], self._attr_names(s.target), s)
                return
        self.assign(s.target, self.binop(s.op, cur, v, s))

    def _as_load(self, t):
        n = ast.parse(ast.unparse(t), mode="eval").body
        return ast.copy_location(n, t)

    def _attr_names(self, node):
        return frozenset({node.attr}) if isinstance(node, ast.Attribute) else frozenset()

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            if t.id in self.fr.globals:
                self.emit_ev("store", (("mod",), t.id, self.esc(v)), frozenset({t.id}), t)
            elif t.id in self.fr.nonlocals:
                fr = getattr(self.fr, "up", None)
                while fr is not None and t.id not in fr.env:
                    fr = getattr(fr, "up", None)
                if fr is None:
                    self.bad(t, "assignment to a variable of a function which has returned")
                else:
                    fr.env[t.id] = self.phi(self._since(fr), v, fr.env[t.id])
            else:
                self.fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = next((i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None)
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    hi = i - len(t.elts) + 1
                    self.assign(e.value, self.slice(v, num(i), num(hi) if hi else NONE))
                elif star is not None and i > star:
                    self.assign(e, self.item(v, num(i - len(t.elts))))
                else:
                    self.assign(e, self.item(v, num(i)))
        elif isinstance(t, ast.Attribute):
            self.store(self.ev(t.value), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            k = self.ev(t.slice)
            home = self.fr
            while isinstance(t.value, ast.Name) and home is not None and t.value.id not in home.env:
                home = getattr(home, "up", None)
            if isinstance(t.value, ast.Name) and home is not None:
                cur, new = home.env[t.value.id], None
                if cur[0] == "dict" and is_const(k) and not any(a == ("**",) for a, _ in cur[1]):
                    new = self.dict_set(cur, k, v)
                elif all(is_dictval(l) for _, l in leaves(cur, 16)) if cur[0] == "B" else is_dictval(cur):
                    pc = ("i", T, seq("tuple", [("i", T, self.esc(k)), ("i", T, self.esc(v))]))
                    new = map_leaves(cur, lambda l: seq("dictc", [*to_dictc(l)[2], pc]))
                if new is not None:
                    home.env[t.value.id] = new if home is self.fr else self.phi(self._since(home), new, cur)
                    return
            base = self.ev(t.value)
            same = self._same_entry(self.esc(base), self.esc(k), self.esc(v))
            if same != F:
                g0 = self.g
                self.g = b_and(g0, b_not(same))
                if self.g != F:
                    self.emit_ev("sstore", (self.esc(base), self.esc(k), constrain(self.esc(v), b_not(same))), self._attr_names(t.value) | self.mods_of(base), t)
                self.g = g0
                return
            self.emit_ev("sstore", (self.esc(base), self.esc(k), self.esc(v)), self._attr_names(t.value) | self.mods_of(base), t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def mods_of(self, v):
        """The attribute holding a container which is changed in place."""
        while v[0] in ("item", "elem", "val"):
            v = v[2] if v[0] != "item" else v[1]
        if v[0] == "attr":
            return frozenset({v[2]})
        if v[0] == "B":
            return self.mods_of(v[2]) | self.mods_of(v[3])
        return frozenset()

    def store(self, base, name, v, node):
        """base.name = v; storing back what is there already changes nothing."""
        base, v = self.esc(base), self.esc(v)
        g0 = self.g
        c = self.cls_of(base)
        if c is not None and c.find(name) is None:
            self.g = b_and(g0, b_not(same(v, self.read_attr(base, name))))
        if self.g != F:
            self.emit_ev("store", (base, name, v), frozenset({name}), node)
        self.g = g0

    def dict_set(self, d, k, v):
        es = [(a, b) for a, b in d[1] if a != k]
        es.append((k, v))
        return ("dict", tuple(es))

    def st_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.fr.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value)
                self.emit_ev("del", (self.esc(base), self.esc(self.ev(t.slice))),
                             self._attr_names(t.value) | self.mods_of(base), t)
            elif isinstance(t, ast.Attribute):
                self.emit_ev("del", (self.esc(self.ev(t.value)), t.attr), frozenset({t.attr}), t)

    # ---------------------------------------------------------------- nested scopes
    def st_FunctionDef(self, s):
        f = Func(s.name, s, self.fr.module, self.fr.func.cls, self.fr.func)
        if any(isinstance(n, ast.Name) and n.id == s.name for n in _walk(s)):
            self.share_recursive(s)
        v = self.fr.env[s.name] = self.mk_closure(f)
        for d in reversed(s.decorator_list):
            if (dotted(d.func if isinstance(d, ast.Call) else d) or "").split(".")[-1] in (
                "wraps", "contextmanager", "cache", "lru_cache", "staticmethod", "no_type_check"):
                continue
            self.call_value(self.ev(d), [v], {}, d)

    def share_recursive(self, s):
        """Containers a recursive local function changes are objects, not values."""
        for n in _walk(s):
            x = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                x = n.func.value
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                x = n.value
            if isinstance(x, ast.Name) and x.id in self.fr.env:
                v = self.fr.env[x.id]
                if v[0] in ("seq", "dict"):
                    self.fr.env[x.id] = ("attr", ("cell", self.esc(v)), "contents")

    st_AsyncFunctionDef = st_FunctionDef

    def st_ClassDef(self, s):
        self.bad(s, "local class")

    def mk_closure(self, f):
        i = len(self.closures)
        self.closures[i] = (f, self.fr, self.fr.cls)
        return ("clo", i)

    # ---------------------------------------------------------------- control
    def _try_as_if(self, s):
        """try: <use of d[k]> except KeyError: ...  is a test for k in d."""
        if len(s.handlers) != 1 or s.finalbody or len(s.body) != 1 or not isinstance(s.body[0], (ast.Return, ast.Assign, ast.AnnAssign, ast.Expr)):
            return None
        h = s.handlers[0]
        if h.type is None or dotted(h.type) not in ("KeyError", "LookupError"):
            return None
        e = s.body[0].value
        if isinstance(e, ast.Attribute):
            e = e.value
        if not isinstance(e, ast.Subscript) or isinstance(e.slice, ast.Slice):
            return None
        if any(isinstance(n, (ast.Call, ast.Await, ast.Yield, ast.NamedExpr, ast.Subscript)) and n is not e for n in ast.walk(e)):
            return None
        if isinstance(s.body[0], ast.Assign) and not all(isinstance(t, ast.Name) for t in s.body[0].targets):
            return None
        if h.name and any(isinstance(n, ast.Name) and n.id == h.name for b in h.body for n in ast.walk(b) if not isinstance(b, ast.Raise) or n is not b.cause):
            return None
        d = self.ev(e.value)
        if not (self.is_map(d) or d[0] == "dict"):
            return None
        test = ast.copy_location(ast.Compare(left=e.slice, ops=[ast.In()], comparators=[e.value]), s)
        return ast.fix_missing_locations(ast.copy_location(ast.If(test=test, body=[*s.body, *s.orelse], orelse=h.body), s))

    def _try_tail(self, s):
        """What follows the last statement of a try body that can fail is what its else does."""
        def sure(e):
            return all(isinstance(n, (ast.Name, ast.Constant, ast.Tuple, ast.expr_context, ast.BoolOp, ast.boolop, ast.Not, ast.IfExp))
                       or isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not)
                       or isinstance(n, ast.Compare) and all(isinstance(o, (ast.Is, ast.IsNot)) for o in n.ops)
                       or isinstance(n, (ast.Is, ast.IsNot)) for n in ast.walk(e))

        body, tail = list(s.body), []
        while body:
            b = body[-1]
            if isinstance(b, (ast.Pass, ast.Break, ast.Continue)) or isinstance(b, ast.Return) and (b.value is None or sure(b.value)) or (
                    isinstance(b, (ast.Assign, ast.AnnAssign)) and b.value is not None and sure(b.value)
                    and all(isinstance(t, (ast.Name, ast.Attribute)) and (isinstance(t, ast.Name) or isinstance(t.value, ast.Name))
                            for t in (b.targets if isinstance(b, ast.Assign) else [b.target]))):
                tail.insert(0, body.pop())
                continue
            if isinstance(b, ast.Return) or isinstance(b, ast.Assign) and isinstance(b.targets[0], ast.Attribute) and len(b.targets) == 1 and (
                    isinstance(b.targets[0].value, ast.Name)):
                name = f"tried{b.lineno}_{b.col_offset}"
                body[-1] = ast.copy_location(ast.Assign([ast.Name(name, ast.Store())], b.value), b)
                b = copy.copy(b)
                b.value = ast.Name(name, ast.Load())
                tail.insert(0, b)
            break
        if not tail or not body:
            return s
        s = ast.copy_location(ast.Try(body, s.handlers, [*tail, *s.orelse], s.finalbody), s)
        return ast.fix_missing_locations(s)

    def st_Try(self, s):
        i = self._try_as_if(s)
        if i is not None:
            self.st_If(i)
            return
        if s.handlers:
            s = self._try_tail(s)
        g0 = self.g
        self.emit_ev("mark", ("try",), node=s)
        env0 = dict(self.fr.env)
        self.block(s.body)
        g_body, env_b = self.g, self.fr.env
        outs = []
        exc_any = F
        hs = []
        for h in s.handlers:
            tv = self.exc_types(h.type)
            a = atom_bool(("exc", tv))
            hs.append((h, tv, b_and(a, b_not(exc_any))))
            exc_any = b_or(exc_any, a)
        self.g = b_and(g_body, b_not(exc_any)) if s.handlers else g_body
        if s.orelse:
            self.fr.env = dict(env_b)
            self.block(s.orelse)
            env_b = self.fr.env
        outs.append((b_not(exc_any), self.g, env_b))
        for h, tv, c in hs:
            self.g = b_and(g0, c)
            self.fr.env = dict(env0)
            for k, v in env_b.items():
                if k not in self.fr.env:
                    self.fr.env[k] = v
            if h.name:
                self.fr.env[h.name] = ("excval", tv)
            self.emit_ev("mark", ("except", tv), node=h)
            self.block(h.body)
            outs.append((c, self.g, self.fr.env))
        live = [(c, g, e) for c, g, e in outs if g != F]
        if not live:
            self.g = F
            self.fr.env = env_b
        else:
            env = live[-1][2]
            gg = live[-1][1]
            for c, g, e in reversed(live[:-1]):
                merged = {}
                for k in [*e, *[k for k in env if k not in e]]:
                    if k in e and k in env:
                        merged[k] = self.phi(c, e[k], env[k])
                    else:
                        merged[k] = e.get(k, env.get(k))
                env = merged
                gg = b_or(g, gg)
            self.fr.env, self.g = env, gg
        if s.finalbody:
            g_after = self.g
            self.g = g0
            self.emit_ev("mark", ("finally",), node=s)
            self.block(s.finalbody)
            self.g = b_and(g_after, self.g) if self.g != g0 else g_after
        gx = self.g
        self.g = g0
        self.emit_ev("mark", ("endtry",), node=s)
        self.g = gx

    def exc_types(self, t):
        if t is None:
            return ("k", "BaseException")
        if isinstance(t, ast.Tuple):
            return ("k", ",".join(sorted(dotted(x).split(".")[-1] for x in t.elts)))
        d = dotted(t)
        return ("k", d.split(".")[-1] if d else "?")

    def st_With(self, s):
        it = s.items[0]
        ce = it.context_expr
        if len(s.items) == 1 and it.optional_vars is None and isinstance(ce, ast.Call) and not ce.keywords and ce.args and (
                dotted(ce.func) or "").split(".")[-1] == "suppress" and isinstance(s, ast.With):
            t = ce.args[0] if len(ce.args) == 1 else ast.Tuple(ce.args, ast.Load())
            h = ast.ExceptHandler(type=t, name=None, body=[ast.Pass()])
            self.st_Try(ast.fix_missing_locations(ast.copy_location(ast.Try(body=s.body, handlers=[h], orelse=[], finalbody=[]), s)))
            return
        self._with(s, 0)

    def _with(self, s, i):
        if i == len(s.items):
            self.block(s.body)
            return
        it = s.items[i]
        cm = self.cm_callee(it.context_expr)
        if cm is not None:
            f, cls, recv = cm
            args, kwargs = self.args(it.context_expr)
            caller = self.fr
            nframes = len(self.frames)

            def on_yield(val):
                inner = self.frames[nframes:]
                stack = self.stack
                self.frames = self.frames[:nframes]
                self.stack = stack[:-len(inner)] if inner else stack
                g_at = self.g
                n_ret = len(caller.returns)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, val)
                self._with(s, i + 1)
                state["g"] = b_or(state["g"], self.g)
                post = self.g
                for g, _ in caller.returns[n_ret:]:
                    post = b_or(post, g)
                self.frames = [*self.frames, *inner]
                self.stack = stack
                self.g = post

            state = {"g": F}
            self.inline(f, cls, recv, args, kwargs, it.context_expr, on_yield=on_yield)
            self.g = state["g"]
            return
        v = self.ev(it.context_expr)
        if v[0] == "call" and v[1] in ("io.StringIO", "io.BytesIO"):
            # leaving the block only closes the buffer
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
            self._with(s, i + 1)
            return
        if it.optional_vars is not None:
            self.assign(it.optional_vars, ("enter", self.esc(v)))
        g = self.g
        self.emit_ev("mark", ("with", self.esc(v)), node=s)
        self._with(s, i + 1)
        gx = self.g
        self.g = g
        self.emit_ev("mark", ("endwith",), node=s)
        # suppress(): control may continue after an exception inside the block
        ce = it.context_expr
        sup = isinstance(ce, ast.Call) and (dotted(ce.func) or "").split(".")[-1] == "suppress"
        self.g = b_or(gx, g) if sup and gx == F else gx

    def cm_callee(self, e):
        """(func, class, receiver) when e calls a generator based context manager we expand."""
        if not isinstance(e, ast.Call):
            return None
        fn = e.func
        f = cls = recv = None
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Name) and (fn.value.id in self.fr.env):
                recv = self.fr.env[fn.value.id]
            elif isinstance(fn.value, ast.Attribute) and isinstance(fn.value.value, ast.Name) and fn.value.value.id in self.fr.env:
                recv = self.ev(fn.value)
            if recv is None or recv[0] == "B":
                return None
            cls = self.cls_of(recv)
            f = cls.find(fn.attr) if cls is not None else None
            if f is not None and self.virtual(cls, fn.attr, recv):
                return None
        elif isinstance(fn, ast.Name) and fn.id not in self.fr.env:
            ent = self.prog.resolve(self.fr.module, fn.id)
            f = ent[1] if ent and ent[0] == "func" else None
        if f is None or not f.is_contextmanager or any(n is f.node for n, _ in self.stack):
            return None
        if f.qual in (self.known or ()) and self.level < 2:
            return None
        return f, cls, recv

    st_AsyncWith = st_With

    def st_Match(self, s):
        subj = self.ev(s.subject)
        self._match_cases(subj, s.cases)

    def _match_cases(self, subj, cases):
        if not cases:
            return
        c = cases[0]
        cond, binds = self._pattern(subj, c.pattern)

        def then():
            self.fr.env.update(binds)
            if c.guard is not None:
                cc = self.cond(c.guard)
                self.branch(cc, lambda: self.block(c.body), lambda: self._match_cases(subj, cases[1:]))
            else:
                self.block(c.body)

        self.branch(cond, then, lambda: self._match_cases(subj, cases[1:]))

    def _pattern(self, subj, p):
        if isinstance(p, ast.MatchValue):
            return self.compare_eq(subj, self.ev(p.value)), {}
        if isinstance(p, ast.MatchSingleton):
            return a_eq(subj, const(p.value)), {}
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return T, ({p.name: subj} if p.name else {})
            c, b = self._pattern(subj, p.pattern)
            if p.name:
                b = {**b, p.name: subj}
            return c, b
        if isinstance(p, ast.MatchOr):
            c = F
            for q in p.patterns:
                cc, _ = self._pattern(subj, q)
                c = b_or(c, cc)
            return c, {}
        if isinstance(p, ast.MatchClass):
            c = self.isinst(subj, self.ev(p.cls))
            b = {}
            for k, q in zip(p.kwd_attrs, p.kwd_patterns):
                cc, bb = self._pattern(self.attr(subj, k, p), q)
                c = b_and(c, cc)
                b.update(bb)
            return c, b
        self.bad(p, "match pattern")
        return atom_bool(("opq", ast.unparse(p))), {}

    # ---------------------------------------------------------------- loops
    def assigned_names(self, body):
        out = self._assigned_names(body)
        for s in body:
            for n in [s, *_walk(s)]:
                if isinstance(n, ast.For) and isinstance(n.iter, (ast.Tuple, ast.List)) and isinstance(n.target, ast.Name) and (
                        self._changed(n.target.id, n.body)):
                    out += [e.id for e in n.iter.elts if isinstance(e, ast.Name) and e.id not in out]
        bound = {n.id for s in body for n in [s, *_walk(s)] if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        return [n for n in out if n in bound or n not in self.fr.env or not self.held(self.fr.env[n])]

    def _assigned_names(self, body):
        out = []
        for s in body:
            for n in [s, *_walk(s)]:
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in out:
                    out.append(n.id)
                elif (
                    isinstance(n, ast.Call)
                    and isinstance(n.func, ast.Attribute)
                    and n.func.attr in MUTATORS
                    and isinstance(n.func.value, ast.Name)
                    and n.func.value.id not in out
                ):
                    out.append(n.func.value.id)
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id not in out:
                    out.append(n.value.id)
                if isinstance(n, ast.Call):
                    fn = n.func
                    name = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else None
                    mp = self.facts.mut_params.get(name, ())
                    if mp:
                        for i, a in enumerate(n.args):
                            if isinstance(a, ast.Name) and i in mp and a.id not in out:
                                out.append(a.id)
                        for k in n.keywords:
                            if isinstance(k.value, ast.Name) and k.arg in mp and k.value.id not in out:
                                out.append(k.value.id)
                    if isinstance(fn, ast.Name):
                        c = self.fr.env.get(fn.id)
                        if c and c[0] == "clo" and not isinstance(self.closures[c[1]][0].node, ast.Lambda):
                            node = self.closures[c[1]][0].node
                            own = {a.arg for a in node.args.args}
                            for x in ast.walk(node):
                                m = None
                                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS and isinstance(x.func.value, ast.Name):
                                    m = x.func.value.id
                                elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name):
                                    m = x.value.id
                                for m in x.names if isinstance(x, ast.Nonlocal) else [m]:
                                    if m and m not in own and m in self.fr.env and m not in out:
                                        out.append(m)
        return out

    def _copy_loop(self, s):
        """for x in it: xs.append(x)  ->  xs.extend(it);  for x in it: yield x  ->  yield from it."""
        if s.orelse or len(s.body) != 1 or not isinstance(s.target, ast.Name) or not isinstance(s.body[0], ast.Expr):
            return None
        e, t = s.body[0].value, s.target.id
        f = self.fr.func.node
        if sum(1 for n in ast.walk(f) if isinstance(n, ast.Name) and n.id == t) != 2:
            return None
        if isinstance(e, ast.Yield) and isinstance(e.value, ast.Name) and e.value.id == t:
            r = ast.Expr(ast.YieldFrom(s.iter))
        elif (isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "append" and len(e.args) == 1
                and not e.keywords and isinstance(e.args[0], ast.Name) and e.args[0].id == t
                and not any(isinstance(n, ast.Call) for n in ast.walk(e.func.value))):
            r = ast.Expr(ast.Call(ast.Attribute(e.func.value, "extend", ast.Load()), [s.iter], []))
        else:
            return None
        for n in ast.walk(r):
            if not hasattr(n, "lineno"):
                ast.copy_location(n, s)
        return r

    def st_For(self, s):
        c = self._copy_loop(s) if isinstance(s, ast.For) else None
        if c is not None:
            return self.block([c])
        c = self._each_container(s) if isinstance(s, ast.For) else None
        if c is not None:
            return self.block(c)
        if isinstance(s, ast.For):
            s = self._by_position(s) or self._by_key(s) or s
        it = self.ev(s.iter)
        self.run_for(s.target, it, s.body, s, s.orelse)

    def _looked_up(self, s, e):
        """The body of `for i in ...` in which every e[i] is a name for that item; None when e may change."""
        if not (isinstance(s.target, ast.Name) and dotted(e)) or s.orelse:
            return None
        i, text, root = s.target.id, ast.unparse(e), dotted(e).split(".")[0]
        hits, others = 0, 0
        inside = set()
        for b in s.body:
            for n in [b, *ast.walk(b)]:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    if any(isinstance(x, ast.Name) and x.id == i for x in ast.walk(n)):
                        return None
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in (i, root):
                    return None
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and text.startswith(ast.unparse(n)):
                    return None
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and ast.unparse(n.func.value) == text:
                    return None
                if isinstance(n, ast.Subscript) and ast.unparse(n.value) == text:
                    if not isinstance(n.ctx, ast.Load):
                        return None
                    if isinstance(n.slice, ast.Name) and n.slice.id == i:
                        inside.add(id(n.slice))
        names = {id(n) for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and n.id == i}
        if not inside:
            return None
        v = f"$at{i}"

        class Sub(ast.NodeTransformer):
            def visit_Subscript(self, n):
                if isinstance(n.ctx, ast.Load) and ast.unparse(n.value) == text and isinstance(n.slice, ast.Name) and n.slice.id == i:
                    return ast.copy_location(ast.Name(v, ast.Load()), n)
                return self.generic_visit(n)

        return [Sub().visit(copy.deepcopy(b)) for b in s.body], v, bool(names - inside)

    def _by_position(self, s):
        """`for i in range(len(e)): ... e[i] ...`  ==  for i, x in enumerate(e)."""
        r = s.iter
        if not (isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id == "range" and len(r.args) == 1 and not r.keywords):
            return None
        n = r.args[0]
        if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "len" and len(n.args) == 1):
            return None
        got = self._looked_up(s, n.args[0])
        if got is None:
            return None
        body, v, used = got
        it, target = n.args[0], ast.Name(v, ast.Store())
        if used:
            it = ast.Call(ast.Name("enumerate", ast.Load()), [it], [])
            target = ast.Tuple([s.target, target], ast.Store())
        return ast.fix_missing_locations(ast.copy_location(ast.For(target, it, body, []), s))

    def _by_key(self, s):
        """`for k in m: ... m[k] ...`  ==  for k, x in m.items()."""
        e = s.iter
        while isinstance(e, ast.Call) and len(e.args) == 1 and isinstance(e.func, ast.Name) and e.func.id in ("list", "tuple"):
            e = e.args[0]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "keys" and not e.args:
            e = e.func.value
        if not dotted(e):
            return None
        got = self._looked_up(s, e)
        if got is None or not self.is_map(self.ev(e)):
            return None
        body, v, used = got
        it = ast.Call(ast.Attribute(e, "items", ast.Load()), [], [])
        target = ast.Tuple([s.target, ast.Name(v, ast.Store())], ast.Store())
        return ast.fix_missing_locations(ast.copy_location(ast.For(target, it, body, []), s))

    @staticmethod
    def _changed(x, body):
        """Is the container of this name changed?"""
        def root(n):
            while isinstance(n, (ast.Subscript, ast.Attribute)):
                n = n.value
            return isinstance(n, ast.Name) and n.id == x

        return any(isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and root(n)
                   or isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS
                   and isinstance(n.func.value, ast.Name) and n.func.value.id == x
                   for b in body for n in [b, *_walk(b)])

    def _each_container(self, s):
        """`for x in (a, *bs): x[k] = v`: the same for each container by its own name."""
        if not isinstance(s.iter, (ast.Tuple, ast.List)) or not isinstance(s.target, ast.Name) or s.orelse:
            return None
        x = s.target.id
        if not self._changed(x, s.body):
            return None
        walked = [n for b in s.body for n in [b, *_walk(b)]]
        local = [e for e in s.iter.elts if isinstance(e, ast.Name) and e.id in self.fr.env
                 and (self.fr.env[e.id][0] in ("seq", "dict", "fold", "wfold", "B") or is_dictval(self.fr.env[e.id]))]
        if not local:
            return None
        if len(s.iter.elts) > 6 or not all(isinstance(e, (ast.Name, ast.Starred)) for e in s.iter.elts) or any(
                isinstance(n, (ast.Break, ast.Continue)) or isinstance(n, ast.Name) and n.id == x and not isinstance(n.ctx, ast.Load)
                for n in walked):
            self.bad(s, "containers changed through the elements of a sequence")
            return None
        out = []
        for e in s.iter.elts:
            if isinstance(e, ast.Starred):
                out.append(ast.copy_location(ast.For(s.target, e.value, s.body, []), s))
            else:
                out += [_Named(x, e.id).visit(copy.deepcopy(b)) for b in s.body]
        return [ast.fix_missing_locations(o) for o in out]

    def _orelse(self, it, body, orelse):
        """The else of a loop runs only when the loop was not left by break."""
        if not orelse:
            return
        if _has_break(body, ast.Break):
            brk = atom_bool(("loopexit", self.esc(it), ("k", "break")))
            self.branch(brk, lambda: None, lambda: self.block(orelse))
        else:
            self.block(orelse)

    def _unroll(self, ps, target, body, node, orelse, wrap):
        brk = []
        for p in ps:
            if p[0] == "i":
                self.branch(p[1], lambda p=p: (self.assign(target, p[2]), self._iter_body(body, brk)), lambda: None)
            else:
                self.branch(p[1], lambda p=p: self.run_for(target, wrap(p), body, node), lambda: None)
        if self.g != F:
            self.block(orelse)
        self.join_env(brk)

    st_AsyncFor = st_For

    def run_for(self, target, it, body, node, orelse=()):
        it = self.norm_iter(it)
        if it[0] == "seq" and it[1] == "str" and const_str(it) is not None and 0 < len(const_str(it)) <= 24:
            it = seq("list", [("i", T, const(c)) for c in const_str(it)])
        if it[0] == "call" and it[1] == "enumerate" and it[2]:
            src = self.norm_iter(it[2][0])
            if isinstance(target, ast.Tuple) and len(target.elts) == 2 and isinstance(target.elts[0], ast.Name) and not any(
                isinstance(n, ast.Name) and n.id == target.elts[0].id and isinstance(n.ctx, ast.Load)
                for n in ast.walk(self.fr.func.node)
            ):
                return self.run_for(target.elts[1], src, body, node, orelse)
            if src[0] == "B" and n_leaves(src) <= 16:
                it = map_leaves(src, lambda l: ("call", "enumerate", (l, *it[2][1:]), it[3]))
                return self.run_for(target, it, body, node, orelse)
            start = dict(it[3]).get("start", it[2][1] if len(it[2]) > 1 else num(0))
            if src[0] == "seq" and src[1] != "str":
                ps = src[2]
                if all(p[0] == "i" and p[1] == T for p in ps):
                    it = seq("list", [("i", T, seq("tuple", [("i", T, p_add(num(k), start)), ("i", T, p[2])])) for k, p in enumerate(ps)])
                elif len(ps) == 1 and ps[0][0] == "f" and ps[0][1] == T and len(ps[0][3]) == 1 and ps[0][3][0][0] == "i" and ps[0][3][0][1] == T:
                    i = I(("idx", self.depth))
                    self.ctype[i] = NUM
                    self.loop_core(target, ps[0][2], body, node,
                                   elem=seq("tuple", [("i", T, p_add(i, start)), ("i", T, ps[0][3][0][2])]))
                    self._orelse(it, body, orelse)
                    return
        if it[0] == "B":
            # iterate over the non-empty alternatives
            ls = leaves(it, 64)
            g0 = self.g
            acc = None
            # evaluate branch wise
            def go(ls):
                if not ls:
                    return
                (g, l), rest = ls[0], ls[1:]
                self.branch(g, lambda: self.run_for(target, l, body, node, orelse), lambda: go(rest))
            go(ls)
            return
        if it[0] == "seq" and it[1] != "str":
            ps = it[2]
            if all(p[0] == "i" for p in ps) and len(ps) <= 24:
                self._unroll(ps, target, body, node, orelse, None)
                return
            if len(ps) == 1 and ps[0][0] == "f" and ps[0][1] == T and len(ps[0][3]) == 1 and ps[0][3][0][0] == "i":
                # fuse with producer
                src_it, (inner,) = ps[0][2], ps[0][3]
                self.loop_core(target, src_it, body, node, elem=self.shift(inner[2]), filt=inner[1])
                self._orelse(it, body, orelse)
                return
            if len(ps) == 1 and ps[0][0] == "f" and ps[0][1] == T and len(ps[0][3]) <= 4 and not _has_break(body, ast.Break):
                # the items of one round of the producer, round by round
                n = f"$items{self.depth}"
                loop = ast.copy_location(ast.For(target, ast.copy_location(ast.Name(n, ast.Load()), node), list(body), []), node)
                self.loop_core(ast.copy_location(ast.Name(n, ast.Store()), node), ps[0][2], [loop], node,
                               elem=("seq", "list", ps[0][3]))
                self.fr.env.pop(n, None)
                self._orelse(it, body, orelse)
                return
            if (any(p[0] == "i" for p in ps) or len(ps) > 1) and not _has_break(body, ast.Break) and len(ps) <= 8:
                self._unroll(ps, target, body, node, orelse,
                             lambda p: ("seq", it[1], ((p[0], T, *p[2:]),)) if p[0] in ("f", "xloop") else p[2])
                return
        self.loop_core(target, it, body, node)
        self._orelse(it, body, orelse)

    def shift(self, v):
        return v

    def _iter_body(self, body, brk):
        """Unrolled iteration: `continue` leaves the iteration only, `break` all of them."""
        fake = {"exits": None, "cont": [], "brk": brk}
        g0 = self.g
        saved = getattr(self.fr, "unroll", None)
        self.fr.unroll = fake
        self.block(body)
        self.fr.unroll = saved
        self.join_env(fake["cont"])

    def join_env(self, ends):
        """Merge the states (guard, variables) which left the body early into the current one."""
        for g, env2 in ends:
            if g == F:
                continue
            if self.g == F:
                self.fr.env, self.g = dict(env2), g
                continue
            env1 = self.fr.env
            env = dict(env1)
            for k, v in env2.items():
                if k not in env1:
                    env[k] = v
                elif env1[k] != v:
                    env[k] = self.phi(g, v, env1[k])
            self.fr.env, self.g = env, b_or(self.g, g)

    def norm_iter(self, it):
        if it[:2] == ("seq", "dictc"):
            return ("call", ".keys", (it,), ())
        if it[0] == "call" and it[1] in ("list", "tuple", "iter") and len(it[2]) == 1 and not it[3]:
            return self.norm_iter(it[2][0])
        if it[0] == "seq" and it[1] in ("list", "tuple") and len(it[2]) == 1 and it[2][0][0] == "s" and it[2][0][1] == T:
            return self.norm_iter(it[2][0][2])  # the items of a copy
        if it[0] == "call" and it[1] == ".keys" and len(it[2]) == 1 and self.is_map(it[2][0]):
            return it[2][0]
        return it

    def elem_of(self, it, d):
        """Symbolic element of iterable + optional enumerate/zip destructuring."""
        if it[0] == "call" and it[1] == "enumerate" and it[2]:
            start = dict(it[3]).get("start", it[2][1] if len(it[2]) > 1 else num(0))
            src, e = self.elem_of(self.norm_iter(it[2][0]), d)
            i = ("idx", d)
            self.ctype[i] = NUM
            return src, seq("tuple", [("i", T, p_add(i, start)), ("i", T, e)])
        if it[0] == "call" and it[1] == "range":
            a = it[2]
            if len(a) == 1 or (len(a) == 2 and a[0] == num(0)):
                i = ("idx", d)
                self.ctype[i] = NUM
                n = a[-1]
                if n[0] == "call" and n[1] == "len":
                    return n[2][0], i
                return ("call", "range", (n,), ()), i
            if len(a) == 2 and self.is_num(a[0]):
                # range(a, b) counts a + 0, a + 1, ... for b - a values
                i = ("idx", d)
                self.ctype[i] = NUM
                n = p_add(a[1], a[0], -1)
                src = n[2][0] if n[0] == "call" and n[1] == "len" else ("call", "range", (n,), ())
                return src, self.numt(p_add(i, a[0]))
        if it[0] == "call" and it[1] == ".items" and len(it[2]) == 1:
            m = it[2][0]
            k = ("key", d, m)
            v = ("val", d, m)
            t = Types.strip_none(self.ty(m))
            if t and t[0] == "map":
                self.ctype[v] = t[1]
            return m, seq("tuple", [("i", T, k), ("i", T, v)])
        if it[0] == "call" and it[1] == ".values" and len(it[2]) == 1:
            m = it[2][0]
            v = ("val", d, m)
            t = Types.strip_none(self.ty(m))
            if t and t[0] == "map":
                self.ctype[v] = t[1]
            return m, v
        if it[0] == "call" and it[1] == ".keys" and len(it[2]) == 1:
            return it[2][0], ("key", d, it[2][0])
        t = Types.strip_none(self.ty(it))
        if t and t[0] == "map":
            return it, ("key", d, it)
        e = ("elem", d, it)
        return it, e

    def loop_core(self, target, it, body, node, elem=None, filt=T):
        d = self.depth
        if elem is None:
            it, elem = self.elem_of(it, d)
        g0 = self.g
        names = self.assigned_names(body)
        tnames = {n.id for n in ast.walk(target) if isinstance(n, ast.Name)}
        names = [n for n in names if n not in tnames]
        pre = {}
        env0 = self.fr.env
        self.fr.env = dict(env0)
        for i, n in enumerate([n for n in names if n in env0]):
            pre[n] = env0[n]
            mu = ("mu", d, i)
            self.ctype[mu] = self.ty(env0[n]) if env0[n][0] != "clo" else None
            if is_dictval(env0[n]):
                self.fr.env[n] = ("seq", "dictc", (("s", T, mu),))
            elif env0[n][0] == "seq" and env0[n][1] in ("list", "gen", "set", "str"):
                self.fr.env[n] = ("seq", env0[n][1], (("s" if env0[n][1] != "str" else "i", T, mu),))
            else:
                self.fr.env[n] = mu
        def go():
            self.assign(target, elem)
            self.branch(filt, lambda: self.block(body), lambda: None)

        ctx, log, mods, env1, end = self.run_body(go, self.body_mods(body), d)
        has_exit = bool(ctx["exits"]) or ctx["breaks"] != F
        self.fr.env = dict(env0)
        # carried variables
        carried_end = {n: care(env1.get(n, ("undef",)), end) for n in pre}
        for n in names:
            if n in pre:
                e = carried_end[n]
                v0 = pre[n]
                self.fr.env[n] = self.carry(v0, e, d, it, list(pre).index(n), has_exit, carried_end, pre, ctx["breaks"])
            elif n in env1:
                self.fr.env[n] = ("last", it, self.esc(env1[n])) if not has_exit else (
                    "lastx", it, self.esc(env1[n]), self._exitsig(ctx))
                self.ctype[self.fr.env[n]] = self.ty(env1[n])
        self.g = g0
        self.emit_loop("for", it, log, mods, node, d, pre, carried_end)
        if ctx["exits"]:
            a = atom_bool(("loopexit", it, self._exitsig(ctx)))
            vals = ("loopret", it, tuple((g, v) for g, v in ctx["exits"]))
            t = None
            for _, v in ctx["exits"]:
                t = t or self.ty(v)
            self.ctype[vals] = t
            if len(ctx["exits"]) == 1 and is_const(ctx["exits"][0][1]):
                vals = ctx["exits"][0][1]
            if self.fr.loop:
                self.fr.loop[-1]["exits"].append((b_and(g0, a), vals))
            else:
                self.fr.returns.append((b_and(g0, a), vals))
            self.g = b_and(g0, b_not(a))

    def run_body(self, go, mods, d):
        """One generic round of a loop: (exits, effects, attributes it may change, variables and condition at its end).

        What the attributes hold at the start of a round depends on what a round may change: found by a first run."""
        if mods and not self.probing:
            keep = [(f, dict(f.env), len(f.returns), len(f.snaps)) for f in self.frames]
            self.probing = True
            try:
                _, _, mods, _, _ = self._run_body(go, mods, d)
            finally:
                self.probing = False
            for f, env, r, n in keep:
                f.env = env
                del f.returns[r:], f.snaps[n:]
        return self._run_body(go, mods, d)

    probing = False

    def _run_body(self, go, mods, d):
        ctx = {"exits": [], "breaks": F, "cont": [], "brk": []}
        self.fr.loop.append(ctx)
        saved_unroll = getattr(self.fr, "unroll", None)
        self.fr.unroll = None
        self.logs.append([])
        self.depth += 1
        self.g = T
        if mods:
            self.logs[-1].append(Ev("loopmark", T, (f"L{d}",), mods))
        go()
        self.join_env(ctx["cont"])
        self.join_env(ctx["brk"])
        env1, end = self.fr.env, self.g
        log = [e for e in self.logs.pop() if e.kind != "loopmark"]
        self.depth -= 1
        self.fr.loop.pop()
        self.fr.unroll = saved_unroll
        return ctx, log, frozenset().union(*(e.mods for e in log)), env1, end

    def _exitsig(self, ctx):
        return (tuple(g for g, _ in ctx["exits"]), ctx["breaks"])

    def carry(self, v0, e, d, it, idx, has_exit, ends, pre, brk=F):
        mu = ("mu", d, idx)
        if e[:2] == ("seq", "dictc") and v0[0] == "dict":
            if e[2] == (("s", T, mu),):
                return v0
            v0 = to_dictc(v0)
        if e == mu or e == ("seq", v0[1] if v0[0] == "seq" else "", (("s", T, mu),)) or (
            e[0] == "seq" and e[2] in ((("s", T, mu),), (("i", T, mu),))
        ):
            return v0
        if v0[0] == "seq" and e[0] == "seq" and e[1] == v0[1] and not has_exit:
            first, rest = e[2][:1], e[2][1:]
            if first and first[0][2] == mu and not contains(rest, lambda t: t == mu):
                if not contains(rest, lambda t: t[0] == "mu" and t[1] == d):
                    return seq(v0[1], [*v0[2], ("f", T, it, rest)])
        if not contains(e, lambda t: t[0] == "mu" and t[1] == d) and not has_exit:
            return self.phi(atom_bool(("eq0", ("call", "len", (it,), ()))), v0, ("last", it, self.esc(e)))
        allv = tuple(
            (self.esc(pre[n]), self.esc(ends[n])) for n in pre
        )
        r = ("fold", d, it, *self._fold_canon(allv, idx, d, brk))
        self.ctype[r] = self.ty(v0)
        return r

    def _mu_order(self, allv, d, order, *roots):
        """Carried variables in the order in which roots mention them (appended to order)."""
        def reach(v):
            used = []
            contains(v, lambda t: used.append(t[2]) if t[0] == "mu" and t[1] == d and len(t) == 3 else None)
            for u in used:
                if u not in order and u < len(allv):
                    order.append(u)

        for r in roots:
            reach(r)
        i = 0
        while i < len(order):
            reach(allv[order[i]][1])
            i += 1
        return {u: k for k, u in enumerate(order)}

    @staticmethod
    def _mu_rename(v, d, ren, op="muc"):
        return subst(v, lambda t: (op, d, ren[t[2]]) if t[0] == "mu" and len(t) == 3 and t[1] == d and t[2] in ren else None)

    def _fold_canon(self, allv, idx, d, brk=F):
        """(break condition, carried variables reachable from idx renumbered in visit order)."""
        order = [idx]
        ren = self._mu_order(allv, d, order, brk)
        return (0 if brk == F else self._mu_rename(brk, d, ren)), tuple(
            (allv[u][0], self._mu_rename(allv[u][1], d, ren)) for u in order)

    def body_mods(self, body):
        mods = set()
        names = set()
        for s in body:
            for n in [s, *_walk(s)]:
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    mods.add(n.attr)
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Attribute):
                    mods.add(n.value.attr)
                elif isinstance(n, ast.Name) and n.id in self.fr.env and self.held(self.fr.env[n.id]):
                    mods.add(self.held(self.fr.env[n.id])[1])
                elif isinstance(n, ast.Call):
                    if isinstance(n.func, ast.Attribute):
                        if n.func.attr in MUTATORS and isinstance(n.func.value, ast.Attribute):
                            mods.add(n.func.value.attr)
                        else:
                            names.add(n.func.attr)
                    elif isinstance(n.func, ast.Name):
                        names.add(n.func.id)
        for n in names:
            mods |= self.facts.mods.get(n, frozenset())
        return frozenset(mods)

    def emit_loop(self, kind, it, log, mods, node, d, pre, ends):
        if not log:
            return
        # loops which only feed one stream become a repeated piece of that stream
        if kind == "for" and all(e.kind == "out" for e in log) and len({e.data[0] for e in log}) == 1:
            pieces = []
            for e in log:
                pieces.extend(guard_pieces(e.data[1], e.g))
            pc = norm = seq("str" if log[0].data[0][0] == "emit" else "list", pieces)[2]
            if not contains(pc, lambda t: t[0] == "mu" and len(t) == 3 and t[1] == d):
                self.emit_ev("out", (log[0].data[0], (("f", T, it, pc),)), mods, node)
                return
        body, carried = self._canon_body(tuple(e.t() for e in log), pre, ends, d)
        self.emit_ev(kind, (it, body, carried), mods, node)

    def _canon_body(self, body, pre, ends, d):
        """Loop body and the carried variables it depends on, numbered in order of first use."""
        body = tuple(I(e) for e in body)
        if not contains(body, lambda t: t[0] == "mu" and len(t) == 3 and t[1] == d):
            return body, ()
        allv = tuple((self.esc(pre[n]), self.esc(ends[n])) for n in pre)
        order: List[int] = []
        ren = self._mu_order(allv, d, order, body)
        tmp = self._mu_rename(body, d, ren, "mu#")
        back = lambda v: subst(v, lambda t: ("mu", *t[1:]) if t[0] == "mu#" else None)  # noqa: E731
        return back(tmp), tuple((allv[u][0], back(self._mu_rename(allv[u][1], d, ren, "mu#"))) for u in order)

    def st_While(self, s):
        if (isinstance(s.test, ast.Constant) and s.test.value and not s.orelse and len(s.body) > 1
                and isinstance(s.body[0], ast.If) and not s.body[0].orelse and len(s.body[0].body) == 1
                and isinstance(s.body[0].body[0], ast.Break)):
            # `while True: if not c: break; ...`  ==  while c
            t = s.body[0].test
            t = t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) else ast.UnaryOp(ast.Not(), t)
            s = ast.fix_missing_locations(ast.copy_location(ast.While(t, s.body[1:], []), s))
        fi = self._while_as_for(s)
        if fi is not None:
            return
        d = self.depth
        g0 = self.g
        names = self.assigned_names(s.body)
        for n in ast.walk(s.test):
            if isinstance(n, ast.NamedExpr) and n.target.id not in names:
                names.append(n.target.id)
        env0 = self.fr.env
        pre = {}
        self.fr.env = dict(env0)
        for i, n in enumerate([n for n in names if n in env0]):
            pre[n] = env0[n]
            mu = ("mu", d, i)
            self.ctype[mu] = self.ty(env0[n]) if env0[n][0] != "clo" else None
            if is_dictval(env0[n]):
                self.fr.env[n] = ("seq", "dictc", (("s", T, mu),))
            elif env0[n][0] == "seq" and env0[n][1] in ("list", "gen", "set", "str"):
                self.fr.env[n] = ("seq", env0[n][1], (("s" if env0[n][1] != "str" else "i", T, mu),))
            else:
                self.fr.env[n] = mu
        tests = []

        def go():
            self.g = c = self.cond(s.test)
            tests.append(c)
            self.block(s.body)

        ctx, log, mods, env1, end = self.run_body(go, self.body_mods(s.body) | self.body_mods([ast.Expr(s.test)]), d)
        c = tests[-1]
        ends = {n: care(env1.get(n, ("undef",)), end) for n in pre}
        self.fr.env = dict(env0)
        allv = tuple((self.esc(pre[n]), self.esc(ends[n])) for n in pre)
        sig = self._exitsig(ctx)
        for i, n in enumerate(pre):
            if ends[n] == ("mu", d, i):
                continue
            order = [i]
            ren = self._mu_order(allv, d, order, c, sig)
            r = ("wfold", d, 0, self._mu_rename(c, d, ren), self._mu_rename(sig, d, ren), tuple(
                (allv[u][0], self._mu_rename(allv[u][1], d, ren)) for u in order))
            self.ctype[r] = self.ty(pre[n])
            self.fr.env[n] = r
        for n in names:
            if n not in pre and n in env1:
                last = self.esc(env1[n])
                order = []
                ren = self._mu_order(allv, d, order, last, c, sig)
                self.fr.env[n] = ("wlast", d, self._mu_rename(c, d, ren), self._mu_rename(last, d, ren), tuple(
                    (allv[u][0], self._mu_rename(allv[u][1], d, ren)) for u in order))
                self.ctype[self.fr.env[n]] = self.ty(env1[n])
        self.g = g0
        if log or ctx["exits"]:
            (hd, *body), carried = self._canon_body((("test", c), *(e.t() for e in log)), pre, ends, d)
            self.emit_ev("while", (hd[1], tuple(body), carried), mods, s)
        if ctx["exits"]:
            a = atom_bool(("loopexit", c, sig))
            vals = ("loopret", c, tuple(ctx["exits"]), allv)
            if self.fr.loop:
                self.fr.loop[-1]["exits"].append((b_and(g0, a), vals))
            else:
                self.fr.returns.append((b_and(g0, a), vals))
            self.g = b_and(g0, b_not(a)) if c != T else F
        elif c == T and ctx["breaks"] == F:
            self.g = F
        if s.orelse:
            self.block(s.orelse)

    def _while_as_for(self, s):
        """`i = 0; while i < len(xs): ...; i += 1`  ==  for i in range(len(xs))."""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Lt) and isinstance(t.left, ast.Name)):
            return None
        i = t.left.id
        if self.fr.env.get(i) != num(0) or not s.body:
            return None
        last = s.body[-1]
        if not (isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and last.target.id == i
                and isinstance(last.op, ast.Add) and isinstance(last.value, ast.Constant) and last.value.value == 1):
            return None
        for x in s.body[:-1]:
            for n in [x, *_walk(x)]:
                if isinstance(n, ast.Name) and n.id == i and isinstance(n.ctx, ast.Store):
                    return None
                if isinstance(n, ast.Continue):
                    return None
        loop = ast.For(ast.Name(i, ast.Store()), ast.Call(ast.Name("range", ast.Load()), [t.comparators[0]], []), s.body[:-1], [])
        new = self._by_position(ast.fix_missing_locations(ast.copy_location(loop, s)))
        if new is not None:
            self.run_for(new.target, self.ev(new.iter), new.body, s)
            return True
        bound = self.ev(t.comparators[0])
        self.run_for(ast.Name(i, ast.Store()), ("call", "range", (bound,), ()), s.body[:-1], s)
        return True

    def st_Break(self, s):
        u = getattr(self.fr, "unroll", None)
        if u is not None:
            u["brk"].append((self.g, self.fr.env))
        elif self.fr.loop:
            self.fr.loop[-1]["breaks"] = b_or(self.fr.loop[-1]["breaks"], self.g)
            self.fr.loop[-1]["brk"].append((self.g, self.fr.env))
            self.emit_ev("break", (), node=s)
        self.g = F

    def st_Continue(self, s):
        u = getattr(self.fr, "unroll", None)
        if u is not None:
            u["cont"].append((self.g, self.fr.env))
        elif self.fr.loop:
            self.fr.loop[-1]["cont"].append((self.g, self.fr.env))
        self.g = F

    # ================================================================ expressions
    def ev(self, e):
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            self.bad(e, f"expression {type(e).__name__}")
            return ("opq", ast.unparse(e))
        return m(e)

    def ex_Constant(self, e):
        return const(e.value)

    def ex_Await(self, e):
        return self.ev(e.value)

    def ex_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def ex_Starred(self, e):
        return ("star", self.ev(e.value))

    def ex_Name(self, e):
        n = e.id
        if n in self.fr.globals:
            return self.read_attr(("mod",), n)
        if n in self.fr.env:
            v = self.fr.env[n]
            h = self.held(v)
            return self.read_attr(*h) if h else v
        # enclosing function scopes
        f = self.fr
        up = getattr(f, "up", None)
        while up is not None:
            if n in up.env:
                return up.env[n]
            up = getattr(up, "up", None)
        return self.global_name(n)

    def held(self, v):
        """Is v a container which an attribute holds, and will hold until the object is gone?"""
        if v[0] == "B":
            todo, hs, seen = [v], set(), set()
            while todo:
                x = todo.pop()
                if x[0] == "B":
                    if id(x) not in seen:
                        seen.add(id(x))
                        todo += x[2:4]
                elif x[0] != "attr":
                    return None
                else:
                    hs.add(x[1:3])
                    if len(hs) > 1:
                        return None
            v = ("attr", *hs.pop())
        if v[0] != "attr" or v[2] in self.facts.rebound or v[1] == ("mod",):
            return None
        t = Types.strip_none(self.ty(("attr", v[1], v[2])))
        return v[1:3] if t and t[0] in ("coll", "map") else None

    def global_name(self, n):
        if n in self.fr.imports:
            ent = self.prog._qualified(self.fr.imports[n], set())
        else:
            ent = self.prog.resolve(self.fr.module, n)
        if ent is None:
            return ("fn", n)
        return self.entity(ent, n)

    def entity(self, ent, n):
        k, v = ent
        if k == "class":
            return ("cls", v.name)
        if k == "func":
            return ("fn", self.fqual(v))
        if k == "module":
            return ("mod", v.name)
        if k == "ext":
            return ("fn", v)
        if k == "const":
            return self.module_const(*v)
        if k == "cconst":
            owner, dcls, expr, name = v
            if owner.is_enum:
                return ("enum", dcls.name, name)
            return ("attr", ("cls", owner.name), name)
        if k == "method":
            return ("attr", ("cls", v[0].name), v[1].name)
        if k == "cfield":
            return ("attr", ("cls", v[0].name), v[1])
        return ("fn", n)

    def _by_qual(self):
        t = getattr(self.prog, "_by_qual", None)
        if t is None:
            t = {}
            for m in self.prog.modules.values():
                for f in m.funcs.values():
                    t.setdefault(f.qual, []).append(f)
            self.prog._by_qual = t
        return t

    def fqual(self, f: Func):
        if f.cls is None and (len(self._by_qual().get(f.qual, ())) > 1 or hasattr(builtins, f.qual)):
            return f"{f.module.name}:{f.qual}"
        return f.qual

    def _fn_value(self, n):
        """The module-level function a function value names."""
        m, _, q = n.rpartition(":")
        if not m and hasattr(builtins, q):
            return None
        fs = [f for f in self._by_qual().get(q, ()) if not m or f.module.name == m]
        return ("func", fs[0]) if len(fs) == 1 else None

    def module_const(self, m, expr, name):
        if self._is_global_mutated(m, name):
            return self.read_attr(("mod",), name)
        if isinstance(expr, (ast.Constant, ast.Name, ast.Attribute, ast.UnaryOp, ast.BinOp, ast.Tuple, ast.JoinedStr)):
            if isinstance(expr, ast.Tuple) and len(expr.elts) > 8 and self.is_known_const(name, expr):
                return ("g", name)
            saved = (self.frames, self.g)
            f = Func("<module>", ast.parse("def _(): pass").body[0], m, None)
            self.frames = [Frame(f, {}, None, m)]
            try:
                return self.ev(expr)
            finally:
                self.frames, self.g = saved
        if isinstance(expr, (ast.Dict, ast.List, ast.Set)) and not self.is_known_const(name, expr):
            saved = (self.frames, self.g)
            f = Func("<module>", ast.parse("def _(): pass").body[0], m, None)
            self.frames = [Frame(f, {}, None, m)]
            try:
                return self.ev(expr)
            finally:
                self.frames, self.g = saved
        if self.known is not None and ("g:" + name) not in self.known and isinstance(
                expr, (ast.Call, ast.Lambda, ast.DictComp, ast.SetComp, ast.ListComp, ast.IfExp, ast.Subscript)):
            # a table introduced since: what it is computed as, when that has no effect
            saved = (self.frames, self.g, self.logs)
            f = Func("<module>", ast.parse("def _(): pass").body[0], m, None)
            self.frames = [Frame(f, {}, None, m)]
            self.g, self.logs = T, [[]]
            try:
                v = self.ev(expr)
                if not self.logs[0]:
                    return v
            finally:
                self.frames, self.g, self.logs = saved
        v = ("g", name)
        if self.ctype.get(v) is None:
            ann = next((n.annotation for n in m.tree.body if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name)
                        and n.target.id == name), None)
            self.ctype[v] = self.types.ann(m, ann, None) if ann is not None else (
                ("map", None) if isinstance(expr, (ast.Dict, ast.DictComp)) else
                ("coll", None) if isinstance(expr, (ast.List, ast.Set, ast.ListComp, ast.SetComp)) else None)
        return v

    def is_known_const(self, name, expr=None):
        if self.level >= 2 and expr is not None and len(getattr(expr, "elts", getattr(expr, "keys", ()))) <= 16:
            return False
        return self.known is None or ("g:" + name) in self.known

    _gm_cache: Dict = {}

    def _is_global_mutated(self, m, name):
        k = (id(m), name)
        r = self._gm_cache.get(k)
        if r is None:
            r = any(isinstance(n, ast.Global) and name in n.names for n in ast.walk(m.tree))
            self._gm_cache[k] = r
        return r

    def ex_Attribute(self, e):
        d = dotted(e)
        if d is not None:
            head = d.split(".")[0]
            if head not in self.fr.env and head not in self.fr.globals and not self._in_up(head):
                if head in self.fr.imports:
                    q = self.fr.imports[head] + d[len(head):]
                    ent = self.prog._qualified(q, set())
                else:
                    ent = self.prog.resolve(self.fr.module, d)
                if ent is not None:
                    return self.entity(ent, d)
        base = self.ev(e.value)
        return self.attr(base, e.attr, e)

    def _in_up(self, n):
        up = getattr(self.fr, "up", None)
        while up is not None:
            if n in up.env:
                return True
            up = getattr(up, "up", None)
        return False

    def attr(self, base, name, node):
        if base[0] == "B" and n_leaves(base) <= 8:
            return map_leaves(base, lambda l: self.attr(l, name, node) if l != NONE else ("attr", NONE, name))
        if base[0] == "new":
            for k, v in base[2]:
                if k == name:
                    return v
            c = self.prog.maybe_cls(base[1])
            if c is not None and (c.is_model or c.is_dataclass):
                fl = c.find_field(name)
                if fl is not None:
                    dv = self.field_default(*fl)
                    if dv is not None:
                        return dv
        if base[0] == "cls":
            cs = self.prog.class_by_name.get(base[1])
            if cs:
                ent = self.prog._member(("class", cs[0]), name, set())
                if ent is not None:
                    if ent[0] == "cconst" and not cs[0].is_enum:
                        return self.class_const(cs[0], name) or self.entity(ent, name)
                    return self.entity(ent, name)
        if base[0] == "enum" and name in ("value", "name"):
            c = self.prog.maybe_cls(base[1])
            if name == "name":
                return const(base[2])
            if c is not None and base[2] in c.consts and isinstance(c.consts[base[2]], ast.Constant):
                return const(c.consts[base[2]].value)
        if base[0] == "mod":
            m = self.prog.modules.get(base[1]) if len(base) > 1 else None
            if m is not None:
                ent = self.prog._member(("module", m), name, set())
                if ent is not None:
                    return self.entity(ent, name)
        c = self.cls_of(base)
        if c is not None:
            f = c.find(name)
            if f is not None and f.is_property and not self.virtual(c, name, base) and not self.boundary(f):
                return self.inline(f, c, base, [], {}, node)
            if f is not None and isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load):
                b = self.bound(f, c, base)
                if b is not None:
                    return b
            if f is None:
                cc = self.class_const(c, name)
                if cc is not None and not self._instance_stored(c, name):
                    return cc
        elif (self.level >= 2 and base[0] not in ("clo", "fn", "mod", "cls", "enum", "self") and self.ty(base) is None
                and isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load)):
            # a value of unknown type with a property only one class has
            f = self.facts.only_property(name)
            if f is not None and not self.boundary(f):
                return self.inline(f, f.cls, base, [], {}, node)
        return self.read_attr(self.esc(base), name)

    def bound(self, f: Func, c: Class, base):
        """A private method as a value: the function it is, with the object filled in."""
        if not f.name.startswith("_") or f.name.startswith("__") or not isinstance(f.node, ast.FunctionDef) or (
                f.node.decorator_list or f.is_generator or not f.node.args.args
                or self.virtual(c, f.name, base) or self.boundary(f)):
            return None
        made = self.prog.__dict__.setdefault("_bound", {})
        g = made.get(id(f.node))
        if g is None:
            n = copy.copy(f.node)
            n.args = copy.copy(f.node.args)
            n.args.args = f.node.args.args[1:]
            g = made[id(f.node)] = Func(f.name, n, f.module, None, f)
        up = Frame(f, {f.node.args.args[0].arg: base}, c, f.module)
        i = len(self.closures)
        self.closures[i] = (g, up, c)
        return ("clo", i)

    def class_const(self, c: Class, name):
        if c.is_enum:
            return None
        r = c.find_const(name)
        if r is None or not isinstance(r[1], (ast.Constant, ast.UnaryOp, ast.Tuple, ast.Attribute, ast.Name)):
            return None
        if any(name in s.consts for s in self.prog.subclasses(c) if s is not r[0] and s is not c) and c is not self.exact_self:
            return None
        saved = (self.frames, self.g)
        f = Func("<class>", ast.parse("def _(): pass").body[0], r[0].module, None)
        self.frames = [Frame(f, {}, None, r[0].module)]
        try:
            return self.ev(r[1])
        finally:
            self.frames, self.g = saved

    def _instance_stored(self, c: Class, name):
        for k in self.prog.subclasses(c) + c.mro():
            for f in k.methods.values():
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store):
                        return True
        return False

    def reset(self, m: Module, cls: Optional[Class] = None):
        self.g = T
        self.logs = [[]]
        self.depth = 0
        self.ctype = {}
        self.declared = {}
        self.stack = []
        self.closures = {}
        self.lams = {}
        self.exact_self = cls
        self.call_count = {}
        f = Func("<module>", ast.parse("def _(): pass").body[0], m, None)
        self.frames = [Frame(f, {}, cls, m)]

    def field_default_opt(self, c: Class, a: ast.AnnAssign):
        """Canonical default of a field including the other arguments of Field()."""
        self.reset(c.module, c)
        dv = self.field_default(c, a)
        extra = []
        v = a.value
        if isinstance(v, ast.Call) and (dotted(v.func) or "").split(".")[-1] in ("Field", "field"):
            for k in v.keywords:
                if k.arg not in ("default", "default_factory", "description", "title", "examples"):
                    extra.append((k.arg or "**", self.esc(self.ev(k.value))))
        if dv is not None:
            dv = self.esc(dv)
        if extra:
            return I(("field", dv if dv is not None else ("k", "<required>"), tuple(sorted(extra))))
        return dv

    def field_default(self, c: Class, a: ast.AnnAssign):
        if a.value is None:
            return None
        v = a.value
        if isinstance(v, ast.Call) and (dotted(v.func) or "").split(".")[-1] in ("Field", "field"):
            for k in v.keywords:
                if k.arg == "default":
                    v = k.value
                    break
                if k.arg == "default_factory":
                    d = dotted(k.value)
                    if d == "list":
                        return seq("list", [])
                    if d == "dict":
                        return ("dict", ())
                    if d is not None:
                        return ("factory", d)
                    return ("factory", ast.unparse(k.value))
            else:
                if v.args:
                    v = v.args[0]
                else:
                    return None
        if isinstance(v, ast.Constant) and v.value is Ellipsis:
            return None
        saved = (self.frames, self.g)
        f = Func("<class>", ast.parse("def _(): pass").body[0], c.module, None)
        self.frames = [Frame(f, {}, None, c.module)]
        try:
            return self.ev(v)
        finally:
            self.frames, self.g = saved

    def cls_of(self, v) -> Optional[Class]:
        t = Types.strip_none(self.ty(v))
        if t and t[0] == "C":
            return t[1]
        if t is None and v in self.insts:
            # narrowed by an isinstance test every path to here has passed
            for n in sorted(self.insts[v]):
                c = self.prog.maybe_cls(n)
                if c is not None and b_and(self.g, b_not(atom_bool(("isinst", v, n)))) == F and self.g != F:
                    return c
        if t and t[0] == "union":
            cs = [x[1] for x in t[1] if x[0] == "C"]
            if len(cs) == len(t[1]) and cs:
                # common definition handled by caller through virtual()
                common = [k for k in cs[0].mro() if all(k in c.mro() for c in cs)]
                return common[0] if common else None
        return None

    def virtual(self, c: Class, name: str, recv) -> bool:
        """Is dispatch of name on static class c ambiguous?"""
        if recv == ("self",) and c is self.exact_self:
            return False
        if recv[0] == "new":
            return False
        base = c.find(name)
        for s in self.prog.subclasses(c):
            if s.find(name) is not base:
                return True
        return False

    # ---------------------------------------------------------------- literals
    def ex_List(self, e):
        return self.lit("list", e.elts)

    def ex_Tuple(self, e):
        return self.lit("tuple", e.elts)

    def ex_Set(self, e):
        v = self.lit("set", e.elts)
        return ("seq", "set", tuple(sorted(v[2], key=key)))

    def lit(self, kind, elts):
        ps = []
        for x in elts:
            if isinstance(x, ast.Starred):
                ps.append(("s", T, self.as_iter(self.ev(x.value))))
            else:
                ps.append(("i", T, self.esc(self.ev(x))))
        return seq(kind, ps)

    def as_iter(self, v):
        return self.esc(self.norm_iter(v))

    def ex_Dict(self, e):
        return self.mapping([(("**",), self.ev(v)) if k is None else (self.esc(self.ev(k)), self.ev(v))
                             for k, v in zip(e.keys, e.values)])

    def mapping(self, entries):
        """The dictionary with the entries given; a later one replaces an earlier one."""
        es = []
        for k, v in entries:
            if k == ("**",) and v[0] == "dict":
                es.extend(v[1])
            else:
                es.append((k, self.esc(v)))
        if not any(k == ("**",) for k, _ in es):
            return ("dict", tuple(es))
        r = to_dictc(("dict", tuple(es)))
        t = next((self.ty(v) for k, v in es if k == ("**",) and self.is_map(v)), None)
        if t is not None:
            self.ctype.setdefault(r, Types.strip_none(t))
        return r

    def copied(self, v):
        """A shallow copy of a mapping or list."""
        if v[0] == "p" and v[1].startswith("**"):
            return v  # nobody else holds the keyword arguments
        if self.is_map(v):
            return self.mapping([(("**",), v)])
        r = seq("list", [("s", T, self.esc(v))])
        self.ctype.setdefault(r, Types.strip_none(self.ty(v)))
        return r

    def is_list(self, v):
        t = Types.strip_none(self.ty(v))
        return bool(t and t[0] == "coll") and v[0] != "seq"

    def ex_JoinedStr(self, e):
        ps = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                ps.append(("c", T, str(x.value)))
            else:
                ps.append(self.fmt_piece(x))
        if len(ps) == 1 and ps[0][0] == "i" and ps[0][1] == T and ps[0][2][:2] == ("call", "str"):
            return ps[0][2]
        return seq("str", ps)

    def fmt_piece(self, x: ast.FormattedValue):
        v = self.ev(x.value)
        spec = self.ev(x.format_spec) if x.format_spec is not None else const("")
        if x.conversion in (-1, 115) and const_str(spec) == "":
            return ("i", T, self.to_str(v))
        conv = chr(x.conversion) if x.conversion != -1 else ""
        if conv == "r" and const_str(spec) == "":
            return ("i", T, ("call", "repr", (self.esc(v),), ()))
        return ("i", T, ("fmt", self.esc(v), conv, spec))

    def ex_FormattedValue(self, e):
        return seq("str", [self.fmt_piece(e)])

    def to_str(self, v):
        v = self.esc(v)
        if v[0] == "B" and n_leaves(v) <= 8:
            return map_leaves(v, self.to_str)
        if self.is_str(v):
            return v
        if v[0] == "n" and v[1].denominator == 1:
            return const(str(int(v[1])))
        r = ("call", "str", (v,), ())
        self.ctype[r] = STR
        return r

    # ---------------------------------------------------------------- operators
    def ex_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        v = self.ev(e.values[0])
        for x in e.values[1:]:
            c = self.truthy(v)
            if (c == F and isand) or (c == T and not isand):
                return v
            g0 = self.g
            # right operand only evaluated under c / not c
            self.g = b_and(g0, c if isand else b_not(c))
            w = self.ev(x) if self.g != F else v
            self.g = b_or(self.g, b_and(g0, b_not(c) if isand else c))
            if is_bool(v) and is_bool(w):
                v = b_and(v, w) if isand else b_or(v, w)
            elif is_bool(v) and isand:
                v = ite(v, self.esc(w), F)
            else:
                v = self.phi(c, w, v) if isand else self.phi(c, v, w)
        return v

    def ex_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return b_not(self.truthy(v))
        if isinstance(e.op, ast.USub):
            if self.is_num(v) or self.ty(v) is None and v[0] not in ("seq",) and self.cls_of(v) is None:
                return p_neg(v)
            return self.dunder("__neg__", v, [], e) or ("op", "neg", (self.esc(v),))
        if isinstance(e.op, ast.UAdd):
            return v if self.is_num(v) else ("op", "pos", (self.esc(v),))
        return ("op", type(e.op).__name__, (self.esc(v),))

    def ex_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        return self.binop(e.op, a, b, e)

    OPN = {
        ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
        ast.Pow: "**", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>",
        ast.MatMult: "@",
    }
    DUN = {"+": "__add__", "-": "__sub__", "*": "__mul__", "/": "__truediv__", "@": "__matmul__", "|": "__or__"}

    def binop(self, op, a, b, node):
        o = self.OPN[type(op)]
        a, b = self.esc(a), self.esc(b)
        if o == "|" and self.is_map(a) and self.is_map(b):
            return self.mapping([(("**",), a), (("**",), b)])
        if o == "+":
            if self.is_str(a) or self.is_str(b):
                return seq("str", [("i", T, a), ("i", T, b)])
            if a[0] == "seq" and b[0] == "seq":
                return seq(a[1], [*a[2], *b[2]])
            for x, y, left in ((a, b, True), (b, a, False)):
                t = Types.strip_none(self.ty(y))
                if x[0] == "seq" and x[1] in ("list", "tuple") and (t is None or t[0] in ("coll", "tup")):
                    ps = [("s", T, a), ("s", T, b)]
                    return seq(x[1], ps)
        if o == "*" and (a[0] == "seq" or b[0] == "seq" or self.is_str(a) or self.is_str(b)):
            r = ("op", "*", (a, b))
            self.ctype[r] = STR if (self.is_str(a) or self.is_str(b)) else ("coll", None)
            return r
        if o == "%" and self.is_str(a):
            r = ("op", "%", (a, b))
            self.ctype[r] = STR
            return r
        ca, cb = self.cls_of(a), self.cls_of(b)
        if ca is None and cb is None and (self.is_num(a) or self.is_num(b)):
            try:
                if o == "+":
                    return self.numt(p_add(a, b))
                if o == "-":
                    return self.numt(p_add(a, b, -1))
                if o == "*":
                    return self.numt(p_mul(a, b))
                if o == "/":
                    return self.numt(p_div(a, b))
                if o == "**" and b[0] == "n" and b[1].denominator == 1 and 0 < b[1] <= 4:
                    r = a
                    for _ in range(int(b[1]) - 1):
                        r = p_mul(r, a)
                    return self.numt(r)
            except TooBig:
                pass
            return self.numt(("op", o, (a, b)))
        if ca is not None and o in self.DUN:
            r = self.dunder(self.DUN[o], a, [b], node)
            if r is not None:
                return r
        if o in ("+", "|", "^") and ca is None:
            xs = (*(a[2] if a[0] == "op" and a[1] == o and a[2] else (a,)), b)
            if a[0] == "op" and a[1] == o:
                xs = (*a[2], b)
            else:
                xs = (a, b)
            if b[0] == "op" and b[1] == o:
                xs = (*xs[:-1], *b[2])
            r = ("op", o, xs)
        else:
            r = ("op", o, (a, b))
        if ca is not None and o in self.DUN:
            f = ca.find(self.DUN[o])
            if f is not None:
                self.ctype[r] = self.types.ann(f.module, f.node.returns, ca)
        return r

    def numt(self, v):
        if v[0] not in ("n", "poly", "B", "T", "F", "none", "seq"):
            self.ctype.setdefault(v, NUM)
            if self.ctype[v] is None:
                self.ctype[v] = NUM
        return v

    def dunder(self, name, recv, args, node):
        c = self.cls_of(recv)
        if c is None:
            return None
        f = c.find(name)
        if f is None or self.boundary(f) or self.virtual(c, name, recv):
            return None
        return self.inline(f, c, recv, args, {}, node)

    def ex_IfExp(self, e):
        c = self.cond(e.test)
        if c == T:
            return self.ev(e.body)
        if c == F:
            return self.ev(e.orelse)
        g0 = self.g
        self.g = b_and(g0, c)
        a = self.ev(e.body) if self.g != F else NONE
        g1 = self.g
        self.g = b_and(g0, b_not(c))
        b = self.ev(e.orelse) if self.g != F else NONE
        self.g = b_or(g1, self.g)
        return self.phi(c, a, b)

    def ex_Compare(self, e):
        r = T
        left = self.ev(e.left)
        for op, rhs in zip(e.ops, e.comparators):
            right = self.ev(rhs)
            r = b_and(r, self.compare(op, left, right, e))
            left = right
        return r

    def compare_eq(self, a, b):
        a, b = self.esc(a), self.esc(b)
        if NONE in (a, b) and a != b:
            x = b if a == NONE else a
            if x[0] in ("item", "B", "call"):
                x = map_leaves(x, lambda l: F if self._never_none(l) else a_isnone(l))
                if is_bool(x):
                    return x
        if a[:2] == ("seq", "tuple") and b[:2] == ("seq", "tuple") and all(p[:2] == ("i", T) for p in (*a[2], *b[2])):
            if len(a[2]) != len(b[2]):
                return F
            r = T
            for p, q in zip(a[2], b[2]):
                r = b_and(r, self.compare_eq(p[2], q[2]))
            return r
        numeric = self.is_num(a) and self.is_num(b)
        return a_eq(a, b, numeric)

    def _never_none(self, v):
        if v[0] == "call":
            t = self.declared.get(v)
            return bool(t and t[0] in ("C", "num", "str", "bool", "coll", "map", "tup"))
        if v[0] != "item":
            return False
        t = Types.strip_none(self.ty(v[1]))
        if t and t[0] == "map" and t[1] and t[1][0] in ("C", "num", "str", "bool", "coll", "map", "tup"):
            return True
        return v[1][:2] == ("seq", "dictc") and self._entries_never_none(v[1][2])

    def _entries_never_none(self, ps):
        for p in ps:
            if p[0] == "f":
                if not self._entries_never_none(p[3]):
                    return False
            elif p[0] != "i" or p[2][:2] != ("seq", "tuple") or len(p[2][2]) != 2 or not (
                    p[2][2][1][0] == "i" and all(l[0] == "new" or self._never_none(l) for _, l in leaves(p[2][2][1][2]))):
                return False
        return True

    def compare(self, op, a, b, node):
        a, b = self.esc(a), self.esc(b)
        if isinstance(op, (ast.Eq, ast.Is)):
            if isinstance(op, ast.Is) and b in (T, F) and not is_bool(a):
                r = atom_bool(("t", a))
                return r if b == T else b_not(r)
            return self.compare_eq(a, b)
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            return b_not(self.compare(ast.Eq() if isinstance(op, ast.NotEq) else ast.Is(), a, b, node))
        if isinstance(op, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
            if all(x[:2] == ("seq", "tuple") and all(p[0] == "i" and p[1] == T for p in x[2]) for x in (a, b)) and len(a[2]) == len(b[2]) and a[2]:
                # the first items that differ decide
                strict = ast.Lt() if isinstance(op, (ast.Lt, ast.LtE)) else ast.Gt()
                r = F if isinstance(op, (ast.Lt, ast.Gt)) else T
                for x, y in reversed(list(zip((p[2] for p in a[2]), (p[2] for p in b[2])))):
                    r = b_or(self.compare(strict, x, y, node), b_and(self.compare_eq(x, y), r))
                return r
            ca = self.cls_of(a) or self.cls_of(b)
            if ca is None and not self.is_str(a) and not self.is_str(b):
                for x in (a, b):
                    if x[0] == "B" and n_leaves(x) <= 8:
                        return map_leaves(x, lambda l: self.compare(op, *((l, b) if x is a else (a, l)), node))
                if isinstance(op, ast.Lt):
                    return a_lt(a, b)
                if isinstance(op, ast.Gt):
                    return a_gt(a, b)
                if isinstance(op, ast.LtE):
                    return b_not(a_gt(a, b))
                return b_not(a_lt(a, b))
            if isinstance(op, ast.Gt):
                return atom_bool(("lt", b, a))
            if isinstance(op, ast.GtE):
                return atom_bool(("le", b, a))
            return atom_bool(("lt" if isinstance(op, ast.Lt) else "le", a, b))
        if isinstance(op, (ast.In, ast.NotIn)):
            r = None
            cs = const_str(b)
            if cs is not None and a[0] == "item" and a[2][0] == "n" and self.is_str(a[1]) and len(cs) <= 8:
                b = seq("tuple", [("i", T, const(ch)) for ch in cs])
            if b[0] == "seq" and b[1] not in ("str", "dictc") and all(p[0] == "i" and p[1] == T for p in b[2]) and len(b[2]) <= 24:
                r = F
                for p in b[2]:
                    r = b_or(r, self.compare_eq(a, p[2]))
            if r is None and b[0] == "dict" and len(b[1]) <= 24 and all(k != ("**",) for k, _ in b[1]):
                r = F
                for k, _ in b[1]:
                    r = b_or(r, self.compare_eq(a, k))
            if r is None:
                if b[0] == "call" and b[1] == ".keys":
                    b = b[2][0]
                r = self._entry(b, a)[1] if b[0] == "attr" and self.is_map(b) else atom_bool(("in", a, b))
            return r if isinstance(op, ast.In) else b_not(r)
        return atom_bool(("cmp", type(op).__name__, a, b))

    # ---------------------------------------------------------------- subscripts
    def ex_Subscript(self, e):
        base = self.ev(e.value)
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower) if e.slice.lower else NONE
            hi = self.ev(e.slice.upper) if e.slice.upper else NONE
            st = self.ev(e.slice.step) if e.slice.step else NONE
            return self.slice(base, lo, hi, st)
        return self.item(base, self.ev(e.slice))

    def ex_Slice(self, e):
        return ("slc", *(self.esc(self.ev(x)) if x is not None else NONE for x in (e.lower, e.upper, e.step)))

    def slice(self, v, lo, hi, st=NONE):
        if lo == num(0):
            lo = NONE
        if v[0] == "seq" and v[1] != "str" and all(p[0] == "i" and p[1] == T for p in v[2]):
            if all(x == NONE or x[0] == "n" for x in (lo, hi, st)):
                f = lambda x: None if x == NONE else int(x[1])
                return ("seq", v[1], v[2][slice(f(lo), f(hi), f(st))])
        if lo == NONE and hi == NONE and st == NONE:
            return self.esc(v)
        r = ("slice", self.esc(v), lo, hi, st)
        t = Types.strip_none(self.ty(v))
        self.ctype[r] = t if t and t[0] in ("coll", "str") else None
        return r

    def item(self, v, k):
        if v[0] == "B" and n_leaves(v) <= 8:
            return map_leaves(v, lambda l: self.item(l, k))
        if v[0] == "seq" and k[0] == "n" and v[1] != "str" and all(p[0] == "i" and p[1] == T for p in v[2]):
            i = int(k[1])
            if -len(v[2]) <= i < len(v[2]):
                return v[2][i][2]
        if v[0] == "seq":
            r = seq_item(v, k)
            if r is not None:
                return r
        if v[0] == "dict" and 0 < len(v[1]) <= 24 and all(a != ("**",) for a, _ in v[1]):
            return self.switch(v, k, ("raise", "KeyError"))
        if k[0] == "key" and k[2] == self.esc(v):
            r = ("val", *k[1:])
            t = Types.strip_none(self.ty(v))
            if t and t[0] == "map":
                self.ctype[r] = t[1]
            return r
        if k[0] == "idx" and v[0] not in ("seq", "B"):
            # xs[i] with i ranging over range(len(xs))
            r = ("elem", k[1], self.esc(v))
            return r
        v, k = self.esc(v), self.esc(k)
        if k == num(0) and v[0] == "call" and (
                v[1] == ".split" and len(v[2]) == 3 and v[2][2][0] == "n" and v[2][2][1] >= 1 or v[1] == ".partition" and len(v[2]) == 2):
            # the text before the first separator
            v = ("call", ".split", v[2][:2], ())
            self.ctype[v] = ("coll", STR)
        if v[:2] == ("call", ".groupdict") and len(v[2]) == 1 and not v[3]:
            return ("call", ".group", (v[2][0], k), ())
        if v[0] == "attr" and self.is_map(v):
            return self._entry(v, k)[0]
        return ("item", v, k)

    def switch(self, d, k, default):
        r = default
        for kk, vv in reversed(d[1]):
            c = self.compare_eq(k, kk)
            r = self.phi(c, vv, r)
        return r

    # ---------------------------------------------------------------- comprehensions
    def ex_ListComp(self, e):
        return self.comp("list", e)

    def ex_SetComp(self, e):
        return self.comp("set", e)

    def ex_GeneratorExp(self, e):
        return self.comp("gen", e)

    def ex_DictComp(self, e):
        return self.comp("dictc", e)

    def comp(self, kind, e):
        saved_env = self.fr.env
        self.fr.env = dict(saved_env)
        name = "$comp"
        self.fr.env[name] = seq("gen" if kind == "dictc" else kind, [])
        if kind == "dictc":
            elt = ast.Tuple([e.key, e.value], ast.Load())
        else:
            elt = e.elt
        ast.copy_location(elt, e)
        body: List[ast.stmt] = [
            ast.copy_location(
                ast.Expr(
                    ast.Call(
                        ast.Attribute(ast.Name(name, ast.Load()), "append", ast.Load()), [elt], []
                    )
                ),
                e,
            )
        ]
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                body = [ast.copy_location(ast.If(c, body, []), e)]
            body = [ast.copy_location(ast.For(g.target, g.iter, body, []), e)]
        for b in body:
            ast.fix_missing_locations(b)
        self.block(body)
        r = self.fr.env[name]
        walrus = {n.target.id for n in ast.walk(e) if isinstance(n, ast.NamedExpr)}
        env = self.fr.env
        self.fr.env = saved_env
        for w in walrus:
            if w in env:
                self.fr.env[w] = env[w]
        if kind == "dictc" and r[0] == "seq":
            r = ("seq", "dictc", r[2])
        return r

    # ---------------------------------------------------------------- lambda / yield
    def ex_Lambda(self, e):
        f = Func("<lambda>", e, self.fr.module, self.fr.func.cls, self.fr.func)
        return self.mk_closure(f)

    def ex_Yield(self, e):
        v = self.esc(self.ev(e.value)) if e.value is not None else NONE
        hook = getattr(self.fr, "on_yield", None)
        if hook is not None:
            hook(v)
            return NONE
        self.stream(("yield",), [("i", T, v)], frozenset(), e)
        return NONE

    def ex_YieldFrom(self, e):
        v = self.as_iter(self.ev(e.value))
        self.stream(("yield",), [("s", T, v)], frozenset(), e)
        return NONE

    def stream(self, chan, pieces, mods, node):
        if self.g == F:
            return
        if len(chan) > 1 and chan[1][0] == "attr" and len(chan[1]) > 3:
            chan = (chan[0], chan[1][:3])  # which object, not which of its contents
        kind = "str" if chan[0] == "emit" else "list"
        if chan[0] == "list" and chan[1][:2] == ("seq", "list"):
            # a new list which was just stored
            log = self.logs[-1]
            for i in range(len(log) - 1, -1, -1):
                o = log[i]
                if b_and(o.g, self.g) == F:
                    continue
                if o.kind in ("store", "sstore") and o.data[2] == chan[1] and b_and(self.g, b_not(o.g)) == F:
                    rest = b_and(o.g, b_not(self.g))
                    new = Ev(o.kind, I(self.g), I((*o.data[:2], seq("list", [*chan[1][2], *pieces]))), o.mods, o.where)
                    log[i:i + 1] = [new] if rest == F else [Ev(o.kind, I(rest), o.data, o.mods, o.where), new]
                    return
                break
        self.emit_ev("out", (chan, seq(kind, pieces)[2]), mods, node)

    # ---------------------------------------------------------------- escape
    def esc(self, v):
        """Make closures first class (canonical lambda summaries) before storing v."""
        v = I(v)
        if "clo" not in ops(v):
            return v
        if v[0] == "clo":
            return self.lam(v)
        return subst(v, lambda t: self.lam(t) if t and t[0] == "clo" else None)

    def lam(self, v):
        f, up, cls = self.closures[v[1]]
        if any(n is f.node for n, _ in self.stack):
            return ("lam", "rec")
        params = [a.arg for a in f.params]
        saved = (self.g, self.logs, self.frames, self.depth)
        self.g = T
        self.logs = [*self.logs, []]
        lam = sum(1 for _, x in self.stack if x == "lam")
        env = {p: ("lp", lam, i) for i, p in enumerate(params)}
        for a, p in zip(f.params, params):
            self.ctype[env[p]] = self.types.ann(f.module, a.annotation, cls)
        fr = Frame(f, env, cls, f.module)
        fr.up = up
        fr.imports = up.imports
        self.frames = [*self.frames, fr]
        self.stack.append((f.node, "lam"))
        if isinstance(f.node, ast.Lambda):
            r = self.ev(f.node.body)
        else:
            self.block(f.node.body)
            if self.g != F:
                fr.returns.append((self.g, NONE))
            r = self.merge_returns(fr.returns)
        r = self.esc(r)
        log = tuple(e.t() for e in self.logs[-1])
        self.stack.pop()
        self.g, self.logs, self.frames, self.depth = saved
        r = I(("lam", len(params), r, log))
        self.lams[r] = v
        return r

    # ================================================================ calls
    def is_getter(self, f: Func) -> bool:
        """Was the method a plain getter when the rules were confirmed?  (Whatever it has become since.)"""
        return self.facts.is_getter(f) if self.known is None else "get:" + f.qual in self.known

    def boundary(self, f: Func) -> bool:
        name = f.name
        if any(n is f.node for n, _ in self.stack) or len(self.stack) > 14:
            return True
        if f.is_contextmanager:
            return True
        if self.is_getter(f):
            return False
        if self.level < 0 and f.name.startswith("_") and not f.name.startswith("__") and "priv:" + f.qual in self.known:
            c = self.exact_self if f.cls is not None and self.exact_self is not None and f.cls in self.exact_self.mro() else f.cls
            self.privs[f"{c.name if c else ''}|{f.qual}"] = (f, c)
            return True
        if name == "visit" or name.startswith("on_"):
            return self.known is None or f.qual in self.known or self.level >= 1
        if f.qual in self.rebound() or _is_abstract(f.node) and f.cls is not None and (
                self.known is None or f.qual in self.known
                or any(name in c.methods for c in self.prog.subclasses(f.cls) if c is not f.cls)):
            return True
        if self.level >= 2:
            return sum(1 for n in ast.walk(f.node) if isinstance(n, ast.stmt)) > 60
        if name.startswith("_") and not name.startswith("__"):
            return False
        if self.known is None:
            return True
        return f.qual in self.known

    def rebound(self):
        """Names of methods which are replaced on instances (self.name = ...)."""
        r = self.prog.__dict__.get("_rebound")
        if r is None:
            r = set()
            for f in self.prog.all_funcs():
                if f.cls is None or not f.params:
                    continue
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == f.params[0].arg:
                        m = f.cls.find(n.attr)
                        if m is not None and not m.is_property and not m.node.decorator_list:
                            r.add(m.qual)
            self.prog._rebound = r
        return r

    def _kw_cases(self, v):
        """[(condition, keyword arguments)] when v is a dictionary whose keys, known strings, depend on conditions."""
        if v[0] == "dict":
            return [(T, v)] if all(const_str(a) is not None for a, _ in v[1]) else None
        if v[0] == "B":
            a, b = self._kw_cases(v[2]), self._kw_cases(v[3])
            if a is None or b is None:
                return None
            c = atom_bool(v[1])
            return [*((b_and(c, g), x) for g, x in a), *((b_and(b_not(c), g), x) for g, x in b)]
        if v[0] != "seq" or v[1] != "dictc" or len(v[2]) > 8:
            return None
        cases = [(T, ())]
        for p in v[2]:
            if p[0] != "i" or p[2][0] != "seq" or len(p[2][2]) != 2 or p[2][2][0][0] == "s" or const_str(p[2][2][0][2]) is None:
                return None
            k, x = p[2][2][0][2], p[2][2][1][2]
            cases = [c for g, es in cases for c in (
                (b_and(g, p[1]), (*((a, b) for a, b in es if a != k), (k, x))), (b_and(g, b_not(p[1])), es)) if c[0] != F]
            if len(cases) > 8:
                return None
        return [(g, ("dict", es)) for g, es in cases]

    def _split_kw(self, e):
        """A call whose keyword arguments depend on conditions is one call or another."""
        for k in e.keywords:
            if k.arg is None and isinstance(k.value, ast.Name) and k.value.id in self.fr.env:
                v = self.fr.env[k.value.id]
                if v[0] not in ("B", "seq"):
                    continue
                cs = self._kw_cases(v)
                if not cs or len(cs) > 8:
                    continue
                n, out = k.value.id, []

                def go(i):
                    g, d = cs[i]
                    if i == len(cs) - 1 or g == T:
                        self.fr.env[n] = d
                        return self.ex_Call(e)
                    r = [NONE, NONE]

                    def then():
                        self.fr.env[n] = d
                        r[0] = self.ex_Call(e)

                    def other():
                        r[1] = go(i + 1)

                    self.branch(g, then, other)
                    return self.phi(g, r[0], r[1])

                out = go(0)
                self.fr.env[n] = v
                return out
        return None

    def ex_Call(self, e):
        fn = e.func
        if any(k.arg is None for k in e.keywords):
            r = self._split_kw(e)
            if r is not None:
                return r
        # super().x(...)
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
            return self.super_call(fn.attr, e)
        if isinstance(fn, ast.Attribute):
            d = dotted(fn)
            head = d.split(".")[0] if d else None
            if d and head not in self.fr.env and not self._in_up(head) and head not in self.fr.globals:
                if head in self.fr.imports:
                    ent = self.prog._qualified(self.fr.imports[head] + d[len(head):], set())
                else:
                    ent = self.prog.resolve(self.fr.module, d)
                if ent is not None and ent[0] in ("class", "func", "ext", "method"):
                    return self.call_entity(ent, e)
            return self.method_call(fn, e)
        callee = self.ev(fn)
        args, kwargs = self.args(e)
        return self.call_value(callee, args, kwargs, e)

    def args(self, e: ast.Call):
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.as_iter(self.ev(a.value))
                if v[0] == "B" and n_leaves(v) <= 8:
                    ls = [l for _, l in leaves(v)]
                    if all(l[0] == "seq" and len(l[2]) == len(ls[0][2]) and all(p[0] == "i" and p[1] == T for p in l[2]) for l in ls):
                        v = seq("tuple", [("i", T, map_leaves(v, lambda l: l[2][i][2])) for i in range(len(ls[0][2]))])  # noqa: B023
                if v[0] == "seq" and all(p[0] == "i" and p[1] == T for p in v[2]):
                    args.extend(p[2] for p in v[2])
                else:
                    args.append(("star", self.esc(v)))
            else:
                args.append(self.ev(a))
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                if v[0] == "dict" and all(const_str(a) is not None for a, _ in v[1]):
                    for a, b in v[1]:
                        kwargs[const_str(a)] = b
                else:
                    kwargs["**"] = self.esc(v)
            else:
                kwargs[k.arg] = v
        return args, kwargs

    def call_entity(self, ent, e):
        k, v = ent
        args, kwargs = self.args(e)
        if k == "class":
            return self.construct(v, args, kwargs, e)
        if k == "func":
            return self.call_func(v, None, None, args, kwargs, e)
        if k == "ext":
            return self.call_ext(v, args, kwargs, e)
        if k == "method":
            owner, f = v
            if f.is_static:
                return self.call_func(f, owner, None, args, kwargs, e)
            if f.is_classmethod:
                return self.call_func(f, owner, ("cls", owner.name), args, kwargs, e)
            return self.call_func(f, owner, args[0] if args else NONE, args[1:], kwargs, e)

    def call_value(self, callee, args, kwargs, e):
        op = callee[0]
        if op == "B":
            ls = leaves(callee, 64)
            if len(ls) <= 16:
                out = None

                def go(ls):
                    (g, l), rest = ls[0], ls[1:]
                    if not rest:
                        return self.call_value(l, args, kwargs, e)
                    g0 = self.g
                    self.g = b_and(g0, g)
                    a = self.call_value(l, args, kwargs, e) if self.g != F else NONE
                    g1 = self.g
                    self.g = b_and(g0, b_not(g))
                    b = go(rest) if self.g != F else NONE
                    self.g = b_or(g1, self.g)
                    return self.phi(g, a, b)

                return go(ls)
        if op == "raise":
            self.emit_ev("raise", (("k", callee[1]),), node=e)
            return NONE
        if op == "lam" and callee in self.lams:
            callee = self.lams[callee]
            op = "clo"
        if op == "clo":
            f, up, cls = self.closures[callee[1]]
            if any(n is f.node for n, _ in self.stack):
                return self.generic_call("rec", args, kwargs, e, True)
            return self.inline(f, cls, None, args, kwargs, e, up=up)
        if op == "cls":
            cs = self.prog.class_by_name.get(callee[1])
            if cs:
                return self.construct(cs[0], args, kwargs, e)
        if op == "fn":
            n = callee[1]
            ent = None
            if ":" in n or "." not in n:
                ent = self._fn_value(n)
                if ent is None:
                    ent = self.prog.resolve(self.fr.module, n)
                    if n in self.fr.imports:
                        ent = self.prog._qualified(self.fr.imports[n], set())
                if ent is None:
                    return self.builtin(n, args, kwargs, e)
                if ent[0] == "func":
                    return self.call_func(ent[1], None, None, args, kwargs, e)
            return self.call_ext(n, args, kwargs, e)
        if op == "attr" and callee[2] == "__class__" and callee[1] == ("self",) and self.exact_self is not None:
            return self.construct(self.exact_self, args, kwargs, e)
        if op == "attr" and len(callee) >= 3:
            # bound method value stored in a variable
            c = self.cls_of(callee[1])
            f = c.find(callee[2]) if c else None
            if f is not None and not f.is_property:
                return self.dispatch(callee[1], callee[2], args, kwargs, e)
            if callee[1][0] == "cls":
                cs = self.prog.class_by_name.get(callee[1][1])
                if cs:
                    ent = self.prog._member(("class", cs[0]), callee[2], set())
                    if ent and ent[0] == "method":
                        owner, f = ent[1]
                        if f.is_classmethod:
                            return self.call_func(f, owner, ("cls", owner.name), args, kwargs, e)
                        if f.is_static:
                            return self.call_func(f, owner, None, args, kwargs, e)
        return self.generic_call("()", [callee, *args], kwargs, e, not (op == "attr" and callee[2] == "__class__"))

    def super_call(self, name, e):
        args, kwargs = self.args(e)
        owner = self.fr.func.cls
        cls = self.fr.cls or owner
        recv = self.fr.env.get(self.fr.func.params[0].arg) if self.fr.func.params else ("self",)
        f = cls.find_after(owner, name) if cls else None
        if f is None:
            if name in ("__init__", "model_post_init"):
                return NONE
            return self.generic_call("super." + name, [recv, *args], kwargs, e, True)
        if name == "__init__" or not self.boundary(f):
            return self.inline(f, cls, recv, args, kwargs, e)
        return self.boundary_call(f, cls, recv, args, kwargs, e, static=True)

    def method_call(self, fn: ast.Attribute, e: ast.Call):
        name = fn.attr
        # local list / string builders
        if isinstance(fn.value, ast.Name) and name in MUTATORS:
            n = fn.value.id
            fr = self.fr
            while fr is not None and n not in fr.env:
                fr = getattr(fr, "up", None)
            if fr is not None:
                cur = fr.env[n]
                r = self.local_mut(cur, name, e)
                if r is not None:
                    fr.env[n] = r if fr is self.fr else self.phi(self._since(fr), r, cur)
                    return NONE
        if isinstance(fn.value, ast.Name) and name in IN_PLACE and fn.value.id in self.fr.env and self._element(self.fr.env[fn.value.id]):
            # changes the parser element in place and hands it out again
            args, kwargs = self.args(e)
            r = self.fr.env[fn.value.id] = self.dispatch(self.ev(fn.value), name, args, kwargs, e, fn)
            return r
        recv = self.ev(fn.value)
        args, kwargs = self.args(e)
        return self.dispatch(recv, name, args, kwargs, e, fn)

    def _since(self, home):
        """Condition for control to be here, given that the call which home made was reached."""
        fs = self.frames
        for i, fr in enumerate(fs[:-1]):
            if fr is home:
                return self.relax(self.g, getattr(fs[i + 1], "g0", T))
        return self.relax(self.g, getattr(self.fr, "g0", T))

    def _element(self, v):
        """Is v a parser element nothing else holds?"""
        if v[0] == "op" and v[1] in ("+", "|", "^", "-", "&"):
            return any(self._element(x) for x in v[2])
        return v[0] == "call" and (v[1].startswith("pyparsing.") or v[1] in ELEMENT and v[2] and self._element(v[2][0]))

    def local_mut(self, cur, name, e):
        if e.keywords and name != "update":
            return None
        if cur[0] == "seq" and cur[1] in ("list", "gen", "set"):
            if name in ("append", "add") and len(e.args) == 1:
                v = self.esc(self.ev(e.args[0]))
                return seq(cur[1], [*cur[2], ("i", T, v)])
            if name in ("extend",) and len(e.args) == 1 or (name == "update" and cur[1] == "set" and len(e.args) == 1):
                v = self.as_iter(self.ev(e.args[0]))
                return seq(cur[1], [*cur[2], ("s", T, v)])
            if name == "clear":
                return seq(cur[1], [])
            if name == "insert" and len(e.args) == 2 and self.ev(e.args[0]) == num(0):
                v = self.esc(self.ev(e.args[1]))
                return seq(cur[1], [("i", T, v), *cur[2]])
            return None
        if cur[0] == "call" and cur[1].startswith("hashlib.") and name == "update" and len(e.args) == 1 and len(cur[2]) <= 1 and not cur[3]:
            v = self.esc(self.ev(e.args[0]))
            return ("call", cur[1], (("op", "+", (cur[2][0], v)) if cur[2] else v,), ())
        if is_dictval(cur) and name == "update":
            es = [(("**",), self.ev(a)) for a in e.args]
            es += [(const(k.arg) if k.arg else ("**",), self.ev(k.value)) for k in e.keywords]
            return self.mapping([(("**",), cur), *es])
        if cur[0] == "B" and n_leaves(cur) <= 8 and name in ("append", "extend") and all(
            l[0] == "seq" for _, l in leaves(cur)
        ):
            return map_leaves(cur, lambda l: self.local_mut(l, name, e))
        if cur[0] == "B" and n_leaves(cur) <= 4 and name in ("append", "extend") and len(e.args) == 1 and any(
            l[:2] == ("seq", "list") for _, l in leaves(cur)
        ):
            # in some cases a new list, in others one which something else holds, too
            v = self.ev(e.args[0])
            p = ("i", T, self.esc(v)) if name == "append" else ("s", T, self.as_iter(v))
            fresh = functools.reduce(b_or, (g for g, l in leaves(cur) if l[:2] == ("seq", "list")))
            g0 = self.g
            self.g = b_and(g0, b_not(fresh))
            if self.g != F:
                self.dispatch(constrain(cur, b_not(fresh)), name, [v], {}, e)
            self.g = g0
            return map_leaves(cur, lambda l: seq("list", [*l[2], p]) if l[:2] == ("seq", "list") else l)
        return None

    def dispatch(self, recv, name, args, kwargs, e, fn=None):
        if name == "__class__":
            return self.call_value(("attr", self.esc(recv), "__class__"), args, kwargs, e)
        if recv[0] == "B" and n_leaves(recv) <= 8 and recv[0] == "B":
            ls = leaves(recv)
            return self._dispatch_leaves(ls, name, args, kwargs, e, fn)
        if recv[0] in ("fn", "mod", "cls"):
            if recv[0] == "cls":
                cs = self.prog.class_by_name.get(recv[1])
                ent = self.prog._member(("class", cs[0]), name, set()) if cs else None
                if ent and ent[0] == "method":
                    owner, f = ent[1]
                    if f.is_classmethod:
                        return self.call_func(f, owner, recv, args, kwargs, e)
                    if f.is_static:
                        return self.call_func(f, owner, None, args, kwargs, e)
                    return self.call_func(f, owner, args[0] if args else NONE, args[1:], kwargs, e)
                if ent and ent[0] == "class":
                    return self.construct(ent[1], args, kwargs, e)
                return self.generic_call(f"{recv[1]}.{name}", args, kwargs, e, False)
            if recv[0] == "mod" and len(recv) > 1:
                m = self.prog.modules.get(recv[1])
                ent = self.prog._member(("module", m), name, set()) if m else None
                if ent is not None and ent[0] in ("class", "func"):
                    if ent[0] == "class":
                        return self.construct(ent[1], args, kwargs, e)
                    return self.call_func(ent[1], None, None, args, kwargs, e)
            return self.call_ext(f"{recv[1]}.{name}", args, kwargs, e)
        c = self.cls_of(recv)
        if c is not None:
            f = c.find(name)
            if f is not None and not f.is_property:
                if self.facts.is_evaluator(f) and recv != ("self",):
                    return self.generic_call("." + f.name, [recv], self.bind(f, args, kwargs, skip=1), e, False, frozenset(),
                                             self.types.ann(f.module, f.node.returns, c))
                if self.virtual(c, name, recv):
                    return self.boundary_call(f, c, recv, args, kwargs, e)
                if f.is_static:
                    return self.call_func(f, c, None, args, kwargs, e)
                if f.is_classmethod:
                    return self.call_func(f, c, ("cls", c.name), args, kwargs, e)
                return self.call_func(f, c, recv, args, kwargs, e)
            if f is None and self.prog.subclasses(c):
                fs = [s.find(name) for s in self.prog.subclasses(c) if s.find(name)]
                if fs:
                    return self.boundary_call(fs[0], c, recv, args, kwargs, e)
        elif not args and not kwargs and name.startswith("get_") and self.ty(recv) is None:
            # only one class of the program has a method of this name, which hands out an attribute
            fs = self.facts.methods_named(name)
            if len(fs) == 1 and self.is_getter(fs[0]):
                return self.inline(fs[0], fs[0].cls, recv, args, kwargs, e)
        elif name.startswith("_") and not name.startswith("__") and self.ty(recv) is None:
            # a private method only one class has
            fs = self.facts.methods_named(name)
            if len(fs) == 1 and not fs[0].is_property and not fs[0].is_static and not fs[0].is_classmethod:
                return self.call_func(fs[0], fs[0].cls, recv, args, kwargs, e)
        # callable stored in attribute
        return self.ext_method(recv, name, args, kwargs, e, fn)

    def _dispatch_leaves(self, ls, name, args, kwargs, e, fn):
        (g, l), rest = ls[0], ls[1:]
        if not rest:
            return self.dispatch(l, name, args, kwargs, e, fn)
        g0 = self.g
        self.g = b_and(g0, g)
        a = self.dispatch(l, name, args, kwargs, e, fn) if self.g != F else NONE
        g1 = self.g
        self.g = b_and(g0, b_not(g))
        b = self._dispatch_leaves(rest, name, args, kwargs, e, fn) if self.g != F else NONE
        self.g = b_or(g1, self.g)
        return self.phi(g, a, b)

    def ext_method(self, recv, name, args, kwargs, e, fn=None):
        mods = self._attr_names(fn.value) if fn is not None else frozenset()
        mods = mods | self.mods_of(recv)
        if name in ("write",) and len(args) == 1:
            self.stream(("emit", self.esc(recv)), [("i", T, self.to_str(args[0]))], frozenset(), e)
            return NONE
        if name == "append" and len(args) == 1:
            self.stream(("list", self.esc(recv)), [("i", T, self.esc(args[0]))], mods, e)
            return NONE
        if name == "extend" and len(args) == 1:
            self.stream(("list", self.esc(recv)), [("s", T, self.as_iter(args[0]))], mods, e)
            return NONE
        if name == "join" and len(args) == 1 and self.is_str(recv):
            return self.str_join(recv, self.as_iter(args[0]))
        if name == "get" and recv[0] == "dict" and 0 < len(recv[1]) <= 24 and all(a != ("**",) for a, _ in recv[1]):
            return self.switch(recv, args[0], args[1] if len(args) > 1 else NONE)
        if name == "items" and recv[0] == "dict" and all(a != ("**",) for a, _ in recv[1]):
            return seq("list", [("i", T, seq("tuple", [("i", T, k), ("i", T, v)])) for k, v in recv[1]])
        if name == "values" and recv[0] == "dict" and all(a != ("**",) for a, _ in recv[1]):
            return seq("list", [("i", T, v) for k, v in recv[1]])
        if name == "format" and const_str(recv) is not None:
            r = self.str_format(const_str(recv), args, kwargs)
            if r is not None:
                return r
        if name == "get" and len(args) == 2 and args[1] == NONE:
            args = args[:1]
        if recv[:2] == ("call", "re.compile") and name in RE_FUNCS and len(args) == 1 and not kwargs:
            return self.call_ext("re." + name, [recv[2][0], *args, *recv[2][1:]], dict(recv[3]), e)
        if name == "copy" and not args and not kwargs and (self.is_map(recv) or self.is_list(recv)):
            return self.copied(recv)
        if name == "pop" and 1 <= len(args) <= 2 and not kwargs and self.is_map(recv):
            v, k = self.esc(recv), self.esc(args[0])
            val, has = self._entry(v, k)
            g0 = self.g
            if len(args) == 2:
                self.g = b_and(g0, has)
                val = self.phi(has, val, args[1])
            if self.g != F:
                self.emit_ev("del", (v, k), mods, e)
            self.g = g0
            return val
        if name in ("get", "setdefault") and 1 <= len(args) <= 2 and not kwargs and self.is_map(recv):
            v, k = self.esc(recv), self.esc(args[0])
            val, has = self._entry(v, k)
            other = args[1] if len(args) > 1 else NONE
            if name == "setdefault":
                g0 = self.g
                self.g = b_and(g0, b_not(has))
                self.emit_ev("sstore", (v, k, self.esc(other)), mods, e)
                self.g = g0
            return self.phi(has, val, other)
        if name in MUTATORS:
            r = self.mkcall("." + name, [recv, *args], kwargs)
            self.emit_ev("mut", ("." + name, tuple(self.esc(a) for a in [recv, *args]),
                                 tuple(sorted((k, self.esc(v)) for k, v in kwargs.items()))), mods, e)
            return r
        pure = name in PURE_METHODS or recv[0] == "seq" and recv[1] == "str"
        if self.is_str(recv) and not pure:
            pure = True
        if pure and self.is_str(recv):
            k = const_str(recv)
            ks = [const_str(a) for a in args]
            if k is not None and None not in ks and not kwargs and name in (
                "lower", "upper", "strip", "rstrip", "lstrip", "replace", "casefold", "removeprefix", "removesuffix", "title", "capitalize"):
                return const(getattr(k, name)(*ks))
            if k is not None and None not in ks and not kwargs and name in ("startswith", "endswith", "isdigit", "isalpha"):
                return T if getattr(k, name)(*ks) else F
            if name in ("removesuffix", "removeprefix") and len(args) == 1 and not kwargs:
                x, suffix = self.esc(args[0]), name == "removesuffix"
                n = self.builtin("len", [x], {}, e)
                has = self.truthy(self.ext_method(recv, "endswith" if suffix else "startswith", [x], {}, e))
                if suffix:
                    has = b_and(has, self.truthy(x))
                return self.phi(has, self.slice(recv, NONE, p_neg(n)) if suffix else self.slice(recv, n, NONE), recv)
            r = self.mkcall("." + name, [recv, *args], kwargs)
            if name in ("lower", "upper", "strip", "rstrip", "lstrip", "format", "replace", "casefold", "zfill",
                        "ljust", "rjust", "removeprefix", "removesuffix"):
                self.ctype[r] = STR
            elif name in ("split", "rsplit", "splitlines"):
                self.ctype[r] = ("coll", STR)
            return r
        r = self.generic_call("." + name, [recv, *args], kwargs, e, not pure)
        t = Types.strip_none(self.ty(recv))
        if t and t[0] == "map" and name == "get":
            self.ctype[r] = self.types.union([t[1], ("none",)]) if t[1] else None
        return r

    def str_join(self, sep, it):
        s = const_str(sep)
        if it[0] == "seq" and it[1] != "str" and s is not None:
            if s == "":
                def conv(ps):
                    out = []
                    for p in ps:
                        if p[0] == "i":
                            out.append(("i", p[1], p[2]))
                        elif p[0] == "f":
                            c = conv(p[3])
                            if c is None:
                                return None
                            out.append(("f", p[1], p[2], seq("str", c)[2]))
                        else:
                            return None
                    return tuple(out)
                c = conv(it[2])
                if c is not None:
                    return seq("str", c)
            elif all(p[0] == "i" and p[1] == T for p in it[2]):
                ps = []
                for i, p in enumerate(it[2]):
                    if i:
                        ps.append(("c", T, s))
                    ps.append(("i", T, p[2]))
                return seq("str", ps)
            elif it[2][0][:2] == ("i", T) and all(p[0] in ("i", "s", "f") for p in it[2]):
                # the first item is there: every later one has the separator before it
                def each(p):
                    if p[0] == "i":
                        return [("c", p[1], s), p]
                    if p[0] == "s" and p[2][0] not in ("seq", "B"):
                        e = ("elem", self.depth, p[2])
                        self.ctype.setdefault(e, STR)
                        return [("f", p[1], p[2], (("c", T, s), ("i", T, e)))]
                    if p[0] == "f":
                        return [("f", p[1], p[2], seq("str", [y for q in p[3] for y in each(q)])[2])]
                    raise TooBig
                try:
                    return seq("str", [it[2][0], *(q for p in it[2][1:] for q in each(p))])
                except TooBig:
                    pass
        r = ("call", ".join", (self.esc(sep), self.esc(it)), ())
        self.ctype[r] = STR
        return r

    def str_format(self, s, args, kwargs):
        import string
        ps = []
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(s):
                if lit:
                    ps.append(("c", T, lit))
                if field is None:
                    continue
                if field == "":
                    v = args[auto]
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)]
                elif field in kwargs:
                    v = kwargs[field]
                else:
                    return None
                if spec or conv:
                    if conv == "r" and not spec:
                        ps.append(("i", T, ("call", "repr", (self.esc(v),), ())))
                    else:
                        ps.append(("i", T, ("fmt", self.esc(v), conv or "", const(spec))))
                else:
                    ps.append(("i", T, self.to_str(v)))
        except (ValueError, IndexError):
            return None
        return seq("str", ps)

    # ---------------------------------------------------------------- callee kinds
    def mkcall(self, name, args, kwargs):
        if name == ".set_name" and args and args[0][:2] == ("call", ".set_parse_action"):
            # both change the same element in place
            o = args[0]
            return I(("call", o[1], (self.mkcall(name, [o[2][0], *args[1:]], kwargs), *o[2][1:]), o[3]))
        return I(("call", name, tuple(self.esc(a) for a in args),
                  tuple(sorted((k, self.esc(v)) for k, v in kwargs.items()))))

    def generic_call(self, name, args, kwargs, e, impure, mods=frozenset(), rtype=None):
        r = self.mkcall(name, args, kwargs)
        if rtype is not None:
            self.ctype[r] = self.declared[r] = rtype
        if impure and self.g != F:
            self.emit_ev("call", r[1:], mods, e)
        return r

    def call_ext(self, name, args, kwargs, e):
        if any(name.startswith(p) for p in IGNORED_EXT):
            return NONE
        if name == "itertools.product" and len(args) > 1 and not e.keywords and not any(isinstance(a, ast.Starred) for a in e.args):
            ns = [f"$prod{self.depth}_{i}" for i in range(len(args))]
            for n, a in zip(ns, args):
                self.fr.env[n] = a
            g = ast.GeneratorExp(
                ast.Tuple([ast.Name(n + "e", ast.Load()) for n in ns], ast.Load()),
                [ast.comprehension(ast.Name(n + "e", ast.Store()), ast.Name(n, ast.Load()), [], 0) for n in ns])
            r = self.ev(ast.fix_missing_locations(ast.copy_location(g, e)))
            for n in ns:
                self.fr.env.pop(n, None)
            return r
        if name == "itertools.chain" and not kwargs:
            return seq("gen", [("s", T, self.as_iter(a)) for a in args])
        if name == "itertools.chain.from_iterable" and len(args) == 1 and not kwargs and args[0][0] == "seq" and all(p[:2] == ("i", T) for p in args[0][2]):
            return seq("gen", [("s", T, self.as_iter(p[2])) for p in args[0][2]])
        if name.startswith("operator.") and not kwargs:
            o = OPERATOR.get(name[9:].strip("_"))
            if o is not None and len(args) == 2:
                op = getattr(ast, o)()
                return self.compare(op, *args, e) if isinstance(op, ast.cmpop) else self.binop(op, *args, e)
            if name == "operator.neg" and len(args) == 1 and self.is_num(args[0]):
                return p_neg(args[0])
            if name == "operator.not_" and len(args) == 1:
                return b_not(self.truthy(args[0]))
        last = name.split(".")[-1]
        if name in ("typing.cast", "typing_extensions.cast") and len(args) == 2:
            return args[1]
        if name.startswith("pygerber.") :
            return self.generic_call(name, args, kwargs, e, True)
        if name.startswith("math.") :
            v = self.mkcall(name, args, kwargs)
            self.ctype[v] = NUM
            return v
        if name == "io.StringIO" and not args:
            n = self.call_count.get(name, 0)
            return ("call", name, (), ())
        pure = any(name.startswith(p) for p in PURE_EXT_PREFIX)
        return self.generic_call(name, args, kwargs, e, not pure)

    def builtin(self, n, args, kwargs, e):
        esc = self.esc
        if n == "isinstance" and len(args) == 2:
            return self.isinst(args[0], args[1])
        if n == "len" and len(args) == 1:
            v = args[0]
            if v[0] == "seq" and v[1] != "str" and all(p[0] == "i" and p[1] == T for p in v[2]):
                return num(len(v[2]))
            if v[0] == "seq" and len(v[2]) == 1 and v[2][0][0] == "f" and v[2][0][1] == T and len(v[2][0][3]) == 1 and v[2][0][3][0][1] == T and v[2][0][3][0][0] == "i":
                v = v[2][0][2]
            r = ("call", "len", (esc(v),), ())
            self.ctype[r] = NUM
            return r
        if n in ("list", "tuple", "set", "frozenset", "iter") and not kwargs:
            if not args:
                return seq("set" if n == "frozenset" else n, [])
            v = esc(args[0])
            if v[0] == "seq" and v[1] != "str":
                return ("seq", n if n != "iter" else v[1], v[2])
            r = seq(n, [("s", T, v)]) if n in ("list", "tuple") else ("call", n, (v,), ())
            self.ctype.setdefault(r, Types.strip_none(self.ty(v)))
            return r
        if n == "dict":
            if len(args) == 1 and not kwargs and args[0][0] == "p" and args[0][1].startswith("**"):
                return args[0]
            if not args or len(args) == 1 and (self.is_map(args[0]) or args[0][0] == "dict"):
                return self.mapping([*((("**",), a) for a in args),
                                     *((const(k) if k != "**" else ("**",), v) for k, v in kwargs.items())])
        if n == "str" and len(args) == 1 and not kwargs:
            return self.to_str(args[0])
        if n == "format" and len(args) == 2 and not kwargs:
            if const_str(args[1]) == "":
                return self.to_str(args[0])
            return seq("str", [("i", T, ("fmt", esc(args[0]), "", args[1]))])
        if n == "bool" and len(args) == 1:
            return self.truthy(args[0])
        if n == "sum" and 1 <= len(args) <= 2 and not kwargs:
            it, tot, x = (f"$sum{k}{len(self.stack)}_{self.depth}" for k in ("i", "t", "x"))
            env = self.fr.env
            env[it], env[tot] = args[0], args[1] if len(args) > 1 else num(0)
            loop = ast.parse("for X in I:\n    T = T + X").body[0]
            for k in ast.walk(loop):
                if isinstance(k, ast.Name):
                    k.id = {"X": x, "I": it, "T": tot}[k.id]
                ast.copy_location(k, e)
            self.block([loop])
            r = env[tot]
            for k in (it, tot, x):
                env.pop(k, None)
            return r
        if n in ("int", "float", "abs", "round", "min", "max", "sum", "ord", "hash", "id", "pow"):
            if n == "float" and args and args[0][0] == "n":
                return args[0]
            if len(args) == 1 and args[0][0] == "seq" and args[0][1] in ("list", "tuple"):
                args = [("seq", "gen", args[0][2])]
            if n in ("min", "max") and len(args) > 1 and not kwargs:
                args = sorted(args, key=lambda a: key(esc(a)))
            if n == "abs" and len(args) == 1 and args[0][0] == "poly" and p_canon_sign(args[0])[1]:
                args = [p_neg(args[0])]     # |-x| is |x|
            r = self.mkcall(n, args, kwargs)
            if n in ("min", "max") and (kwargs or not all(self.is_num(a) or self.ty(a) is None for a in args)):
                t = Types.strip_none(self.ty(args[0])) if args else None
                self.ctype[r] = t[1] if t and t[0] == "coll" else (t if t and len(args) > 1 else None)
            else:
                self.ctype[r] = NUM
            return r
        if n == "getattr" and len(args) >= 2 and const_str(args[1]) is not None and len(args) == 2:
            return self.attr(args[0], const_str(args[1]), e)
        if n == "type" and len(args) == 1:
            return ("attr", esc(args[0]), "__class__")
        if n in ("all", "any") and len(args) == 1 and args[0][0] == "seq" and all(
            p[0] == "i" and p[1] == T for p in args[0][2]
        ):
            r = T if n == "all" else F
            for p in args[0][2]:
                c = self.truthy(p[2])
                r = b_and(r, c) if n == "all" else b_or(r, c)
            return r
        if n in ("repr",):
            r = self.mkcall(n, args, kwargs)
            self.ctype[r] = STR
            return r
        if n in ("all", "any", "sorted") and args and args[0][0] == "seq" and args[0][1] in ("list", "tuple"):
            args = [("seq", "gen", args[0][2]), *args[1:]]
        if n == "sorted" and args:
            r = self.mkcall(n, [self.as_iter(args[0]), *args[1:]], kwargs)
            self.ctype[r] = Types.strip_none(self.ty(args[0]))
            return r
        if n == "reversed" and len(args) == 1:
            v = args[0]
            if v[0] == "seq" and all(p[0] == "i" for p in v[2]):
                return ("seq", v[1], tuple(reversed(v[2])))
            r = self.mkcall(n, args, kwargs)
            self.ctype[r] = Types.strip_none(self.ty(v))
            return r
        if n == "zip" and len(args) > 1 and not kwargs and all(
                a[0] == "seq" and a[1] in ("list", "tuple") and all(p[:2] == ("i", T) for p in a[2]) for a in args):
            return seq("list", [("i", T, seq("tuple", [("i", T, p[2]) for p in ps])) for ps in zip(*(a[2] for a in args))])
        if n == "map" and len(args) == 2 and args[0][0] in ("clo", "fn", "cls"):
            return self._map(args[0], args[1], e)
        if n == "print":
            return self.generic_call(n, args, kwargs, e, True)
        if n in PURE_BUILTINS:
            return self.mkcall(n, args, kwargs)
        if n == "setattr" and len(args) == 3 and const_str(args[1]) is not None:
            nm = const_str(args[1])
            self.store(args[0], nm, args[2], e)
            return NONE
        if n == "callback" or n not in PURE_BUILTINS:
            # unknown name: exceptions etc. are values
            if n.endswith("Error") or n.endswith("Exception") or n in ("StopIteration", "SystemExit", "NotImplemented"):
                return ("new", n, tuple((str(i), esc(a)) for i, a in enumerate(args)))
            return self.generic_call(n, args, kwargs, e, True)
        return self.mkcall(n, args, kwargs)

    def _map(self, f, it, e):
        saved = dict(self.fr.env)
        self.fr.env["$map_f"] = f
        self.fr.env["$map_it"] = it
        node = ast.parse("[map_f(x_) for x_ in map_it]", mode="eval").body
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and n.id in ("map_f", "map_it"):
                n.id = "$" + n.id
            if hasattr(n, "lineno"):
                n.lineno = e.lineno
        r = self.ev(node)
        self.fr.env = saved
        return ("seq", "gen", r[2]) if r[0] == "seq" else r

    def sure_num(self, v):
        """A number whatever the annotations say: a result of arithmetic on numbers."""
        if v[0] == "n" or v[0] == "call" and v[1].startswith("math."):
            return True
        if v[0] == "poly":
            return all(self.is_num(a) for m, _ in v[1] for a, _ in m)
        return False

    def isinst(self, v, c):
        v = self.esc(v)
        if v[0] == "B" and n_leaves(v) <= 16:
            return map_leaves(v, lambda l: self.isinst(l, c))
        if c[0] == "seq":
            if self.sure_num(v) and {("fn", "int"), ("fn", "float")} <= {p[2] for p in c[2]}:
                return T
            r = F
            for p in c[2]:
                r = b_or(r, self.isinst(v, p[2]))
            return r
        if c[0] == "op" and c[1] == "|":
            r = F
            for p in c[2]:
                r = b_or(r, self.isinst(v, p))
            return r
        name = c[1] if c[0] in ("cls", "fn") else key(c)
        if v == NONE:
            return F
        if v[0] in ("new", "enum"):
            a, b = self.prog.maybe_cls(v[1]), self.prog.maybe_cls(name)
            if a and b:
                return T if a.is_sub(b) else F
        if v[0] == "seq":
            if name in ("str", "list", "tuple", "set"):
                return T if v[1] == name else F
        if v[0] == "n" and name == "str":
            return F
        if self.sure_num(v) and self.prog.maybe_cls(name):
            return F
        t = self.ty(v)
        if t and t[0] == "C":
            b = self.prog.maybe_cls(name)
            if b is not None and not b.is_enum:
                if t[1].is_sub(b):
                    return T
                if not any(k.is_sub(b) for k in self.prog.subclasses(t[1])):
                    return F
        elif t is None:
            self.insts.setdefault(v, set()).add(name)
        if t and t[0] == "union" and all(x[0] == "C" for x in t[1]):
            self.closed[v] = frozenset(x[1].name for x in t[1])
        return atom_bool(("isinst", v, name.split(".")[-1] if name not in self.prog.class_by_name else name))

    def construct(self, c: Class, args, kwargs, e):
        name = c.name
        if c.is_enum:
            return self.typed_call(name, args, kwargs, ("C", c))
        init = c.find("__init__")
        if (len(args) == 1 and not kwargs and init is None and c.find("__new__") is None and args[0][0] != "star"
                and "str" in c.ext_bases() and all(m.startswith("__") for m in c.methods) and self.is_str(self.esc(args[0]))):
            return self.esc(args[0])  # the text itself; the class only adds methods
        if init is not None and not (c.is_model or c.is_dataclass):
            bound = self.bind(init, args, kwargs, skip=1)
            v = ("new", name, tuple(sorted((k, self.esc(x)) for k, x in bound.items())))
            return v
        if c.is_model or c.is_dataclass:
            fl = c.all_fields()
            b = dict(kwargs)
            for n, a in zip(fl, args):
                b[n] = a
            out = {}
            for k, x in b.items():
                x = self.esc(x)
                if k in fl:
                    dv = self.field_default(*fl[k])
                    if dv is not None and dv == x:
                        continue
                out[k] = x
            return ("new", name, tuple(sorted(out.items())))
        return ("new", name, tuple(sorted([(str(i), self.esc(a)) for i, a in enumerate(args)]
                                          + [(k, self.esc(x)) for k, x in kwargs.items()])))

    def typed_call(self, name, args, kwargs, t):
        r = self.mkcall(name, args, kwargs)
        self.ctype[r] = t
        return r

    def bind(self, f: Func, args, kwargs, skip):
        a = f.node.args
        pos = [*a.posonlyargs, *a.args][skip:]
        out: Dict[str, tuple] = {}
        rest = []
        for i, v in enumerate(args):
            if v[0] == "star":
                rest.append(v)
            elif i < len(pos) and not rest:
                out[pos[i].arg] = v
            else:
                rest.append(v)
        if rest:
            vn = "*" + (a.vararg.arg if a.vararg else "rest")
            out[vn] = seq("tuple", [("s", T, v[1]) if v[0] == "star" else ("i", T, self.esc(v)) for v in rest])
        kw_extra = []
        names = {x.arg for x in [*pos, *a.kwonlyargs]}
        for k, v in kwargs.items():
            if k in names:
                out[k] = v
            else:
                kw_extra.append((k, v))
        if kw_extra:
            for k, v in kw_extra:
                out[k] = v
        # defaults
        alldef = {}
        allpos = [*a.posonlyargs, *a.args]
        for p, d in zip(reversed(allpos), reversed(a.defaults)):
            alldef[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                alldef[p.arg] = d
        for n, d in alldef.items():
            if n not in out and n in names and "**" not in out and not any(v[0] == "star" for v in args):
                out[n] = self.default_value(f, d)
        return out

    def default_value(self, f: Func, d):
        saved = (self.frames, self.g)
        fn = Func("<default>", ast.parse("def _(): pass").body[0], f.module, None)
        self.frames = [Frame(fn, {}, None, f.module)]
        try:
            return self.ev(d)
        finally:
            self.frames, self.g = saved

    def call_func(self, f: Func, cls, recv, args, kwargs, e):
        if not self.boundary(f):
            return self.inline(f, cls, recv, args, kwargs, e)
        return self.boundary_call(f, cls, recv, args, kwargs, e)

    def boundary_call(self, f: Func, cls, recv, args, kwargs, e, static=False):
        skip = 1 if (f.cls is not None and not f.is_static) else 0
        bound = self.bind(f, args, kwargs, skip=skip)
        if isinstance(e, ast.Call) and f.name in self.facts.mut_params:
            mp = self.facts.mut_params[f.name]
            for p, (fr, n, v) in self.aliases(f, bound, skip, e).items():
                if p in mp:
                    # what the caller's container holds afterwards depends on the callee
                    self.bad(e, f"{n} is changed by the call of {f.name}")
        if f.cls is not None and not f.is_static and not f.is_classmethod:
            name = ("super:" + f.qual) if static else "." + f.name
            pos = [recv]
        else:
            name = f.qual if f.cls is None or not cls else f"{cls.name}.{f.name}"
            pos = []
        impure = bool(self.facts.impure.get(f.name))
        rt = self.types.ann(f.module, f.node.returns, cls)
        return self.generic_call(name, pos, bound, e, impure, self.facts.mods.get(f.name, frozenset()), rt)

    def inline(self, f: Func, cls, recv, args, kwargs, e, up=None, on_yield=None):
        if self.g == F:
            return NONE
        self.inlined.add(f.qual)
        if up is None and on_yield is None and self.wrappers(f):
            pre = [] if f.cls is None or f.is_static else [recv if recv is not None else ("self",)]
            return self.call_value(self.wrap(f, self.wrappers(f), cls), [*pre, *args], kwargs, e)
        skip = 0
        env: Dict[str, tuple] = {}
        params = f.params
        if isinstance(f.node, ast.Lambda):
            pass
        if f.cls is not None and up is None and not f.is_static:
            env[params[0].arg] = recv if recv is not None else ("self",)
            skip = 1
        bound = self.bind(f, args, kwargs, skip)
        a = f.node.args
        for k, v in bound.items():
            env[k] = v
        if a.vararg:
            env[a.vararg.arg] = bound.get("*" + a.vararg.arg, seq("tuple", []))
        if a.kwarg:
            extra = {k: v for k, v in bound.items() if k not in {p.arg for p in params} and not k.startswith("*")}
            es = tuple((const(k), self.esc(v)) for k, v in extra.items())
            if "**" in bound:
                es = (*es, (("**",), bound["**"]))
                env[a.kwarg.arg] = bound["**"] if len(es) == 1 else self.mapping(es)
            else:
                env[a.kwarg.arg] = ("dict", es)
        for p in params[skip:]:
            if p.arg not in env:
                env[p.arg] = ("missing", p.arg)
            v = env[p.arg]
            if self.ctype.get(v) is None and v[0] in ("p", "call", "attr", "elem", "item", "lp", "mu", "key", "val"):
                if self.ty(v) is None:
                    self.ctype[v] = self.types.ann(f.module, p.annotation, cls)
        alias = self.aliases(f, bound, skip, e) if isinstance(e, ast.Call) else {}
        fr = Frame(f, env, cls, f.module)
        if up is not None:
            fr.up = up
            fr.imports = up.imports
        self.stack.append((f.node, None))
        self.frames.append(fr)
        g0 = fr.g0 = self.g
        gen = not isinstance(f.node, ast.Lambda) and f.is_generator and on_yield is None
        fr.on_yield = on_yield
        if gen:
            self.logs.append([])
        if alias:
            fr.alias = alias
        try:
            if isinstance(f.node, ast.Lambda):
                r = self.ev(f.node.body)
                ok = self.g
            else:
                self.block(f.node.body)
                if self.g != F:
                    fr.returns.append((self.g, NONE))
                    self.snapshot(f.node)
                r = self.merge_returns(fr.returns)
                ok = F
                for g, _ in fr.returns:
                    ok = b_or(ok, g)
        finally:
            self.frames.pop()
            self.stack.pop()
        self.g = ok
        if alias and fr.snaps:
            for p, (home, var, v0) in alias.items():
                end = self.merge_returns([(g, d[p]) for g, d in fr.snaps])
                if end != v0:
                    home.env[var] = end
        if gen:
            log = self.logs.pop()
            pieces = []
            rest = []
            for ev in log:
                if ev.kind == "out" and ev.data[0] == ("yield",):
                    pieces.extend(guard_pieces(ev.data[1], self.relax(ev.g, g0)))
                elif ev.kind in ("for", "while") and contains(ev.data, lambda t: t == ("yield",)):
                    # its loop variables are bound in the piece, not by the loop that consumes it
                    data = subst(I(ev.data), lambda t: ("mug", *t[1:]) if t[0] == "mu" and len(t) == 3 and t[1] >= self.depth else None)
                    pieces.append(("xloop", self.relax(ev.g, g0), ev.kind, data))
                else:
                    rest.append(ev)
            self.logs[-1].extend(rest)
            self.g = g0
            return ("seq", "gen", tuple(p for p in pieces if p[1] != F))
        if r == ("noreturn",):
            r = NONE
        return r

    def aliases(self, f: Func, bound, skip, e: ast.Call):
        """Parameters of an inlined call which alias a local container of the caller."""
        mp = self.facts.mut_params.get(f.name)
        if not mp and f.outer is None:
            return {}
        if isinstance(f.node, ast.Lambda):
            return {}
        rebound = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        pos = [*f.node.args.posonlyargs, *f.node.args.args][skip:]
        pairs = []
        for p, a in zip(pos, e.args):
            if isinstance(a, ast.Starred):
                break
            pairs.append((p.arg, a))
        pairs += [(k.arg, k.value) for k in e.keywords if k.arg]
        out = {}
        for p, a in pairs:
            if not isinstance(a, ast.Name) or p in rebound:
                continue
            fr = self.fr
            while fr is not None and a.id not in fr.env:
                fr = getattr(fr, "up", None)
            if fr is not None and p in bound and fr.env[a.id] == bound[p] and bound[p][0] in ("seq", "dict", "B", "mu"):
                out[p] = (fr, a.id, bound[p])
        return out

    def relax(self, g, g0):
        """Guard relative to the call site guard."""
        if g0 == T:
            return g
        return restrict(g, g0)


def restrict(g, care):
    """Cofactor g with the literals implied by the conjunction care (simple form)."""
    lits = {}
    c = care
    while c[0] == "B":
        if c[2] == F:
            lits[c[1]] = False
            c = c[3]
        elif c[3] == F:
            lits[c[1]] = True
            c = c[2]
        else:
            break

    def rec(v):
        if v[0] != "B":
            return v
        if v[1] in lits:
            return rec(v[2] if lits[v[1]] else v[3])
        return ite(atom_bool(v[1]), rec(v[2]), rec(v[3]))

    return rec(g)


def is_dictval(v) -> bool:
    """A dictionary built in the function itself."""
    return v[0] == "dict" or v[:2] == ("seq", "dictc")


def to_dictc(v):
    """Dictionary as a sequence of updates."""
    if v[0] != "dict":
        return v
    if not v[1]:
        return I(("seq", "dictc", ()))
    return seq("dictc", [
        ("s", T, b) if a == ("**",) else ("i", T, seq("tuple", [("i", T, a), ("i", T, b)])) for a, b in v[1]])


def care(v, c):
    """v where only its value under the condition c matters."""
    if c == T or c == F:
        return v
    if v[0] == "seq":
        return seq(v[1], [(p[0], constrain(p[1], c), *p[2:]) for p in v[2]])
    if "B" in ops(v):
        v = lift(v, atoms_in(c))
    return constrain(v, c)


def atoms_in(c):
    out, todo = set(), [c]
    while todo:
        x = todo.pop()
        if x[0] == "B":
            out.add(x[1])
            todo += [x[2], x[3]]
    return out


def lift(v, atoms, depth=0):
    """v with the branches on the given atoms at its top."""
    for a in sorted(atoms, key=key):
        if depth < 5 and contains(v, lambda t: t[0] == "B" and t[1] == a):
            rest = atoms - {a}
            hi = lift(subst(v, lambda t: T if t == a else None), rest, depth + 1)
            lo = lift(subst(v, lambda t: F if t == a else None), rest, depth + 1)
            return ite(atom_bool(a), hi, lo)
    return v


def _is_abstract(node) -> bool:
    body = [s for s in getattr(node, "body", []) if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))] if not isinstance(node, ast.Lambda) else [None]
    while len(body) > 1 and isinstance(body[0], ast.Assign) and isinstance(body[0].targets[0], ast.Name):
        body = body[1:]  # msg = "..."
    return len(body) == 1 and isinstance(body[0], ast.Raise) and _is_not_implemented(body[0])


def _is_not_implemented(n: ast.Raise) -> bool:
    x = n.exc
    if isinstance(x, ast.Call):
        x = x.func
    return isinstance(x, ast.Name) and x.id == "NotImplementedError"


def _walk(node):
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop(0)
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack[0:0] = list(ast.iter_child_nodes(n))


def _has_break(body, kinds=(ast.Break, ast.Return)):
    return any(isinstance(n, kinds) for s in body for n in [s, *_walk(s)])


def same(a, b):
    """The cases in which two values are one and the same expression."""
    if a == b:
        return T
    if a[0] != "B" and b[0] != "B":
        return F
    at = _top(a, b)
    return mkB(at, same(_cof(a, at, True), _cof(b, at, True)), same(_cof(a, at, False), _cof(b, at, False)))
