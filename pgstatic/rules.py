"""Structural analyses over the summaries, the call graph and the import graph.

Each rule returns a ``Result``: how many instances it looked at (with a floor confirmed by
reading, below which the analysis counts as broken), samples, and violations
``(key, where, text)``.  None of them refers to the confirmed behaviour table: they state
what has to hold for any version of the code.
"""
from __future__ import annotations

import ast
import re
from typing import Dict, Iterator, List, Optional, Set, Tuple

from .model import Class, Func, Module, Program, dotted
from .values import F, T, TooBig, leaves


class Result:
    def __init__(self, rule: str, floor: int) -> None:
        self.rule, self.floor = rule, floor
        self.n = 0
        self.samples: List[str] = []
        self.violations: List[Tuple[str, str, str]] = []
        self.undecided: List[str] = []

    def seen(self, text: str) -> None:
        self.n += 1
        if len(self.samples) < 6:
            self.samples.append(text)

    def bad(self, key: str, where: str, text: str) -> None:
        self.violations.append((key, where, text))


def flat(evs) -> Iterator[tuple]:
    """All events of a summary, loop bodies included."""
    for e in evs:
        yield e
        if e[0] in ("for", "while"):
            yield from flat(e[3])


def target(e) -> Optional[tuple]:
    """The object an event writes to."""
    k = e[0]
    if k in ("store", "sstore", "del"):
        return e[2]
    if k == "mut":
        return e[3][0] if e[3] else None
    if k == "out" and e[2][0] == "list":
        return e[2][1]
    return None


def root(v):
    while isinstance(v, tuple) and v and v[0] in ("attr", "item", "elem"):
        v = v[2] if v[0] == "elem" else v[1]
    return v


def paths(v):
    """The objects a term may stand for, each without alternatives on its access path."""
    if not isinstance(v, tuple) or not v:
        return
    if v[0] == "B":
        try:
            ls = dict.fromkeys(l for _, l in leaves(v, 64))
        except TooBig:
            return
        for x in ls:
            yield from paths(x)
    elif v[0] in ("attr", "item", "elem"):
        k = 2 if v[0] == "elem" else 1
        for x in paths(v[k]):
            yield (*v[:k], x, *v[k + 1:])
    elif v[0] not in ("none", "T", "F"):
        yield v


def held_in(y) -> Optional[str]:
    """The name of the collection an item was taken from."""
    if y[0] not in ("elem", "item"):
        return None
    z = y[2] if y[0] == "elem" else y[1]
    if z[0] == "call" and z[1] in (".values", ".get") and z[2]:
        z = z[2][0]
    return z[2] if z[0] == "attr" else None


def subclasses(prog: Program, base: str) -> List[Class]:
    out = []
    for m in prog.modules.values():
        for c in m.classes.values():
            if any(k.name == base for k in c.mro()[1:]):
                out.append(c)
    return out


def handler_of(s, oid) -> Optional[str]:
    """The visitor handler a node's visit() ends in, when it is one unconditional call."""
    r = s.summary(oid, 2)
    if r is None or r[2]:
        return None
    hs = [e for e in flat(r[0]) if e[0] == "call" and isinstance(e[2], str) and e[2].startswith(".on_")
          and e[3] and e[3][0][0] == "p"]
    return hs[0][2][1:] if len(hs) == 1 and hs[0][1] == T else None


# --------------------------------------------------------------------------- C01
def dispatch(d) -> Result:
    """Every concrete node kind has its own handler, visit() and the callback getter agree,
    and the default handler visits every child field."""
    r = Result("dispatch: own handler per node kind; visit and callback agree; children visited", 100)
    s, prog = d.s, d.prog
    vis = prog.maybe_cls("AstVisitor")
    if vis is None:
        return r
    owner: Dict[str, str] = {}
    nodes = {c.name for c in subclasses(prog, "Node")} | {"Node"}
    for c in subclasses(prog, "Node"):
        f = c.methods.get("visit")
        if f is None:
            continue
        h = handler_of(s, f"method {c.name}.visit")
        if h is None:
            r.undecided.append(c.where)
            continue
        r.seen(f"{c.name}.visit -> {h}")
        if vis.find(h) is None:
            r.bad(c.name, f.where, f"{c.name}.visit calls {h}, which no visitor has")
        if h in owner:
            r.bad(c.name, f.where, f"{c.name}.visit calls {h}, the handler of {owner[h]}")
        owner[h] = c.name
        g = s.summary(f"method {c.name}.get_visitor_callback_function", 2)
        if g is not None and not g[2] and g[1][0] == "attr" and g[1][1] == ("p", "visitor") and g[1][2] != h:
            r.bad(c.name, c.find("get_visitor_callback_function").where,
                  f"{c.name}: callback getter returns {g[1][2]}, visit calls {h}")
        # children
        hs = s.summary(f"method AstVisitor.{h}", 2)
        if hs is None or hs[2]:
            continue
        text = [e for e in flat(hs[0]) if e[0] == "call" and e[2] == ".visit" and e[3]]
        fields = set()
        for e in text:
            v = e[3][0]
            while isinstance(v, tuple) and v and v[0] in ("elem", "item", "attr"):
                if v[0] == "attr" and v[1] == ("p", "node"):
                    fields.add(v[2])
                    break
                v = v[2] if v[0] == "elem" else v[1]
        if not text:
            continue
        if not fields:
            r.undecided.append(f"{h}: children visited through another route")
            continue
        for n, (own, a) in c.all_fields().items():
            names = set(re.findall(r"\w+", ast.unparse(a.annotation)))
            if names & nodes:
                r.seen(f"{h} visits field {n}")
                if n not in fields:
                    r.bad(f"{c.name}.{n}", hs_where(d, f"method AstVisitor.{h}"),
                          f"AstVisitor.{h} never visits the child field {n} of {c.name}")
    return r


def hs_where(d, oid):
    return d.s.uni.where.get(oid, "?")


# --------------------------------------------------------------------------- C03
NO_TEXT = {"on_node", "on_exception", "on_end_of_file"}


def formatter_total(d) -> Result:
    """Every concrete node kind has formatting code of its own, or children that have."""
    r = Result("formatter totality: each node kind is written by Formatter", 90)
    s, prog = d.s, d.prog
    fm, vis = prog.maybe_cls("Formatter"), prog.maybe_cls("AstVisitor")
    if fm is None or vis is None:
        return r
    for c in subclasses(prog, "Node"):
        if "visit" not in c.methods:
            continue
        h = handler_of(s, f"method {c.name}.visit")
        if h is None:
            continue
        f = fm.find(h)
        if f is None:
            continue
        r.seen(f"{c.name} -> {f.cls.name if f.cls else '?'}.{h}")
        su = s.summary(f"method Formatter.{h}", 2)
        if su is None or su[2]:
            continue
        evs = list(flat(su[0]))
        writes = any(e[0] == "out" for e in evs) or any(
            e[0] == "call" and (e[2] == ".visit" or "on_" in str(e[2]) and "super" in str(e[2])) for e in evs)
        if not writes:
            r.bad(c.name, f.where, f"formatting a {c.name} node writes nothing")
    return r


def attribute_names(d) -> Result:
    """The name an attribute node reports is the one the formatter writes and the grammar reads."""
    r = Result("attributes: node name, formatter text and grammar literal are the same", 20)
    s, prog = d.s, d.prog
    fm = prog.maybe_cls("Formatter")
    if fm is None:
        return r
    for c in subclasses(prog, "Node"):
        su = s.summary(f"method {c.name}.attribute_name", 2)
        pre = next((k.name for k in c.mro() if k.name in ("TA", "TF", "TO")), None)
        if su is None or su[2] or pre is None or "visit" not in c.methods:
            continue
        name = str_const(su[1])
        if name is None:
            continue
        h = handler_of(s, f"method {c.name}.visit")
        fs = s.summary(f"method Formatter.{h}", 2) if h else None
        if fs is None or fs[2]:
            continue
        text = "".join(text_of(e) for e in flat(fs[0]) if e[0] == "out")
        m = re.search(r"%" + pre + r"(\.\w+)", text)
        if m is None:
            r.undecided.append(c.name)
            continue
        r.seen(f"{c.name}: {name} written as {m.group(1)}")
        if m.group(1) != name:
            r.bad(c.name, fm.find(h).where, f"Formatter.{h} writes {pre}{m.group(1)} for attribute {pre}{name}")
    return r


def str_const(v) -> Optional[str]:
    if v[0] == "seq" and v[1] == "str" and len(v[2]) == 1 and v[2][0][0] == "c" and v[2][0][1] == T:
        return v[2][0][2]
    return None


def text_of(e) -> str:
    return "".join(x[2] if x[0] == "c" else "\0" for x in e[3])


# --------------------------------------------------------------------------- C25
PURE_EXEMPT = {
    # registering a listener in the visitor is what these are for
    "bind_rule_to_ast_visitor", "bind_rule_to_violation_collector", "register_listener", "register_rule",
}


# attributes whose items are nodes, commands or segments wherever they occur
VALUE_LISTS = {"nodes", "commands", "primitives", "apertures", "blocks", "macros"}
# attributes which hold what the caller handed over
INPUT_ATTRS = {"options", "ast", "rvmc", "style"}
COPIES = re.compile(r"copy$|^(list|dict|tuple|sorted)$|\.model_(construct|validate\w*)$")
ACCESS = (".get", ".setdefault", "next")


def purity(d) -> Result:
    """No entry point writes to an object reachable from its parameters; no value object
    (node, command, geometry, style, options) writes to itself after construction."""
    r = Result("effects: no write to parameters, none to value objects", 1500)
    s = d.s
    frozen: Set[str] = set()
    for base in ("Node", "ModelType", "Command", "ShapeSegment", "Matrix3x3"):
        b = d.prog.maybe_cls(base)
        if b is not None:
            frozen.add(base)
        frozen |= {c.name for c in subclasses(d.prog, base)}
    owners: Dict[str, Set[str]] = {}
    for c in (c for cs in d.prog.class_by_name.values() for c in cs):
        for n in c.fields:
            owners.setdefault(n, set()).add(c.name)
        for f in c.methods.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self":
                    owners.setdefault(n.attr, set()).add(c.name)
    for oid, (item, module) in s.uni.items.items():
        if item[0] != "fn":
            continue
        f: Func = item[1]
        if f.name in PURE_EXEMPT:
            continue
        su = s.summary(oid, 0)
        if su[2]:
            r.undecided.append(oid)
            continue
        r.seen(oid)
        cls = item[2]
        own = cls is not None and cls.name in frozen and f.name not in ("__init__", "model_post_init", "__setattr__", "__new__")
        for e in flat(su[0]):
            for t in paths(target(e)):
                b = root(t)
                if b[0] == "p" and not str(b[1]).startswith("*") and (t != b or e[0] != "out"):
                    if oid not in d.ref:
                        continue  # a helper: its writes are judged where it is called
                    if t == b and e[0] == "mut" and str(e[2]) in (".write", ".seek", ".flush", ".close"):
                        continue
                    r.bad(f"{oid}:{b[1]}", f.where, f"{oid} writes to its argument {b[1]!r} ({e[0]} {show(t)})")
                elif own and b == ("self",):
                    r.bad(f"{oid}:self", f.where, f"{oid} changes the value object itself ({e[0]} {show(t)})")
                elif b[0] != "call" or not COPIES.search(str(b[1])):
                    # a field which only value objects have, or an item of a collection of nodes or commands
                    x = ("attr", t, e[3]) if e[0] == "store" else t
                    while isinstance(x, tuple) and x and x[0] in ("attr", "item", "elem"):
                        y = x[2] if x[0] == "elem" else x[1]
                        if x[0] == "attr" and y != ("self",) and y[0] != "new" and (y[0] != "call" or y[1] in ACCESS) and (
                                owners.get(x[2]) and owners[x[2]] <= frozen
                                or y[0] == "attr" and y[1] == ("self",) and y[2] in INPUT_ATTRS
                                or held_in(y) in VALUE_LISTS and owners.get(x[2], set()) & frozen):
                            r.bad(f"{oid}:{x[2]}", f.where, f"{oid} changes {x[2]!r} of a value object it was given ({e[0]} {show(x)})")
                            break
                        x = y
    aliased_inputs(d, r)
    return r


# these exist to change the builder, compiler or scope they are handed
COLLABORATORS = {"CustomPadCreator", "RegionCreator", "CommandBuffer", "MacroEvalVisitor"}


def aliased_inputs(d, r: Result) -> None:
    """No object keeps an argument (or a part of one) in an attribute and changes it through that attribute."""
    s = d.s
    known = {o.split(" ", 1)[1].split(":")[-1].rsplit(".", 1)[0] for o in d.ref if o.startswith("method ")}
    kept: Dict[Tuple[str, str], str] = {}
    changed: Dict[Tuple[str, str], Tuple[str, str]] = {}
    for oid, (item, module) in s.uni.items.items():
        if item[0] != "fn" or item[2] is None or item[2].name in COLLABORATORS or item[2].name not in known:
            continue
        su = s.summary(oid, 0)
        if su[2]:
            continue
        for e in flat(su[0]):
            if e[0] == "store" and e[2] == ("self",):
                for v in paths(e[4]):
                    if root(v)[0] == "p":
                        kept.setdefault((item[2].name, e[3]), f"{oid} keeps {show(v)}")
            for t in paths(target(e)):
                if t == ("self",) or e[0] == "mut" and str(e[2]) in (".write", ".seek", ".flush", ".close"):
                    continue
                x = t
                while x[0] in ("attr", "item", "elem"):
                    y = x[2] if x[0] == "elem" else x[1]
                    if x[0] == "attr" and y == ("self",):
                        changed.setdefault((item[2].name, x[2]), (oid, item[1].where))
                    x = y
    for k in sorted(kept.keys() & changed.keys()):
        oid, where = changed[k]
        r.bad(f"{oid}:{k[1]}", where, f"{oid} changes self.{k[1]}, which is an argument: {kept[k]}")


def show(v) -> str:
    if not isinstance(v, tuple) or not v:
        return str(v)
    if v[0] == "attr":
        return f"{show(v[1])}.{v[2]}"
    if v[0] == "p":
        return str(v[1])
    if v[0] == "self":
        return "self"
    if v[0] in ("item", "elem"):
        return f"{show(v[1] if v[0] == 'item' else v[2])}[..]"
    return str(v[0])


# --------------------------------------------------------------------------- C26
NONDET = re.compile(
    r"^(id|hash|time\..*|random\..*|secrets\..*|uuid\..*|os\.urandom|os\.getpid|os\.environ.*|os\.getenv|"
    r"datetime\.(datetime\.)?(now|today|utcnow)|datetime\.date\.today|date\.today|object\.__hash__|"
    r"threading\.get_ident|tempfile\..*|socket\..*|platform\..*|getpass\..*)$"
)
NONDET_OK = {
    ("pygerber.gerber.pygments", "os.environ"): "documentation build switch, no effect on the library",
    ("pygerber.__main__", "os.environ"): "coverage start-up hook",
}
HASH_METHODS = {"__hash__"}


def determinism(d) -> Result:
    """No time, randomness, identity, environment or hash-order source in library code."""
    r = Result("determinism: no nondeterministic source is called; no set is iterated unsorted", 900)
    for m in d.prog.modules.values():
        imports = module_imports(m)
        for fn, node in functions(m):
            r.n += 1
            for n in own_walk(node):
                name = None
                if isinstance(n, (ast.Call, ast.Subscript)):
                    name = resolve(imports, n.func if isinstance(n, ast.Call) else n.value)
                if name and NONDET.match(name):
                    if name in ("hash", "id") and (for_hash(m, fn.split(".")[-1]) or shadowed(node, name)):
                        continue
                    if any(m.name == a and name.startswith(b) for a, b in NONDET_OK):
                        continue
                    r.bad(f"{m.name}:{fn}:{name}", f"{m.rel}:{n.lineno}", f"{fn} uses {name}: its result differs between runs")
                elif isinstance(n, (ast.For, ast.comprehension)):
                    why = set_source(n.iter, node, m)
                    if why:
                        r.bad(f"{m.name}:{fn}:set", f"{m.rel}:{n.iter.lineno}", f"{fn} iterates over {why}, whose order depends on hashing")
            for e in ordered_from(node):
                why = set_source(e, node, m)
                if why:
                    r.bad(f"{m.name}:{fn}:set", f"{m.rel}:{e.lineno}", f"{fn} puts the items of {why} in an order which depends on hashing")
    r.samples = [f"{len(d.prog.modules)} modules scanned for {NONDET.pattern[:60]}... and unsorted set iteration"]
    return r


def functions(m: Module):
    for n in ast.walk(m.tree):
        if isinstance(n, ast.ClassDef):
            for f in n.body:
                if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    yield f"{n.name}.{f.name}", f
    for f in m.tree.body:
        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield f.name, f
    yield "<module>", ast.Module(body=[s for s in m.tree.body if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef))], type_ignores=[])


def for_hash(m: Module, name: str, seen=()) -> bool:
    """Is the function __hash__, or used by __hash__ alone?"""
    if name in HASH_METHODS:
        return True
    if not name.startswith("_") or name in seen:
        return False
    users = {fn.split(".")[-1] for fn, node in functions(m) for n in ast.walk(node)
             if isinstance(n, ast.Attribute) and n.attr == name or isinstance(n, ast.Name) and n.id == name}
    return bool(users) and all(for_hash(m, u, (*seen, name)) for u in users)


def own_walk(node):
    yield from ast.walk(node)


def shadowed(fn, name) -> bool:
    a = getattr(fn, "args", None)
    if a is None:
        return False
    names = {p.arg for p in [*a.posonlyargs, *a.args, *a.kwonlyargs]}
    names |= {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    return name in names


def module_imports(m: Module) -> Dict[str, str]:
    out: Dict[str, str] = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and n.module and n.level == 0:
            for a in n.names:
                out[a.asname or a.name] = f"{n.module}.{a.name}"
    return out


def resolve(imports: Dict[str, str], e) -> Optional[str]:
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if not isinstance(e, ast.Name):
        return None
    base = imports.get(e.id, e.id)
    return ".".join([base, *reversed(parts)])


ORDER_FREE = {"sorted", "len", "sum", "min", "max", "any", "all", "set", "frozenset"}


UNORDERED = {"sorted", "set", "frozenset", "len", "min", "max", "sum", "any", "all", "Counter", "dict"}


def ordered_from(fn) -> Iterator[ast.expr]:
    """Expressions whose items are laid out in order: list(x), tuple(x), [*x], s.join(x), l.extend(x), next(iter(x))."""
    skip = set()
    for n in own_walk(fn):
        if isinstance(n, ast.Call) and (dotted(n.func) or "").split(".")[-1] in UNORDERED:
            skip.update(id(a) for a in n.args)
        elif isinstance(n, (ast.Set, ast.SetComp)):
            skip.update(id(x) for x in ast.iter_child_nodes(n))
    for n in own_walk(fn):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Call) and len(n.args) == 1 and not isinstance(n.args[0], ast.Starred):
            f = n.func
            if isinstance(f, ast.Name) and f.id in ("list", "tuple", "enumerate", "iter") or isinstance(f, ast.Attribute) and f.attr in ("join", "extend", "fromkeys"):
                yield n.args[0]
        elif isinstance(n, (ast.List, ast.Tuple)) and isinstance(getattr(n, "ctx", None), ast.Load):
            yield from (x.value for x in n.elts if isinstance(x, ast.Starred))


def set_source(e, fn, m: Module) -> Optional[str]:
    """Is the iterated expression syntactically a set?  (Element order reaches the loop.)"""
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
        if e.func.id in ("set", "frozenset"):
            return "a set"
        if e.func.id in ("list", "tuple", "iter", "enumerate", "reversed") and e.args:
            return set_source(e.args[0], fn, m)
        return None
    if isinstance(e, (ast.Set, ast.SetComp)):
        # order is harmless when the loop result is itself unordered; stay exact: literal only
        return "a set"
    if isinstance(e, ast.Name):
        for n in ast.walk(fn):
            if isinstance(n, (ast.Assign, ast.AnnAssign)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                if any(isinstance(t, ast.Name) and t.id == e.id for t in ts):
                    if isinstance(n, ast.AnnAssign) and re.match(r"^(typing\.)?(set|Set|frozenset|FrozenSet)\b", ast.unparse(n.annotation)):
                        return f"the set {e.id}"
                    if n.value is not None and isinstance(n.value, (ast.Set, ast.SetComp, ast.Call)) and set_source(n.value, fn, m) == "a set":
                        return f"the set {e.id}"
        return None
    if isinstance(e, ast.Attribute):
        if e.attr in SET_ATTRS:
            return f"the set .{e.attr}"
    return None


SET_ATTRS: Set[str] = set()


def collect_set_attrs(prog: Program) -> None:
    """Attributes that are declared or initialised as sets anywhere in the program, and
    never as anything else."""
    SET_ATTRS.clear()
    yes, no = set(), set()
    rx = re.compile(r"^(typing\.)?(set|Set|frozenset|FrozenSet|MutableSet)\b")
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.AnnAssign):
                nm = n.target.attr if isinstance(n.target, ast.Attribute) else None
                if nm is None and isinstance(n.target, ast.Name):
                    continue
                (yes if rx.match(ast.unparse(n.annotation)) else no).add(nm)
            elif isinstance(n, ast.ClassDef):
                for s in n.body:
                    if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                        (yes if rx.match(ast.unparse(s.annotation)) else no).add(s.target.id)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                ann = {p.arg: ast.unparse(p.annotation) for p in [*n.args.args, *n.args.kwonlyargs] if p.annotation}
                for s in ast.walk(n):
                    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute):
                        a, v = s.targets[0].attr, s.value
                        if isinstance(v, (ast.Set, ast.SetComp)) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("set", "frozenset"):
                            yes.add(a)
                        elif isinstance(v, ast.Name) and v.id in ann:
                            (yes if rx.match(ann[v.id]) else no).add(a)
                        else:
                            no.add(a)
    SET_ATTRS.update(yes - no)


def module_state(d) -> Result:
    """Library functions do not rebind module globals (results must not depend on earlier calls)."""
    r = Result("module state: who rebinds or fills module-level state", 900)
    ok = {"pygerber.gerber.language_server.status", "pygerber.gerber.pygments", "pygerber.vm.shapely.vm",
          "pygerber.gerber.language_server._server.server", "pygerber.gerber.linter.rules.rule"}
    for m in d.prog.modules.values():
        names = set()
        for s in m.tree.body:
            ts = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) else []
            names |= {t.id for t in ts if isinstance(t, ast.Name)}
        for fn, node in functions(m):
            if fn == "<module>":
                continue
            r.seen(f"{m.name}:{fn}")
            glob = {x for n in ast.walk(node) if isinstance(n, ast.Global) for x in n.names}
            for g in sorted(glob):
                stored = any(isinstance(n, ast.Name) and n.id == g and isinstance(n.ctx, ast.Store) for n in ast.walk(node))
                if stored and m.name not in ok:
                    r.bad(f"{m.name}:{fn}:{g}", f"{m.rel}:{node.lineno}", f"{fn} rebinds the module global {g}")
            local = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            a = node.args
            local |= {p.arg for p in [*a.posonlyargs, *a.args, *a.kwonlyargs]}
            for n in ast.walk(node):
                tgt = None
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
                    tgt = n.value.id
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                        and n.func.attr in ("append", "add", "update", "setdefault", "pop", "extend", "clear", "insert", "remove", "popitem"):
                    tgt = n.func.value.id
                if tgt and tgt in names and tgt not in local and m.name not in ok:
                    r.bad(f"{m.name}:{fn}:{tgt}", f"{m.rel}:{n.lineno}", f"{fn} fills the module-level container {tgt}")
    return r


MUTATORS = ("append", "add", "update", "setdefault", "pop", "extend", "clear", "insert", "remove", "popitem", "appendleft", "popleft", "discard")
CONTAINERS = ("list", "dict", "set", "defaultdict", "Counter", "deque", "OrderedDict", "count", "cycle", "iter", "bytearray", "WeakKeyDictionary", "WeakValueDictionary")


def is_container(v) -> bool:
    if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp)):
        return True
    if isinstance(v, ast.Call):
        n = (dotted(v.func) or "").split(".")[-1]
        return n in CONTAINERS
    return False


def mutated(node, match) -> Iterator[ast.AST]:
    """Places in a function which change in place an object that match() accepts."""
    for n in ast.walk(node):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and match(n.value):
            yield n
        elif isinstance(n, ast.AugAssign) and match(n.target):
            yield n
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and match(n.func.value):
                yield n
            elif isinstance(n.func, ast.Name) and n.func.id == "next" and n.args and match(n.args[0]):
                yield n


def shared_state(d) -> Result:
    """No state shared between objects or calls: class attributes and default arguments are never changed."""
    r = Result("shared state: class-level containers, class attributes and default arguments are never changed by a function", 900)
    models = {c.name for c in subclasses(d.prog, "BaseModel")} | {"BaseModel"}
    for base in ("Node", "ModelType", "Command"):
        models |= {c.name for c in subclasses(d.prog, base)} | {base}
    for m in d.prog.modules.values():
        classes = [c for c in ast.walk(m.tree) if isinstance(c, ast.ClassDef)]
        names = {c.name for c in classes}
        for c in classes:
            if c.name in models:
                continue  # pydantic copies the defaults of fields
            held = {}
            for st in c.body:
                ts = st.targets if isinstance(st, ast.Assign) else [st.target] if isinstance(st, ast.AnnAssign) else []
                if ts and st.value is not None and is_container(st.value):
                    held.update({t.id: st for t in ts if isinstance(t, ast.Name)})
            fns = [f for f in c.body if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef))]
            own = {n.attr for f in fns for n in ast.walk(f) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)
                   and isinstance(n.value, ast.Name) and n.value.id == "self"}
            for f in fns:
                for n in mutated(f, lambda v: isinstance(v, ast.Attribute) and v.attr in held and (
                        isinstance(v.value, ast.Name) and (v.value.id == "self" and v.attr not in own or v.value.id in ("cls", c.name))
                        or isinstance(v.value, ast.Call) and dotted(v.value.func) == "type")):
                    r.bad(f"{m.name}:{c.name}.{f.name}:class", f"{m.rel}:{n.lineno}",
                          f"{c.name}.{f.name} changes a container which all objects of the class share")
        for fn, node in functions(m):
            if fn == "<module>":
                continue
            r.seen(f"{m.name}:{fn}")
            a = node.args
            pairs = [*zip([*a.posonlyargs, *a.args][::-1], a.defaults[::-1]), *zip(a.kwonlyargs, a.kw_defaults)]
            shared = {p.arg for p, v in pairs if v is not None and is_container(v)}
            if shared:
                rebound = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                for n in mutated(node, lambda v: isinstance(v, ast.Name) and v.id in shared - rebound):
                    r.bad(f"{m.name}:{fn}:default", f"{m.rel}:{n.lineno}", f"{fn} changes its default argument, which all calls share")
                for n in ast.walk(node):
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in shared - rebound and any(
                            isinstance(t, ast.Attribute) for t in n.targets):
                        r.bad(f"{m.name}:{fn}:default", f"{m.rel}:{n.lineno}", f"{fn} keeps its default argument, which all calls share")
            for n in ast.walk(node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and (
                        isinstance(n.value, ast.Name) and (n.value.id == "cls" and fn.split(".")[-1] != "__init_subclass__" or n.value.id in names)
                        or isinstance(n.value, ast.Call) and dotted(n.value.func) == "type"
                        or isinstance(n.value, ast.Attribute) and n.value.attr == "__class__"):
                    r.bad(f"{m.name}:{fn}:{n.attr}", f"{m.rel}:{n.lineno}", f"{fn} rebinds the class attribute {n.attr}: later results depend on earlier calls")
    return r


# --------------------------------------------------------------------------- C27
OPTIONAL = {"shapely", "pygls", "lsprotocol", "pygments", "drawsvg"}
# modules that exist only for one extra: importing them requires it, so nothing
# else may import them while being imported
def optional_imports(d) -> Result:
    """While importing any core module, no optional dependency is imported unguarded."""
    r = Result("import graph: optional dependencies only behind guards or at the point of use", 60)
    prog = d.prog
    edges: Dict[str, Set[Tuple[str, int]]] = {}
    direct: Dict[str, List[Tuple[str, int]]] = {}
    for m in prog.modules.values():
        es, ds = set(), []
        for n in import_time(m.tree.body):
            for full in imported(n, m):
                top = full.split(".")[0]
                if top in OPTIONAL:
                    ds.append((full, n.lineno))
                elif top == "pygerber":
                    parts = full.split(".")
                    for i in range(1, len(parts) + 1):
                        q = ".".join(parts[:i])
                        if q in prog.modules and q != m.name:
                            es.add((q, n.lineno))
        # a package's __init__ runs before its modules
        parts = m.name.split(".")
        for i in range(1, len(parts)):
            q = ".".join(parts[:i])
            if q in prog.modules:
                es.add((q, 1))
        edges[m.name], direct[m.name] = es, ds
    extra_only = {"pygerber.gerber.language_server._server"}
    for m in sorted(edges):
        if any(m == x or m.startswith(x + ".") for x in extra_only):
            continue
        if m.split(".")[-1] == "__main__":
            continue
        seen, todo, via = {m}, [m], {m: None}
        while todo:
            x = todo.pop()
            for q, ln in sorted(edges.get(x, ())):
                if q not in seen:
                    seen.add(q)
                    via[q] = (x, ln)
                    todo.append(q)
        r.seen(f"import {m}: {len(seen)} modules loaded")
        for x in sorted(seen):
            for full, ln in direct[x]:
                path, y = [x], x
                while via[y]:
                    y = via[y][0]
                    path.append(y)
                if (x, full) in OPT_OK or any(k == m for k in OPT_ROOT_OK):
                    continue
                r.bad(f"{x}:{full}", f"{prog.modules[x].rel}:{ln}",
                      f"importing {m} imports {full} without a guard (path {' <- '.join(path)})")
    dedup = {}
    for k, w, t in r.violations:
        dedup.setdefault(k, (k, w, t))
    r.violations = list(dedup.values())
    return r


OPT_OK: Set[Tuple[str, str]] = set()
OPT_ROOT_OK: Set[str] = set()


def import_time(body):
    """Import statements executed when the module is imported, skipping those protected by
    try/except ImportError, by TYPE_CHECKING or by an availability test."""
    for s in body:
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            yield s
        elif isinstance(s, ast.If):
            t = ast.unparse(s.test)
            if "TYPE_CHECKING" in t:
                yield from import_time(s.orelse)
            elif "available" in t.lower():
                if t.startswith("not "):
                    yield from import_time(s.body)
                else:
                    yield from import_time(s.orelse)
            else:
                yield from import_time(s.body)
                yield from import_time(s.orelse)
        elif isinstance(s, ast.Try):
            caught = {n.id for h in s.handlers if h.type is not None for n in ast.walk(h.type) if isinstance(n, ast.Name)}
            if not caught & {"ImportError", "ModuleNotFoundError", "Exception", "BaseException"} and not any(h.type is None for h in s.handlers):
                yield from import_time(s.body)
            else:
                yield from (x for x in import_time(s.body) if not opt_top(x))
            yield from import_time(s.orelse)
            yield from import_time(s.finalbody)
            for h in s.handlers:
                yield from import_time(h.body)
        elif isinstance(s, ast.With):
            if suppresses(s.items[0].context_expr):
                yield from (x for x in import_time(s.body) if not opt_top(x))
            else:
                yield from import_time(s.body)
        elif isinstance(s, ast.ClassDef):
            yield from import_time(s.body)


def suppresses(e) -> bool:
    if not (isinstance(e, ast.Call) and "suppress" in ast.unparse(e.func)):
        return False
    names = {n.id for a in e.args for n in ast.walk(a) if isinstance(n, ast.Name)}
    return bool(names & {"ImportError", "ModuleNotFoundError", "Exception", "BaseException"})


def opt_top(s) -> bool:
    names = [a.name for a in s.names] if isinstance(s, ast.Import) else [s.module or ""]
    return any(n.split(".")[0] in OPTIONAL for n in names)


def imported(s, m: Module) -> List[str]:
    if isinstance(s, ast.Import):
        return [a.name for a in s.names]
    base = s.module or ""
    if s.level:
        parts = m.name.split(".")
        keep = len(parts) - s.level + (1 if m.path.name == "__init__.py" else 0)
        base = ".".join([*parts[:keep], *([base] if base else [])])
    return [f"{base}.{a.name}" if base else a.name for a in s.names]


# --------------------------------------------------------------------------- C02
def forwards(d) -> Result:
    """Every pyparsing Forward the grammar uses is bound before it is used in a build."""
    r = Result("grammar: every Forward element is given its definition", 1)
    for m in d.prog.modules.values():
        if not m.name.endswith("pyparsing.grammar"):
            continue
        made: Dict[str, int] = {}
        bound: Set[str] = set()
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and "Forward(" in ast.unparse(n.value):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    made[ast.unparse(t)] = n.lineno
            if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.LShift):
                bound.add(ast.unparse(n.target))
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.LShift):
                bound.add(ast.unparse(n.left))
        for name, ln in made.items():
            r.seen(f"{name} bound: {name in bound}")
            if name not in bound and uses(m, name):
                r.bad(f"forward:{name}", f"{m.rel}:{ln}", f"grammar element {name} is a Forward that is used but never defined")
    return r


def uses(m: Module, name: str) -> bool:
    return sum(1 for n in ast.walk(m.tree) if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load) and ast.unparse(n) == name) > 0


def grammar_nodes(d) -> Result:
    """Every concrete command node kind can be produced by the grammar."""
    r = Result("grammar: each node kind is constructed by some rule", 90)
    g = next((m for m in d.prog.modules.values() if m.name.endswith("pyparsing.grammar")), None)
    if g is None:
        return r
    used = {n.id for n in ast.walk(g.tree) if isinstance(n, ast.Name)} | {n.attr for n in ast.walk(g.tree) if isinstance(n, ast.Attribute)}
    used |= {n.value for n in ast.walk(g.tree) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
    for c in subclasses(d.prog, "Node"):
        if "visit" not in c.methods:
            continue
        r.seen(c.name)
        if c.name not in used:
            r.bad(c.name, c.where, f"no grammar rule constructs {c.name}")
    return r


# --------------------------------------------------------------------------- C04
def option_used(d) -> Result:
    """Every formatter option is read by the formatter."""
    r = Result("options: each option field is read", 15)
    o, f = d.prog.maybe_cls("Options"), d.prog.maybe_cls("Formatter")
    if o is None or f is None:
        return r
    read = {n.attr for n in ast.walk(f.module.tree) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)}
    strs = {n.value for n in ast.walk(f.module.tree) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
    dyn = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("getattr", "vars") for n in ast.walk(f.module.tree))
    for n in o.all_fields():
        r.seen(n)
        if n not in read and n not in strs and not (dyn and any(n.endswith(x) or n.startswith(x) for x in strs if len(x) > 3)):
            r.bad(n, o.where, f"formatter option {n} is never read, so it has no effect")
    return r


# --------------------------------------------------------------------------- C05
def state_writers(d) -> Result:
    """Only the state tracking visitor (and its subclasses) write the modal state."""
    r = Result("who-may-write: modal state is written only by state tracking visitors", 40)
    prog, s = d.prog, d.s
    st = prog.maybe_cls("StateTrackingVisitor")
    if st is None:
        return r
    for oid, (item, module) in s.uni.items.items():
        if item[0] != "fn":
            continue
        cls: Optional[Class] = item[2]
        tracker = cls is not None and any(k.name == "StateTrackingVisitor" for k in cls.mro())
        su = s.summary(oid, 0)
        for e in flat(su[0]):
            t = target(e)
            if t is None:
                continue
            chain = []
            v = t
            while isinstance(v, tuple) and v and v[0] in ("attr", "item", "elem"):
                if v[0] == "attr":
                    chain.append(v[2])
                v = v[2] if v[0] == "elem" else v[1]
            if "state" in chain and (len(chain) > 1 or chain == ["state"] and e[0] in ("store", "sstore", "mut")):
                r.seen(f"{oid} writes {show(t)}.{e[3] if e[0] == 'store' else ''}")
                if not tracker and not (chain == ["state"] and v == ("self",) and False):
                    r.bad(f"{oid}", item[1].where, f"{oid} writes modal state ({show(t)}) from outside the state tracking visitor")
    return r


# --------------------------------------------------------------------------- C19
def cache_reset(d) -> Result:
    """Whoever changes an input of a cached result drops the cache."""
    r = Result("caches: each option setter clears every cache computed from it", 2)
    s, prog = d.s, d.prog
    c = prog.maybe_cls("GerberFile")
    if c is None:
        return r
    caches = set()
    for n in ast.walk(c.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and "cached" in n.attr:
            caches.add(n.attr)
    need = {"set_parser_options": caches, "set_compiler_options": {x for x in caches if "rvmc" in x}}
    for mname, want in need.items():
        su = s.summary(f"method GerberFile.{mname}", 2)
        if su is None or su[2]:
            continue
        got = {e[3] for e in flat(su[0]) if e[0] == "store" and e[2] == ("self",) and e[1] == T and e[4] == ("none",)}
        r.seen(f"{mname} clears {sorted(got)}")
        for x in sorted(want - got):
            r.bad(f"{mname}:{x}", hs_where(d, f"method GerberFile.{mname}"), f"GerberFile.{mname} leaves the outdated cache {x} in use")
    return r


# --------------------------------------------------------------------------- C20 / C28
def map_totality(d) -> Result:
    """The colour tables have an entry for every file type that can reach them."""
    r = Result("tables: every file type has a style in each colour map", 40)
    s, prog = d.s, d.prog
    en = prog.maybe_cls("FileTypeEnum")
    if en is None:
        return r
    members = [n for n in en.consts if not n.startswith("INFER")]
    for name in ("DEFAULT_COLOR_MAP", "DEFAULT_ALPHA_COLOR_MAP"):
        su = s.summary(f"const pygerber.gerber.api._enums:{name}", 0)
        if su is None or su[2] or su[1][0] != "dict":
            r.undecided.append(name)
            continue
        keys = {kv[0][2] for kv in su[1][1] if isinstance(kv[0], tuple) and kv[0][0] == "enum"}
        if len(keys) != len(su[1][1]):
            r.undecided.append(name)
            continue
        for k in members:
            r.seen(f"{name}[{k}]")
            if k not in keys:
                r.bad(f"{name}:{k}", s.uni.where[f"const pygerber.gerber.api._enums:{name}"], f"{name} has no style for file type {k}")
    return r


# --------------------------------------------------------------------------- C23
def event_total(d) -> Result:
    """Each node kind triggers its listeners exactly once per visit."""
    r = Result("linter events: each node kind triggers its listeners exactly once", 90)
    s, prog = d.s, d.prog
    for c in subclasses(prog, "Node"):
        if "visit" not in c.methods:
            continue
        h = handler_of(s, f"method {c.name}.visit")
        if h is None:
            continue
        n = triggers(d, h, set())
        if n is None:
            r.undecided.append(h)
            continue
        r.seen(f"{h}: {n} trigger")
        if n != 1:
            r.bad(h, hs_where(d, f"method EventAstVisitor.{h}"), f"visiting a {c.name} triggers its listeners {n} times")
    return r


def triggers(d, h: str, seen) -> Optional[int]:
    su = d.s.summary(f"method EventAstVisitor.{h}", 0)
    if su is None or su[2] or h in seen:
        return None
    seen = seen | {h}
    n = 0
    for e in flat(su[0]):
        if e[0] == "for" and "listeners" in repr(e[2]):
            n += 1
        elif e[0] == "call" and str(e[2]) == f"super:AstVisitor.{h}":
            b = d.s.summary(f"method AstVisitor.{h}", 0)
            if b is None or b[2]:
                return None
            for x in flat(b[0]):
                if x[0] == "call" and str(x[2]).startswith(".on_") and x[3] and x[3][0] == ("self",) and x[4] == (("node", ("p", "node")),):
                    k = triggers(d, x[2][1:], seen)
                    if k is None:
                        return None
                    n += k
    return n


# --------------------------------------------------------------------------- C29
def unique_tags(d) -> Result:
    """The serialisation tag (class name) is unique among nodes and among commands."""
    r = Result("tags: class names used as type tags are unique", 100)
    for bases in (("Node",), ("ModelType", "Command", "ShapeSegment")):
        seen: Dict[str, Class] = {}
        cs = [c for m in d.prog.modules.values() for c in m.classes.values() if any(k.name in bases for k in c.mro()[1:])]
        for c in cs:
            r.seen(c.name)
            o = seen.get(c.name)
            if o is not None and o is not c:
                r.bad(c.name, c.where, f"two classes share the type tag {c.name} ({o.where})")
            seen[c.name] = c
    return r


# --------------------------------------------------------------------------- C14
def vm_siblings(d) -> Result:
    """Both backends handle every command kind, in both eager and deferred mode."""
    r = Result("siblings: both virtual machines implement every drawing handler", 8)
    prog = d.prog
    base = prog.maybe_cls("VirtualMachine")
    if base is None:
        return r
    subs = subclasses(prog, "VirtualMachine")
    hooks = [n for n in {m for k in base.mro() for m in k.methods} if n.startswith("on_") and n.endswith(("_eager",))]
    for c in subs:
        for h in sorted(hooks):
            f = c.find(h)
            r.seen(f"{c.name}.{h} defined by {f.cls.name if f and f.cls else None}")
            if f is None or f.cls is base and is_stub(f.node):
                r.bad(f"{c.name}.{h}", c.where, f"{c.name} does not implement {h}")
        for h in ("create_eager_layer", "create_deferred_layer", "run"):
            f = c.find(h)
            r.seen(f"{c.name}.{h}")
            if f is None or f.cls is base and is_stub(f.node):
                r.bad(f"{c.name}.{h}", c.where, f"{c.name} does not implement {h}")
    return r


def is_stub(f) -> bool:
    body = [s for s in f.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return all(isinstance(s, (ast.Pass, ast.Raise)) for s in body)


RULES = {f.__name__: f for f in (
    dispatch, formatter_total, attribute_names, purity, determinism, module_state, shared_state, optional_imports, forwards, grammar_nodes,
    option_used, state_writers, cache_reset, map_totality, event_total, unique_tags, vm_siblings)}


def raises(summary) -> frozenset:
    """The raises of a summary, each with its condition."""
    return frozenset(e for e in flat(summary[0]) if e[0] == "raise")


LENSES = {"raises": raises}


def run_rule(name: str, d) -> Optional[Result]:
    f = RULES.get(name)
    if f is None:
        return None
    if name == "determinism":
        collect_set_attrs(d.prog)
    return f(d)
