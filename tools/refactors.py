"""Random semantics-preserving rewrites of a module (for testing quietness)."""
import ast, copy, random

def is_doc(s): return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)

def names_loaded(n): return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
def names_stored(n): return {(a.asname or a.name).split(".")[0] for x in ast.walk(n) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names} | {x.name for x in ast.walk(n) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not n} | {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
def has(n, *k): return any(isinstance(x, k) for x in ast.walk(n))

def blocks(fn):
    """all statement lists in fn (not nested functions)"""
    out = []
    def rec(n):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                out.append((n, f, b))
                for s in b:
                    if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                        rec(s)
        for h in getattr(n, "handlers", []) or []:
            rec(h)
        for c in getattr(n, "cases", []) or []:
            rec(c)
    rec(fn)
    return out

def negate(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not): return t.operand
    return ast.UnaryOp(ast.Not(), t)

def terminates(b):
    return bool(b) and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))

class R:
    def __init__(self, rng): self.rng = rng; self.n = 0

    # each: (fn, cls, module) -> bool applied
    def invert_if(self, fn, cls, mod):
        c = [s for _, _, b in blocks(fn) for s in b if isinstance(s, ast.If) and s.orelse]
        if not c: return False
        s = self.rng.choice(c)
        s.test = negate(s.test); s.body, s.orelse = s.orelse, s.body
        return True

    def early_to_else(self, fn, cls, mod):
        c = [(b, i) for _, _, b in blocks(fn) for i, s in enumerate(b) if isinstance(s, ast.If) and not s.orelse and terminates(s.body) and i + 1 < len(b)]
        if not c: return False
        b, i = self.rng.choice(c)
        b[i].orelse = b[i+1:]; del b[i+1:]
        return True

    def else_to_early(self, fn, cls, mod):
        c = [(b, i) for _, _, b in blocks(fn) for i, s in enumerate(b) if isinstance(s, ast.If) and s.orelse and terminates(s.body)]
        if not c: return False
        b, i = self.rng.choice(c)
        b[i+1:i+1] = b[i].orelse; b[i].orelse = []
        return True

    def guard_clause(self, fn, cls, mod):
        # final `if c: body` of a function -> if not c: return; body   (function without value returns)
        if any(isinstance(x, ast.Return) and x.value is not None for x in ast.walk(fn)) or has(fn, ast.Yield, ast.YieldFrom): return False
        s = fn.body[-1]
        if not (isinstance(s, ast.If) and not s.orelse): return False
        fn.body[-1:] = [ast.If(negate(s.test), [ast.Return(None)], []), *s.body]
        return True

    def temp_expr(self, fn, cls, mod):
        # return E -> result = E; return result ; x.foo(E) first arg temp
        c = [(b, i) for _, _, b in blocks(fn) for i, s in enumerate(b) if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant))]
        if not c: return False
        b, i = self.rng.choice(c); self.n += 1
        v = f"result_{self.n}"
        b[i:i+1] = [ast.Assign([ast.Name(v, ast.Store())], b[i].value), ast.Return(ast.Name(v, ast.Load()))]
        return True

    def temp_arg(self, fn, cls, mod):
        c = []
        for _, _, b in blocks(fn):
            for i, s in enumerate(b):
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, (ast.Name, ast.Attribute)) and not has(s.value.func, ast.Call):
                    call = s.value
                    if call.args and not isinstance(call.args[0], (ast.Starred, ast.Constant, ast.Name, ast.Lambda)) and not has(call.args[0], ast.Await, ast.NamedExpr):
                        c.append((b, i, call))
        if not c: return False
        b, i, call = self.rng.choice(c); self.n += 1
        v = f"arg_{self.n}"
        a = call.args[0]; call.args[0] = ast.Name(v, ast.Load())
        b.insert(i, ast.Assign([ast.Name(v, ast.Store())], a))
        return True

    def temp_test(self, fn, cls, mod):
        c = [(b, i) for _, _, b in blocks(fn) for i, s in enumerate(b) if isinstance(s, ast.If) and not has(s.test, ast.NamedExpr) ]
        if not c: return False
        b, i = self.rng.choice(c); self.n += 1
        v = f"cond_{self.n}"
        t = b[i].test; b[i].test = ast.Name(v, ast.Load())
        b.insert(i, ast.Assign([ast.Name(v, ast.Store())], t))
        return True

    def ternary_to_if(self, fn, cls, mod):
        c = [(b, i) for _, _, b in blocks(fn) for i, s in enumerate(b) if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp)]
        if not c: return False
        b, i = self.rng.choice(c); s = b[i]; e = s.value
        s1, s2 = copy.deepcopy(s), copy.deepcopy(s); s1.value, s2.value = e.body, e.orelse
        b[i] = ast.If(e.test, [s1], [s2])
        return True

    def if_to_ternary(self, fn, cls, mod):
        c = []
        for _, _, b in blocks(fn):
            for i, s in enumerate(b):
                if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1:
                    x, y = s.body[0], s.orelse[0]
                    if isinstance(x, ast.Return) and isinstance(y, ast.Return) and x.value and y.value: c.append((b, i))
                    elif isinstance(x, ast.Assign) and isinstance(y, ast.Assign) and ast.dump(x.targets[0]) == ast.dump(y.targets[0]): c.append((b, i))
        if not c: return False
        b, i = self.rng.choice(c); s = b[i]
        n = s.body[0]; n.value = ast.IfExp(s.test, s.body[0].value, s.orelse[0].value); b[i] = n
        return True

    def swap_compare(self, fn, cls, mod):
        c = [n for n in ast.walk(fn) if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in (ast.Lt, ast.Gt, ast.LtE, ast.GtE, ast.Eq, ast.NotEq) and not has(n, ast.Call)]
        if not c: return False
        n = self.rng.choice(c)
        m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(type(n.ops[0]), type(n.ops[0]))
        n.left, n.comparators[0] = n.comparators[0], n.left; n.ops[0] = m()
        return True

    def demorgan(self, fn, cls, mod):
        c = [s for s in ast.walk(fn) if isinstance(s, ast.If) and isinstance(s.test, ast.BoolOp)]
        if not c: return False
        s = self.rng.choice(c); t = s.test
        op = ast.Or() if isinstance(t.op, ast.And) else ast.And()
        s.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [negate(v) for v in t.values]))
        return True

    def split_and(self, fn, cls, mod):
        c = [s for s in ast.walk(fn) if isinstance(s, ast.If) and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) and not s.orelse]
        if not c: return False
        s = self.rng.choice(c)
        v = s.test.values; rest = v[1] if len(v) == 2 else ast.BoolOp(ast.And(), v[1:])
        s.body = [ast.If(rest, s.body, [])]; s.test = v[0]
        return True

    def notnone(self, fn, cls, mod):
        c = [n for n in ast.walk(fn) if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and isinstance(n.test.ops[0], (ast.IsNot, ast.NotEq, ast.NotIn)) and len(n.test.ops) == 1]
        if not c: return False
        n = self.rng.choice(c); t = n.test
        t.ops[0] = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In}[type(t.ops[0])]()
        n.test = ast.UnaryOp(ast.Not(), t)
        return True

    def comp_to_loop(self, fn, cls, mod):
        c = []
        for _, _, b in blocks(fn):
            for i, s in enumerate(b):
                if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1: c.append((b, i))
        if not c: return False
        b, i = self.rng.choice(c); s = b[i]; e = s.value; g = e.generators[0]; self.n += 1
        acc = f"acc_{self.n}"
        body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(acc, ast.Load()), "append", ast.Load()), [e.elt], []))]
        for t in reversed(g.ifs): body = [ast.If(t, body, [])]
        s.value = ast.Name(acc, ast.Load())
        b[i:i+1] = [ast.Assign([ast.Name(acc, ast.Store())], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, []), s]
        return True

    def loop_to_comp(self, fn, cls, mod):
        # xs = []; for t in it: xs.append(e)  adjacent
        c = []
        for _, _, b in blocks(fn):
            for i in range(len(b) - 1):
                s, f = b[i], b[i+1]
                tgt = s.targets[0] if isinstance(s, ast.Assign) else s.target if isinstance(s, ast.AnnAssign) else None
                if isinstance(tgt, ast.Name) and isinstance(s.value, ast.List) and not s.value.elts and isinstance(f, ast.For) and len(f.body) == 1 and not f.orelse:
                    x = f.body[0]
                    if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and x.value.func.attr == "append" and isinstance(x.value.func.value, ast.Name) and x.value.func.value.id == tgt.id:
                        c.append((b, i))
        if not c: return False
        b, i = self.rng.choice(c); s, f = b[i], b[i+1]
        s.value = ast.ListComp(f.body[0].value.args[0], [ast.comprehension(f.target, f.iter, [], 0)])
        del b[i+1]
        return True

    def extend_loop(self, fn, cls, mod):
        # self.xs.extend(gen) -> for e in gen: self.xs.append(e)
        c = []
        for _, _, b in blocks(fn):
            for i, s in enumerate(b):
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "extend": c.append((b, i))
        if not c: return False
        b, i = self.rng.choice(c); call = b[i].value; self.n += 1
        v = f"item_{self.n}"
        b[i] = ast.For(ast.Name(v, ast.Store()), call.args[0], [ast.Expr(ast.Call(ast.Attribute(call.func.value, "append", ast.Load()), [ast.Name(v, ast.Load())], []))], [])
        return True

    def enum_loop(self, fn, cls, mod):
        c = [s for _, _, b in blocks(fn) for s in b if isinstance(s, ast.For) and isinstance(s.target, ast.Name) and not isinstance(s.iter, ast.Call)]
        if not c: return False
        s = self.rng.choice(c); self.n += 1
        s.target = ast.Tuple([ast.Name(f"_i{self.n}", ast.Store()), s.target], ast.Store())
        s.iter = ast.Call(ast.Name("enumerate", ast.Load()), [s.iter], [])
        return True

    def rename_local(self, fn, cls, mod):
        params = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
        inner = {a.arg for n in ast.walk(fn) if isinstance(n, (ast.Lambda, ast.FunctionDef)) and n is not fn for a in ast.walk(n.args) if isinstance(a, ast.arg)}
        loc = sorted(names_stored(fn) - params - inner)
        if not loc or has(fn, ast.Global, ast.Nonlocal): return False
        v = self.rng.choice(loc); self.n += 1
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and x.id == v: x.id = f"{v}_r{self.n}"
            if isinstance(x, (ast.ExceptHandler, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and x is not fn and x.name == v: x.name = f"{v}_r{self.n}"
            if isinstance(x, ast.alias) and (x.asname or x.name) == v: x.asname = f"{v}_r{self.n}"
        return True

    def swap_stmts(self, fn, cls, mod):
        c = []
        for _, _, b in blocks(fn):
            for i in range(len(b) - 1):
                s, t = b[i], b[i+1]
                if isinstance(s, ast.Assign) and isinstance(t, ast.Assign) and all(isinstance(x.targets[0], (ast.Name, ast.Attribute)) for x in (s, t)) and not has(s, ast.Call, ast.Subscript) and not has(t, ast.Call, ast.Subscript):
                    k1, k2 = ast.unparse(s.targets[0]), ast.unparse(t.targets[0])
                    if k1 != k2 and k1 not in ast.unparse(t) and k2 not in ast.unparse(s): c.append((b, i))
        if not c: return False
        b, i = self.rng.choice(c); b[i], b[i+1] = b[i+1], b[i]
        return True

    def extract(self, fn, cls, mod):
        if isinstance(fn, ast.AsyncFunctionDef) or has(fn, ast.Global, ast.Nonlocal): return False
        bl = [(n, f, b) for n, f, b in blocks(fn)]
        self.rng.shuffle(bl)
        for _, _, b in bl:
            idx = [i for i, s in enumerate(b) if not is_doc(s)]
            if not idx: continue
            for _try in range(6):
                i = self.rng.choice(idx); j = self.rng.randint(i + 1, min(len(b), i + 4))
                seg = b[i:j]
                m = ast.Module(seg, [])
                whole = i == idx[0] and j == len(b) and b is fn.body
                if has(m, ast.Yield, ast.YieldFrom, ast.Continue, ast.Break, ast.Global, ast.Nonlocal, ast.FunctionDef, ast.Import, ast.ImportFrom, ast.Await, ast.Lambda, ast.NamedExpr): continue
                if any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(m)): continue
                rets = has(m, ast.Return)
                if rets and not (j == len(b) and b is fn.body): continue
                params = [a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)]
                locs = set(params) | names_stored(fn)
                used = names_loaded(m) & locs
                st = names_stored(m)
                rest = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
                # stored names used outside segment
                out_used = set()
                inseg = {id(x) for x in ast.walk(m)}
                for x in ast.walk(fn):
                    if isinstance(x, ast.Name) and id(x) not in inseg and x.id in st: out_used.add(x.id)
                if rets and out_used: continue
                # locals must be definitely defined before: only allow used that are params or stored earlier in fn.body top-level
                before = set(params)
                ok = True
                def collect(bb, upto):
                    for s in bb[:upto]:
                        if isinstance(s, (ast.Assign, ast.AnnAssign)): before.update(names_stored(s))
                collect(b, i)
                # enclosing blocks: approximate with loop targets and earlier statements
                def path(n, acc):
                    for f in ("body", "orelse", "finalbody"):
                        bb = getattr(n, f, None)
                        if isinstance(bb, list):
                            if bb is b: return acc
                            for k, s in enumerate(bb):
                                if isinstance(s, ast.stmt):
                                    r = path(s, acc + [(bb, k, s)])
                                    if r is not None: return r
                    return None
                for bb, k, s in path(fn, []) or []:
                    collect(bb, k)
                    if isinstance(s, ast.For): before.update(names_stored(s.target))
                    if isinstance(s, ast.With):
                        for it in s.items:
                            if it.optional_vars is not None: before.update(names_stored(it.optional_vars))
                need = set()
                # names read in seg before def in seg
                need = {n for n in used if n in before}
                if used - need - st: continue
                if (used - need) & st and not all(isinstance(s, (ast.Assign, ast.AnnAssign)) for s in seg if names_stored(s)): pass
                # conditional stores: outputs must be definitely assigned in seg
                definite = set()
                for s in seg:
                    if isinstance(s, (ast.Assign, ast.AnnAssign)): definite |= names_stored(s)
                if out_used - definite - need: continue
                need |= (out_used - definite)
                self.n += 1
                name = f"_extracted_helper_{self.n}"
                selfarg = None
                if cls is not None:
                    deco = {ast.unparse(d) for d in fn.decorator_list}
                    if "staticmethod" in deco or "classmethod" in deco or not params: continue
                    selfarg = params[0]
                a = sorted(need - ({selfarg} if selfarg else set()))
                body = list(seg)
                outs = sorted(out_used)
                if not rets and outs:
                    body.append(ast.Return(ast.Tuple([ast.Name(o, ast.Load()) for o in outs], ast.Load()) if len(outs) > 1 else ast.Name(outs[0], ast.Load())))
                args = ast.arguments([], [ast.arg(x) for x in ([selfarg] if selfarg else []) + a], None, [], [], None, [])
                h = ast.FunctionDef(name, args, body, [], None, None, [])
                f = ast.Attribute(ast.Name(selfarg, ast.Load()), name, ast.Load()) if selfarg else ast.Name(name, ast.Load())
                call = ast.Call(f, [ast.Name(x, ast.Load()) for x in a], [])
                if rets: new = ast.Return(call)
                elif outs: new = ast.Assign([ast.Tuple([ast.Name(o, ast.Store()) for o in outs], ast.Store()) if len(outs) > 1 else ast.Name(outs[0], ast.Store())], call)
                else: new = ast.Expr(call)
                if rets and not (isinstance(seg[-1], (ast.Return, ast.Raise))):
                    pass
                b[i:j] = [new]
                (cls.body if cls is not None else mod.body).append(h)
                return True
        return False

    def elif_to_match(self, fn, cls, mod):
        c = []
        for _, _, b in blocks(fn):
            for i, s in enumerate(b):
                if isinstance(s, ast.If) and isinstance(s.test, ast.Compare) and len(s.test.ops) == 1 and isinstance(s.test.ops[0], ast.Eq) and isinstance(s.test.comparators[0], ast.Attribute) and not has(s.test.left, ast.Call): c.append((b, i))
        if not c: return False
        b, i = self.rng.choice(c); s = b[i]; left = ast.dump(s.test.left)
        cases = []; cur = s
        while True:
            cases.append(ast.match_case(ast.MatchValue(cur.test.comparators[0]), None, cur.body))
            if len(cur.orelse) == 1 and isinstance(cur.orelse[0], ast.If) and isinstance(cur.orelse[0].test, ast.Compare) and len(cur.orelse[0].test.ops) == 1 and isinstance(cur.orelse[0].test.ops[0], ast.Eq) and ast.dump(cur.orelse[0].test.left) == left and isinstance(cur.orelse[0].test.comparators[0], ast.Attribute):
                cur = cur.orelse[0]; continue
            break
        if cur.orelse: cases.append(ast.match_case(ast.MatchAs(), None, cur.orelse))
        b[i] = ast.Match(s.test.left, cases)
        return True

    def fstr_to_concat(self, fn, cls, mod):
        c = []
        for n in ast.walk(fn):
            for f, v in ast.iter_fields(n):
                if isinstance(v, ast.JoinedStr) and f != "format_spec": c.append((n, f, None, v))
                elif isinstance(v, list):
                    for k, x in enumerate(v):
                        if isinstance(x, ast.JoinedStr) and not isinstance(n, ast.JoinedStr): c.append((n, f, k, x))
        c = [x for x in c if x[3].values and all(isinstance(v, ast.Constant) or v.conversion == -1 and v.format_spec is None for v in x[3].values)]
        if not c: return False
        n, f, k, v = self.rng.choice(c)
        parts = [p if isinstance(p, ast.Constant) else ast.Call(ast.Name("str", ast.Load()), [p.value], []) for p in v.values]
        e = parts[0]
        for p in parts[1:]: e = ast.BinOp(e, ast.Add(), p)
        if k is None: setattr(n, f, e)
        else: getattr(n, f)[k] = e
        return True

    def rename_private(self, fn, cls, mod):
        if cls is None: return False
        c = [s for s in cls.body if isinstance(s, ast.FunctionDef) and s.name.startswith("_") and not s.name.endswith("_")]
        if not c: return False
        s = self.rng.choice(c); old = s.name; self.n += 1; new = f"{old}_ren{self.n}"
        for x in ast.walk(mod):
            if isinstance(x, ast.Attribute) and x.attr == old: x.attr = new
            if isinstance(x, ast.FunctionDef) and x.name == old: x.name = new
        return True

    def kwargs_pos(self, fn, cls, mod):
        return False

    def noop(self, fn, cls, mod):
        self.n += 1
        i = 1 if is_doc(fn.body[0]) else 0
        fn.body.insert(i, ast.Assign([ast.Name(f"_unused_{self.n}", ast.Store())], ast.Constant(self.n)))
        return True

    def tuple_assign(self, fn, cls, mod):
        c = []
        for _, _, b in blocks(fn):
            for i in range(len(b) - 1):
                s, t = b[i], b[i+1]
                if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], (ast.Name, ast.Attribute)) for x in (s, t)):
                    k1 = ast.unparse(s.targets[0])
                    if k1 not in ast.unparse(t.value) and not has(t.value, ast.Call): c.append((b, i))
        if not c: return False
        b, i = self.rng.choice(c); s, t = b[i], b[i+1]
        b[i:i+2] = [ast.Assign([ast.Tuple([s.targets[0], t.targets[0]], ast.Store())], ast.Tuple([s.value, t.value], ast.Load()))]
        return True

    def inline_local(self, fn, cls, mod):
        # x = E (pure: no call) used once afterwards in next statement
        c = []
        for _, _, b in blocks(fn):
            for i in range(len(b) - 1):
                s = b[i]
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and not has(s.value, ast.Await, ast.NamedExpr):
                    v = s.targets[0].id
                    uses = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == v]
                    nxt = [x for x in ast.walk(b[i+1]) if isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load)]
                    if len(uses) == 2 and len(nxt) == 1 and isinstance(b[i+1], (ast.Return, ast.Assign)) and not has(b[i+1], ast.Lambda, ast.ListComp, ast.GeneratorExp) and (not has(s.value, ast.Call) or not has(b[i+1], ast.Call)): c.append((b, i, v))
        if not c: return False
        b, i, v = self.rng.choice(c); e = b[i].value
        class Sub(ast.NodeTransformer):
            def visit_Name(self, n): return e if n.id == v and isinstance(n.ctx, ast.Load) else n
        b[i+1] = Sub().visit(b[i+1]); del b[i]
        return True

    def augassign(self, fn, cls, mod):
        c = [(b, i) for _, _, b in blocks(fn) for i, s in enumerate(b) if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name)]
        if not c: return False
        b, i = self.rng.choice(c); s = b[i]
        b[i] = ast.Assign([s.target], ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value))
        return True

    def hoist_attr(self, fn, cls, mod):
        # node.a.b read repeatedly at function start -> local (params only, read-only attr)
        params = [a.arg for a in fn.args.args if a.arg not in ("self", "cls")]
        stored = {x.attr for x in ast.walk(fn) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
        c = [n for n in ast.walk(fn) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id in params and n.attr not in stored and n.value.id not in names_stored(fn)]
        if not c or has(fn, ast.Lambda): return False
        n = self.rng.choice(c); attr, base = n.attr, n.value.id
        # avoid method references
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == attr for x in ast.walk(fn)): return False
        # only hoist if base is not tested for None/isinstance
        src = ast.unparse(fn)
        if f"{base} is" in src or f"isinstance({base}" in src or f"{base} and" in src: return False
        self.n += 1; v = f"h_{attr}_{self.n}"
        class Sub(ast.NodeTransformer):
            def visit_Attribute(self, x):
                self.generic_visit(x)
                if isinstance(x.ctx, ast.Load) and x.attr == attr and isinstance(x.value, ast.Name) and x.value.id == base: return ast.Name(v, ast.Load())
                return x
        i = 1 if is_doc(fn.body[0]) else 0
        fn.body[i:] = [Sub().visit(s) for s in fn.body[i:]]
        fn.body.insert(i, ast.Assign([ast.Name(v, ast.Store())], ast.Attribute(ast.Name(base, ast.Load()), attr, ast.Load())))
        return True

KINDS = ["invert_if", "early_to_else", "else_to_early", "guard_clause", "temp_expr", "temp_arg", "temp_test", "ternary_to_if", "if_to_ternary", "swap_compare", "demorgan", "split_and", "notnone", "comp_to_loop", "loop_to_comp", "extend_loop", "enum_loop", "rename_local", "swap_stmts", "extract", "elif_to_match", "fstr_to_concat", "rename_private", "noop", "tuple_assign", "inline_local", "augassign", "hoist_attr"]
