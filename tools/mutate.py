"""mutate.py N SEED [MODULE-SUBSTRING]: plant N random one-place mutations and report the undetected.

Measures how much of the source the summaries depend on. A mutant counts as detected when
some obligation becomes different (or the structural rules object, with -r)."""
import ast, copy, random, sys, multiprocessing as mp
from collections import Counter
sys.path.insert(0, "/verif"); sys.path.insert(0, "/verif/tools")
from pgstatic.model import Program
from pgstatic.tables import Decider

BASE = None
SWAP = {"x": "y", "y": "x", "i": "j", "j": "i", "width": "height", "height": "width", "start": "end", "end": "start",
        "min_x": "min_y", "max_x": "max_y", "min_y": "min_x", "max_y": "max_x", "current_x": "current_y",
        "foreground": "background", "background": "foreground", "line": "column", "min": "max", "max": "min"}


def sites(fn):
    """(kind, node, parent, field, index) of every place that can be changed."""
    out = []
    skip = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Assert):
            skip.update(map(id, ast.walk(n)))
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            b = n.body[0]
            if isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant):
                skip.update(map(id, ast.walk(b)))
            for d in [n.returns, *[a.annotation for a in [*n.args.args, *n.args.kwonlyargs]]]:
                if d is not None:
                    skip.update(map(id, ast.walk(d)))
            if n is not fn:
                continue
            for d in n.decorator_list:
                skip.update(map(id, ast.walk(d)))
        if isinstance(n, ast.AnnAssign):
            skip.update(map(id, ast.walk(n.annotation)))
        if isinstance(n, ast.Raise) and n.exc is not None:
            skip.update(map(id, ast.walk(n.exc)))
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == "msg":
            skip.update(map(id, ast.walk(n)))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("log_info", "show_message_log", "info", "debug", "warning"):
            skip.update(map(id, ast.walk(n)))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("cast", "isinstance"):
            skip.update(map(id, ast.walk(n)))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.update(map(id, ast.walk(n)))
    for n in ast.walk(fn):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            out.append(("cmp", n))
            if isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                out.append(("bound", n))
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool) or isinstance(n.value, (int, float)) or isinstance(n.value, str) and n.value:
                out.append(("const", n))
        if isinstance(n, ast.BoolOp):
            out.append(("boolop", n)); out.append(("dropcond", n))
        if isinstance(n, (ast.If, ast.IfExp)):
            out.append(("negif", n))
        if isinstance(n, (ast.BinOp, ast.AugAssign)) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            out.append(("arith", n))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            out.append(("unary", n))
        if isinstance(n, ast.Call):
            if len(n.args) >= 2:
                out.append(("swapargs", n))
            if n.keywords and any(k.arg for k in n.keywords):
                out.append(("dropkw", n))
            if len([k for k in n.keywords if k.arg]) >= 2:
                out.append(("swapkw", n))
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "strip", "lower", "upper", "casefold", "transform", "convert"):
                out.append(("dropcall", n))
        if isinstance(n, ast.Attribute) and n.attr in SWAP and isinstance(n.ctx, ast.Load):
            out.append(("swapattr", n))
        if isinstance(n, ast.Name) and n.id in ("min", "max", "any", "all"):
            out.append(("swapname", n))
        for f in ("body", "orelse"):
            blk = getattr(n, f, None)
            if isinstance(blk, list):
                for i, s in enumerate(blk):
                    if id(s) in skip or isinstance(s, (ast.Pass, ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                        continue
                    if isinstance(s, ast.Return) and (s.value is None or i == len(blk) - 1 and n is fn):
                        continue
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.If, ast.For, ast.Return, ast.Break, ast.Continue, ast.Raise)):
                        out.append(("drop", (n, f, i)))
    return out


def apply(kind, n, rng):
    if kind == "cmp":
        o = n.ops[0]
        m = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
             ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
        n.ops[0] = m[type(o)]()
    elif kind == "bound":
        m = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt}
        n.ops[0] = m[type(n.ops[0])]()
    elif kind == "const":
        v = n.value
        n.value = (not v) if isinstance(v, bool) else v + 1 if isinstance(v, (int, float)) else v + "x"
    elif kind == "boolop":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == "dropcond":
        n.values.pop(rng.randrange(len(n.values)))
        if len(n.values) == 1:
            n.values.append(copy.deepcopy(n.values[0]))
    elif kind == "negif":
        n.test = ast.UnaryOp(ast.Not(), n.test)
    elif kind == "arith":
        m = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
        n.op = m[type(n.op)]()
    elif kind == "unary":
        n.op = ast.UAdd() if isinstance(n.op, ast.USub) else ast.UAdd()
        if isinstance(n.operand, ast.AST) and type(n.op) is ast.UAdd:
            pass
    elif kind == "swapargs":
        i = rng.randrange(len(n.args) - 1)
        n.args[i], n.args[i + 1] = n.args[i + 1], n.args[i]
    elif kind == "dropkw":
        ks = [k for k in n.keywords if k.arg]
        n.keywords.remove(rng.choice(ks))
    elif kind == "swapkw":
        a, b = rng.sample([k for k in n.keywords if k.arg], 2)
        a.value, b.value = b.value, a.value
    elif kind == "dropcall":
        n.args, n.keywords = [], []
        # f(x).m() -> f(x) by wrapping in a tuple index
        f = n.func.value
        n.func = ast.Name("__id", ast.Load()); n.args = [f]
    elif kind == "swapattr":
        n.attr = SWAP[n.attr]
    elif kind == "swapname":
        n.id = {"min": "max", "max": "min", "any": "all", "all": "any"}[n.id]
    elif kind == "drop":
        p, f, i = n
        blk = getattr(p, f)
        blk[i] = ast.copy_location(ast.Pass(), blk[i])


class Unid(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "__id":
            return n.args[0]
        return n


def fns(tree):
    out = []
    for s in tree.body:
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)): out.append((s, None))
        elif isinstance(s, ast.ClassDef):
            for f in s.body:
                if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)): out.append((f, s))
    return out


def mutant(seed, only):
    global BASE
    if BASE is None:
        BASE = Program()
    rng = random.Random(seed)
    allf = [(m, f, c) for m in BASE.modules.values() if only in m.name for f, c in fns(m.tree)]
    if "-w" in sys.argv:
        m, f, c = rng.choice(allf)
    else:
        w = [len(sites(f)) + 0.01 for m, f, c in allf] if not hasattr(mutant, "w") else mutant.w
        mutant.w = w
        m, f, c = rng.choices(allf, w)[0]
    t = copy.deepcopy(m.tree)
    for g, k in fns(t):
        if g.name == f.name and (k.name if k else None) == (c.name if c else None) and g.lineno == f.lineno:
            break
    ss = sites(g)
    if not ss:
        return None
    kind, n = rng.choice(ss)
    line = (getattr(n[0], n[1])[n[2]] if kind == "drop" else n).lineno
    before = ast.unparse(g)
    apply(kind, n, rng)
    t = ast.fix_missing_locations(Unid().visit(t))
    after = ast.unparse(g)
    if before == after:
        return None
    import difflib
    d = [x for x in difflib.unified_diff(before.splitlines(), after.splitlines(), lineterm="", n=0) if x[0] in "+-" and x[:3] not in ("+++", "---")]
    return m, f, c, kind, line, d, {str(m.path.relative_to(BASE.root / "src")): ast.unparse(t)}


def work(job):
    seed, only = job
    r = mutant(seed, only)
    if r is None:
        return None
    m, f, c, kind, line, d, overlay = r
    name = (c.name + "." if c else "") + f.name
    try:
        dd = Decider(Program(overlay=overlay))
        diff, und = [], []
        for o in dd.ref:
            v = dd.decide(o)
            if v.state in ("different", "gone"):
                diff.append(o)
                break
            elif v.state == "unknown": und.append((o, str(v.witness)[:150]))
        rules = []
        if not diff and "-r" in sys.argv:
            from pgstatic.rules import RULES
            from pgstatic.rules import run_rule
            for rn in RULES:
                rr = run_rule(rn, dd)
                if rr and rr.violations: rules.append(rn)
    except Exception as e:
        return seed, m.name, name, kind, line, d, ["EXC %r" % e], [], []
    return seed, m.name, name, kind, line, d, diff, und, rules


if __name__ == "__main__":
    n, s0 = int(sys.argv[1]), int(sys.argv[2])
    only = sys.argv[3] if len(sys.argv) > 3 and not sys.argv[3].startswith("-") else ""
    tot, det, undc = Counter(), Counter(), Counter()
    with mp.Pool(8, maxtasksperchild=40) as pool:
        for r in pool.imap_unordered(work, [(s0 + i, only) for i in range(n)]):
            if r is None:
                continue
            seed, mod, name, kind, line, d, diff, und, rules = r
            tot[kind] += 1
            if diff and diff[0].startswith("EXC"):
                print("EXC", seed, mod, name, kind, diff[0]); continue
            if diff or rules:
                det[kind] += 1
                continue
            undc[kind] += bool(und)
            print("UNDECIDED" if und else "MISSED", seed, mod.replace("pygerber.", ""), name, kind, line)
            for x in d[:6]: print("      ", x[:160])
            for o, w in und[:2]: print("       ?", o, w)
    print("total", sum(tot.values()), "detected", sum(det.values()), "undecided", sum(undc.values()))
    for k in tot: print(" ", k, tot[k], det[k], undc[k])
