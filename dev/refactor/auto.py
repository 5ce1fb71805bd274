"""python3 dev/refactor/auto.py OUTDIR VARIANT: copy of the package, rewritten mechanically without change of behaviour."""
import ast, pathlib, shutil, sys

class Names(ast.NodeVisitor):
    def __init__(self): self.stored, self.other = set(), set()
    def visit_Name(self, n): (self.stored if isinstance(n.ctx, ast.Store) else self.other).add(n.id)
    def visit_FunctionDef(self, n): self.other.add("*nested*"); self.generic_visit(n)
    visit_Lambda = visit_ClassDef = visit_FunctionDef
    def visit_Global(self, n): self.other.add("*nested*")
    visit_Nonlocal = visit_Global
    def visit_ExceptHandler(self, n): self.other.add("*exc*"); self.generic_visit(n)
    def visit_NamedExpr(self, n): self.generic_visit(n)
    def visit_MatchAs(self, n): self.other.add("*nested*")

class Rename(ast.NodeTransformer):
    def __init__(self, m): self.m = m
    def visit_Name(self, n):
        n.id = self.m.get(n.id, n.id); return n

def blocks(n):
    for f in ("body", "orelse", "finalbody"):
        b = getattr(n, f, None)
        if isinstance(b, list) and b and isinstance(b[0], ast.stmt): yield f, b

def neg(e): return e.operand if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not) else ast.UnaryOp(ast.Not(), e)
def name(x, c=None): return ast.Name(x, c or ast.Load())
def assign(x, e): return ast.Assign([name(x, ast.Store())], e)
def ends(b): return isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
def simple(e): return isinstance(e, (ast.Constant, ast.Name))

class V:
    def __init__(self): self.n = 0
    def tmp(self, w): self.n += 1; return f"{w}_{self.n}"
    def stmts(self, body):
        out = []
        for s in body: out += self.stmt(s)
        return out
    def walk(self, tree):
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)): pass
                self.fn(n)
        return tree
    def fn(self, f):
        f._done = True
        doc = [f.body[0]] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, (ast.Constant, ast.JoinedStr)) else []
        rest = f.body[len(doc):]
        f.body = doc + (self.rec(rest) or [ast.Pass()] if rest else [])
    def rec(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)): continue
            for fld, b in blocks(s): setattr(s, fld, self.rec(b))
            if isinstance(s, ast.Try):
                for h in s.handlers: h.body = self.rec(h.body)
        return self.stmts(body)

class Temps(V):  # names, temporaries
    def fn(self, f):
        n = Names()
        for s in f.body: n.visit(s)
        if "*nested*" not in n.other and "*exc*" not in n.other and not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("locals", "vars", "eval", "exec") for x in ast.walk(f)):
            args = {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)}
            r = Rename({x: f"the_{x}" for x in n.stored - args})
            f.body = [r.visit(s) for s in f.body]
        super().fn(f)
    def stmt(self, s):
        pre = []
        v = getattr(s, "value", None)
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.Call) and v.args and isinstance(v.args[0], ast.Call) and (isinstance(v.func, ast.Name) or isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name)):
            t = self.tmp("inner"); pre.append(assign(t, v.args[0])); v.args[0] = name(t)
        if isinstance(s, ast.Return) and s.value is not None and not simple(s.value):
            t = self.tmp("result"); return pre + [assign(t, s.value), ast.Return(name(t))]
        return pre + [s]

class Branches(V):
    def stmt(self, s):
        if isinstance(s, ast.If):
            if s.orelse and not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)):
                s.test, s.body, s.orelse = neg(s.test), s.orelse, s.body
            elif not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) and not any(isinstance(x, ast.NamedExpr) for x in ast.walk(s.test)):
                b = s.body
                for t in reversed(s.test.values): b = [ast.If(t, b, [])]
                return b
        v = getattr(s, "value", None)
        if isinstance(v, ast.IfExp):
            if isinstance(s, ast.Return): return [ast.If(v.test, [ast.Return(v.body)], [ast.Return(v.orelse)])]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                x = s.targets[0].id
                return [ast.If(v.test, [assign(x, v.body)], [assign(x, v.orelse)])]
        return [s]
    def stmts(self, body):
        body = super().stmts(body)
        for i, s in enumerate(body[:-1]):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and not any(isinstance(x, (ast.FunctionDef,)) for x in body[i + 1:]):
                s.orelse = self.stmts2(body[i + 1:]); return body[:i + 1]
        return body
    def stmts2(self, body):
        for i, s in enumerate(body[:-1]):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body):
                s.orelse = self.stmts2(body[i + 1:]); return body[:i + 1]
        return body

class Loops(V):
    def stmt(self, s):
        v = getattr(s, "value", None)
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, (ast.ListComp, ast.DictComp, ast.SetComp)) and not any(isinstance(x, (ast.Lambda, ast.NamedExpr)) for x in ast.walk(v)):
            t = self.tmp("collected")
            stored = {x.id for g in v.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            inner = [x for x in ast.walk(v) if x is not v and isinstance(x, (ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp))]
            if inner: return [s]
            first = v.generators[0].iter
            pre = []
            if any(isinstance(x, ast.Name) and x.id in stored for x in ast.walk(first)):
                u = self.tmp("over"); pre = [assign(u, first)]; v.generators[0].iter = name(u)
                keep, v.generators[0].iter = v.generators[0].iter, ast.Constant(None)
                v = Rename({x: f"{x}_{self.n}" for x in stored}).visit(v); v.generators[0].iter = keep
            else:
                v = Rename({x: f"{x}_{self.n}" for x in stored}).visit(v)
            if isinstance(v, ast.DictComp):
                b, e = [ast.Assign([ast.Subscript(name(t), v.key, ast.Store())], v.value)], ast.Dict([], [])
            elif isinstance(v, ast.ListComp):
                b, e = [ast.Expr(ast.Call(ast.Attribute(name(t), "append", ast.Load()), [v.elt], []))], ast.List([], ast.Load())
            else:
                b, e = [ast.Expr(ast.Call(ast.Attribute(name(t), "add", ast.Load()), [v.elt], []))], ast.Call(name("set"), [], [])
            for g in reversed(v.generators):
                for c in reversed(g.ifs): b = [ast.If(c, b, [])]
                b = [ast.For(g.target, g.iter, b, [])]
            s.value = name(t)
            return pre + [assign(t, e)] + b + [s]
        return [s]

class Helpers(V):
    """Last expression of each module function becomes a local function."""
    def fn(self, f):
        super().fn(f)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)): return
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("super", "locals") for x in ast.walk(f)): return
        r = f.body[-1]
        if isinstance(r, ast.Return) and r.value is not None and not simple(r.value) and not any(isinstance(x, ast.NamedExpr) for x in ast.walk(r)):
            h = ast.FunctionDef("finish", ast.arguments([], [], None, [], [], None, []), [ast.Return(r.value)], [])
            f.body[-1:] = [h, ast.Return(ast.Call(name("finish"), [], []))]
    def stmt(self, s): return [s]

VAR = dict(temps=[Temps], branches=[Branches], loops=[Loops], helpers=[Helpers], all=[Loops, Branches, Temps])
if __name__ == "__main__":
    out, var = pathlib.Path(sys.argv[1]), sys.argv[2]
    if out.exists(): shutil.rmtree(out)
    shutil.copytree("/repo/portfolyo", out / "portfolyo", ignore=shutil.ignore_patterns("__pycache__"))
    for p in sorted((out / "portfolyo").rglob("*.py")):
        t = ast.parse(p.read_text())
        for c in VAR[var]: t = c().walk(t)
        ast.fix_missing_locations(t)
        src = ast.unparse(t); compile(src, str(p), "exec"); p.write_text(src + "\n")
