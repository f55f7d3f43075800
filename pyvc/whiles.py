"""while v < e: ...; v += 1   as   for v in range(v, e): ...   when v and e change nowhere else in the body.
Applied to the syntax tree before loops are classified; the counting loop is checked to be one at run time (rt.counted)."""
import ast, copy

CONST = {"size", "begin", "end", "cbegin", "cend", "rows", "cols", "empty", "back", "front", "at", "length"}


def key(e):
    return ast.dump(e) if e is not None else None


def step_of(s, v=None):
    """v of `v += 1` / `v = v + 1`"""
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, ast.Add) and isinstance(s.value, ast.Constant) and s.value.value == 1 and not isinstance(s.value.value, bool):
        return s.target.id
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Add):
        l, r, t = s.value.left, s.value.right, s.targets[0].id
        if isinstance(l, ast.Name) and l.id == t and isinstance(r, ast.Constant) and r.value == 1:
            return t
        if isinstance(r, ast.Name) and r.id == t and isinstance(l, ast.Constant) and l.value == 1:
            return t
    return None


def stride_of(s):
    """(v, e) of `v += e` / `v = v + e` / `v = e + v`"""
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, ast.Add):
        return s.target.id, s.value
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Add):
        l, r, t = s.value.left, s.value.right, s.targets[0].id
        if isinstance(l, ast.Name) and l.id == t:
            return t, r
        if isinstance(r, ast.Name) and r.id == t:
            return t, l
    return None, None


def bound(e):
    """(names, self fields) an invariant bound depends on, or None"""
    if isinstance(e, ast.Constant):
        return set()
    if isinstance(e, ast.Name):
        return {e.id}
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub, ast.Mult)):
        a, b = bound(e.left), bound(e.right)
        return None if a is None or b is None else a | b
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
        return {e.value.id, "." + e.attr}
    if isinstance(e, ast.Call) and not e.keywords:
        if isinstance(e.func, ast.Name) and e.func.id == "len" and len(e.args) == 1:
            return bound(e.args[0])
        if isinstance(e.func, ast.Attribute) and e.func.attr in CONST and not e.args:
            return bound(e.func.value)
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == "_cx_" and e.func.attr in ("unsigned", "signed") and len(e.args) == 1:
            return bound(e.args[0])
    return None


class WhileToFor(ast.NodeTransformer):
    def __init__(self):
        self.fns = []

    def visit_FunctionDef(self, f):
        self.fns.append(f)
        self.generic_visit(f)
        self.fns.pop()
        return f

    def visit_While(self, n):
        self.generic_visit(n)
        if not self.fns or n.orelse or len(n.body) < 2:
            return n
        v, stride = step_of(n.body[-1]), None
        if v is None:
            v, stride = stride_of(n.body[-1])
            if v is None or bound(stride) is None or isinstance(stride, ast.Constant) or v in bound(stride):
                return n
        c = n.test
        if not (isinstance(c, ast.Compare) and len(c.ops) == 1):
            return n
        l, op, r = c.left, c.ops[0], c.comparators[0]
        if isinstance(op, (ast.Gt, ast.GtE)):
            l, op, r = r, {ast.Gt: ast.Lt, ast.GtE: ast.LtE}[type(op)](), l
        off = None
        if isinstance(l, ast.BinOp) and isinstance(l.op, ast.Add):
            if isinstance(l.left, ast.Name) and l.left.id == v:
                l, off = l.left, l.right
            elif isinstance(l.right, ast.Name) and l.right.id == v:
                l, off = l.right, l.left
        if isinstance(op, ast.NotEq) and isinstance(r, ast.Name) and r.id == v:
            l, r = r, l
        if not (isinstance(l, ast.Name) and l.id == v and isinstance(op, (ast.Lt, ast.LtE, ast.NotEq))):
            return n
        deps = bound(r)
        if off is not None:
            o = bound(off)
            deps = None if deps is None or o is None else deps | o
        if deps is None or v in deps:
            return n
        body = n.body[:-1]
        if stride is not None:
            if off is not None or not isinstance(op, ast.Lt) or any(isinstance(x, ast.Continue) for s in body for x in ast.walk(s)):
                return n
            deps = deps | bound(stride)
        ok, body = self.strip_continue(body, v)
        if not ok:
            return n
        brk = guard = False
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, (ast.Nonlocal, ast.Global)):
                    return n
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and (x.id == v or x.id in deps):
                    return n
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and "." + x.attr in deps:
                    return n
                if stride is None and isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, (ast.Name, ast.Attribute)) and x.func.attr not in CONST:
                    o = x.func.value.id if isinstance(x.func.value, ast.Name) else "." + x.func.value.attr
                    if o == "self":
                        guard = True
                    elif o in deps:
                        return n
            brk = brk or self.has_break(s)
        end = max(getattr(x, "end_lineno", 0) or 0 for x in ast.walk(n))
        mine = set(map(id, ast.walk(n)))
        used = any(isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load) and id(x) not in mine and self.later(n, x) for x in ast.walk(self.fns[-1]))
        if used and (brk or stride is not None):
            return n
        q = "_b_" + v
        none = ast.Constant(None)
        if guard and stride is None and "self" in deps:
            # a method is called: the bound is checked not to change
            if off is not None or any(isinstance(x, (ast.Continue, ast.Break, ast.Return)) for s in body for x in ast.walk(s) if not isinstance(s, ast.FunctionDef)):
                return n
            body = body + [ast.Expr(ast.Call(ast.Attribute(ast.Name(q, ast.Load()), "still", ast.Load()), [copy.deepcopy(r), ast.Constant(None)], []))]
        if stride is not None:
            # the step is checked not to change
            body = body + [ast.Expr(ast.Call(ast.Attribute(ast.Name(q, ast.Load()), "still", ast.Load()), [copy.deepcopy(r), copy.deepcopy(stride)], []))]
            off = stride
        mk = ast.Assign([ast.Name(q, ast.Store())], ast.Call(ast.Attribute(ast.Name("_E_", ast.Load()), "counted" if stride is None else "strided", ast.Load()), [ast.Name(v, ast.Load()), r, off or none, ast.Constant(type(op).__name__)], []))
        loop = ast.For(ast.Name(v, ast.Store()), ast.Name(q, ast.Load()), body or [ast.Pass()], [], None)
        out = [mk, loop]
        if used:
            out.append(ast.Assign([ast.Name(v, ast.Store())], ast.Attribute(ast.Name(q, ast.Load()), "after", ast.Load())))
        for x in out:
            ast.copy_location(x, n)
            ast.fix_missing_locations(x)
        return out

    def later(self, n, x):
        """may x be evaluated after the loop n? conservatively yes unless it is before it outside any enclosing loop"""
        for y in ast.walk(self.fns[-1]):
            if isinstance(y, (ast.For, ast.While)) and y is not n and any(z is n for z in ast.walk(y)):
                # inside another loop: not read again if v is set in the same block before the loop
                for z in ast.walk(y):
                    for blk in (getattr(z, "body", None), getattr(z, "orelse", None)):
                        if isinstance(blk, list) and any(s is n for s in blk):
                            pre = blk[:[i for i, s in enumerate(blk) if s is n][0]]
                            v = x.id
                            if any(isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id == v for s in pre):
                                return x.lineno > n.lineno
                return True
        return x.lineno > n.lineno

    def has_break(self, s):
        if isinstance(s, ast.Break):
            return True
        if isinstance(s, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            return False
        return any(self.has_break(c) for c in ast.iter_child_nodes(s))

    def strip_continue(self, stmts, v):
        out = []
        for i, s in enumerate(stmts):
            if isinstance(s, ast.Continue):
                if not out or step_of(out[-1]) != v:
                    return False, None
                out.pop()
                out.append(s)
                continue
            if isinstance(s, (ast.If, ast.With, ast.Try)):
                s = copy.copy(s)
                for f in ("body", "orelse", "finalbody"):
                    b = getattr(s, f, None)
                    if b:
                        ok, b = self.strip_continue(b, v)
                        if not ok:
                            return False, None
                        setattr(s, f, b)
                if isinstance(s, ast.Try) and any(isinstance(x, ast.Continue) for h in s.handlers for x in ast.walk(h)):
                    return False, None
            out.append(s)
        return True, out
