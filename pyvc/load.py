"""pyvc.load - mechanical extraction of the code under verification.

Each module of /repo/src/irspack that a contract needs is parsed from the current working tree and transformed:
 * for/while loops inside functions call the engine's loop rules (native behaviour on concrete iterables);
 * list/dict/set displays and comprehensions build containers that can also hold symbolic sequences;
 * attribute/subscript stores, `not`, f-strings are routed through the engine (same behaviour on concrete values);
 * except clauses never catch the engine's control exceptions.
Nothing else is changed: every statement and expression of the source is executed.  Annotations are dropped.
"""
import ast, os, sys, types, copy, builtins
from .core import E, Control, unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")


def names_stored(nodes):
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            for g in n.generators:
                self.visit(g.iter)

        visit_SetComp = visit_GeneratorExp = visit_ListComp
        visit_DictComp = visit_ListComp

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])

        visit_ImportFrom = visit_Import

    for n in nodes:
        V().visit(n)
    return out


def names_loaded(nodes):
    out = set()
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                out.add(x.id)
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                out.add(x.target.id)
    return out


def read_before_write(stmts, assigned, defined):
    """names of `assigned` possibly read before being written, in order"""
    bad = set()
    defined = set(defined)

    def expr(e):
        for x in ast.walk(e):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in assigned and x.id not in defined:
                bad.add(x.id)

    for s in stmts:
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                if s.target.id in assigned and s.target.id not in defined:
                    bad.add(s.target.id)
            else:
                expr(s.target)
            expr(s.value)
        elif isinstance(s, ast.If):
            expr(s.test)
            b1, d1 = read_before_write(s.body, assigned, defined)
            b2, d2 = read_before_write(s.orelse, assigned, defined)
            bad |= b1 | b2
            j1 = bool(s.body) and isinstance(s.body[-1], (ast.Continue, ast.Raise, ast.Return, ast.Break))
            j2 = bool(s.orelse) and isinstance(s.orelse[-1], (ast.Continue, ast.Raise, ast.Return, ast.Break))
            defined = d2 if j1 and not j2 else d1 if j2 and not j1 else d1 & d2
        elif isinstance(s, ast.For):
            expr(s.iter)
            b, _ = read_before_write(s.body, assigned, defined | names_stored([s.target]))
            bad |= b
            b, _ = read_before_write(s.orelse, assigned, defined)
            bad |= b
        elif isinstance(s, (ast.While, ast.Try, ast.With)):
            if isinstance(s, ast.With):
                for it in s.items:
                    expr(it.context_expr)
                    if it.optional_vars:
                        defined |= names_stored([it.optional_vars])
                b, d = read_before_write(s.body, assigned, defined)
                bad |= b
                defined = d
            elif isinstance(s, ast.Try):
                b, d = read_before_write(s.body + s.orelse, assigned, defined)
                bad |= b
                for h in s.handlers:
                    if h.type is not None:
                        expr(h.type)
                    b, dh = read_before_write(h.body, assigned, defined | ({h.name} if h.name else set()))
                    bad |= b
                    if not (h.body and isinstance(h.body[-1], (ast.Continue, ast.Raise, ast.Return, ast.Break))):
                        d = d & dh
                b, df = read_before_write(s.finalbody, assigned, defined)
                bad |= b
                defined = d | df
            else:
                expr(s)
        else:
            expr(s)
            defined |= names_stored([s]) if isinstance(s, (ast.Assign, ast.AnnAssign, ast.FunctionDef)) else set()
    return bad, defined


def jumps(stmts, kinds):
    """does the body contain such a jump belonging to this loop (break/continue) or function (return/yield)"""
    found = False

    def walk(n, inloop):
        nonlocal found
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            return
        if isinstance(n, kinds):
            if not (inloop and isinstance(n, (ast.Break, ast.Continue))):
                found = True
        il = inloop or isinstance(n, (ast.For, ast.While))
        for c in ast.iter_child_nodes(n):
            walk(c, il)

    for s in stmts:
        walk(s, False)
    return found


class ContinueToReturn(ast.NodeTransformer):
    def __init__(self, value=None):
        self.value = value

    def visit_For(self, n):
        return n

    visit_While = visit_FunctionDef = visit_Lambda = visit_For

    def visit_Continue(self, n):
        return ast.copy_location(ast.Return(value=copy.deepcopy(self.value)), n)

    def visit_Break(self, n):
        return ast.copy_location(ast.Return(value=ast.Attribute(value=ast.Name(id="_E_", ctx=ast.Load()), attr="BREAK", ctx=ast.Load())), n)


def call(name, *args):
    return ast.Call(func=ast.Attribute(value=ast.Name(id="_E_", ctx=ast.Load()), attr=name, ctx=ast.Load()), args=list(args), keywords=[])


def const(v):
    return ast.Constant(value=v)


def thunk(e):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)


def targ(name):
    return ast.arguments(posonlyargs=[], args=[ast.arg(arg=name)], kwonlyargs=[], kw_defaults=[], defaults=[])


class Transform(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []      # enclosing function nodes (originals)
        self.nloop = 0
        self.ntmp = 0
        self.qual = []
        self.count = {}

    # ---- scopes
    def visit_FunctionDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self._args(n.args)
        self.stack.append(copy.deepcopy(n))
        self.qual.append(n.name)
        n.body = [ast.copy_location(ast.Expr(value=call("enter", const(self.mod + "." + ".".join(self.qual)))), n.body[0])] + self.body(n.body)
        self.qual.pop()
        self.stack.pop()
        n.returns = None
        return n

    def _args(self, a):
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            x.annotation = None
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        return a

    def visit_Lambda(self, n):
        self.stack.append(None) if False else None
        n.args = self._args(n.args)
        n.body = self.visit(n.body)
        return n

    def visit_ClassDef(self, n):
        self.qual.append(n.name)
        st, self.stack = self.stack, []
        n.bases = [self.visit(b) for b in n.bases]
        n.decorator_list = [self.visit(b) for b in n.decorator_list]
        n.body = self.body(n.body)
        self.stack = st
        self.qual.pop()
        return n

    def body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out or [ast.Pass()]

    def tmp(self, p="t"):
        self.ntmp += 1
        return "_%s_%d_" % (p, self.ntmp)

    # ---- statements
    def visit_AnnAssign(self, n):
        if not self.stack and not self.qual:
            return n if n.value is None else ast.copy_location(ast.Assign(targets=[n.target], value=self.visit(n.value)), n)
        if n.value is None:
            if self.stack:
                return ast.copy_location(ast.Pass(), n)
            # class level: keep the annotation (pydantic-like configs) but as Any
            n.annotation = ast.copy_location(self.visit(n.annotation), n)
            return n
        if not self.stack:
            n.value = self.visit(n.value)
            return n
        return self.visit_Assign(ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n))

    def visit_Assign(self, n):
        n.value = self.visit(n.value)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and self.stack:
            t = n.targets[0]
            return ast.copy_location(ast.Expr(value=call("setattr", self.visit(t.value), const(t.attr), n.value)), n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) and self.stack:
            t = n.targets[0]
            return ast.copy_location(ast.Expr(value=call("setitem", self.visit(t.value), self.visit(t.slice), n.value)), n)
        if len(n.targets) == 1 and isinstance(n.targets[0], (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in n.targets[0].elts):
            n.value = call("unpack", n.value, const(len(n.targets[0].elts)))
        n.targets = [self.visit(t) for t in n.targets]
        return n

    def visit_AugAssign(self, n):
        val = self.visit(n.value)
        if isinstance(n.target, ast.Name) or not self.stack:
            n.value = val
            n.target = self.visit(n.target)
            if isinstance(n.target, ast.Name):
                return ast.copy_location(ast.Assign(targets=[ast.Name(id=n.target.id, ctx=ast.Store())],
                    value=call("iop", const(type(n.op).__name__), ast.Name(id=n.target.id, ctx=ast.Load()), val)), n)
            return n
        obj = self.tmp("o")
        pre = ast.Assign(targets=[ast.Name(id=obj, ctx=ast.Store())], value=self.visit(n.target.value))
        o = ast.Name(id=obj, ctx=ast.Load())
        if isinstance(n.target, ast.Attribute):
            get = ast.Attribute(value=o, attr=n.target.attr, ctx=ast.Load())
            st = ast.Expr(value=call("setattr", o, const(n.target.attr), call("iop", const(type(n.op).__name__), get, val)))
            return [ast.copy_location(pre, n), ast.copy_location(st, n)]
        key = self.tmp("k")
        pk = ast.Assign(targets=[ast.Name(id=key, ctx=ast.Store())], value=self.visit(n.target.slice))
        k = ast.Name(id=key, ctx=ast.Load())
        get = ast.Subscript(value=o, slice=k, ctx=ast.Load())
        st = ast.Expr(value=call("setitem", o, k, call("iop", const(type(n.op).__name__), get, val)))
        return [ast.copy_location(x, n) for x in (pre, pk, st)]

    def visit_Try(self, n):
        n.body = self.body(n.body)
        hs = []
        for h in n.handlers:
            if h.type is None:
                h.type = ast.Attribute(value=ast.Name(id="_E_", ctx=ast.Load()), attr="AnyExc", ctx=ast.Load())
            else:
                h.type = self.visit(h.type)
            h.body = self.body(h.body)
            hs.append(h)
        if hs:
            hs.insert(0, ast.ExceptHandler(type=ast.Attribute(value=ast.Name(id="_E_", ctx=ast.Load()), attr="Control", ctx=ast.Load()), name=None, body=[ast.Raise()]))
        n.handlers = hs
        n.orelse = self.body(n.orelse) if n.orelse else []
        if n.finalbody:
            n.finalbody = [ast.If(test=call("live"), body=self.body(n.finalbody), orelse=[])]
        return n

    def visit_If(self, n):
        n.test = self.visit(n.test)
        n.body = self.body(n.body)
        n.orelse = self.body(n.orelse) if n.orelse else []
        return n

    def visit_With(self, n):
        for it in n.items:
            it.context_expr = self.visit(it.context_expr)
            if it.optional_vars is not None:
                it.optional_vars = self.visit(it.optional_vars)
        n.body = self.body(n.body)
        return n

    def visit_ImportFrom(self, n):
        return n

    def loopid(self):
        q = ".".join(self.qual)
        self.count[q] = self.count.get(q, 0) + 1
        return "%s.%s#%d" % (self.mod, q, self.count[q])

    def visit_For(self, n):
        if not self.stack:
            n.iter = self.visit(n.iter); n.body = self.body(n.body); n.orelse = self.body(n.orelse) if n.orelse else []
            return n
        lid = self.loopid()
        fn = self.stack[-1]
        assigned = names_stored(n.body) | names_stored([n.target])
        tnames = names_stored([n.target])
        carried, _ = read_before_write(n.body, assigned, tnames)
        # names used after the loop (anywhere outside the loop statement in the function, conservatively)
        rest = Rest(n).run(fn)
        after = assigned & rest
        maplike = not carried and not after and not n.orelse and not jumps(n.body, (ast.Return, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal))
        brk = jumps(n.body, (ast.Break,))
        it, lp = self.tmp("it"), self.tmp("L")
        itn = ast.Name(id=it, ctx=ast.Load())
        pre = ast.Assign(targets=[ast.Name(id=it, ctx=ast.Store())], value=call("iter_", self.visit(n.iter)))
        body2 = copy.deepcopy(n.body)
        tgt2 = copy.deepcopy(n.target)
        # cut-point version
        out = []
        out.append(ast.Assign(targets=[ast.Name(id=lp, ctx=ast.Store())], value=call("loop", const(lid), itn, const(tuple(sorted(carried | after))), const(tuple(sorted(tnames))))))
        lpn = ast.Name(id=lp, ctx=ast.Load())
        hv = []
        for v in sorted(carried | after):
            hv.append(ast.Assign(targets=[ast.Name(id=v, ctx=ast.Store())],
                value=ast.Call(func=ast.Attribute(value=lpn, attr="havoc", ctx=ast.Load()), args=[const(v), call("peek", call("getlocals"), const(v))], keywords=[])))
        out.append(ast.If(test=ast.Attribute(value=lpn, attr="symbolic", ctx=ast.Load()), body=hv or [ast.Pass()], orelse=[]))
        q = self.count.copy()
        nb = self.body(n.body)
        norelse = self.body(n.orelse) if n.orelse else []
        out.append(ast.For(target=self.visit(n.target), iter=lpn, body=nb, orelse=norelse))
        if maplike:
            self.count = q
            fname, arg = self.tmp("body"), self.tmp("a")
            bd = [ContinueToReturn().visit(s) for s in body2]
            bd = self.body(bd)
            fdef = ast.FunctionDef(name=fname, args=targ(arg), body=[ast.Assign(targets=[tgt2], value=ast.Name(id=arg, ctx=ast.Load()))] + bd, decorator_list=[], returns=None, type_params=[])
            out = [ast.If(test=call("symiter", itn), body=[fdef, ast.Expr(value=call("map_loop", const(lid), itn, ast.Name(id=fname, ctx=ast.Load()), const(brk)))], orelse=out)]
        acc = sorted(carried)
        if not maplike and acc and after <= carried and not n.orelse and not jumps(n.body, (ast.Break, ast.Return, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal)) and not carried & tnames:
            q2 = self.count
            self.count = q.copy()
            fname, arg, res = self.tmp("body"), self.tmp("a"), self.tmp("r")
            tup = lambda ctx: ast.Tuple(elts=[ast.Name(id=v, ctx=ctx()) for v in acc], ctx=ctx())
            bd = [ContinueToReturn(tup(ast.Load)).visit(s) for s in copy.deepcopy(body2)]
            bd = self.body(bd)
            self.count = q2
            args = ast.arguments(posonlyargs=[], args=[ast.arg(arg=arg)] + [ast.arg(arg=v) for v in acc], kwonlyargs=[], kw_defaults=[], defaults=[])
            fdef = ast.FunctionDef(name=fname, args=args, body=[ast.Assign(targets=[tgt2], value=ast.Name(id=arg, ctx=ast.Load()))] + bd + [ast.Return(value=tup(ast.Load))], decorator_list=[], returns=None, type_params=[])
            get = ast.Tuple(elts=[call("peek", call("getlocals"), const(v)) for v in acc], ctx=ast.Load())
            rn = ast.Name(id=res, ctx=ast.Load())
            out = [ast.If(test=call("symiter", itn), body=[fdef, ast.Assign(targets=[ast.Name(id=res, ctx=ast.Store())], value=call("map_acc", const(lid), itn, ast.Name(id=fname, ctx=ast.Load()), get))],
                          orelse=[ast.Assign(targets=[ast.Name(id=res, ctx=ast.Store())], value=const(None))]),
                   ast.If(test=ast.Compare(left=rn, ops=[ast.IsNot()], comparators=[const(None)]), body=[ast.Assign(targets=[tup(ast.Store)], value=rn)], orelse=out)]
        return [ast.copy_location(x, n) for x in [pre] + out]

    def visit_While(self, n):
        if not self.stack:
            self.generic_visit(n)
            return n
        lid = self.loopid()
        assigned = names_stored(n.body)
        carried, _ = read_before_write([ast.Expr(value=n.test)] + n.body, assigned, ())
        assigned = carried | (assigned & Rest(n).run(self.stack[-1]))
        lp = self.tmp("W")
        lpn = ast.Name(id=lp, ctx=ast.Load())
        test = self.visit(n.test)
        nb = self.body(n.body)
        norelse = self.body(n.orelse) if n.orelse else []
        pre = ast.Assign(targets=[ast.Name(id=lp, ctx=ast.Store())], value=call("while_", const(lid), const(tuple(sorted(assigned)))))
        hv = []
        for v in sorted(assigned):
            hv.append(ast.Assign(targets=[ast.Name(id=v, ctx=ast.Store())],
                value=ast.Call(func=ast.Attribute(value=lpn, attr="havoc", ctx=ast.Load()), args=[const(v), call("peek", call("getlocals"), const(v))], keywords=[])))
        # while True: if W.enter(): havoc ; if not W.test(cond): break-with-else ; body
        head = [ast.If(test=ast.Call(func=ast.Attribute(value=lpn, attr="enter", ctx=ast.Load()), args=[thunk(copy.deepcopy(test))], keywords=[]), body=hv or [ast.Pass()], orelse=[])]
        loop = ast.While(test=ast.BoolOp(op=ast.And(), values=[
            ast.Call(func=ast.Attribute(value=lpn, attr="head", ctx=ast.Load()), args=[], keywords=[]),
            test]), body=nb, orelse=norelse)
        loop = ast.Try(body=[loop], handlers=[], orelse=[], finalbody=[ast.If(test=call("live"), body=[ast.Expr(value=ast.Call(func=ast.Attribute(value=lpn, attr="exit", ctx=ast.Load()), args=[], keywords=[]))], orelse=[])])
        return [ast.copy_location(x, n) for x in [pre] + head + [loop]]

    # ---- expressions
    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec
                s = const("")
                if spec is not None:
                    s = self.visit_JoinedStr(spec)
                parts.append(ast.Tuple(elts=[self.visit(v.value), const(v.conversion), s], ctx=ast.Load()))
        return ast.copy_location(call("fstr", *parts), n)

    def visit_UnaryOp(self, n):
        n.operand = self.visit(n.operand)
        return n

    def visit_List(self, n):
        if not isinstance(n.ctx, ast.Load):
            self.generic_visit(n)
            return n
        self.generic_visit(n)
        return ast.copy_location(call("vlist", n), n) if self.stack else n

    def visit_Dict(self, n):
        self.generic_visit(n)
        if not self.stack:
            return n
        items = []
        for k, v in zip(n.keys, n.values):
            items.append(ast.Tuple(elts=[const(None) if k is None else k, v, const(k is None)], ctx=ast.Load()))
        return ast.copy_location(call("vdict", *items), n)

    def comp(self, n, kind, elt):
        gens = n.generators

        def build(i):
            g = gens[i]
            arg = self.tmp("c")
            inner = elt() if i == len(gens) - 1 else build(i + 1)
            cond = None
            if g.ifs:
                cond = self.visit(copy.deepcopy(g.ifs[0])) if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=[self.visit(copy.deepcopy(c)) for c in g.ifs])
            # target destructuring through a nested lambda
            f = self.unpack_lambda(g.target, inner)
            c = self.unpack_lambda(g.target, cond) if cond is not None else const(None)
            return call("comp", const(kind if i == len(gens) - 1 else "flat_" + kind), self.visit(copy.deepcopy(g.iter)), f, c)

        return build(0)

    def unpack_lambda(self, target, body):
        """lambda x: (lambda a, b: body)(*unpack(x))"""
        if isinstance(target, ast.Name):
            return ast.Lambda(args=targ(target.id), body=body)
        arg = self.tmp("u")
        a = ast.Name(id=arg, ctx=ast.Load())
        if isinstance(target, (ast.Tuple, ast.List)) and all(isinstance(t, ast.Name) for t in target.elts):
            inner = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=t.id) for t in target.elts], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)
            # duplicate names such as `_`
            if len({t.id for t in target.elts}) != len(target.elts):
                unsupported("repeated name in comprehension target")
            return ast.Lambda(args=targ(arg), body=ast.Call(func=inner, args=[ast.Starred(value=call("unpack", a, const(len(target.elts))), ctx=ast.Load())], keywords=[]))
        if isinstance(target, (ast.Tuple, ast.List)):
            names = [self.tmp("n") if not isinstance(t, ast.Name) else t.id for t in target.elts]
            b = body
            for t, nm in zip(target.elts, names):
                if not isinstance(t, ast.Name):
                    b = ast.Call(func=self.unpack_lambda(t, b), args=[ast.Name(id=nm, ctx=ast.Load())], keywords=[])
            inner = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=x) for x in names], kwonlyargs=[], kw_defaults=[], defaults=[]), body=b)
            return ast.Lambda(args=targ(arg), body=ast.Call(func=inner, args=[ast.Starred(value=call("unpack", a, const(len(names))), ctx=ast.Load())], keywords=[]))
        unsupported("comprehension target")

    def visit_ListComp(self, n):
        if not self.stack:
            self.generic_visit(n)
            return n
        return ast.copy_location(self.comp(n, "list", lambda: self.visit(copy.deepcopy(n.elt))), n)

    def visit_GeneratorExp(self, n):
        if not self.stack:
            self.generic_visit(n)
            return n
        return ast.copy_location(self.comp(n, "gen", lambda: self.visit(copy.deepcopy(n.elt))), n)

    def visit_SetComp(self, n):
        if not self.stack:
            self.generic_visit(n)
            return n
        return ast.copy_location(self.comp(n, "set", lambda: self.visit(copy.deepcopy(n.elt))), n)

    def visit_DictComp(self, n):
        if not self.stack:
            self.generic_visit(n)
            return n
        return ast.copy_location(self.comp(n, "dict", lambda: ast.Tuple(elts=[self.visit(copy.deepcopy(n.key)), self.visit(copy.deepcopy(n.value))], ctx=ast.Load())), n)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = call("contains", n.left, n.comparators[0])
            return ast.copy_location(c if isinstance(n.ops[0], ast.In) else ast.UnaryOp(op=ast.Not(), operand=c), n)
        return n


class Rest:
    """names possibly read, before being written, after a given statement of a function (matched by position)"""

    def __init__(self, stmt):
        self.pos = (stmt.lineno, stmt.col_offset)

    def path(self, stmts):
        """[(following statements of its block, enclosing statement or None)], innermost first; None if the statement is not here"""
        for i, s in enumerate(stmts):
            if isinstance(s, (ast.For, ast.While)) and (s.lineno, s.col_offset) == self.pos:
                return [(stmts[i + 1:], None)]
            for f in ("body", "orelse", "finalbody", "handlers"):
                sub = getattr(s, f, None)
                if not isinstance(sub, list) or isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    continue
                for blk in ([h.body for h in sub] if f == "handlers" else [sub]):
                    r = self.path(blk)
                    if r is not None:
                        return r[:-1] + [(r[-1][0], s)] + [(stmts[i + 1:], None)]
        return None

    def run(self, fn):
        p = self.path(fn.body)
        names = names_stored(fn.body)
        if p is None:
            return names
        cont = []
        for follow, enclosing in p:
            cont += follow
            if isinstance(enclosing, ast.For):
                # next iteration of an enclosing loop, or its end
                cont.append(ast.If(test=const(True), body=[ast.For(target=enclosing.target, iter=enclosing.iter, body=enclosing.body, orelse=enclosing.orelse)], orelse=[]))
            elif isinstance(enclosing, ast.While):
                cont.append(ast.If(test=enclosing.test, body=enclosing.body, orelse=enclosing.orelse))
            elif isinstance(enclosing, ast.Try):
                cont.append(ast.If(test=const(True), body=[x for h in enclosing.handlers for x in h.body] + enclosing.orelse, orelse=[]))
                cont.append(ast.If(test=const(True), body=enclosing.finalbody or [ast.Pass()], orelse=[]))
        # names bound by a deletion or read by a nested function count as read
        for s in fn.body:
            for x in ast.walk(s):
                if isinstance(x, (ast.FunctionDef, ast.Lambda)) and not (isinstance(x, ast.Lambda)):
                    cont.append(ast.Expr(value=ast.Tuple(elts=[y for z in x.body for y in ast.walk(z) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load) and y.id not in {a.arg for a in x.args.posonlyargs + x.args.args + x.args.kwonlyargs}], ctx=ast.Load())))
        return read_before_write(cont, names, ())[0]


class Loader:
    """imports the transformed modules of the package under verification"""

    def __init__(self, rt, models, stubs=None, src=None):
        self.rt = rt
        self.models = models
        self.src = src or SRC
        self.modules = {}
        self.builtins = dict(builtins.__dict__)
        self.builtins.update(rt.BUILTINS)
        self.builtins["__import__"] = self.imp
        self.files = {}

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.models:
            return self.models[name]
        rel = name.replace(".", "/")
        for p, pkg in ((os.path.join(self.src, rel, "__init__.py"), True), (os.path.join(self.src, rel + ".py"), False)):
            if os.path.exists(p):
                break
        else:
            raise ModuleNotFoundError(name)
        m = types.ModuleType(name)
        m.__file__ = p
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [os.path.dirname(p)]
        self.modules[name] = m
        parent, _, leaf = name.rpartition(".")
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__["_E_"] = self.rt
        if pkg and name in self.skip_init:
            pass
        else:
            text = open(p).read()
            self.files[os.path.relpath(p, self.src)] = True
            tree = ast.parse(text, p)
            from .whiles import WhileToFor
            tree = WhileToFor().visit(tree)
            tree = Transform(name).visit(tree)
            ast.fix_missing_locations(tree)
            exec(compile(tree, p, "exec"), m.__dict__)
        if parent in self.modules:
            setattr(self.modules[parent], leaf, m)
        return m

    skip_init = {"irspack", "irspack.recommenders", "irspack.evaluation", "irspack.optimization", "irspack.split", "irspack.dataset", "irspack.dataset.movielens"}

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals["__package__"].split(".")
            base = base[: len(base) - (level - 1)]
            name = ".".join(base + ([name] if name else []))
        top = name.split(".")[0]
        if top == "irspack" or name in self.models or top in self.models:
            m = self._get(name)
            if fromlist:
                if any(name + "." + f in self.models for f in fromlist) and top != "irspack":
                    m = types.SimpleNamespace(**{f: self.models[name + "." + f] if name + "." + f in self.models else getattr(m, f) for f in fromlist})
                    return m
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        try:
                            setattr(m, f, self._get(name + "." + f))
                        except ModuleNotFoundError:
                            r = self.resolve(name, f)
                            if r is not None:
                                setattr(m, f, r)
                return m
            return self._get(top)
        if top in NATIVE:
            return builtins.__import__(name, globals, locals, fromlist, 0)
        unsupported("import of %s" % name)

    def resolve(self, pkg, attr):
        """from PKG import NAME where PKG's __init__ is not executed: find the submodule that defines NAME"""
        if pkg not in self.skip_init:
            return None
        p = os.path.join(self.src, pkg.replace(".", "/"), "__init__.py")
        tree = ast.parse(open(p).read())
        for n in ast.walk(tree):
            if isinstance(n, ast.ImportFrom) and n.level == 1:
                for a in n.names:
                    if (a.asname or a.name) == attr:
                        return getattr(self._get(pkg + "." + n.module), a.name) if n.module else self._get(pkg + "." + a.name)
        return None

    def _get(self, name):
        if name in self.models:
            return self.models[name]
        top = name.split(".")[0]
        if top != "irspack" and top in self.models:
            m = self.models[top]
            for part in name.split(".")[1:]:
                if not hasattr(m, part):
                    raise ModuleNotFoundError(name)
                m = getattr(m, part)
            return m
        parts = name.split(".")
        for i in range(1, len(parts)):
            self.load(".".join(parts[:i]))
        return self.load(name)


NATIVE = {"typing", "abc", "enum", "re", "logging", "collections", "functools", "warnings", "dataclasses", "copy", "itertools", "types", "contextlib", "string", "numbers", "operator", "__future__", "math", "io", "datetime", "json", "time", "sys"}
