"""pyvc.cpp - C++ functions of /repo/cpp_source brought into the verifier

clang parses the translation unit (its own type checking, overload resolution and template instantiation); the JSON syntax tree of the functions of
the given namespace is rewritten, node by node, to a Python module that is then verified like the package's Python code.
What the rewriting drops: machine-integer overflow and the rounding of floating-point numbers; const, access and inline specifiers; destructors.
A construct without a rule becomes a call that makes the verifier refuse the function ('outside the subset')."""
import ast, hashlib, json, os, re, shutil, subprocess, types
from .core import unsupported, E
from . import load, rt

REPO = os.environ.get("VERIF_REPO", "/repo")
SHIM = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "shim")
DECLS = ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXConversionDecl")


def dump(src, filt):
    cc = next((c for c in ("clang++-18", "/usr/bin/clang++-18", "clang++") if shutil.which(c)), None)
    if cc is None:
        unsupported("no clang")
    cmd = [cc, "-std=c++17", "-w", "-I" + SHIM, "-I" + os.path.join(REPO, "cpp_source"), "-I/usr/include/eigen3", "-I/usr/include/python3.12", "-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang",
           "-ast-dump-filter=" + filt, os.path.join(REPO, "cpp_source", src)]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        unsupported("clang does not accept %s: %s" % (src, p.stderr[-300:]))
    d, s, i, out = json.JSONDecoder(), p.stdout, 0, []
    while i < len(s):
        while i < len(s) and s[i].isspace():
            i += 1
        if i < len(s):
            o, i = d.raw_decode(s, i)
            out.append(o)
    return out


class No(Exception):
    pass


def ty(n):
    t = n.get("type", {})
    return t.get("desugaredQualType") or t.get("qualType", "")


def bare(t):
    return re.sub(r"\s*&+$", "", re.sub(r"^const ", "", t.strip())).strip()


UNSIGNED = {"unsigned long", "unsigned int", "size_t", "std::size_t", "unsigned short", "unsigned char", "uint64_t", "std::uint64_t", "unsigned long long"}
SIGNED = {"int", "long", "long long", "short", "int64_t", "std::int64_t", "signed char", "ptrdiff_t", "std::ptrdiff_t"}
FLOATS = {"float", "double", "long double"}


def isint(t):
    return bare(t) in UNSIGNED | SIGNED | {"bool", "char"}


def isfloat(t):
    return bare(t) in FLOATS


def scalar(t):
    return isint(t) or isfloat(t)


class Unit:
    def __init__(self, src, filt):
        self.src = src
        self.extern = set()
        self.docs = dump(src, filt)
        self.names, self.classes, self.funcs, self.ctors, self.fields = {}, {}, [], {}, {}
        for d in self.docs:
            self.collect(d, [], None)

    def collect(self, n, q, cls):
        k = n.get("kind")
        inner = n.get("inner", [])
        if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl") and n.get("completeDefinition"):
            name = n.get("name")
            if not name:
                return
            if k == "CXXRecordDecl" and getattr(self, "in_template", False):
                return
            if name in self.classes:
                # a further specialisation of the same template: its functions are named like those of the first, except static member templates
                for c in inner:
                    if c.get("kind") == "FunctionTemplateDecl" and any(f.get("storageClass") == "static" for f in c.get("inner", [])):
                        n2 = name + "_%d" % (1 + sum(1 for x in self.classes if x == name or x.startswith(name + "_")))
                        self.classes[n2], self.fields[n2] = [], []
                        self.collect(c, q, n2)
                for c in inner:
                    if c.get("kind") in DECLS:
                        self.alias(c, name)
                    elif c.get("kind") == "FunctionTemplateDecl":
                        for f in c.get("inner", []):
                            if f.get("kind") in DECLS and self.body(f):
                                self.alias(f, name)
                return
            bases = []
            for b in n.get("bases", []):
                t = b["type"].get("desugaredQualType") or b["type"]["qualType"]
                bases.append(re.sub(r"<.*", "", t).split("::")[-1])
            self.classes[name] = bases
            self.fields[name] = [c for c in inner if c.get("kind") == "FieldDecl"]
            for c in inner:
                self.collect(c, q + [name], name)
            return
        if k == "ClassTemplateDecl":
            old = getattr(self, "in_template", False)
            for c in inner:
                if c.get("kind") == "CXXRecordDecl":
                    continue
                self.collect(c, q, None)
            return
        if k == "FunctionTemplateDecl":
            fs = [c for c in inner if c.get("kind") in DECLS]
            inst = [c for c in fs if any(x.get("kind") == "TemplateArgument" for x in c.get("inner", [])) and self.body(c)]
            if not inst and fs and cls is None:
                return
            inst.sort(key=lambda c: 0 if "double" in c["type"]["qualType"] else 1)
            for i, c in enumerate(inst):
                if i == 0 or self.variant(c) != self.variant(inst[0]):
                    self.add(c, cls, self.variant(c) if i else "")
                else:
                    self.names[c["id"]] = self.names[inst[0]["id"]]
            return
        if k in DECLS:
            if self.body(n):
                self.add(n, cls)
            return
        if k in ("NamespaceDecl", "LinkageSpecDecl"):
            for c in inner:
                self.collect(c, q + [n.get("name", "")], None)

    def variant(self, c):
        v = [str(x.get("value")) for x in c.get("inner", []) if x.get("kind") == "TemplateArgument" and "value" in x]
        return "_".join(v).replace("-", "m")

    def body(self, n):
        return next((c for c in n.get("inner", []) if c.get("kind") in ("CompoundStmt", "CXXTryStmt")), None)

    def alias(self, c, cls):
        if c.get("kind") != "CXXConstructorDecl":
            self.names.setdefault(c["id"], cls + "__" + self.ident(c["name"]))
        else:
            for (f, cl, py) in self.funcs:
                if cl == cls and f.get("kind") == "CXXConstructorDecl" and len(self.params(f)) == len(self.params(c)):
                    self.ctors.setdefault((cls, c["type"]["qualType"]), py)

    def ident(self, s):
        s = re.sub(r"<.*", "", s)
        ops = {"operator=": "op_assign", "operator()": "op_call", "operator[]": "op_index", "operator==": "op_eq", "operator<": "op_lt"}
        return ops.get(s, re.sub(r"\W", "_", s))

    def params(self, n):
        return [c for c in n.get("inner", []) if c.get("kind") == "ParmVarDecl"]

    def add(self, n, cls, suffix=""):
        name = self.ident(n["name"])
        if n["kind"] == "CXXConstructorDecl":
            py = "%s__ctor_%d" % (cls, sum(1 for k in self.ctors if k[0] == cls))
            self.ctors[(cls, n["type"]["qualType"])] = py
        else:
            py = (cls + "__" if cls else "") + name + ("__" + suffix if suffix else "")
            if py in self.names.values():
                py += "__%d" % sum(1 for x in self.names.values() if x.startswith(py))
        self.names[n["id"]] = py
        self.funcs.append((n, cls, py))

    # ---- output
    def source(self):
        out = []
        done = set()
        bodies = {py: self.function(f, cls, py) for f, cls, py in self.funcs}
        for py in bodies:
            out.append(bodies[py])
        order = []

        def visit(c):
            if c in order or c not in self.classes:
                return
            for b in self.classes[c]:
                visit(b)
            order.append(c)
        for c in self.classes:
            visit(c)
        for c in order:
            bases = [b for b in self.classes[c] if b in self.classes] or ["_cx_.Obj"]
            out.append("class %s(%s):\n    pass\n" % (c, ", ".join(bases)))
            for f, cls, py in self.funcs:
                if cls == c and f["kind"] != "CXXConstructorDecl":
                    m = py[len(c) + 2:]
                    out.append("%s.%s = %s\n" % (c, m, "staticmethod(%s)" % py if f.get("storageClass") == "static" else py))
                elif cls == c:
                    out.append("%s.%s = %s\n" % (c, py[len(c) + 2:], py))
        return "\n".join(out)

    def function(self, f, cls, py):
        return Fn(self, f, cls, py).text()

    def module(self, name, **extern):
        """extern: functions of other units by name"""
        self.extern |= set(extern)
        src = self.source()
        self.python = src
        if os.environ.get("PYVC_CPP_OUT"):
            open(os.path.join(os.environ["PYVC_CPP_OUT"], name + ".py"), "w").write(src)
        from .whiles import WhileToFor
        tree = Induction().visit(WhileToFor().visit(Scratch().visit(Capture().visit(ast.parse(src, name + ".cpp.py")))))
        ast.fix_missing_locations(tree)
        if os.environ.get("PYVC_CPP_OUT"):
            open(os.path.join(os.environ["PYVC_CPP_OUT"], name + ".ind.py"), "w").write(ast.unparse(tree))
        tree = load.Transform("cpp." + name).visit(tree)
        ast.fix_missing_locations(tree)
        m = types.ModuleType("cpp." + name)
        m.__dict__["__builtins__"] = dict(__builtins__ if isinstance(__builtins__, dict) else __builtins__.__dict__)
        m.__dict__["__builtins__"].update(rt.BUILTINS)
        m.__dict__["_E_"] = rt
        from . import cxx
        m.__dict__["_cx_"] = cxx
        m.__name__ = "cpp." + name
        m.__dict__.update(extern)
        exec(compile(tree, name + ".cpp.py", "exec"), m.__dict__)
        m.unit = self
        return m


class Scratch(ast.NodeTransformer):
    """v.clear() for a local vector v that no lambda mentions: v is a new, empty vector from there on (no reference to it outlives a call)"""

    def visit_FunctionDef(self, f):
        news, stores = {}, {}
        for x in ast.walk(f):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and x.value.func.attr == "new" and x.value.args and isinstance(x.value.args[0], ast.Constant) and str(x.value.args[0].value).startswith("std::vector<"):
                news[x.targets[0].id] = x.value.args[0].value
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                stores[x.id] = stores.get(x.id, 0) + 1
        params = {a.arg for a in f.args.args}
        inner = {x.id for g in ast.walk(f) if isinstance(g, (ast.FunctionDef, ast.Lambda)) and g is not f for x in ast.walk(g) if isinstance(x, ast.Name)}
        # a variable bound to another name, or whose iterators are kept, stays as it is
        kept = set()
        for x in ast.walk(f):
            if isinstance(x, ast.Assign):
                v = x.value
                if isinstance(v, ast.Name):
                    kept.add(v.id)
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and v.func.attr in ("begin", "end", "data", "cbegin", "cend", "rbegin", "rend"):
                    kept.add(v.func.value.id)
        ok = {v for v in news if stores[v] == 1} - params - inner - kept

        class C(ast.NodeTransformer):
            def visit_FunctionDef(s_, g): return g if g is not f else s_.generic_visit(g)

            def visit_Expr(s_, e):
                c = e.value
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "clear" and isinstance(c.func.value, ast.Name) and c.func.value.id in ok:
                    v = c.func.value.id
                    return ast.copy_location(ast.parse("%s = _cx_.new(%r)" % (v, news[v])).body[0], e)
                return e
        f = C().visit(f)
        self.refill(f, ok)
        f.body = [self.visit(s) if isinstance(s, ast.FunctionDef) else s for s in f.body]
        return f


    def refill(self, f, ok):
        """for i in range(0, n): v[i] = e   in the body of a loop, for a local vector v (made before the loop) that is used only after this in the same body:
        what follows uses a new vector with these first elements; the others are unknown"""
        loops = [x for x in ast.walk(f) if isinstance(x, (ast.For, ast.While))]
        for L in loops:
            for j, s in enumerate(L.body):
                if not (isinstance(s, ast.For) and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Attribute) and s.iter.func.attr == "range" and len(s.iter.args) == 2 and isinstance(s.iter.args[0], ast.Constant) and s.iter.args[0].value == 0 and len(s.body) == 1 and isinstance(s.body[0], ast.Assign)):
                    continue
                t, e = s.body[0].targets[0], s.body[0].value
                if not (isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and isinstance(t.slice, ast.Name) and t.slice.id == s.target.id and t.value.id in ok):
                    continue
                v = t.value.id
                if any(isinstance(x, ast.Name) and x.id == v for x in ast.walk(e)):
                    continue
                after = {id(x) for y in L.body[j + 1:] for x in ast.walk(y)} | {id(x) for x in ast.walk(s)}
                uses = [x for x in ast.walk(f) if isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load)]
                inside = {id(x) for x in ast.walk(L)}
                made = [x for x in ast.walk(f) if isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Store)]
                if any(id(x) not in after for x in uses) or any(id(x) in inside for x in made):
                    continue
                w = "_s_" + v
                for y in L.body[j + 1:]:
                    for x in ast.walk(y):
                        if isinstance(x, ast.Name) and x.id == v:
                            x.id = w
                new = ast.parse("%s = _cx_.refill(%s, None, lambda %s: None)" % (w, v, s.target.id)).body[0]
                new.value.args[1], new.value.args[2].body = s.iter.args[1], e
                L.body[j] = ast.copy_location(new, s)
                ast.fix_missing_locations(L.body[j])


class Capture(ast.NodeTransformer):
    """a lambda in the body of a loop that reads (by reference) variables set once, in the same block before it: it captures their values"""

    def visit_FunctionDef(self, f):
        stores = {}
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                stores[x.id] = stores.get(x.id, 0) + 1
        for L in ast.walk(f):
            if not isinstance(L, (ast.For, ast.While)):
                continue
            for z in ast.walk(L):
                for blk in (getattr(z, "body", None), getattr(z, "orelse", None)):
                    if not isinstance(blk, list):
                        continue
                    for j, g in enumerate(blk):
                        if not isinstance(g, ast.FunctionDef):
                            continue
                        mine = {a.arg for a in g.args.args} | {x.id for x in ast.walk(g) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                        free = {x.id for x in ast.walk(g) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)} - mine
                        before = {s.targets[0].id for s in blk[:j] if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name)}
                        for x in sorted(free & before):
                            if stores.get(x) == 1:
                                g.args.args.append(ast.arg(x))
                                g.args.defaults.append(ast.Name(x, ast.Load()))
        return f


class Induction(ast.NodeTransformer):
    """for x in S: ... v = v + 1 ...   with one such assignment to v, at the top level of the body and not behind a 'continue':
    v is its value before the loop plus the number of finished iterations"""

    def visit_FunctionDef(self, f):
        old = getattr(self, "fn", None)
        self.fn = f
        self.generic_visit(f)
        self.fn = old
        return f

    def visit_For(self, n):
        self.generic_visit(n)
        call = n.iter
        if n.orelse or not (isinstance(call, ast.Call) and isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name) and call.func.value.id == "_cx_" and call.func.attr in ("range", "range_ne", "inner", "each", "each_copy")):
            return n
        stores = {}
        for s in n.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    stores[x.id] = stores.get(x.id, 0) + 1
                if isinstance(x, (ast.Nonlocal, ast.Global)):
                    return n
        inds, seen = {}, False
        for j, s in enumerate(n.body):
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and stores.get(s.targets[0].id) == 1 and not seen:
                v, e = s.targets[0].id, s.value
                if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add) and isinstance(e.left, ast.Name) and e.left.id == v and isinstance(e.right, ast.Constant) and e.right.value == 1 and not any(isinstance(x, ast.Name) and x.id == v for x in ast.walk(n.target)):
                    inds[v] = j
            seen = seen or self.continues(s)
        breaks = any(self.breaks(s) for s in n.body)
        out = []
        for v, j in sorted(inds.items()):
            end = max(getattr(x, "end_lineno", 0) or 0 for x in ast.walk(n))
            later = any(isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load) and x.lineno > end for x in ast.walk(self.fn))
            if breaks and (later or self.in_loop(n, v)):
                continue
            i, v0 = "_i_" + v, v + "_0"
            use = lambda plus: ast.parse("(%s + %s%s)" % (v0, i, plus), mode="eval").body

            class Sub(ast.NodeTransformer):
                def visit_Name(s_, x):
                    return s_.repl if x.id == v and isinstance(x.ctx, ast.Load) else x
            for q, s in enumerate(n.body):
                sub = Sub()
                sub.repl = use("" if q <= j else " + 1")
                if q != j:
                    n.body[q] = sub.visit(s)
            n.body[j] = ast.Pass()
            n.target = ast.Tuple([ast.Name(i, ast.Store()), n.target], ast.Store())
            seq = "_s_" + v
            out.append(ast.parse("%s = %s" % (v0, v)).body[0])
            out.append(ast.Assign([ast.Name(seq, ast.Store())], n.iter))
            n.iter = ast.parse("_cx_.numbered(%s)" % seq, mode="eval").body
            if not breaks:
                n = [n, ast.parse("%s = %s + _cx_.count(%s)" % (v, v0, seq)).body[0]]
            else:
                n = [n]
            r = out + n
            for x in r:
                ast.copy_location(x, call)
            return r    # one variable per loop
        return n

    def in_loop(self, n, v):
        """the loop lies in another one that may read v again before setting it: v must be set, in the same block, before the loop"""
        for x in ast.walk(self.fn):
            for body in (getattr(x, "body", None), getattr(x, "orelse", None)):
                if isinstance(body, list) and n in body:
                    return not any(isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id == v for s in body[:body.index(n)])
        return True

    def continues(self, s):
        return isinstance(s, ast.Continue) or not isinstance(s, (ast.For, ast.While, ast.FunctionDef)) and any(self.continues(c) for c in ast.iter_child_nodes(s))

    def breaks(self, s):
        return isinstance(s, (ast.Break, ast.Return)) or not isinstance(s, (ast.For, ast.While, ast.FunctionDef)) and any(self.breaks(c) for c in ast.iter_child_nodes(s)) or isinstance(s, (ast.For, ast.While)) and any(isinstance(x, ast.Return) for x in ast.walk(s))


class Fn:
    """one function"""

    def __init__(self, u, f, cls, py):
        self.u, self.f, self.cls, self.py = u, f, cls, py
        self.vars, self.used = {}, {}
        self.refs = set()
        self.nlam = 0
        self.pre, self.post = [], []
        self.cond = 0
        self.ntmp = 0
        self.loops = []

    def var(self, d):
        if d["id"] not in self.vars:
            n = re.sub(r"\W", "_", d.get("name") or "_anon")
            if n in ("self", "None", "True", "False", "in", "is", "lambda", "def", "from", "pass", "not", "and", "or", "as", "with", "yield", "import", "global", "del", "print", "map", "list", "range", "len"):
                n += "_v"
            k = self.used.get(n, 0)
            self.used[n] = k + 1
            self.vars[d["id"]] = n if k == 0 else "%s_%d" % (n, k + 1)
            t = d.get("type", {}).get("qualType", "")
            t2 = ty(d)
            if t2.endswith("&") and scalar(t2) and not t.startswith("const"):
                self.refs.add(self.vars[d["id"]])
        return self.vars[d["id"]]

    def text(self):
        ps = self.u.params(self.f)
        args = []
        if self.cls and self.f.get("storageClass") != "static":
            args.append("self")
        for p in ps:
            v = self.var(p)
            self.refs.discard(v)
            init = [c for c in p.get("inner", []) if "kind" in c and c["kind"].endswith(("Expr", "Literal", "Operator"))]
            d = ""
            if init:
                try:
                    d = "=" + self.ex(init[-1])
                except No as e:
                    d = "=None"
            args.append(v + d)
        lines = []
        if self.f["kind"] == "CXXConstructorDecl":
            lines += self.guard(self.inits)
        lines += self.block(self.u.body(self.f), 0)
        loc = "# %s" % self.f["type"]["qualType"]
        return "def %s(%s):  %s\n%s\n" % (self.py, ", ".join(args), loc, "\n".join("    " + l for l in lines or ["pass"]))

    def guard(self, g):
        try:
            return g()
        except No as e:
            return ["_cx_.no(%r)" % str(e)]

    def inits(self):
        out = []
        for c in self.f.get("inner", []):
            if c.get("kind") != "CXXCtorInitializer":
                continue
            e = c.get("inner", [None])[0]
            if "anyInit" in c:
                name = c["anyInit"]["name"]
                if e is None:
                    continue
                if e["kind"] == "CXXDefaultInitExpr":
                    fd = [x for x in self.u.fields[self.cls] if x["name"] == name]
                    i = [x for x in fd[0].get("inner", []) if "kind" in x]
                    e = i[-1]
                out.append("self.%s = %s" % (name, self.full(e)))
            elif "delegatingInit" in c or "baseInit" in c:
                e = self.strip(e)
                if e["kind"] not in ("CXXConstructExpr",):
                    raise No("initialiser")
                t = re.sub(r"<.*", "", (c.get("baseInit") or c.get("delegatingInit")).get("desugaredQualType") or (c.get("baseInit") or c.get("delegatingInit"))["qualType"]).split("::")[-1]
                if t in ("Base",):
                    t = re.sub(r"<.*", "", ty(e)).split("::")[-1]
                out.append("%s(%s)" % (self.ctor(t, e), ", ".join(["self"] + self.args(e.get("inner", [])))))
        return out

    def ctor(self, cls, e):
        k = (cls, e["ctorType"]["qualType"])
        if k in self.u.ctors:
            return self.u.ctors[k]
        n = len(e.get("inner", []))
        c = [py for f, cl, py in self.u.funcs if cl == cls and f["kind"] == "CXXConstructorDecl" and len(self.u.params(f)) == n]
        if len(c) == 1:
            return c[0]
        raise No("constructor %s %s" % k)

    # ---- statements
    def block(self, n, d):
        out = []
        if n["kind"] == "CompoundStmt":
            for s in n.get("inner", []):
                out += self.stmt(s)
        else:
            out += self.stmt(n)
        return out or ["pass"]

    def indent(self, ls):
        return ["    " + l for l in ls]

    def stmt(self, s):
        pre, post = self.pre, self.post
        self.pre, self.post = [], []
        try:
            ls = self.stmt_(s)
            return self.pre + ls + self.post
        except No as e:
            return ["_cx_.no(%r)" % str(e)]
        finally:
            self.pre, self.post = pre, post

    def noeffect(self):
        if self.pre or self.post:
            raise No("side effect in a condition")

    def stmt_(self, s):
        k = s["kind"]
        inner = s.get("inner", [])
        if k == "CompoundStmt":
            return self.block(s, 0)
        if k == "DeclStmt":
            out = []
            for v in inner:
                if v["kind"] == "VarDecl":
                    out += self.decl(v)
                elif v["kind"] in ("TypeAliasDecl", "TypedefDecl", "UsingDecl", "StaticAssertDecl", "EmptyDecl"):
                    pass
                elif v["kind"] == "DecompositionDecl":
                    raise No("structured binding")
                else:
                    raise No(v["kind"])
            return out
        if k == "ReturnStmt":
            if not inner:
                return ["return None"]
            e = self.full(inner[0])
            if self.post:
                t = self.tmp()
                p, self.post = self.post, []
                return ["%s = %s" % (t, e)] + p + ["return " + t]
            return ["return " + e]
        if k == "IfStmt":
            if s.get("hasInit") or s.get("hasVar"):
                raise No("declaration in if")
            c = self.truth(inner[0])
            pre = self.pre
            if self.post:
                raise No("side effect in a condition")
            self.pre = []
            a = self.block(inner[1], 0)
            b = self.block(inner[2], 0) if len(inner) > 2 else None
            self.pre = pre
            return ["if %s:" % c] + self.indent(a) + (["else:"] + self.indent(b) if b else [])
        if k == "ForStmt":
            return self.for_(s)
        if k == "WhileStmt":
            c = self.truth(inner[0])
            self.noeffect()
            self.loops.append([])
            b = self.block(inner[1], 0)
            self.loops.pop()
            return ["while %s:" % c] + self.indent(b)
        if k == "DoStmt":
            if self.has(inner[0], ("ContinueStmt",)):
                raise No("continue in do")
            c = self.truth(inner[1])
            self.noeffect()
            self.loops.append([])
            b = self.block(inner[0], 0)
            self.loops.pop()
            return ["while True:"] + self.indent(b + ["if not (%s):" % c, "    break"])
        if k == "CXXForRangeStmt":
            return self.range_for(s)
        if k == "BreakStmt":
            return ["break"]
        if k == "ContinueStmt":
            return list(self.loops[-1]) + ["continue"]
        if k == "NullStmt":
            return ["pass"]
        if k == "CXXTryStmt":
            raise No("try")
        if k == "SwitchStmt":
            raise No("switch")
        return self.effect(s)

    def has(self, n, kinds):
        return n.get("kind") in kinds or any(self.has(c, kinds) for c in n.get("inner", []))

    def tmp(self):
        self.ntmp += 1
        return "_x%d" % self.ntmp

    def decl(self, v):
        name = self.var(v)
        init = [c for c in v.get("inner", []) if c.get("kind", "").endswith(("Expr", "Literal", "Operator", "Cleanups")) or c.get("kind") in ("ExprWithCleanups",)]
        if v.get("storageClass") == "static":
            raise No("static variable")
        if not init:
            return ["%s = _cx_.uninit(%r)" % (name, bare(ty(v)))]
        return ["%s = %s" % (name, self.full(init[-1]))]

    def unwrap(self, e):
        while e.get("kind") in ("ImplicitCastExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ParenExpr", "ConstantExpr", "CXXFunctionalCastExpr", "SubstNonTypeTemplateParmExpr", "CXXStaticCastExpr"):
            e = e["inner"][-1]
        return e

    strip = unwrap

    def varof(self, e):
        e = self.unwrap(e)
        if e.get("kind") == "DeclRefExpr" and e["referencedDecl"]["kind"] in ("VarDecl", "ParmVarDecl"):
            return e["referencedDecl"]["id"]
        return None

    def inc_of(self, e):
        """(variable id, step expression or None) if e is v++, ++v, v += step"""
        e = self.unwrap(e)
        if e.get("kind") == "UnaryOperator" and e["opcode"] == "++":
            return self.varof(e["inner"][0]), None
        if e.get("kind") == "CXXOperatorCallExpr" and self.opname(e) == "operator++":
            return self.varof(e["inner"][1]), None
        if e.get("kind") == "CompoundAssignOperator" and e["opcode"] == "+=":
            return self.varof(e["inner"][0]), e["inner"][1]
        return None, None

    def assigned(self, n, out):
        k = n.get("kind")
        if k in ("UnaryOperator",) and n["opcode"] in ("++", "--", "&"):
            v = self.varof(n["inner"][0]); out.add(v)
        if k in ("BinaryOperator", "CompoundAssignOperator") and (n["opcode"] == "=" or k[0] == "C"):
            out.add(self.varof(n["inner"][0]))
            l = self.unwrap(n["inner"][0])
            if l.get("kind") == "MemberExpr":
                out.add(("field", l["name"]))
        if k == "CXXOperatorCallExpr" and self.opname(n) in ("operator=", "operator+=", "operator-=", "operator++", "operator--", "operator*=", "operator/="):
            out.add(self.varof(n["inner"][1]))
        if k == "CXXMemberCallExpr":
            m = n["inner"][0]
            if m.get("kind") == "MemberExpr" and m.get("inner"):
                b = self.unwrap(m["inner"][0])
                if m["name"] not in ("size", "rows", "cols", "begin", "end", "cbegin", "cend", "empty", "data", "value", "col", "row", "index", "at", "find", "count", "nonZeros", "outerSize", "innerSize", "back", "front", "transpose", "norm", "squaredNorm", "sum", "array"):
                    if self.varof(b):
                        out.add(self.varof(b))
                    elif b.get("kind") == "MemberExpr":
                        out.add(("field", b["name"]))
                    else:
                        out.add("?")
        if k == "CallExpr":
            # an argument passed by reference may be changed
            for a in n["inner"][1:]:
                if a.get("valueCategory") == "lvalue" and not ty(a).startswith("const"):
                    out.add(self.varof(a))
        for c in n.get("inner", []):
            if isinstance(c, dict) and c.get("kind") != "CXXRecordDecl":
                self.assigned(c, out)
        return out

    def reads(self, n, out):
        if n.get("kind") == "DeclRefExpr" and n["referencedDecl"]["kind"] in ("VarDecl", "ParmVarDecl"):
            out.add(n["referencedDecl"]["id"])
        if n.get("kind") == "MemberExpr" and "(" not in ty(n) and "bound member" not in n.get("type", {}).get("qualType", ""):
            out.add(("field", n["name"]))
        for c in n.get("inner", []):
            self.reads(c, out)
        return out

    def for_(self, s):
        init, cv, cond, inc, body = (s["inner"] + [{}] * 5)[:5]
        if cv.get("kind"):
            raise No("declaration in a loop condition")
        single = init.get("kind") == "DeclStmt" and len(init["inner"]) == 1 and init["inner"][0]["kind"] == "VarDecl"
        vid = init["inner"][0]["id"] if single else None
        iv, step = self.inc_of(inc) if inc.get("kind") else (None, None)
        if single and iv == vid:
            v = init["inner"][0]
            c = self.unwrap(cond) if cond.get("kind") else {}
            # sparse iterator
            if "InnerIterator" in ty(v) and step is None:
                conv = c.get("kind") == "CXXMemberCallExpr" and c["inner"][0].get("name", "").startswith("operator")
                ctor = self.unwrap([x for x in v["inner"] if "kind" in x][-1])
                if conv and self.varof(c["inner"][0]["inner"][0]) == vid and ctor["kind"] == "CXXConstructExpr":
                    a = self.args(ctor["inner"])
                    self.noeffect()
                    self.loops.append([])
                    b = self.block(body, 0)
                    self.loops.pop()
                    return ["for %s in _cx_.inner(%s):" % (self.var(v), ", ".join(a))] + self.indent(b)
            if c.get("kind") == "BinaryOperator" and c["opcode"] in ("<", "<=", "!=") and self.varof(c["inner"][0]) == vid and isint(ty(v)) and step is None:
                w = self.assigned(body, set())
                r = self.reads(c["inner"][1], set())
                if vid not in w and not (r & w) and not ("?" in w and any(isinstance(x, tuple) for x in r)):
                    lo = self.full([x for x in v["inner"] if "kind" in x][-1])
                    hi = self.ex(c["inner"][1])
                    self.noeffect()
                    if c["opcode"] == "<=":
                        hi = "(%s) + 1" % hi
                    fn = "range" if c["opcode"] != "!=" else "range_ne"
                    self.loops.append([])
                    b = self.block(body, 0)
                    self.loops.pop()
                    return ["for %s in _cx_.%s(%s, %s):" % (self.var(v), fn, lo, hi)] + self.indent(b)
        out = []
        if init.get("kind"):
            out += self.stmt(init)
        c = self.truth(cond) if cond.get("kind") else "True"
        self.noeffect()
        il = self.stmt(inc) if inc.get("kind") else []
        self.loops.append(il)
        b = self.block(body, 0)
        self.loops.pop()
        return out + ["while %s:" % c] + self.indent(b + il)

    def range_for(self, s):
        ds = [c for c in s["inner"] if c.get("kind") == "DeclStmt"]
        rng = next(d["inner"][0] for d in ds if d["inner"][0].get("name", "").startswith("__range"))
        lv = ds[-1]["inner"][0]
        body = s["inner"][-1]
        e = self.full([c for c in rng["inner"] if "kind" in c][-1])
        self.noeffect()
        x = self.var(lv)
        by = "each" if ty(lv).endswith("&") or scalar(ty(lv)) else "each_copy"
        self.loops.append([])
        b = self.block(body, 0)
        self.loops.pop()
        return ["for %s in _cx_.%s(%s):" % (x, by, e)] + self.indent(b)

    # ---- effects: assignments and calls
    def effect(self, e):
        e = self.strip0(e)
        k = e["kind"]
        if k == "BinaryOperator" and e["opcode"] == "=":
            return self.assign(e["inner"][0], self.ex(e["inner"][1]), e["inner"][1])
        if k == "BinaryOperator" and e["opcode"] == ",":
            return self.effect(e["inner"][0]) + self.effect(e["inner"][1])
        if k == "CompoundAssignOperator":
            l, r = e["inner"]
            op = e["opcode"][:-1]
            ct = (e.get("computeResultType") or {}).get("desugaredQualType") or (e.get("computeResultType") or {}).get("qualType", "")
            rhs = self.ex(r)
            cur = self.ex(l)
            v = self.binop(op, cur, rhs, ct or ty(e))
            if isint(ty(l)) and isfloat(ct):
                v = "_cx_.trunc(%s)" % v
            return self.assign(l, v, None)
        if k == "UnaryOperator" and e["opcode"] in ("++", "--"):
            l = e["inner"][0]
            return self.assign(l, self.binop(e["opcode"][0], self.ex(l), "1", ty(l)), None)
        if k == "CXXOperatorCallExpr":
            op = self.opname(e)
            a = e["inner"][1:]
            if op in ("operator++", "operator--"):
                return self.assign(a[0], "(%s %s 1)" % (self.ex(a[0]), op[-1]), None)
            if op == "operator=":
                return self.assign(a[0], self.ex(a[1]), a[1], cls=True)
            if op in ("operator+=", "operator-=", "operator*=", "operator/="):
                n = {"+": "iadd", "-": "isub", "*": "imul", "/": "idiv"}[op[-2]]
                if self.varof(a[0]) and ("iterator" in ty(a[0])):
                    return self.assign(a[0], "(%s %s %s)" % (self.ex(a[0]), op[-2], self.ex(a[1])), None)
                return ["%s.%s_(%s)" % (self.ex(a[0]), n, self.ex(a[1]))]
        if k == "CXXThrowExpr":
            return ["raise _cx_.as_exc(%s)" % self.full(e["inner"][0])]
        if k == "ConditionalOperator" and "__assert_fail" in json.dumps(e):
            return ["pass"]
        if k == "CXXMemberCallExpr" or k == "CallExpr":
            return [self.ex(e)]
        if k == "CXXConstructExpr":
            return ["pass"]
        return [self.ex(e)]

    def strip0(self, e):
        while e.get("kind") in ("ExprWithCleanups", "ParenExpr", "CXXBindTemporaryExpr", "MaterializeTemporaryExpr") or e.get("kind") in ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr") and e.get("castKind") in ("ToVoid", "NoOp", "LValueToRValue", "DerivedToBase", "UncheckedDerivedToBase"):
            e = e["inner"][-1]
        return e

    def assign(self, l, v, r, cls=False):
        l = self.strip0(l)
        k = l["kind"]
        if k == "DeclRefExpr":
            d = l["referencedDecl"]
            if d["kind"] not in ("VarDecl", "ParmVarDecl"):
                raise No("assignment to %s" % d["kind"])
            n = self.var(d)
            if n in self.refs:
                raise No("assignment through the reference %s" % n)
            if cls and not ("iterator" in ty(l) or "function" in ty(l)):
                return ["%s.assign(%s)" % (n, v)]
            if ty(l).endswith("&") and scalar(ty(l)):
                raise No("assignment through a reference")
            return ["%s = %s" % (n, v)]
        if k == "MemberExpr":
            b = self.base(l)
            if cls:
                return ["%s.%s.assign(%s)" % (b, l["name"], v)]
            return ["%s.%s = %s" % (b, l["name"], v)]
        if k == "ArraySubscriptExpr":
            return ["%s[%s] = %s" % (self.ex(l["inner"][0]), self.ex(l["inner"][1]), v)]
        if k == "UnaryOperator" and l["opcode"] == "*":
            return ["_cx_.store(%s, %s)" % (self.ex(l["inner"][0]), v)]
        if k == "CXXOperatorCallExpr":
            op = self.opname(l)
            a = [self.ex(x) for x in l["inner"][1:]]
            if cls and op in ("operator[]", "operator()"):
                return ["%s[%s].assign(%s)" % (a[0], ", ".join(a[1:]), v)] if op == "operator[]" else ["%s(%s).assign(%s)" % (a[0], ", ".join(a[1:]), v)]
            if op in ("operator[]", "operator()"):
                return ["%s[%s] = %s" % (a[0], ", ".join(a[1:]), v)]
            if op == "operator*":
                return ["_cx_.store(%s, %s)" % (a[0], v)]
        if k == "CXXMemberCallExpr":
            m = l["inner"][0]
            a = [self.ex(x) for x in self.given(l["inner"][1:])]
            if scalar(ty(l)):
                return ["%s.assign_%s(%s)" % (self.base(m), m["name"], ", ".join(a + [v]))]
            return ["%s.%s(%s).assign(%s)" % (self.base(m), m["name"], ", ".join(a), v)]
        raise No("assignment to %s" % k)

    # ---- expressions
    def full(self, e):
        return self.ex(e)

    def truth(self, e):
        return self.ex(e)

    def given(self, xs):
        return [x for x in xs if x.get("kind") != "CXXDefaultArgExpr"]

    def args(self, xs):
        return [self.ex(x) for x in self.given(xs)]

    def base(self, m):
        if not m.get("inner"):
            return "self"
        return self.ex(m["inner"][0])

    def opname(self, e):
        c = self.unwrap(e["inner"][0])
        return c.get("referencedDecl", {}).get("name", "") if c.get("kind") == "DeclRefExpr" else ""

    def binop(self, op, a, b, t):
        if op == "/":
            return "_cx_.fdiv(%s, %s)" % (a, b) if isfloat(t) else "_cx_.idiv(%s, %s)" % (a, b)
        if op == "%":
            return "_cx_.imod(%s, %s)" % (a, b)
        if op == "-" and bare(t) in UNSIGNED:
            return "_cx_.usub(%s, %s)" % (a, b)
        if op in ("+", "-", "*"):
            return "(%s %s %s)" % (a, op, b)
        raise No("operator %s" % op)

    def ex(self, e):
        m = getattr(self, "x_" + e["kind"], None)
        if m is None:
            raise No("expression %s" % e["kind"])
        return m(e)

    def inner(self, e):
        return self.ex(e["inner"][-1])

    x_ExprWithCleanups = x_MaterializeTemporaryExpr = x_CXXBindTemporaryExpr = x_ConstantExpr = x_SubstNonTypeTemplateParmExpr = x_CXXStdInitializerListExpr = inner

    def x_ParenExpr(self, e):
        return "(%s)" % self.ex(e["inner"][0])

    def x_ImplicitCastExpr(self, e):
        k = e.get("castKind")
        x = e["inner"][-1]
        v = self.ex(x)
        if k == "IntegralToFloating":
            return "_cx_.to_float(%s)" % v
        if k == "FloatingToIntegral":
            return "_cx_.trunc(%s)" % v
        if k == "IntegralCast":
            if bare(ty(e)) in UNSIGNED and bare(ty(x)) in SIGNED and not re.fullmatch(r"\d+", v):
                return "_cx_.unsigned(%s)" % v
            return v
        if k in ("IntegralToBoolean", "FloatingToBoolean"):
            return "(%s != 0)" % v
        if k == "PointerToBoolean":
            raise No("pointer as condition")
        if k in ("NoOp", "LValueToRValue", "FunctionToPointerDecay", "ArrayToPointerDecay", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "ConstructorConversion", "UserDefinedConversion", "FloatingCast", "ToVoid"):
            return v
        raise No("cast %s" % k)

    x_CXXStaticCastExpr = x_CXXFunctionalCastExpr = x_CStyleCastExpr = x_ImplicitCastExpr

    def x_DeclRefExpr(self, e):
        d = e["referencedDecl"]
        if d["kind"] in ("VarDecl", "ParmVarDecl"):
            return self.var(d)
        if d["id"] in self.u.names:
            return self.u.names[d["id"]]
        if d["kind"] == "FunctionDecl" and d["name"] in self.u.extern:
            return d["name"]
        if d["kind"] in ("FunctionDecl", "CXXMethodDecl"):
            return "_cx_.std_%s" % self.u.ident(d["name"])
        if d["kind"] == "EnumConstantDecl":
            return "_cx_.enum(%r)" % d["name"]
        raise No("reference to %s" % d["kind"])

    def x_MemberExpr(self, e):
        return "%s.%s" % (self.base(e), e["name"])

    def x_CXXThisExpr(self, e):
        return "self"

    def x_CXXMemberCallExpr(self, e):
        m = e["inner"][0]
        while m.get("kind") in ("ParenExpr", "ImplicitCastExpr"):
            m = m["inner"][0]
        if m["kind"] != "MemberExpr":
            raise No("member call")
        if m["name"].startswith("operator"):
            return "_cx_.convert(%s, %r)" % (self.base(m), m["name"])
        rid = m.get("referencedMemberDecl")
        f = m["name"]
        if rid in self.u.names:
            py = self.u.names[rid]
            f = py.split("__", 1)[1] if "__" in py else f
        return "%s.%s(%s)" % (self.base(m), self.u.ident(f), ", ".join(self.args(e["inner"][1:])))

    def x_CallExpr(self, e):
        c = self.unwrap(e["inner"][0])
        a = self.args(e["inner"][1:])
        if c["kind"] == "DeclRefExpr":
            d = c["referencedDecl"]
            if d["name"] == "move" or d["name"] == "forward":
                return a[0]
            if d["name"] in ("infinity", "max", "min", "lowest", "epsilon", "quiet_NaN") and not a:
                return "_cx_.limit_%s(%r)" % (d["name"], bare(ty(e)))
        return "%s(%s)" % (self.ex(c), ", ".join(a))

    def x_CXXOperatorCallExpr(self, e):
        op = self.opname(e)
        a = e["inner"][1:]
        if op in ("operator++", "operator--"):
            return self.incdec(a[0], op[-1], len(a) == 2, e)
        v = [self.ex(x) for x in self.given(a)]
        o = op[8:]
        if o == "[]":
            return "%s[%s]" % (v[0], v[1])
        if o == "()":
            return "%s(%s)" % (v[0], ", ".join(v[1:]))
        if o == "->" or o == "*" and len(v) == 1:
            return "_cx_.deref(%s)" % v[0]
        if o == "-" and len(v) == 1:
            return "(-%s)" % v[0]
        if o == "!" and len(v) == 1:
            return "(not %s)" % v[0]
        if o in ("+", "-", "*", "/", "==", "!=", "<", ">", "<=", ">="):
            return "(%s %s %s)" % (v[0], o, v[1])
        if o == "<<":
            return "_cx_.shl(%s, %s)" % (v[0], v[1])
        raise No("operator %s in an expression" % op)

    def incdec(self, x, op, postfix, e):
        """++/-- inside an expression: moved before or behind the statement; the variable must occur only once in it"""
        if self.cond or self.varof(x) is None:
            raise No("%s%s in an expression" % (op, op))
        n = self.ex(x)
        if n in self.refs:
            raise No("assignment through a reference")
        if any(p[0] == n for p in getattr(self, "moved", [])):
            raise No("repeated ++ in an expression")
        line = "%s = %s %s 1" % (n, n, op)
        if postfix:
            self.post.append(line)
        else:
            self.pre.append(line)
        return n

    def x_BinaryOperator(self, e):
        op = e["opcode"]
        l, r = e["inner"]
        if op in ("&&", "||"):
            a = self.truth(l)
            self.cond += 1
            b = self.truth(r)
            self.cond -= 1
            return "(%s %s %s)" % (a, "and" if op == "&&" else "or", b)
        if op in ("=", ","):
            raise No("assignment inside an expression")
        a, b = self.ex(l), self.ex(r)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return "(%s %s %s)" % (a, op, b)
        if "*" in ty(l) or "*" in ty(r):
            return "(%s %s %s)" % (a, op, b)
        return self.binop(op, a, b, ty(e))

    def x_UnaryOperator(self, e):
        op = e["opcode"]
        x = e["inner"][0]
        if op in ("++", "--"):
            return self.incdec(x, op[0], e.get("isPostfix"), e)
        v = self.ex(x)
        if op == "-":
            if bare(ty(e)) in UNSIGNED:
                raise No("negated unsigned")
            return "(-%s)" % v
        if op == "+":
            return v
        if op == "!":
            return "(not %s)" % v
        if op == "*":
            if self.unwrap(x)["kind"] == "CXXThisExpr":
                return v
            return "_cx_.deref(%s)" % v
        raise No("operator %s" % op)

    def x_ConditionalOperator(self, e):
        c = self.truth(e["inner"][0])
        self.cond += 1
        a, b = self.ex(e["inner"][1]), self.ex(e["inner"][2])
        self.cond -= 1
        return "(%s if %s else %s)" % (a, c, b)

    def x_ArraySubscriptExpr(self, e):
        return "%s[%s]" % (self.ex(e["inner"][0]), self.ex(e["inner"][1]))

    def x_IntegerLiteral(self, e):
        return e["value"]

    def x_FloatingLiteral(self, e):
        return repr(float(e["value"]))

    def x_CXXBoolLiteralExpr(self, e):
        return "True" if e["value"] else "False"

    def x_StringLiteral(self, e):
        return repr(ast.literal_eval(e["value"]))

    def x_CXXScalarValueInitExpr(self, e):
        return "0.0" if isfloat(ty(e)) else "0"

    x_ImplicitValueInitExpr = x_CXXScalarValueInitExpr

    def x_CXXConstructExpr(self, e):
        t = bare(ty(e))
        name = re.sub(r"<.*", "", t).split("::")[-1]
        inner = e.get("inner", [])
        ct = e["ctorType"]["qualType"]
        if len(inner) == 1 and "initializer_list" not in ct:
            x = inner[0]
            same = bare(ty(x)).replace("const ", "") == t.replace("const ", "")
            if same and (ct.rstrip(" )").endswith("&&") or x.get("valueCategory") != "lvalue"):
                return self.ex(x)
            if same and name not in self.u.classes:
                return "_cx_.copy(%s)" % self.ex(x)
        a = self.args(inner)
        if name in self.u.classes:
            try:
                c = self.ctor(name, e)
            except No:
                if len(inner) == 1 and bare(ty(inner[0])) == t:
                    return "_cx_.copy(%s)" % a[0]
                raise
            return "_cx_.make(%s, %s)" % (", ".join([name, c]), ", ".join(a)) if a else "_cx_.make(%s, %s)" % (name, c)
        return "_cx_.new(%r%s)" % (t, "".join(", " + x for x in a))

    x_CXXTemporaryObjectExpr = x_CXXConstructExpr

    def x_InitListExpr(self, e):
        return "_cx_.init(%r%s)" % (bare(ty(e)), "".join(", " + x for x in self.args(e.get("inner", []))))

    def x_CXXDefaultInitExpr(self, e):
        raise No("default initialiser")

    def x_LambdaExpr(self, e):
        rec = next(c for c in e["inner"] if c["kind"] == "CXXRecordDecl")
        op = next((c for c in rec["inner"] if c["kind"] == "CXXMethodDecl" and c["name"] == "operator()"), None)
        if op is None:
            raise No("generic lambda")
        fields = [c for c in rec["inner"] if c["kind"] == "FieldDecl"]
        body = e["inner"][-1]
        caps = [c for c in e["inner"] if c is not rec and c is not body]
        name = "_lambda_%d" % (self.nlam + 1)
        self.nlam += 1
        args = [self.var(p) for p in self.u.params(op)]
        for a in args:
            self.refs.discard(a)
        byval = []
        for f, c in zip(fields, caps):
            c = self.unwrap(c)
            t = f["type"]["qualType"]
            if c["kind"] == "CXXThisExpr" or t.endswith("*") or t.endswith("&"):
                continue
            if c["kind"] == "CXXConstructExpr":
                raise No("capture by copy of an object")
            v = self.ex(c)
            byval.append(v)
        outer = {v for v in self.vars.values()}
        pre, post = self.pre, self.post
        self.pre, self.post = [], []
        self.loops.append([])
        cond, self.cond = self.cond, 0
        b = self.block(body, 0)
        self.cond = cond
        self.loops.pop()
        self.pre, self.post = pre, post
        w = {self.vars[x] for x in self.assigned(body, set()) if x in self.vars}
        nl = sorted(x for x in w & outer if x not in args and x not in byval and any(re.match(r"\s*%s = " % re.escape(x), l) for l in b))
        lines = (["nonlocal " + ", ".join(nl)] if nl else []) + b
        if self.cond:
            raise No("lambda in a conditional expression")
        self.pre.append("def %s(%s):" % (name, ", ".join(args + ["%s=%s" % (v, v) for v in byval])))
        self.pre += self.indent(lines)
        return name


def unit(src, filt):
    return Unit(src, filt)
