"""pyvc.core - the verification-condition generator's engine.

The functions of /repo are parsed on every run, transformed (pyvc/load.py) and executed by CPython on symbolic values:
every path through the real statements is explored (re-execution with decision lists), every branch condition goes to z3,
loops over symbolic sequences are cut at an inductive invariant (Houdini over candidate invariants), and contracts
(contracts/pXX.py) state assumptions and obligations.  `E` is the engine of the current run.
"""
import itertools, math, os, sys, time
import z3

z3.set_param("smt.random_seed", 1)


class Control(BaseException):
    """control flow of the engine; never visible to the code under verification"""


class PathDone(Control):
    pass


class Infeasible(Control):
    pass


class Restart(Control):
    pass


class Unsupported(Control):
    pass


class OutOfTime(Control):
    pass


def unsupported(msg):
    raise Unsupported(msg)


# ---------------------------------------------------------------- symbolic scalars
def term(x, sort=None):
    """z3 term of a scalar"""
    if isinstance(x, SFloat):
        return x.t
    if isinstance(x, Sym):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            unsupported("non-finite float as term")
        from fractions import Fraction
        f = Fraction(x)
        return z3.RealVal("%d/%d" % (f.numerator, f.denominator))
    if z3.is_expr(x):
        return x
    unsupported("no term for %r" % type(x))


def real(x):
    t = term(x)
    if z3.is_bool(t):
        t = z3.If(t, z3.IntVal(1), z3.IntVal(0))
    return z3.ToReal(t) if z3.is_int(t) else t


def to_int_term(x):
    t = term(x)
    if z3.is_bool(t):
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    if z3.is_int(t):
        return t
    unsupported("integer expected")


def mkint(t):
    t = z3.simplify(t)
    return t.as_long() if z3.is_int_value(t) else SInt(t)


def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


class Sym:
    __slots__ = ("t",)
    __array_priority__ = 1e6
    __array_ufunc__ = None

    def __init__(self, t):
        self.t = t

    def __hash__(self):
        unsupported("hash of a symbolic value")

    def __repr__(self):
        return "<%s>" % z3.simplify(self.t)

    def __format__(self, spec):
        return "<sym>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SBool(Sym):
    def __bool__(self):
        return E.branch(self.t)

    def __and__(self, o):
        return mkbool(z3.And(self.t, bterm(o))) if isinstance(o, (bool, SBool)) else NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.t, bterm(o))) if isinstance(o, (bool, SBool)) else NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.t, bterm(o))) if isinstance(o, (bool, SBool)) else NotImplemented

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(self.t == bterm(o))
        if isinstance(o, (int, float, SInt, SFloat)):
            return self.as_int() == o
        return False

    def __ne__(self, o):
        return snot(self == o)

    def as_int(self):
        return SInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o): return self.as_int() + o
    __radd__ = __add__
    def __mul__(self, o): return self.as_int() * o
    __rmul__ = __mul__
    __hash__ = Sym.__hash__


def bterm(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, SBool):
        return x.t
    if z3.is_expr(x) and z3.is_bool(x):
        return x
    if isinstance(x, (SInt, SFloat)):
        return bterm(x != 0)
    unsupported("boolean expected, got %r" % (type(x),))


def snot(x):
    return (not x) if isinstance(x, bool) else mkbool(z3.Not(bterm(x)))


def sand(*xs):
    return mkbool(z3.And(*[bterm(x) for x in xs])) if xs else True


def sor(*xs):
    return mkbool(z3.Or(*[bterm(x) for x in xs])) if xs else False


def simplies(a, b):
    return mkbool(z3.Implies(bterm(a), bterm(b)))


def isnum(x):
    return isinstance(x, (int, float, SInt, SFloat, SBool)) or type(x).__module__ == "numpy"


class SInt(Sym):
    def _bin(self, o, f, rev=False):
        if isinstance(o, SBool):
            o = o.as_int()
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, (int, SInt)):
            a, b = (term(o), self.t) if rev else (self.t, term(o))
            return mkint(f(a, b))
        if isinstance(o, (float, SFloat)):
            me = SFloat(z3.ToReal(self.t))
            return NotImplemented if o is NotImplemented else me._bin(o, f, rev)
        return NotImplemented

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
    def __mul__(self, o):
        return seq_repeat(o, self) if isinstance(o, (list, tuple)) else self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return seq_repeat(o, self) if isinstance(o, (list, tuple)) else self._bin(o, lambda a, b: a * b, True)
    def __neg__(self): return mkint(-self.t)
    def __pos__(self): return self
    def __abs__(self): return mkint(z3.If(self.t >= 0, self.t, -self.t))
    def __truediv__(self, o): return tofloat(self) / o
    def __rtruediv__(self, o): return o / tofloat(self)

    def __floordiv__(self, o):
        if isinstance(o, (int, SInt)) and not isinstance(o, bool):
            if E.decide(term(o) == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
            return mkint(pydiv(self.t, term(o)) if z3.is_int_value(term(o)) else symdivmod(self.t, term(o))[0])
        return NotImplemented

    def __rfloordiv__(self, o):
        return SInt(term(o)) // self if isinstance(o, int) else NotImplemented

    def __mod__(self, o):
        if isinstance(o, (int, SInt)) and not isinstance(o, bool):
            if E.decide(term(o) == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
            return mkint(pymod(self.t, term(o)))
        return NotImplemented

    def __rmod__(self, o):
        return SInt(term(o)) % self if isinstance(o, int) else NotImplemented

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = z3.IntVal(1)
            for _ in range(o):
                r = r * self.t
            return mkint(r)
        return tofloat(self) ** o

    def __rpow__(self, o): return tofloat(o) ** self

    def _cmp(self, o, f):
        if isinstance(o, SBool):
            o = o.as_int()
        if isinstance(o, (bool, int, SInt)):
            return mkbool(f(self.t, term(int(o) if isinstance(o, bool) else o)))
        if isinstance(o, (float, SFloat)):
            return NotImplemented if False else fcmp(tofloat(self), tofloat(o), f)
        return NotImplemented

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o): return snot(self == o)
    def __bool__(self): return E.branch(self.t != 0)
    def __index__(self): unsupported("symbolic integer used where CPython needs a concrete one")
    def __int__(self): unsupported("symbolic integer used where CPython needs a concrete one")
    def __float__(self): unsupported("symbolic integer used where CPython needs a concrete float")
    def __floor__(self): return self
    def __ceil__(self): return self
    def __trunc__(self): return self
    def __round__(self, n=None): return self
    def astype(self, *_a, **_k): return self
    def item(self): return self
    __hash__ = Sym.__hash__


def seq_repeat(xs, n):
    """[x] * n for symbolic n"""
    from . import rt
    if len(xs) != 1 or getattr(xs, "sym", None) is not None:
        unsupported("repetition of a list of several elements a symbolic number of times")
    x = xs[0]
    return rt.VSeq(rt.smax(n, 0), lambda k: x)


def pydiv(a, b):
    """floor division"""
    # z3: a = b*div + mod, 0 <= mod < |b|
    return z3.If(b > 0, a / b, z3.If(a % b == 0, a / b, a / b - 1)) if not (z3.is_int_value(b) and b.as_long() > 0) else a / b


_DIV, _MOD = z3.Function("pydiv", z3.IntSort(), z3.IntSort(), z3.IntSort()), z3.Function("pymod", z3.IntSort(), z3.IntSort(), z3.IntSort())


def symdivmod(a, b):
    """floor division and remainder by a symbolic divisor: functions with their defining facts"""
    q, r = _DIV(a, b), _MOD(a, b)
    E.fact(z3.And(a == b * q + r, z3.Implies(b > 0, z3.And(r >= 0, r < b)), z3.Implies(b < 0, z3.And(r <= 0, r > b))))
    return q, r


def pymod(a, b):
    if z3.is_int_value(b):
        return a - b * pydiv(a, b)
    return symdivmod(a, b)[1]


class SFloat(Sym):
    """extended real: t the value when k == 0; k = 1 (+inf), -1 (-inf), 2 (nan)"""
    __slots__ = ("k",)

    def __init__(self, t, k=None):
        self.t = t
        self.k = z3.IntVal(0) if k is None else k

    @property
    def fin(self):
        return z3.is_int_value(self.k) and self.k.as_long() == 0

    def _bin(self, o, f, rev=False):
        if not isinstance(o, (bool, int, float, SInt, SFloat, SBool)):
            return NotImplemented
        o = tofloat(o)
        if isinstance(o, float):
            o = flift(o)
        a, b = (o, self) if rev else (self, o)
        if a.fin and b.fin:
            return SFloat(f(a.t, b.t))
        op = f(z3.Real("a"), z3.Real("b")).decl().kind()
        if op in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            bk = b.k if op == z3.Z3_OP_ADD else z3.If(z3.Or(b.k == 1, b.k == -1), -b.k, b.k)
            k = z3.If(a.k == 0, bk, z3.If(z3.Or(bk == 0, bk == a.k), a.k, z3.IntVal(2)))
            return SFloat(f(a.t, b.t), z3.simplify(k))
        if op == z3.Z3_OP_MUL:
            sg = lambda x: z3.If(x.k == 0, z3.If(x.t > 0, z3.IntVal(1), z3.If(x.t < 0, z3.IntVal(-1), z3.IntVal(0))), x.k)
            k = z3.If(z3.And(a.k == 0, b.k == 0), z3.IntVal(0), z3.If(z3.Or(a.k == 2, b.k == 2, sg(a) == 0, sg(b) == 0), z3.IntVal(2), sg(a) * sg(b)))
            return SFloat(f(a.t, b.t), z3.simplify(k))
        unsupported("arithmetic on possibly infinite values")

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: a * b, True)

    def __truediv__(self, o):
        if not isinstance(o, (bool, int, float, SInt, SFloat, SBool)):
            return NotImplemented
        return fdiv(self, tofloat(o))

    def __rtruediv__(self, o):
        return fdiv(tofloat(o), self)

    def __neg__(self):
        return SFloat(-self.t, z3.simplify(z3.If(z3.Or(self.k == 1, self.k == -1), -self.k, self.k)))

    def __pos__(self): return self
    def __abs__(self): return SFloat(z3.If(self.t >= 0, self.t, -self.t), z3.simplify(z3.If(self.k == -1, z3.IntVal(1), self.k)))

    def __pow__(self, o):
        if isinstance(o, int) and not isinstance(o, bool) and 0 <= o <= 4 and self.fin:
            r = z3.RealVal(1)
            for _ in range(o):
                r = r * self.t
            return SFloat(r)
        return ufun("pow", self, o)

    def __rpow__(self, o): return ufun("pow", o, self)

    def _cmp(self, o, f):
        if not isinstance(o, (bool, int, float, SInt, SFloat, SBool)):
            return NotImplemented
        return fcmp(self, tofloat(o), f)

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o): return snot(self == o)
    def __bool__(self): return E.branch(bterm(self != 0))
    def __float__(self): unsupported("symbolic float used where CPython needs a concrete one")
    def __int__(self): unsupported("symbolic float used where CPython needs a concrete one")
    def _fin(self):
        if not self.fin and E.decide(self.k != 0):
            raise OverflowError("cannot convert float infinity to integer")

    def __floor__(self):
        self._fin()
        return mkint(z3.ToInt(self.t))

    def __ceil__(self):
        self._fin()
        return mkint(-z3.ToInt(-self.t))

    def __trunc__(self):
        self._fin()
        return mkint(z3.If(self.t >= 0, z3.ToInt(self.t), -z3.ToInt(-self.t)))

    def is_integer(self): return sand(mkbool(self.k == 0), mkbool(z3.IsInt(self.t)))
    def astype(self, *_a, **_k): return self
    def item(self): return self
    __hash__ = Sym.__hash__


def flift(x):
    if isinstance(x, SFloat):
        return x
    if isinstance(x, float):
        if x != x:
            return SFloat(z3.RealVal(0), z3.IntVal(2))
        if x == math.inf:
            return SFloat(z3.RealVal(0), z3.IntVal(1))
        if x == -math.inf:
            return SFloat(z3.RealVal(0), z3.IntVal(-1))
    return SFloat(real(x))


def tofloat(x):
    if isinstance(x, (SFloat, float)):
        return x
    if isinstance(x, bool) or isinstance(x, int):
        return float(x) if abs(int(x)) < 2 ** 53 else SFloat(real(x))
    if isinstance(x, SInt):
        return SFloat(z3.ToReal(x.t))
    if isinstance(x, SBool):
        return SFloat(z3.ToReal(x.as_int().t))
    unsupported("float of %r" % type(x))


def fcmp(a, b, f):
    a, b = flift(a), flift(b)
    if a.fin and b.fin:
        return mkbool(f(a.t, b.t))
    lt_eq = f(z3.IntVal(0), z3.IntVal(1)), f(z3.IntVal(1), z3.IntVal(1)), f(z3.IntVal(1), z3.IntVal(0))
    base = z3.If(z3.And(a.k == 0, b.k == 0), f(a.t, b.t), f(a.k, b.k))
    # a.k, b.k in {-1,0,1}: order of kinds decides unless both finite; nan compares false
    return mkbool(z3.And(a.k != 2, b.k != 2, base))


def fdiv(a, b):
    a, b = flift(a), flift(b)
    if not a.fin and E.valid(a.k == 0):
        a = SFloat(a.t)
    if not b.fin and E.valid(b.k == 0):
        b = SFloat(b.t)
    if a.fin and b.fin:
        if E.numpy_div:
            # numpy: x/0 is +-inf or nan, no exception
            z = z3.simplify(b.t == 0)
            if z3.is_false(z):
                return SFloat(a.t / b.t)
            k = z3.If(b.t == 0, z3.If(a.t > 0, z3.IntVal(1), z3.If(a.t < 0, z3.IntVal(-1), z3.IntVal(2))), z3.IntVal(0))
            return SFloat(a.t / b.t, k)
        if E.decide(b.t == 0):
            raise ZeroDivisionError("float division by zero")
        return SFloat(a.t / b.t)
    unsupported("division of possibly infinite values")


def same(a, b):
    """identity of two scalars (nan equals nan) as a z3 formula"""
    if isinstance(a, SId) or isinstance(b, SId):
        if isinstance(a, SId) and isinstance(b, SId):
            return a.t == b.t
        return z3.BoolVal(False)
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return bterm(a) == bterm(b)
    if isinstance(a, (SFloat, float)) or isinstance(b, (SFloat, float)):
        if not (isnum(a) and isnum(b)):
            return z3.BoolVal(False)
        a, b = flift(a), flift(b)
        if a.fin and b.fin:
            return a.t == b.t
        return z3.And(a.k == b.k, z3.Implies(a.k == 0, a.t == b.t))
    if isinstance(a, Sym) or isinstance(b, Sym):
        if not (isnum(a) and isnum(b)):
            return z3.BoolVal(False)
        return real(a) == real(b) if False else to_int_term(a) == to_int_term(b)
    if a is b:
        return z3.BoolVal(True)
    r = a == b
    return z3.BoolVal(r) if isinstance(r, bool) else bterm(r)


_ufuns = {}


def ufun(name, *args, out="real"):
    """uninterpreted function of the (real) arguments"""
    fs = []
    for a in args:
        if isinstance(a, (SFloat, float)):
            a = flift(a)
            if not a.fin and not E.valid(a.k == 0):
                unsupported("%s of possibly infinite value" % name)
            fs.append(a.t)
        elif isinstance(a, (SInt, int, SBool, bool)):
            fs.append(real(a))
        else:
            fs.append(term(a))
    key = (name, tuple(x.sort().name() for x in fs), out)
    if key not in _ufuns:
        _ufuns[key] = z3.Function(name, *[x.sort() for x in fs], {"real": z3.RealSort(), "int": z3.IntSort(), "bool": z3.BoolSort()}[out])
    t = _ufuns[key](*fs)
    return {"real": SFloat, "int": SInt, "bool": SBool}[out](t)


class SId(Sym):
    """opaque comparable value (user id, item id, ...) - only equality and order are known"""

    def __eq__(self, o):
        return mkbool(self.t == o.t) if isinstance(o, SId) else False

    def __ne__(self, o): return snot(self == o)
    def __lt__(self, o): return mkbool(self.t < o.t) if isinstance(o, SId) else NotImplemented
    def __le__(self, o): return mkbool(self.t <= o.t) if isinstance(o, SId) else NotImplemented
    def __gt__(self, o): return mkbool(self.t > o.t) if isinstance(o, SId) else NotImplemented
    def __ge__(self, o): return mkbool(self.t >= o.t) if isinstance(o, SId) else NotImplemented
    def __bool__(self): return ufun("truth", self, out="bool").__bool__()
    __hash__ = Sym.__hash__


class Token:
    """opaque concrete object, equal only to itself"""

    def __init__(self, name):
        self._name = name

    def __repr__(self):
        return "<%s>" % self._name


# ---------------------------------------------------------------- outcome of a call
class Outcome:
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def returned(self):
        return self.exc is None

    def raised(self, *types):
        return self.exc is not None and (not types or isinstance(self.exc, types))


UNBOUND = Token("unbound")
ABSENT = Token("absent")


class Agg:
    """aggregate Sum{ body(k) | k in space, guard(k) }; count when body is 1"""

    def __init__(self, const, space, body, guard):
        self.const, self.space, self.body, self.guard = const, space, body, guard


def engine_failure(e):
    """an exception that says the model lacks something, not that the verified code raises it"""
    import traceback, os
    here = os.path.dirname(os.path.abspath(__file__))
    tb = traceback.extract_tb(e.__traceback__)
    if isinstance(e, AttributeError) and type(getattr(e, "obj", None)).__module__.startswith("pyvc"):
        return "%s: %s" % (type(e).__name__, e)
    if isinstance(e, TypeError) and tb and os.path.dirname(tb[-1].filename) != here:
        import re as _re
        for w in _re.findall(r"'([A-Za-z_]+)'", str(e)):
            if w in MODEL_NAMES():
                return "TypeError: %s" % e
    if tb and os.path.dirname(tb[-1].filename) == here and not (tb[-1].line or "").lstrip().startswith(("raise ", "_raise(")) and "_raise(" not in (tb[-1].line or ""):
        if not isinstance(e, (KeyError, IndexError, StopIteration)):
            return "%s in the model: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(tb[-1].filename), tb[-1].lineno)
    return None


_names = set()


def MODEL_NAMES():
    import sys, inspect
    if not _names:
        for n, m in list(sys.modules.items()):
            if n.startswith("pyvc."):
                _names.update(k for k, v in vars(m).items() if inspect.isclass(v) and v.__module__ == n)
        _names.difference_update({"DataFrame"})
    return _names


_lin_cache = {}


def is_linear(f):
    """no product or quotient of two non-constant terms"""
    stack, seen = [f], []
    bad = False
    while stack:
        x = stack.pop()
        i = x.get_id()
        c = _lin_cache.get(i)
        if c is not None and c[1].eq(x):
            if not c[0]:
                bad = True
                break
            continue
        if z3.is_app(x):
            k = x.decl().kind()
            ch = x.children()
            if k == z3.Z3_OP_MUL and sum(0 if z3.is_rational_value(y) or z3.is_int_value(y) else 1 for y in ch) > 1:
                bad = True
                break
            if k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not (z3.is_rational_value(ch[1]) or z3.is_int_value(ch[1])):
                bad = True
                break
            if k == z3.Z3_OP_POWER:
                bad = True
                break
            stack.extend(ch)
        seen.append(x)
    if not bad:
        if len(_lin_cache) > 200000:
            _lin_cache.clear()
        for x in seen:
            _lin_cache[x.get_id()] = (True, x)
    return not bad


_abs_cache = {}
_nlfun = {}


def nlfun(name, sorts):
    k = (name,) + tuple(str(x) for x in sorts)
    if k not in _nlfun:
        _nlfun[k] = z3.Function("nl_%s_%d" % (name, len(_nlfun)), *sorts)
    return _nlfun[k]


def opaque(f):
    """f with products, quotients and powers of non-constant terms replaced by uninterpreted functions (a weakening: unsat of the result is unsat of f)"""
    c = _abs_cache.get(f.get_id())
    if c is not None and c[0].eq(f):
        return c[1]
    stack = [f]
    while stack:
        x = stack[-1]
        c = _abs_cache.get(x.get_id())
        if c is not None and c[0].eq(x):
            stack.pop()
            continue
        if not z3.is_app(x) or x.num_args() == 0:
            _abs_cache[x.get_id()] = (x, x)
            stack.pop()
            continue
        ch = x.children()
        todo = [y for y in ch if not (y.get_id() in _abs_cache and _abs_cache[y.get_id()][0].eq(y))]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        nc = [_abs_cache[y.get_id()][1] for y in ch]
        k = x.decl().kind()
        isnumv = lambda y: z3.is_rational_value(y) or z3.is_int_value(y)
        if k == z3.Z3_OP_MUL and sum(0 if isnumv(y) else 1 for y in nc) > 1:
            consts = [y for y in nc if isnumv(y)]
            rest = sorted([y for y in nc if not isnumv(y)], key=lambda y: y.get_id())
            r = rest[0]
            for y in rest[1:]:
                r = nlfun("mul", (r.sort(), y.sort(), r.sort()))(r, y)
            for y in consts:
                r = y * r
        elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not isnumv(nc[1]):
            r = nlfun({z3.Z3_OP_DIV: "div", z3.Z3_OP_IDIV: "idiv", z3.Z3_OP_MOD: "mod"}[k], (nc[0].sort(), nc[1].sort(), x.sort()))(*nc)
        elif k == z3.Z3_OP_POWER:
            r = nlfun("pow", (nc[0].sort(), nc[1].sort(), x.sort()))(*nc)
        elif all(p.eq(q) for p, q in zip(nc, ch)):
            r = x
        else:
            r = x.decl()(*nc)
        _abs_cache[x.get_id()] = (x, r)
    if len(_abs_cache) > 400000:
        r = _abs_cache[f.get_id()][1]
        _abs_cache.clear()
        return r
    return _abs_cache[f.get_id()][1]


class Watchdog:
    """interrupts a query that does not honour its time limit"""

    def __init__(self):
        import threading
        self.until = None
        self.cv = threading.Condition()
        threading.Thread(target=self.run, daemon=True).start()

    def run(self):
        while True:
            time.sleep(0.5)
            u = self.until
            if u is not None and time.time() > u:
                self.until = time.time() + 1
                z3.main_ctx().interrupt()


class TwoSolver:
    """the full solver, and one in which products of non-constants are uninterpreted (an unsat answer of the second is an unsat answer of the first)"""

    def __init__(self, timeout):
        self.full, self.lin = z3.Solver(), z3.Solver()
        self.set("timeout", timeout)
        self.nonlin = [False]

    def set(self, k, v):
        self.full.set(k, v)
        self.lin.set(k, v)

    def push(self):
        self.full.push(); self.lin.push()
        self.nonlin.append(self.nonlin[-1])

    def pop(self):
        self.full.pop(); self.lin.pop()
        self.nonlin.pop()

    def add(self, f):
        self.full.add(f)
        if is_linear(f):
            self.lin.add(f)
        else:
            self.lin.add(opaque(f))
            self.nonlin[-1] = True

    def check(self, *extra):
        if not self.nonlin[-1] and all(is_linear(x) for x in extra):
            self.last = self.lin
            return self.lin.check(*extra)
        if self.lin.check(*[x if is_linear(x) else opaque(x) for x in extra]) == z3.unsat:
            return z3.unsat
        self.last = self.full
        return self.full.check(*extra)

    def model(self):
        return self.last.model()


WATCH = Watchdog()
SLOW = float(os.environ.get("PYVC_SLOW", 0))
PROCS = int(os.environ.get("PYVC_PROCS", "0")) or min(8, os.cpu_count() or 1)


class Engine:
    def __init__(self, deadline=None, timeout_ms=10000):
        self.obls = {}          # name -> dict
        self.order = []
        self.deadline = deadline
        self.timeout_ms = timeout_ms
        self.assumptions = {}
        self.trusted = {}
        self.functions = {}
        self.lemmas = {}
        self.loopinfo = {}      # loop id -> LoopInfo (persist over restarts)
        self.dropped = set()    # falsified candidate invariants
        self.solver_time = 0.0
        self.queries = 0
        self.numpy_div = False
        self.vacuity = 0
        self.back_ends = {}
        self.current_fn = "?"
        self.paths = 0
        self.used_candidates = {}
        self.reached = {}
        self._reset()

    # ---- per-path state
    def _reset(self):
        self.pc = []
        self.solver = TwoSolver(self.timeout_ms)
        self.counter = itertools.count()
        self.pos = 0
        self.aggs = []
        self.ghost = {}
        self.regs = {}
        self.loops_active = []
        self.loop_candidates = []
        self.havoc_hooks = []
        self.abstract = []
        self.dead = False
        self.no_map = False
        self.lazy = 0
        self.since = []
        self.accs = []
        self.flatsets = []
        self.attr_writes = {}
        self.memo = {}
        self.recording = []
        self.sub = []
        self.stamps = {}
        self.by_reg = {}
        self.idseqs = []
        self.hints = []
        self.member_hint = None

        self.rowhints = []
        self.row_in_range = []
        self.cumcounts = []
        self.nzs = []
        self.windows = []
        self.coo_witnesses = []
        self.dedups = []
        self.splits = []
        self.filters = []
        self.done_loops = []
        self.groupings = []
        self.group_hint = None
        self.perms = []
        self.n_assumed = 0
        self.factset = set()
        self.ghostmem = {}
        self.extrema = []
        self.list_elem = self.list_match = None
        self.strlangs = {}
        self.numpy_div = False
        self.exact = False
        self.on_iteration = lambda loop: None
        self.iter_checks = lambda ctx: None
        self.while_symbolic = lambda lid: True
        self.ghost_sorts, self.futures = [], []
        self.rngs, self.triplets = [], False
        self.done_strides = []
        self.eigs, self.no_range, self.total_div = [], 0, False
        self.future_value = None
        self.accum_of = self.vector_sum = self.cxx_new = None
        self.strict_pins = False

    def stamp(self, obj):
        if id(obj) not in self.stamps:
            self.stamps[id(obj)] = (obj, next(self.counter))

    def register(self, obj, name):
        """name an object so that loops may write to it (its written locations are havocked at the loop head)"""
        self.regs[id(obj)] = (name, obj)
        self.by_reg[name] = obj
        return obj

    def recorder(self, obj):
        if not self.recording:
            return None
        rec, start = self.recording[-1]
        st = getattr(obj, "stamp", -1)
        return rec if st < start else None

    def subexplore(self, f, max_paths=200):
        """all paths of f() below the current path; returns their results (facts are dropped again)"""
        saved = (self.decisions, self.pos, self.work, list(self.pc))
        self.sub.append([])
        out = []
        self.work = [[]]
        n = 0
        try:
            while self.work:
                self.decisions, self.pos = list(self.work.pop()), 0
                self.solver.push()
                self.pc = list(saved[3])
                try:
                    out.append(f())
                except (PathDone, Infeasible):
                    pass
                finally:
                    self.solver.pop()
                n += 1
                if n > max_paths:
                    unsupported("too many paths in loop body")
        finally:
            self.decisions, self.pos, self.work, self.pc = saved
            fs = self.sub.pop()
        for x in fs:
            self.fact(x)
        return out

    def fresh_name(self, hint):
        return "%s!%d" % (hint, next(self.counter))

    def int(self, hint="i", lo=None, hi=None):
        v = SInt(z3.Int(self.fresh_name(hint)))
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v < hi)
        return v

    def float(self, hint="x", extended=False, nan=False):
        t = z3.Real(self.fresh_name(hint))
        if not extended:
            return SFloat(t)
        k = z3.Int(self.fresh_name(hint + "_k"))
        self.assume(mkbool(z3.And(k >= -1, k <= (2 if nan else 1))))
        return SFloat(t, k)

    def bool(self, hint="b"):
        return SBool(z3.Bool(self.fresh_name(hint)))

    def id(self, hint="id"):
        return SId(z3.Int(self.fresh_name(hint)))

    def func(self, hint, *sorts):
        m = {"int": z3.IntSort(), "real": z3.RealSort(), "bool": z3.BoolSort()}
        return z3.Function(self.fresh_name(hint), *[m[s] for s in sorts])

    # ---- solver
    def _check(self, *extra, timeout=None):
        if self.deadline and time.time() > self.deadline:
            raise OutOfTime()
        t0 = time.time()
        if timeout:
            self.solver.set("timeout", timeout)
        limit = (timeout or self.timeout_ms) / 1000
        WATCH.until = t0 + 2.2 * limit + 1
        try:
            r = self.solver.check(*extra)
        except z3.Z3Exception as e:
            r = z3.unknown
        WATCH.until = None
        if SLOW and time.time() - t0 > SLOW:
            import traceback
            print("SLOW %.1f %s aggs=%d pc=%d" % (time.time() - t0, r, len(self.aggs), len(self.pc)), [("%s:%d" % (f.filename.split("/")[-1], f.lineno)) for f in traceback.extract_stack()[-7:-1]], file=sys.stderr)
        if timeout:
            self.solver.set("timeout", self.timeout_ms)
        self.solver_time += time.time() - t0
        self.queries += 1
        return r

    def assume(self, f):
        f = bterm(f)
        self.n_assumed += 1
        self.pc.append(f)
        self.solver.add(f)

    def fact(self, f):
        """instance of a valid fact about library values (trusted contract); same as assume"""
        f = z3.simplify(bterm(f))
        if z3.is_true(f):
            return
        if f.get_id() in self.factset:
            return
        if self.sub:
            self.sub[-1].append(f)
        else:
            self.factset.add(f.get_id())
        self.pc.append(f)
        self.solver.add(f)

    def branch(self, cond):
        cond = z3.simplify(cond) if not isinstance(cond, bool) else z3.BoolVal(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.decisions):
            v = self.decisions[self.pos]
        else:
            t = self._check(cond, timeout=3000) != z3.unsat
            f = self._check(z3.Not(cond), timeout=3000) != z3.unsat
            if t and f:
                self.work.append(self.decisions + [False])
                v = True
            elif t:
                v = True
            elif f:
                v = False
            else:
                raise Infeasible()
            self.decisions.append(v)
        self.pos += 1
        c = cond if v else z3.Not(cond)
        self.n_assumed += 1
        self.pc.append(c)
        self.solver.add(c)
        return v

    def decide(self, cond):
        return self.branch(cond if z3.is_expr(cond) else bterm(cond))

    def choose(self, n, what=""):
        """nondeterministic choice, all explored"""
        if self.pos < len(self.decisions):
            v = self.decisions[self.pos]
        else:
            for j in range(n - 1, 0, -1):
                self.work.append(self.decisions + [j])
            v = 0
            self.decisions.append(v)
        self.pos += 1
        return v

    def valid(self, f, timeout=3000):
        return self._check(z3.Not(bterm(f)), timeout=timeout) == z3.unsat

    def possible(self, f=True):
        return self._check(bterm(f), timeout=3000) != z3.unsat

    # ---- aggregates
    def agg(self, space, body, guard):
        """space: hashable description of the index space: tuple of (lo, hi) z3 terms; body, guard: functions of index terms"""
        c = z3.Real(self.fresh_name("agg"))
        a = Agg(c, space, body, guard)
        self.aggs.append(a)
        return SFloat(c)

    def _consts(self, f, seen):
        stack, out = [f], set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            stack.extend(x.children())
        return out

    def _inst(self, a, ks):
        """guard and body of a at the index terms ks (memoised)"""
        key = (a.const.get_id(), tuple(k.get_id() for k in ks), len(self.rowhints), len(self.hints))
        if key not in self.memo:
            n0 = len(self.aggs)
            self.memo[key] = (bterm(a.guard(*ks)), real(a.body(*ks)), self.aggs[n0:], ks, a)
        return self.memo[key][:3]

    def _derive(self, f):
        """a consequence of the current path"""
        if self.sub:
            self.assume(f)
        else:
            self.fact(f)

    def _ks(self, n):
        l = self.memo.setdefault("agg_ks", [])
        while len(l) < n:
            l.append(z3.Int(self.fresh_name("k")))
        return l[:n]

    def _close_aggs(self, phi, widen=False, singles=False):
        """extensionality: equal summands over equal spaces give equal sums; empty and singleton sums"""
        names = self._consts(phi, set())
        mine = [a for a in self.aggs if a.const.decl().name() in names]
        if not mine:
            return
        if widen:
            mine = list(self.aggs)
        state = (self.n_assumed, len(self.rowhints), len(self.hints))
        for a in mine if singles else ():
            if len(a.space) != 1:
                continue
            lo, hi = a.space[0]
            for h in [None] + list(self.rowhints):
                key = (a.const.get_id(), None if h is None else term(h).get_id(), state)
                if key in self.memo:
                    if self.memo[key]:
                        break
                    continue
                self.memo[key] = False
                k, = self._ks(1)
                g, _, _ = self._inst(a, [k])
                hyp = z3.And(k >= lo, k < hi, g)
                if h is None:
                    if self.valid(z3.Not(hyp), timeout=1000):
                        self._derive(a.const == 0)
                        self.memo[key] = not self.sub
                        break
                elif self.valid(z3.Implies(hyp, k == term(h)), timeout=1000):
                    ht = term(h)
                    self._derive(a.const == z3.If(z3.And(ht >= lo, ht < hi, bterm(a.guard(ht))), real(a.body(ht)), z3.RealVal(0)))
                    self.memo[key] = not self.sub
                    break
        for a, b in itertools.combinations(mine, 2):
            key = (a.const.get_id(), b.const.get_id(), state, singles)
            if key in self.memo or (a.const.get_id(), b.const.get_id(), "equal") in self.memo:
                continue
            self.memo[key] = True
            if len(a.space) != len(b.space):
                continue
            if not all((x[0].eq(y[0]) and x[1].eq(y[1])) or self.valid(z3.And(x[0] == y[0], x[1] == y[1])) for x, y in zip(a.space, b.space)):
                continue
            ks = self._ks(len(a.space))
            rng = z3.And(*[z3.And(k >= lo, k < hi) for k, (lo, hi) in zip(ks, a.space)])
            (ga, va, na), (gb, vb, nb) = self._inst(a, ks), self._inst(b, ks)
            goal = z3.Implies(rng, z3.If(ga, va, z3.RealVal(0)) == z3.If(gb, vb, z3.RealVal(0)))
            if na or nb:
                self._close_aggs(goal, singles=singles)
            if self.valid(goal, timeout=self.timeout_ms):
                self._derive(a.const == b.const)
                if not self.sub:
                    self.memo[(a.const.get_id(), b.const.get_id(), "equal")] = True

    def relate(self, a, b):
        """try to show that two sums are equal (summand by summand)"""
        self._close_aggs(a.t == b.t, singles=False)

    def _genuine(self, phi):
        """when sums are involved: is there a counter-model in which every index space has at most two elements and every sum is expanded?"""
        if not self.aggs:
            return True
        saved, kept = list(self.pc), []
        self.solver.push()
        try:
            for d in (1, 2):
                self.solver.push()
                self.sub.append([])
                try:
                    done, todo, rounds = set(), True, 0
                    seen = set()
                    for size in (d,):
                        names = self._consts(phi, set())
                        k = 0
                        while k < len(self.aggs):
                            a = self.aggs[k]
                            k += 1
                            if k > 60:
                                break
                            for lo, hi in a.space:
                                self.solver.add(hi - lo <= size)
                            tot = z3.RealVal(0)
                            for off in itertools.product(range(size), repeat=len(a.space)):
                                ks = [lo + z3.IntVal(j) for (lo, hi), j in zip(a.space, off)]
                                inr = z3.And(*[x < hi for x, (lo, hi) in zip(ks, a.space)])
                                tot = tot + z3.If(z3.And(inr, bterm(a.guard(*ks))), real(a.body(*ks)), z3.RealVal(0))
                            self.solver.add(a.const == tot)
                    if self._check(z3.Not(phi), timeout=5000) == z3.sat:
                        return True
                except (Unsupported, Infeasible, PathDone):
                    return False
                finally:
                    self.solver.pop()
                    for x in self.sub.pop():
                        self.assume(x)
                        kept.append(x)
            return False
        finally:
            self.solver.pop()
            self.pc = saved
            for x in kept:
                self.fact(x)

    # ---- obligations
    def prove(self, name, phi, fn=None, kind="post"):
        """an obligation; proved iff proved on every path that reaches it"""
        if isinstance(phi, bool):
            phi = z3.BoolVal(phi)
        phi = bterm(phi)
        fn = fn or self.current_fn
        key = (fn, name)
        o = self.obls.get(key)
        if o is None:
            o = self.obls[key] = dict(name=name, function=fn, status="proved", instances=0, time=0.0, solver="z3", kind=kind)
            self.order.append(key)
        o["instances"] += 1
        if o["status"] == "refuted":
            self.assume(phi) if False else None
            return False
        t0 = time.time()
        self._close_aggs(phi)
        r = self._check(z3.Not(phi))
        for wide in (False, True):
            if r == z3.sat and self.aggs and (not wide or len(self.aggs) <= 12):
                self._close_aggs(phi, widen=wide, singles=True)
                r = self._check(z3.Not(phi))
        detail = None
        if r == z3.unknown:
            r2, solver = self._cvc5(z3.Not(phi))
            if r2 is not None:
                r = r2
                o["solver"] = "z3+cvc5"
        if r == z3.unsat:
            self.back_ends[o["solver"]] = self.back_ends.get(o["solver"], 0) + 1
        elif r == z3.sat and not self._genuine(phi):
            o["status"] = "unknown"
            o["reason"] = "sums could not be related (no counter-model with the sums expanded)"
            o["goal"] = str(z3.simplify(phi))[:600]
        elif r == z3.sat:
            o["status"] = "unknown" if self.abstract else "refuted"
            m = None
            try:
                m = self.solver.model()
            except z3.Z3Exception:
                pass
            o["reason"] = "counter-model" + (" (path contains abstracted operations: %s)" % self.abstract if self.abstract else "")
            o["counterexample"] = str(m)[:1500] if m is not None else None
            o["path"] = [str(z3.simplify(x))[:200] for x in self.pc[-12:]]
            o["goal"] = str(z3.simplify(phi))[:600]
        else:
            o["status"] = "unknown"
            o["reason"] = "solver gave no answer"
            o["goal"] = str(z3.simplify(phi))[:600]
        o["time"] = round(o["time"] + time.time() - t0, 3)
        return r == z3.unsat

    def _cvc5(self, neg):
        import subprocess
        s = z3.Solver()
        for p in self.pc:
            s.add(p)
        s.add(neg)
        try:
            txt = "(set-logic ALL)\n" + s.to_smt2()
            p = subprocess.run(["cvc5", "--tlimit=8000", "--lang=smt2"], input=txt, capture_output=True, text=True, timeout=12)
            if p.stdout.strip().startswith("unsat"):
                return z3.unsat, "cvc5"
        except Exception:
            pass
        return None, None

    def fail(self, name, why, fn=None):
        key = (fn or self.current_fn, name)
        o = self.obls.get(key)
        if o is None:
            o = self.obls[key] = dict(name=name, function=fn or self.current_fn, status="proved", instances=0, time=0.0, solver="z3", kind="post")
            self.order.append(key)
        o["instances"] += 1
        if self._check() == z3.unsat:
            return
        if o["status"] != "refuted":
            o["status"] = "unknown" if self.abstract else "refuted"
            o["reason"] = why
            o["path"] = [str(z3.simplify(x))[:200] for x in self.pc[-12:]]

    def reach(self, name):
        """vacuity guard: this point must be reachable on at least one path"""
        if name not in self.reached:
            self.reached[name] = False
        if not self.reached[name] and self._check(timeout=5000) != z3.unsat:
            self.reached[name] = True

    def use(self, what):
        self.trusted[what] = True

    def lemma(self, name, what):
        """a lemma about sums/counts proved in proofs/<name>.lean (re-checked by Lean on every run that uses it)"""
        self.lemmas[name] = what

    def note(self, what):
        self.assumptions[what] = True

    # ---- calling code under contract
    def attempt(self, fn, *a, **k):
        try:
            return Outcome(value=fn(*a, **k))
        except Control:
            raise
        except BaseException as e:
            if isinstance(e, (RecursionError, MemoryError)):
                unsupported("%s in the verified code" % type(e).__name__)
            if isinstance(e, NameError) and "_E_" in str(e):
                raise
            why = engine_failure(e)
            if why:
                unsupported(why)
            return Outcome(exc=e)

    def instantiate(self, *js):
        """what minima and maxima of sequences say about element j"""
        for f in self.extrema:
            for j in js:
                f(j)

    # ---- exploring
    PROCS = PROCS

    def _one(self, spec, prefix):
        self.decisions = list(prefix)
        self._reset()
        self.paths += 1
        try:
            spec(self)
        except (PathDone, Infeasible):
            pass

    def _parallel(self, spec, max_paths, n):
        """the remaining prefixes, by forked processes; every process explores whole subtrees. -> number of paths"""
        import multiprocessing, pickle
        todo = list(self.work)
        self.work = []
        ctx = multiprocessing.get_context("fork")
        nxt, stop = ctx.Value("i", 0), ctx.Value("i", 0)
        pipes = []
        for w in range(min(self.PROCS, len(todo))):
            rd, wr = os.pipe()
            pid = os.fork()
            if pid:
                os.close(wr)
                pipes.append((pid, rd))
                continue
            res = dict(end=None)
            try:
                os.close(rd)
                WATCH.__init__()
                self.obls, self.order = {}, []
                self.reached = {}
                self.paths = self.queries = 0
                self.solver_time, self.back_ends = 0.0, {}
                while not stop.value:
                    with nxt.get_lock():
                        k = nxt.value
                        nxt.value += 1
                    if k >= len(todo):
                        break
                    self.work = [todo[k]]
                    while self.work and not stop.value:
                        if n + self.paths * self.PROCS > max_paths * self.PROCS:
                            unsupported("more than %d paths" % max_paths)
                        self._one(spec, self.work.pop())
            except BaseException as e:
                import traceback
                stop.value = 1
                tb = ["%s:%d %s" % (f.filename, f.lineno, f.name) for f in traceback.extract_tb(e.__traceback__)[-7:]]
                res["end"] = (type(e).__name__, str(e), tb)
            try:
                res.update(obls=[self.obls[k] for k in self.order], keys=list(self.order), reached=self.reached, paths=self.paths, queries=self.queries, solver_time=self.solver_time, back_ends=self.back_ends,
                           sets=[list(x) for x in (self.assumptions, self.trusted, self.functions, self.used_candidates)], lemmas=dict(self.lemmas))
                data = pickle.dumps(res)
                with os.fdopen(wr, "wb") as f:
                    f.write(data)
            finally:
                os._exit(0)
        ends = []
        for pid, rd in pipes:
            with os.fdopen(rd, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            if not data:
                ends.append(("Unsupported", "a verifier process ended without an answer", []))
                continue
            r = pickle.loads(data)
            if r["end"]:
                ends.append(r["end"])
            for key, o in zip(r["keys"], r["obls"]):
                if key not in self.obls:
                    self.obls[key] = o
                    self.order.append(key)
                    continue
                a = self.obls[key]
                rank = {"proved": 0, "unknown": 1, "refuted": 2}
                if rank[o["status"]] > rank[a["status"]]:
                    a, o = o, a
                    self.obls[key] = a
                a["instances"] += o["instances"]
                a["time"] = round(a["time"] + o["time"], 3)
                if "cvc5" in o["solver"]:
                    a["solver"] = o["solver"]
            for k, v in r["reached"].items():
                self.reached[k] = self.reached.get(k, False) or v
            self.paths += r["paths"]
            n += r["paths"]
            self.queries += r["queries"]
            self.solver_time += r["solver_time"]
            for k, v in r["back_ends"].items():
                self.back_ends[k] = self.back_ends.get(k, 0) + v
            for d, ks in zip((self.assumptions, self.trusted, self.functions, self.used_candidates), r["sets"]):
                for k in ks:
                    d[k] = True
            self.lemmas.update(r["lemmas"])
        for kind in ("Restart", "Unsupported", "OutOfTime"):
            for e in ends:
                if e[0] == kind:
                    x = {"Restart": Restart, "Unsupported": Unsupported, "OutOfTime": OutOfTime}[kind](e[1])
                    x.remote = e[2]
                    raise x
        if ends:
            x = RuntimeError("%s: %s" % (ends[0][0], ends[0][1]))
            x.remote = ends[0][2]
            raise x
        return n

    def explore(self, spec, fn="?", max_paths=4000):
        """run spec on every path"""
        self.current_fn = fn
        serial = self.PROCS < 2
        self.dropped, self.loopinfo = set(), {}
        for rnd in range(200):
            base = {k: dict(v) for k, v in self.obls.items()}
            order = list(self.order)
            saved = (dict(self.reached), self.paths)
            self.work = [[]]
            n = 0
            t0, par = time.time(), False
            try:
                while self.work:
                    if not serial and len(self.work) > 1 and time.time() - t0 > 1.0:
                        if len(self.work) >= 4 * self.PROCS or time.time() - t0 > 6:
                            par = True
                            n = self._parallel(spec, max_paths, n)
                            break
                        k = 0           # the oldest prefix: it has the largest subtree
                    else:
                        k = -1
                    n += 1
                    if n > max_paths:
                        unsupported("more than %d paths" % max_paths)
                    self._one(spec, self.work.pop(k))
                return n
            except Restart:
                self.obls, self.order = base, order
                self.reached, self.paths = saved
                serial = serial or par
                continue
        unsupported("invariant inference did not converge")


class _Proxy:
    """E: the engine of the current run"""

    def __init__(self):
        object.__setattr__(self, "_e", None)

    def _set(self, e):
        object.__setattr__(self, "_e", e)

    def __getattr__(self, n):
        return getattr(object.__getattribute__(self, "_e"), n)

    def __setattr__(self, n, v):
        setattr(self._e, n, v)


E = _Proxy()
