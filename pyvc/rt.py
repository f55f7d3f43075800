"""pyvc.rt - what the transformed code calls (loops, containers, builtins)."""
import builtins, copy, sys, math
import z3
from .core import *
from .core import E, UNBOUND, ABSENT

Control = Control
AnyExc = (Exception, KeyboardInterrupt, SystemExit, GeneratorExit)


# ---------------------------------------------------------------- sequences
class VSeq:
    """immutable symbolic sequence: n elements, element k is at(k) (k a python int or SInt in [0, n))"""
    kind = "list"

    def __init__(self, n, at, kind="list"):
        self.n, self._at, self.kind = n, at, kind

    def at(self, k):
        return self._at(k)

    def __len__(self):
        unsupported("native len of a symbolic sequence")

    def __iter__(self):
        if isinstance(self.n, int):
            return iter([self.at(k) for k in range(self.n)])
        unsupported("native iteration over a symbolic sequence")

    def __bool__(self):
        return bool(self.n != 0)

    def __getitem__(self, k):
        if isinstance(k, (int, SInt)):
            if k < 0:
                k = k + self.n
                if k < 0:
                    raise IndexError("list index out of range")
            elif k >= self.n:
                raise IndexError("list index out of range")
            return self.at(k)
        if isinstance(k, slice) and k.step in (None, 1):
            lo, hi = slice_bounds(k, self.n)
            return VSeq(smax(hi - lo, 0), lambda j: self.at(lo + j), self.kind)
        unsupported("sequence index %r" % type(k))

    def __contains__(self, x):
        return bool(seq_contains(self, x))

    def __add__(self, o):
        if self.kind == "list" and (isinstance(o, list) or is_symseq(o)):
            return VSeq_concat(self, o)
        return NotImplemented

    def __radd__(self, o):
        if self.kind == "list" and isinstance(o, list):
            return VSeq_concat(o, self)
        return NotImplemented

    def index(self, x):
        unsupported("index of symbolic sequence")

    def __hash__(self):
        return id(self)

    def copy(self):
        return VSeq(self.n, self._at, self.kind)

    def tolist(self):
        return self


def smax(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return max(a, b)
    return mkint(z3.If(term(a) >= term(b), term(a), term(b)))


def smin(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return min(a, b)
    return mkint(z3.If(term(a) <= term(b), term(a), term(b)))


def slice_bounds(s, n):
    """python slice semantics, step 1"""
    def norm(v, default):
        if v is None:
            return default
        if isinstance(v, int) and isinstance(n, int):
            return min(max(v + n if v < 0 else v, 0), n)
        t, nt = term(v), term(n)
        return mkint(z3.If(t < 0, z3.If(t + nt < 0, z3.IntVal(0), t + nt), z3.If(t > nt, nt, t)))
    return norm(s.start, 0), norm(s.stop, n)


class IdSeq(VSeq):
    """symbolic sequence of ids: at(j) = f(j); membership and position functions with their defining facts instantiated on use"""

    def __init__(self, n=None, hint="ids", distinct=True, kind="list"):
        self.n = E.int("n_" + hint, lo=0) if n is None else n
        self.f = E.func(hint, "int", "int")
        self.pos = E.func(hint + "_pos", "int", "int")
        self.mem = E.func(hint + "_mem", "int", "bool")
        self.distinct, self.kind = distinct, kind
        E.idseqs.append(self)

    def at(self, j):
        j = term(j)
        x = self.f(j)
        inr = z3.And(j >= 0, j < term(self.n))
        if self.distinct:
            E.fact(z3.Implies(inr, z3.And(self.mem(x), self.pos(x) == j)))
        else:
            E.fact(z3.Implies(inr, self.mem(x)))
        self._facts(x)
        return SId(x)

    def _facts(self, x):
        p = self.pos(x)
        E.fact(z3.Implies(self.mem(x), z3.And(p >= 0, p < term(self.n), self.f(p) == x)))

    def member(self, x):
        if not isinstance(x, SId):
            return False
        self._facts(x.t)
        return mkbool(self.mem(x.t))

    def position(self, x):
        self._facts(x.t)
        return mkint(self.pos(x.t))

    def copy(self):
        return self


def seq_contains(s, x):
    if isinstance(s, IdSeq):
        return s.member(x)
    if hasattr(s, "member"):
        return s.member(x)
    unsupported("membership in %s" % type(s).__name__)


class VList(list):
    """list display; becomes symbolic (n, at) after appends in a symbolic loop"""

    def __init__(self, *a):
        super().__init__(*a)
        self.sym = None
        self.pushed = None
        self.mut = -1
        self.stamp = next(E.counter) if E._e is not None else -1

    # symbolic view
    def _r(self):
        fresh_read(self)
        if E.recording:
            rec = E.recorder(self)
            if rec is not None:
                rec.info.read[id(self)] = self

    @property
    def n(self):
        n = list.__len__(self) if self.sym is None else self.sym.n
        if E.recording:
            rec = E.recorder(self)
            if rec is not None:
                return rec.length(self, n)
        fresh_read(self)
        return n

    def at(self, k):
        self._r()
        if self.sym is not None:
            return self.sym.at(k)
        if isinstance(k, int):
            return list.__getitem__(self, k)
        m = list.__len__(self)
        for j in range(m - 1):
            if E.decide(k.t == j):
                return list.__getitem__(self, j)
        return list.__getitem__(self, m - 1)

    def _w(self):
        self.mut = next(E.counter)
        self.pushed = None
        note_write(self)

    def append(self, x):
        rec = E.recorder(self)
        if rec is not None:
            rec.append((self, "append", x))
            return
        p = self.pushed
        self._w()
        if p is not None:
            self.pushed = p + [x]
        if self.sym is None:
            super().append(x)
        else:
            s = self.sym
            n0, at0 = s.n, s.at
            self.sym = VSeq(n0 + 1, lambda k, n0=n0, at0=at0, x=x: x if same_idx(k, n0) else at0(k))

    def extend(self, xs):
        rec = E.recorder(self)
        if rec is not None:
            rec.append((self, "extend", xs))
            return
        self._w()
        if self.sym is None and not is_symseq(xs):
            super().extend(xs)
        else:
            self.sym = concat_seq(self, xs)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __len__(self):
        if self.sym is not None:
            unsupported("native len of a symbolic list")
        return super().__len__()

    def __iter__(self):
        if self.sym is not None:
            unsupported("native iteration over a symbolic list")
        self._r()
        return super().__iter__()

    def __bool__(self):
        return bool(self.n != 0)

    def __getitem__(self, k):
        self._r()
        if isinstance(self.sym, IdSeq) and self.sym.distinct and isinstance(k, slice) and k.step in (None, 1):
            from .pdmodel import Window
            lo, hi = slice_bounds(k, self.sym.n)
            r = VList()
            r.sym = Window(self.sym, lo, hi)
            return r
        if self.sym is None and not (isinstance(k, Sym) or (isinstance(k, slice) and any(isinstance(q, Sym) for q in (k.start, k.stop)))):
            r = super().__getitem__(k)
            return VList(r) if isinstance(k, slice) else r
        return VSeq(self.n, self.at)[k]

    def __add__(self, o):
        if self.sym is None and not is_symseq(o):
            return VList(list(self) + list(o))
        return VSeq_concat(self, o)

    def __eq__(self, o):
        if self.sym is None and not is_symseq(o):
            return list.__eq__(self, o)
        unsupported("== of symbolic lists")

    def __contains__(self, x):
        self._r()
        if self.sym is None:
            for y in self:
                if x is y or x == y:
                    return True
            return False
        return bool(seq_contains(self.sym, x))

    def index(self, x, *a):
        if self.sym is None:
            for i, y in enumerate(self):
                if x is y or x == y:
                    return i
            raise ValueError("not in list")
        unsupported("index in symbolic list")

    def copy(self):
        self._r()
        r = VList(list(self) if self.sym is None else [])
        r.sym = self.sym
        return r

    __hash__ = None

    def insert(self, *a):
        if self.sym is not None or E.recorder(self) is not None:
            unsupported("list.insert")
        self._w(); super().insert(*a)

    def pop(self, *a):
        if self.sym is not None or E.recorder(self) is not None:
            unsupported("list.pop")
        self._w(); return super().pop(*a)

    def sort(self, **k):
        unsupported("list.sort")


def same_idx(k, n0):
    r = (k == n0)
    return r if isinstance(r, bool) else E.decide(bterm(r))


def concat_seq(a, b):
    na, nb = length(a), length(b)
    fa = a.at if hasattr(a, "at") else (lambda k: a[k])
    fb = b.at if hasattr(b, "at") else (lambda k: b[k])
    a_at = a.sym.at if isinstance(a, VList) and a.sym is not None else VSeq(na, lambda k, items=list(a): pick(items, k)).at if isinstance(a, VList) else fa
    return VSeq(na + nb, lambda k: a_at(k) if E.decide(bterm(k < na)) else fb(k - na))


def pick(items, k):
    if isinstance(k, int):
        return items[k]
    for j in range(len(items) - 1):
        if E.decide(k.t == j):
            return items[j]
    return items[-1]


def VSeq_concat(a, b):
    return concat_seq(a, b)


def is_symseq(x):
    return isinstance(x, VSeq) or (isinstance(x, VList) and x.sym is not None) or getattr(x, "symbolic_iter", False) is True


def length(x):
    if isinstance(x, VList):
        return x.n
    if isinstance(x, VSeq):
        return x.n
    if isinstance(x, VDict) or isinstance(x, VMap):
        return x.size()
    if hasattr(x, "vlen"):
        return x.vlen()
    return builtins.len(x)


class VMap:
    """symbolic dictionary built from a sequence of (key, value) pairs with SId keys (later pairs win)"""
    symbolic_iter = True

    def __init__(self, n, key, val, ids=None):
        self.n, self.key, self.val = n, key, val
        self.ids = ids
        if ids is None:
            self.lpos = E.func("map_pos", "int", "int")
            self.mem = E.func("map_mem", "int", "bool")

    def _facts(self, x):
        if self.ids is not None:
            return
        p = SInt(self.lpos(x))
        kp = self.key(p)
        E.fact(z3.Implies(self.mem(x), z3.And(p.t >= 0, p.t < term(self.n), kp.t == x)))

    def _hints(self):
        """completeness at the hinted indices: the key at an index of the source is a member, no earlier than that index"""
        done = self.__dict__.setdefault("_hinted", set())
        f = getattr(self, "filtered", None)
        for i in list(E.hints):
            if term(i).get_id() in done:
                continue
            done.add(term(i).get_id())
            if f is not None:
                r = f.complete(i)
                if r is None:
                    continue
            else:
                r = i
                if not E.decide(z3.And(term(r) >= 0, term(r) < term(self.n))):
                    continue
            key = self.key(r)
            if isinstance(key, SId):
                E.fact(z3.And(self.mem(key.t), self.lpos(key.t) >= term(r)))
                self._facts(key.t)

    def member(self, x):
        if not isinstance(x, SId):
            return False
        if self.ids is not None:
            return self.ids.member(x)
        self._hints()
        self._facts(x.t)
        return mkbool(self.mem(x.t))

    def position(self, x):
        if self.ids is not None:
            return self.ids.position(x)
        self._hints()
        self._facts(x.t)
        return mkint(self.lpos(x.t))

    def __contains__(self, x):
        return bool(self.member(x))

    def __getitem__(self, x):
        mem = self.member(x)
        if isinstance(x, SId) and E.ghostmem.get("distinct") and not E.valid(bterm(mem)):
            for d, *_ in list(E.ghostmem["distinct"].values()):
                d.cross(x.t)
        if not self.member(x):
            raise KeyError(x)
        return self.val(self.position(x))

    def get(self, x, d=None):
        if not self.member(x):
            return d
        return self.val(self.position(x))

    def size(self):
        if self.ids is not None and self.ids.distinct:
            return self.n
        if not hasattr(self, "size_"):
            self.size_ = E.int("dict_size", lo=0)
            E.fact(self.size_ <= self.n)
            a, b = E.int("dup_a"), E.int("dup_b")
            ka, kb = self.key(a), self.key(b)
            if not (isinstance(ka, SId) and isinstance(kb, SId)):
                unsupported("size of a symbolic dictionary")
            E.fact(z3.Implies(self.size_.t < term(self.n), z3.And(a.t >= 0, a.t < b.t, b.t < term(self.n), ka.t == kb.t)))
        for a in E.hints:
            for b in E.hints:
                if a is not b:
                    E.fact(z3.Implies(z3.And(term(a) >= 0, term(a) < term(b), term(b) < term(self.n), self.key(a).t == self.key(b).t), self.size_.t < term(self.n)))
        return self.size_

    def items(self):
        if self.ids is not None and self.ids.distinct:
            return VSeq(self.n, lambda k: (self.key(k), self.val(k)))
        unsupported("items of a symbolic dictionary with possibly repeated keys")

    def keys(self):
        return self.ids if self.ids is not None and self.ids.distinct else unsupported("keys")

    def values(self):
        if self.ids is not None and self.ids.distinct:
            return VSeq(self.n, lambda k: self.val(k))
        unsupported("values")

    @property
    def n_items(self):
        return self.size()

    def at(self, k):
        return self.key(k)


class GroupRef:
    """d.setdefault(key, []) inside a loop"""

    def __init__(self, d, key):
        self.d, self.key = d, key

    def append(self, v):
        E.recorder(self.d).append((self.d, "group", (self.key, v)))


class Grouped:
    """{}, after n times d.setdefault(key(k), []).append(value(k)): G groups in order of first appearance; of(k) the group of entry k, rep(g) its first entry"""

    def __init__(self, n, entry):
        self.n, self.entry = n, Thunk(entry)
        self.G = E.int("n_groups", lo=0)
        self.gf, self.rf = E.func("group_of", "int", "int"), E.func("group_first", "int", "int")
        self.mem, self.pos_ = E.func("group_key", "int", "bool"), E.func("group_at", "int", "int")
        self.ks, self.gs, self.xs, self.lists = [], [], [], {}
        E.fact(z3.And((self.G.t == 0) == (term(n) == 0), self.G.t <= term(n)))

    def key(self, k):
        return self.entry(k)[0]

    def _in(self, k):
        return z3.And(k >= 0, k < term(self.n))

    def of(self, k):
        t = z3.simplify(term(k))
        if not any(t.eq(x) for x, _ in self.ks):
            kt = term(self.key(SInt(t)))
            g = self.gf(t)
            E.fact(z3.Implies(self._in(t), z3.And(g >= 0, g < self.G.t, self.rf(g) >= 0, self.rf(g) <= t)))
            for x, xk in self.ks:
                E.fact(z3.Implies(z3.And(self._in(t), self._in(x)), (xk == kt) == (self.gf(x) == g)))
            for x in self.xs:
                E.fact(z3.Implies(z3.And(self._in(t), x == kt), z3.And(self.mem(x), self.pos_(x) == g)))
            if not E.sub:
                self.ks.append((t, kt))
            if z3.is_app(t) and t.decl().eq(self.rf):
                return SInt(g)
            self.rep(SInt(g))
        return SInt(self.gf(t))

    def rep(self, g):
        t = z3.simplify(term(g))
        r = self.rf(t)
        if not any(t.eq(x) for x in self.gs):
            inr = z3.And(t >= 0, t < self.G.t)
            E.fact(z3.Implies(inr, z3.And(self._in(r), self.gf(r) == t)))
            for x in self.gs:
                E.fact(z3.Implies(z3.And(inr, x >= 0, x < self.G.t), z3.And((x < t) == (self.rf(x) < r), (x == t) == (self.rf(x) == r))))
            if not E.sub:
                self.gs.append(t)
            self.of(SInt(r))
        return SInt(r)

    def member(self, x):
        t = z3.simplify(term(x))
        if not any(t.eq(y) for y in self.xs):
            p = self.pos_(t)
            for k, kt in self.ks:
                E.fact(z3.Implies(z3.And(self._in(k), t == kt), z3.And(self.mem(t), p == self.gf(k))))
            if not E.sub:
                self.xs.append(t)
            r = self.rep(SInt(p))
            E.fact(z3.Implies(self.mem(t), z3.And(p >= 0, p < self.G.t, term(self.key(r)) == t)))
        return mkbool(self.mem(t))

    def list_of(self, g):
        t = z3.simplify(term(g))
        if t.get_id() in self.lists:
            return self.lists[t.get_id()][1]
        self.rep(g)
        f = Filtered(VSeq(self.n, lambda k: k), lambda k: self.entry(k)[1], lambda k: self.of(k) == g)
        v = VList()
        v.sym = f.seq()
        if not E.sub:
            self.lists[t.get_id()] = (t, v)
        return v

    def lookup(self, x):
        self.member(x)
        return self.list_of(SInt(self.pos_(z3.simplify(term(x)))))

    def __getitem__(self, x):
        if E.group_hint is not None and not E.valid(bterm(self.member(x))):
            E.group_hint(self, x)
        if not self.member(x):
            raise KeyError(x)
        return self.lookup(x)

    def get(self, x, d=None):
        return self.lookup(x) if self.member(x) else d

    def size(self): return self.G
    def items(self): return VSeq(self.G, lambda g: (self.key(self.rep(g)), self.list_of(g)))
    def keys(self): return VSeq(self.G, lambda g: self.key(self.rep(g)))
    def values(self): return VSeq(self.G, lambda g: self.list_of(g))


class VDict(dict):
    """dictionary display; native for hashable concrete keys"""
    events = groups = None

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.stamp = next(E.counter) if E._e is not None else -1

    def size(self):
        if self.groups is not None:
            return self.groups.size()
        self._native()
        return dict.__len__(self)

    def __setitem__(self, k, v):
        if self.groups is not None:
            unsupported("change of a grouped dictionary")
        rec = E.recorder(self)
        if rec is not None:
            rec.append((self, "setitem", (k, v)))
            return
        note_write(self, k)
        if self.events is not None:
            self.events.append(("setitem", (k, v)))
            return
        super().__setitem__(k, v)

    def update(self, *a, **k):
        for x in a:
            for kk in (list(x.keys()) if hasattr(x, "keys") else [y[0] for y in x]):
                self[kk] = x[kk] if hasattr(x, "keys") else dict(x)[kk]
        for kk, v in k.items():
            self[kk] = v

    def pop(self, k, *d):
        if E.recorder(self) is not None:
            unsupported("dict.pop in a summarised loop")
        note_write(self, k)
        return super().pop(k, *d)

    def __contains__(self, k):
        if self.groups is not None:
            return bool(self.groups.member(k))
        self._native()
        if isinstance(k, Sym):
            return any(bool(k == x) for x in self.keys())
        return super().__contains__(k)

    def copy(self):
        return VDict(self)

    def setdefault(self, k, d=None):
        if E.recorder(self) is not None:
            if isinstance(d, VList) and d.sym is None and list.__len__(d) == 0:
                return GroupRef(self, k)
            unsupported("setdefault in a summarised loop")
        self._native()
        if isinstance(k, Sym):
            unsupported("setdefault with a symbolic key")
        if not dict.__contains__(self, k):
            note_write(self, k)
        return dict.setdefault(self, k, d)

    def absorb_loop(self, it, mine, ops, counts):
        """entries set by a loop (later entries win): kept as events, only read by contracts"""
        if "group" in ops:
            if ops != {"group"} or counts != {1} or dict.__len__(self) or self.events is not None or E.recorder(self) is not None:
                unsupported("grouping of another form")
            note_write(self, None)
            self.events = []
            self.groups = Grouped(mine.last, lambda k: mine(k)[0][2])
            E.groupings.append(self.groups)
            return
        if self.events is None:
            self.events = [("setitem", kv) for kv in self.items()]
        rec = E.recorder(self)
        if rec is not None:
            rec.append((self, "loop", LoopEvent(it, mine)))
            return
        note_write(self, None)
        self.events.append(("loop", LoopEvent(it, mine)))

    def _native(self):
        if self.events is not None:
            unsupported("reading a dictionary filled by a symbolic loop")


def _guard(name):
    f = getattr(dict, name)

    def g(self, *a, **k):
        if self.groups is not None:
            if name == "__iter__" or name == "__len__" or name == "__eq__":
                unsupported(name + " of a grouped dictionary")
            return getattr(self.groups, name)(*a, **k)
        self._native()
        return f(self, *a, **k)
    g.__name__ = name
    return g


for _n in ("__getitem__", "__len__", "__iter__", "keys", "values", "items", "get", "__eq__"):
    type.__setattr__(VDict, _n, _guard(_n))


# ---------------------------------------------------------------- dictionaries seen at one arbitrary key
class KDict:
    """a dictionary with arbitrary keys, described at one arbitrary (witness) key: present or not, and its value. What is proved at the witness
    holds for every key. 'known' holds further entries the contract refers to; other keys are read nondeterministically."""
    is_model = True

    def __init__(self, key, has, val=None, known=()):
        self.key, self.has, self.val, self.known = key, has, val, list(known)
        self.stamp = next(E.counter)

    @staticmethod
    def arbitrary(key, val):
        has = E.choose(2, "witness key present") == 1
        return KDict(key, has, val if has else None)

    def _is(self, k):
        if isinstance(k, SStr):
            return k._key() == self.key._key()
        unsupported("key %r of a symbolic dictionary" % (k,))

    def _other(self, k):
        for q, v in self.known:
            if q._key() == k._key():
                return v
        return UNBOUND

    def member(self, k):
        if self._is(k):
            return self.has
        return True if self._other(k) is not UNBOUND else E.choose(2, "other key present") == 1

    __contains__ = member

    def __getitem__(self, k):
        if self._is(k):
            if not self.has:
                raise KeyError(k)
            return self.val
        v = self._other(k)
        if v is not UNBOUND:
            return v
        if E.choose(2, "other key present") == 0:
            raise KeyError(k)
        return Token("value of another key")

    def get(self, k, d=None):
        if self._is(k):
            return self.val if self.has else d
        v = self._other(k)
        return v if v is not UNBOUND else Token("value of another key") if E.choose(2, "other key present") else d

    def __setitem__(self, k, v):
        if self._is(k):
            self.has, self.val = True, v
        else:
            self.known = [(q, x) for q, x in self.known if q._key() != k._key()]

    def setdefault(self, k, d=None):
        if not self.member(k):
            self[k] = d
        return self[k]

    def pop(self, k, *d):
        if self._is(k):
            if not self.has:
                if d:
                    return d[0]
                raise KeyError(k)
            self.has = False
            return self.val
        self.known = [(q, x) for q, x in self.known if q._key() != k._key()]
        if not d and E.choose(2, "other key present") == 0:
            raise KeyError(k)
        return Token("value of another key")

    def __delitem__(self, k):
        self.pop(k)

    def update(self, *a, **k):
        if k:
            unsupported("update of a symbolic dictionary by keywords")
        for o in a:
            if isinstance(o, dict) and not dict.__len__(o):
                continue
            if not isinstance(o, KDict) or o.key._key() != self.key._key():
                unsupported("update of a symbolic dictionary")
            if o.has:
                self.has, self.val = True, o.val
            self.known = []

    def copy(self):
        return KDict(self.key, self.has, self.val, self.known)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def items(self):
        return KIter(self, lambda k, v: (k, v))

    def values(self):
        unsupported("values of a symbolic dictionary")

    def viter(self):
        return KIter(self, lambda k, v: k)

    def keys(self):
        return KIter(self, lambda k, v: k)

    def __bool__(self):
        return True if self.has else E.choose(2, "dictionary is empty") == 1

    def __len__(self):
        unsupported("size of a symbolic dictionary")


KSTAR = "\0symbolic dictionary"


class KIter:
    symbolic_iter = True

    def __init__(self, d, f):
        self.d, self.f = d, f

    def at_witness(self):
        return self.f(self.d.key, self.d.val if self.d.has else Token("no value"))

    def at_other(self):
        return self.f(atom("another key"), Token("value of another key"))

    def viter(self):
        return self

    def __iter__(self):
        # f(**d): handed over as one keyword
        return builtins.iter([_Star(self.d)])


class _Star(str):
    def __new__(cls, d):
        r = str.__new__(cls, KSTAR)
        r.d = d
        return r


_kget = KDict.__getitem__
KDict.__getitem__ = lambda self, k: k.d if isinstance(k, _Star) else _kget(self, k)


class _KLoop:
    """stands on the loop stack while a loop over a symbolic dictionary runs: only keyed effects are allowed"""

    def written(self, obj, key):
        if getattr(obj, "stamp", -1) < self.start:
            unsupported("loop over a symbolic dictionary writes to %s" % type(obj).__name__)


def key_loop(it, body, breaks):
    if breaks:
        unsupported("loop over a symbolic dictionary is left early")
    lp = _KLoop()
    lp.start = next(E.counter)
    other = E.choose(2, "loop body raises at another key") == 1
    if not other and not it.d.has:
        return
    E.loops_active.append(lp)
    try:
        rec = Rec(0, LoopSum(1))
        E.recording.append((rec, lp.start))
        try:
            body(it.at_other() if other else it.at_witness())
        finally:
            E.recording.pop()
        if rec:
            unsupported("loop over a symbolic dictionary fills a list")
    finally:
        E.loops_active[:] = [x for x in E.loops_active if x is not lp]
    if other:
        raise PathDone()


def key_comp(kind, it, elt, cond):
    if kind != "dict":
        unsupported("comprehension over a symbolic dictionary")
    if E.choose(2, "comprehension element raises") == 1:
        x = it.at_other()
        if cond is None or cond(x):
            elt(x)
        raise PathDone()
    x = it.at_witness()
    key = elt(x)[0]
    k2 = elt(it.at_other())[0]
    if not isinstance(key, SStr) or not isinstance(k2, SStr):
        unsupported("keys of a comprehension over a symbolic dictionary")
    a, b = it.d.key._key(), atom("another key")._key()
    ka, kb = key._key(), k2._key()
    if len(ka) != len(kb) or sum(1 for p, q in zip(ka, kb) if p != q) != 1 or any(p != q and ((p,) != a or (q,) != b) for p, q in zip(ka, kb)):
        unsupported("keys of a comprehension over a symbolic dictionary")
    if it.d.has and (cond is None or cond(x)):
        return KDict(key, True, elt(x)[1])
    return KDict(key, False)


# ---------------------------------------------------------------- writes to pre-existing state inside loops
def note_write(obj, key=None):
    if not E.loops_active:
        return
    for lp in list(E.loops_active):
        lp.written(obj, key)


def setattr(obj, name, val):
    note_write(obj, ("attr", name))
    E.stamp(obj)
    rec = E.recorder(obj) if E.recording else None
    if rec is not None:
        unsupported("attribute store in a summarised loop")
    E.attr_writes.setdefault(id(obj), (obj, {}))[1][name] = next(E.counter)
    builtins.setattr(obj, name, val)


def setitem(obj, key, val):
    if E.loops_active and not isinstance(obj, VDict) and not hasattr(obj, "own_writes"):
        note_write(obj, key if isinstance(obj, dict) else None)
    obj[key] = val


_IOPS = {"Add": "__iadd__", "Sub": "__isub__", "Mult": "__imul__", "Div": "__itruediv__", "FloorDiv": "__ifloordiv__", "Mod": "__imod__", "Pow": "__ipow__", "BitAnd": "__iand__", "BitOr": "__ior__", "BitXor": "__ixor__", "MatMult": "__imatmul__", "LShift": "__ilshift__", "RShift": "__irshift__"}
import operator as _op
_IO = {"Add": _op.iadd, "Sub": _op.isub, "Mult": _op.imul, "Div": _op.itruediv, "FloorDiv": _op.ifloordiv, "Mod": _op.imod, "Pow": _op.ipow, "BitAnd": _op.iand, "BitOr": _op.ior, "BitXor": _op.ixor, "MatMult": _op.imatmul, "LShift": _op.ilshift, "RShift": _op.irshift}


def iop(op, a, b):
    if E.loops_active and hasattr(type(a), _IOPS[op]) and not isinstance(a, (VList, VDict)):
        note_write(a, None)
    return _IO[op](a, b)


def unpack(v, n):
    if isinstance(v, (tuple, list)) and not (isinstance(v, VList) and v.sym is not None):
        return v
    if isinstance(v, VSeq):
        if isinstance(v.n, Sym):
            if E.decide(term(v.n) != n):
                raise ValueError("wrong number of values to unpack")
        elif v.n != n:
            raise ValueError("wrong number of values to unpack")
        return tuple(v.at(j) for j in range(n))
    if hasattr(v, "vunpack"):
        return v.vunpack(n)
    return v


class SStr:
    """string built from concrete and symbolic parts; compared structurally"""

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SStr):
                out.extend(p.parts)
            elif isinstance(p, str):
                if p == "":
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] = out[-1] + p
                else:
                    out.append(p)
            else:
                out.append(p)
        # merge adjacent constants
        m = []
        for p in out:
            if isinstance(p, str) and m and isinstance(m[-1], str):
                m[-1] += p
            else:
                m.append(p)
        self.parts = m

    def __add__(self, o):
        return SStr([self, o]) if isinstance(o, (str, SStr)) else NotImplemented

    def __radd__(self, o):
        return SStr([o, self]) if isinstance(o, (str, SStr)) else NotImplemented

    def _key(self):
        k = []
        for p in self.parts:
            if isinstance(p, str):
                k.append(("s", p))
            elif isinstance(p, tuple):
                k.append(("f", p[0].t.get_id() if isinstance(p[0], Sym) else id(p[0]), p[1], p[2]))
            else:
                k.append(("o", p.name if isinstance(p, SymText) else id(p)))
        return tuple(k)

    def __hash__(self):
        return hash(self._key())

    def __getattr__(self, n):
        if n.startswith("_") or n.startswith("v") or n in ("at", "n", "sym", "stamp", "symbolic_iter", "shape", "is_model"):
            raise AttributeError(n)
        unsupported("method %s of a symbolic string" % n)

    def __eq__(self, o):
        if isinstance(o, SStr):
            if self._key() == o._key():
                return True
            if len(self.parts) == len(o.parts) and len(self.parts) > 0:
                # same shape with different symbolic parts
                for p, q in zip(self.parts, o.parts):
                    if isinstance(p, str) != isinstance(q, str):
                        unsupported("comparison of symbolic strings")
                    if isinstance(p, str):
                        if p != q:
                            return False if True else None
                    elif isinstance(p, tuple) and isinstance(q, tuple) and p[1:] == q[1:]:
                        r = p[0] == q[0]
                        if not r:
                            return False
                    else:
                        unsupported("comparison of symbolic strings")
                return True
            return False
        if isinstance(o, str):
            if len(self.parts) == 1 and not isinstance(self.parts[0], str):
                unsupported("comparison of symbolic string with constant")
            return False
        return False

    def __ne__(self, o):
        return not (self == o)

    def __repr__(self):
        return "<SStr %r>" % (self.parts,)

    def __format__(self, s):
        return "<str>"

    def __bool__(self):
        return True if any(isinstance(p, str) for p in self.parts) else unsupported("truth of symbolic string")


class SymText:
    """an arbitrary non-empty string (atom of SStr)"""

    def __init__(self, name):
        self.name = name
        self.t = z3.String(name)


def atom(name):
    return SStr([SymText(name)])


def fstr(*parts):
    out, sym = [], False
    for p in parts:
        if isinstance(p, str):
            out.append(p)
        elif isinstance(p, SStr):
            out.append(p); sym = True
        else:
            v, conv, spec = p
            if isinstance(v, SStr) and conv in (-1, 115) and spec == "":
                out.append(v); sym = True
            elif isinstance(v, Sym):
                out.append((v, conv, spec)); sym = True
            elif isinstance(v, (VSeq, VMap)) or getattr(v, "is_model", False) or isinstance(v, VList):
                out.append("<obj>")
            else:
                if conv == 114:
                    v = repr(v)
                elif conv == 115:
                    v = builtins.str(v)
                out.append(format(v, spec))
    return SStr(out) if sym else "".join(out)


# ---------------------------------------------------------------- builtins for the verified code
def v_len(x):
    return length(x)


class Counted(VSeq):
    def still(self, hi, _):
        a, b = hi, self.top
        if not (a is b or E.valid(term(a) == term(b))):
            unsupported("bound of a loop changed by its body")


class CountedList(list):
    still = Counted.still


def counted(v, hi, off, op):
    """the values of v in: while v + off OP hi: ...; v += 1"""
    if hasattr(v, "iterators"):
        if off is not None or op == "LtE":
            unsupported("iterator loop of another form")
        s = v.iterators(hi)
    else:
        if off is not None:
            hi = hi - off
        if not all(isinstance(x, (int, SInt)) and not isinstance(x, bool) for x in (v, hi)):
            unsupported("while loop over %s" % type(v).__name__)
        top = hi
        if op == "LtE":
            hi = hi + 1
        if op == "NotEq" and not (v <= hi if not isinstance(v, SInt) and not isinstance(hi, SInt) else E.valid(term(v) <= term(hi))):
            unsupported("loop with != not shown to terminate")
        s = v_range(v, hi)
        if not isinstance(s, VSeq):
            r = CountedList(s)
            r.after = v + len(s)
            r.top = top
            return r
    r = Counted(s.n, s.at, "range")
    r.top = hi if hasattr(v, "iterators") else top
    r.after = v + s.n
    return r


class Strided(VSeq):
    """v, v + step, v + 2 step, ... below hi; position k is pos(k)"""

    def __init__(self, v, hi, step):
        self.v, self.hi, self.step, self.kind = v, hi, step, "range"
        self.n = E.int("strides", lo=0)
        self.pos, self.which = E.func("stride", "int", "int"), E.func("stride_of", "int", "int")
        E.lemma("Stride", "the numbers from v to hi fall into consecutive intervals of a given length")
        E.fact(self.pos(z3.IntVal(0)) == term(v))
        E.fact((self.n.t == 0) == (term(v) >= term(hi)))
        self.asked = []
        E.done_strides.append(self)

    def at(self, k):
        t = z3.simplify(term(k))
        p = self.pos(t)
        if not any(t.eq(x) for x in self.asked):
            E.fact(z3.Implies(z3.And(t >= 0, t < self.n.t), z3.And(p >= term(self.v), p < term(self.hi))))
            for x in self.asked:
                for a, b in ((x, t), (t, x)):
                    E.fact(z3.Implies(z3.And(a >= 0, a < b, b < self.n.t), self.pos(a) + term(self.step) <= self.pos(b)))
            if not E.sub:
                self.asked.append(t)
        return mkint(p)

    def find(self, r):
        """the k such that r is in the k-th interval"""
        k = self.which(term(r))
        p = self.at(SInt(k))
        E.fact(z3.Implies(z3.And(term(r) >= term(self.v), term(r) < term(self.hi)), z3.And(k >= 0, k < self.n.t, p.t <= term(r), term(r) < p.t + term(self.step))))
        return SInt(k)

    def still(self, hi, step):
        if not E.valid(z3.And(term(hi) == term(self.hi), term(step) == term(self.step))):
            unsupported("bound or step of a loop changed by its body")


def strided(v, hi, step, op):
    """the values of v in: while v < hi: ...; v += step"""
    if not all(isinstance(x, (int, SInt)) and not isinstance(x, bool) for x in (v, hi, step)) or not E.valid(term(step) >= 1):
        unsupported("loop with a step not shown to be positive")
    return Strided(v, hi, step)


def v_range(*a):
    a = [x.item() if hasattr(x, "item") and not isinstance(x, Sym) and not isinstance(x, (int,)) else x for x in a]
    if not any(isinstance(x, SInt) for x in a):
        return builtins.range(*a)
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if isinstance(st, SInt):
        if E.decide(st.t == 0):
            raise ValueError("range() arg 3 must not be zero")
        if E.decide(st.t < 0):
            unsupported("negative range step")
    elif st == 0:
        raise ValueError("range() arg 3 must not be zero")
    elif st < 0:
        if isinstance(st, int):
            m = smax(lo - hi, 0)
            n = mkint((term(m) + (-st - 1)) / (-st))
            return VSeq(n, lambda k: lo + k * st, "range")
    d = term(hi) - term(lo)
    if isinstance(st, int) and st == 1:
        n = mkint(z3.If(d > 0, d, z3.IntVal(0)))
        return VSeq(n, lambda k: lo + k, "range")
    # n = ceil(d / st): fresh n with its defining inequalities (linear when the step is constant)
    n = E.int("range_n", lo=0)
    E.fact(z3.And(z3.Implies(d <= 0, n.t == 0), z3.Implies(d > 0, z3.And(n.t >= 1, (n.t - 1) * term(st) < d, n.t * term(st) >= d))))

    def at(k):
        # monotone in k: instantiate the consequence of k < n
        E.fact(z3.Implies(z3.And(term(k) >= 0, term(k) < n.t), z3.And(term(k) * term(st) >= 0, term(k) * term(st) < z3.If(d > 0, d, 0))))
        return lo + k * st
    return VSeq(n, at, "range")


def v_enumerate(x, start=0):
    if is_symseq(x):
        x = iter_(x)
        return VSeq(x.n, lambda k: (start + k, x.at(k)), "gen")
    return builtins.enumerate(x, start) if isinstance(start, int) else ((start + i, y) for i, y in builtins.enumerate(x))


def v_zip(*xs, strict=False):
    xs = [iter_(x) for x in xs]
    if any(is_symseq(x) for x in xs):
        seqs = [x if is_symseq(x) else VList(x) for x in xs]
        n = length(seqs[0])
        for s in seqs[1:]:
            m = length(s)
            n = smin(n, m) if not (isinstance(n, Sym) or isinstance(m, Sym)) or not E.valid(term(n) == term(m)) else n
        return VSeq(n, lambda k: tuple(s.at(k) for s in seqs), "gen")
    return builtins.zip(*xs)


def v_int(x=0, *a):
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return x.as_int()
    if isinstance(x, SFloat):
        x._fin()
        return x.__trunc__()
    if hasattr(x, "v_int"):
        return x.v_int()
    if isinstance(x, SStr):
        unsupported("int of symbolic string")
    return builtins.int(x, *a)


def v_float(x=0.0):
    if isinstance(x, (SInt, SBool, SFloat)):
        return tofloat(x)
    if hasattr(x, "v_float"):
        return x.v_float()
    return builtins.float(x)


def v_bool(x=False):
    return x if isinstance(x, SBool) else builtins.bool(x)


def v_str(x="", *a):
    if isinstance(x, SStr):
        return x
    if isinstance(x, Sym):
        return SStr([(x, 115, "")])
    if hasattr(x, "v_str"):
        return x.v_str()
    return builtins.str(x, *a)


def v_list(x=()):
    x = iter_(x) if hasattr(x, "viter") else x
    if is_symseq(x):
        if isinstance(x, VMap):
            x = x.keys()
        r = VList()
        r.sym = x if isinstance(x, VSeq) else x.sym
        return r
    return VList(builtins.list(x))


def v_tuple(x=()):
    if is_symseq(x):
        return x if isinstance(x, VSeq) else x.sym
    return builtins.tuple(x)


def v_dict(*a, **k):
    if a and isinstance(a[0], VMap):
        return a[0]
    if a and isinstance(a[0], KDict):
        r = a[0].copy()
        if k:
            if set(k) != {KSTAR}:
                unsupported("symbolic dictionary with constant keys")
            r.update(k[KSTAR])
        return r
    if KSTAR in k and len(k) == 1 and not a:
        return k[KSTAR].copy()
    if a and is_symseq(a[0]):
        return mkmap(iter_(a[0]))
    return VDict(*a, **k)


def mkmap(s):
    """dict from a symbolic sequence of pairs"""
    # exception and key discovery at a generic index
    ids = getattr(s, "key_ids", None)
    return VMap(s.n, lambda k: s.at(k)[0], lambda k: s.at(k)[1], ids)


def v_set(x=()):
    x = iter_(x) if hasattr(x, "viter") else x
    if is_symseq(x):
        return VSet(x)
    x = builtins.list(x)
    if any(isinstance(y, Sym) for y in x):
        return VSet(VList(x))
    return builtins.set(x)


class VSet:
    symbolic_iter = True

    def __init__(self, src):
        self.src = src

    def viter(self):
        """list(set(column)): the distinct values in arbitrary order"""
        ra = getattr(self.src, "rowarr", None)
        if ra is not None:
            return ra.vdistinct("set")
        if isinstance(self.src, IdSeq) and self.src.distinct:
            from .pdmodel import PermSeq
            return PermSeq(self.src)
        unsupported("iteration over a symbolic set")

    def vlen(self):
        return self.viter().n

    def member(self, x):
        if isinstance(self.src, VList) and self.src.sym is None:
            return sor(*[mkbool(same(x, y)) for y in self.src])
        return seq_contains(self.src.sym if isinstance(self.src, VList) else self.src, x)

    def __contains__(self, x):
        return bool(self.member(x))

    def __or__(self, o):
        return UnionSet(self, o) if isinstance(o, VSet) else NotImplemented

    def union(self, *o):
        r = self
        for x in o:
            r = r | (x if isinstance(x, VSet) else v_set(x))
        return r


class UnionSet(VSet):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def viter(self):
        from .pdmodel import UnionIds
        return UnionIds(self.a.viter(), self.b.viter())

    def member(self, x):
        return sor(self.a.member(x), self.b.member(x))


def extremum(xs, key, default, fn):
    """the first element whose key is extremal (instances of 'extremal' by E.instantiate)"""
    xs = iter_(xs)
    kf = lambda k: (Thunk(key)(xs.at(k)) if key else xs.at(k))
    if E.decide(term(xs.n) == 0):
        if default is not UNBOUND:
            return default
        raise ValueError("arg is an empty sequence")
    i = E.int("extremum", lo=0, hi=xs.n)

    def inst(j):
        a, b = kf(i), kf(j)
        for v in (a, b):
            if not isinstance(v, (SInt, int, SFloat, float)) or isinstance(v, SFloat) and not v.fin:
                unsupported("extremum of such keys")
        E.fact(z3.Implies(z3.And(term(j) >= 0, term(j) < term(xs.n)), z3.And(z3.Not(bterm(fn(b, a))), z3.Implies(term(j) < i.t, bterm(fn(a, b))))))
    E.extrema.append(inst)
    E.ghostmem["extremum"] = i
    return xs.at(i)


def _minmax(name, fn):
    def f(*a, key=None, default=UNBOUND):
        xs = a if len(a) > 1 else a[0]
        if is_symseq(xs):
            h = getattr(xs if not isinstance(xs, VList) else xs.sym, "v" + name, None)
            if h:
                return h(key)
            return extremum(xs, key, default, fn)
        xs = builtins.list(xs)
        if not xs:
            if default is not UNBOUND:
                return default
            raise ValueError("%s() arg is an empty sequence" % name)
        best = xs[0]
        kb = key(best) if key else best
        for x in xs[1:]:
            kx = key(x) if key else x
            if isinstance(kx, (SInt, int)) and isinstance(kb, (SInt, int)) and key is None and (isinstance(kx, SInt) or isinstance(kb, SInt)):
                kb = best = smin(kb, kx) if name == "min" else smax(kb, kx)
                continue
            if fn(kx, kb):
                best, kb = x, kx
        return best
    return f


v_min = _minmax("min", lambda a, b: a < b)
v_max = _minmax("max", lambda a, b: a > b)


def v_sum(x, start=0):
    if is_symseq(x):
        x = iter_(x)
        s = E.agg(((z3.IntVal(0), term(x.n)),), lambda k: x.at(SInt(k)), lambda k: z3.BoolVal(True))
        return s + start
    r = start
    for y in x:
        r = r + y
    return r


def v_any(x):
    if is_symseq(x):
        unsupported("any over symbolic sequence")
    for y in x:
        if y:
            return True
    return False


def v_all(x):
    if is_symseq(x):
        x = iter_(x)
        b = E.bool("all")
        if E.branch(b.t):
            return True
        k = E.int("k", lo=0, hi=x.n)
        if x.at(k):
            raise Infeasible()
        return False
    for y in x:
        if not y:
            return False
    return True


def v_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    out = []
    for u in ts:
        if isinstance(u, tuple):
            if v_isinstance(x, u):
                return True
            continue
        u = REAL.get(u, u) if callable(u) or True else u
        out.append(u)
    h = getattr(type(x), "v_isinstance", None)
    for u in out:
        if h is not None:
            r = h(x, u)
            if r is not None:
                if r:
                    return True
                continue
        if isinstance(x, SBool):
            if u in (bool, int):
                return True
        elif isinstance(x, SInt):
            if u is int or getattr(u, "is_int_type", False):
                return True
        elif isinstance(x, SFloat):
            if u is float or getattr(u, "is_float_type", False):
                return True
        elif isinstance(x, SStr):
            if u is str:
                return True
        elif isinstance(x, SId):
            if u in (str, int, list, tuple, dict, float) or isinstance(u, type):
                if u is object:
                    return True
                if u in (list, tuple, dict, set):
                    continue
                unsupported("isinstance of an opaque id")
        elif isinstance(x, VSeq):
            if u is {"list": list, "tuple": tuple}.get(x.kind):
                return True
        elif isinstance(x, VMap):
            if u is dict:
                return True
        else:
            try:
                if builtins.isinstance(x, u):
                    return True
            except TypeError:
                import typing
                o = typing.get_origin(u)
                if o is not None and builtins.isinstance(o, type) and builtins.isinstance(x, o):
                    return True
    return False


def v_sorted(x, key=None, reverse=False):
    if is_symseq(x):
        h = getattr(x, "vsorted", None)
        if h:
            return h(key, reverse)
        q = x.sym if isinstance(x, VList) else iter_(x)
        if isinstance(q, IdSeq) and q.distinct and key is None:
            from .pdmodel import PermSeq
            E.note("ids are comparable with each other")
            v = VList()
            v.sym = PermSeq(q)
            return v
        unsupported("sorted of a symbolic sequence")
    xs = builtins.list(x)
    if not any(isinstance(y, Sym) for y in xs):
        return VList(builtins.sorted(xs, key=key, reverse=reverse))
    # insertion sort with symbolic comparisons
    out = []
    for y in xs:
        ky = key(y) if key else y
        i = len(out)
        while i > 0 and ((ky < out[i - 1][0]) if not reverse else (ky > out[i - 1][0])):
            i -= 1
        out.insert(i, (ky, y))
    return VList([y for _, y in out])


def v_reversed(x):
    if is_symseq(x):
        x = iter_(x)
        return VSeq(x.n, lambda k: x.at(x.n - 1 - k), "gen")
    return builtins.reversed(x)


def v_map(f, *xs):
    if any(is_symseq(x) for x in xs):
        z = v_zip(*xs)
        return VSeq(z.n, lambda k: f(*z.at(k)), "gen")
    return builtins.map(f, *xs)


def v_abs(x):
    return abs(x)


def v_round(x, nd=None):
    if isinstance(x, Sym):
        unsupported("round")
    return builtins.round(x, nd) if nd is not None else builtins.round(x)


def v_iter(x):
    if is_symseq(x):
        unsupported("iter of symbolic sequence")
    return builtins.iter(x)


def v_next(x, *d):
    return builtins.next(x, *d)


def v_print(*a, **k):
    pass


def v_type(x, *a):
    if a:
        return builtins.type(x, *a)
    if isinstance(x, SInt):
        return builtins.int
    if isinstance(x, SFloat):
        return builtins.float
    if isinstance(x, SBool):
        return builtins.bool
    return builtins.type(x)


def v_pow(a, b):
    return a ** b


def v_input(*a):
    return E.stub_input(*a)


def v_open(*a, **k):
    return E.stub_open(*a, **k)


def v_hasattr(o, n):
    return builtins.hasattr(o, n)


class _TypeFn:
    """stands for a builtin type: callable as conversion, usable in isinstance"""

    def __init__(self, fn, real):
        self.fn, self.real = fn, real
        self.__name__ = real.__name__

    def __call__(self, *a, **k):
        return self.fn(*a, **k)

    def __getattr__(self, n):
        return getattr(self.real, n)

    def __getitem__(self, i):
        return self

    def __eq__(self, o):
        return o is self or o is self.real

    def __hash__(self):
        return hash(self.real)

    def __mro_entries__(self, bases):
        return (self.real,)

    def __or__(self, o):
        return self

    __ror__ = __or__


_T = {n: _TypeFn(f, getattr(builtins, n)) for n, f in dict(int=v_int, float=v_float, bool=v_bool, str=v_str, list=v_list, tuple=v_tuple, dict=v_dict, set=v_set).items()}
REAL = {v: v.real for v in _T.values()}
BUILTINS = dict(len=v_len, range=v_range, enumerate=v_enumerate, zip=v_zip, min=v_min, max=v_max, sum=v_sum, any=v_any, all=v_all, isinstance=v_isinstance, sorted=v_sorted,
                reversed=v_reversed, map=v_map, round=v_round, iter=v_iter, next=v_next, print=v_print, input=v_input, open=v_open, frozenset=_TypeFn(v_set, builtins.frozenset), **_T)


# ---------------------------------------------------------------- displays and comprehensions
def vlist(x):
    return VList(x)


def vdict(*items):
    pairs = []
    ks = [v for k, v, star in items if star and isinstance(v, KDict)]
    if ks:
        r = KDict(ks[0].key, False)
        for k, v, star in items:
            if not star:
                unsupported("symbolic dictionary with constant keys")
            r.update(v)
        return r
    for k, v, star in items:
        if star:
            if isinstance(v, VMap) or is_symseq(v):
                unsupported("** of a symbolic dictionary")
            pairs.extend((kk, v[kk]) for kk in v)
        else:
            pairs.append((k, v))
    d = VDict()
    for k, v in pairs:
        dict.__setitem__(d, k, v)
    return d


class Thunk:
    """a piece of the code evaluated on demand later than it runs: local variables have the values they had then, and reading an object
    changed since is refused"""

    def __init__(self, fn, late=False):
        while isinstance(fn, Thunk):
            fn = fn.fn
        self.fn, self.late = fn, late
        self.since = next(E.counter)
        self.cells = []
        for c in getattr(fn, "__closure__", None) or ():
            try:
                self.cells.append((c, c.cell_contents))
            except ValueError:
                pass
        self.names = set(fn.__code__.co_names) if hasattr(fn, "__code__") else set()

    def __call__(self, *a):
        saved = []
        for c, v in self.cells:
            if any(n in self.names and t > self.since for n, t in E.attr_writes.get(id(v), (None, {}))[1].items()):
                unsupported("attribute changed after it was captured")
            try:
                now = c.cell_contents
            except ValueError:
                now = UNBOUND
            if now is not v:
                if self.late:
                    unsupported("variable of a generator rebound")
                saved.append((c, now))
                c.cell_contents = v
        E.since.append(self.since)
        try:
            return self.fn(*a)
        finally:
            E.since.pop()
            for c, now in saved:
                if now is UNBOUND:
                    del c.cell_contents
                else:
                    c.cell_contents = now


def fresh_read(obj):
    """called on reads of mutable objects"""
    if E.since and obj.mut > E.since[-1] and obj.stamp < E.since[-1]:
        unsupported("object changed after it was captured")


class Lazy(VSeq):
    """[elt(x) for x in src]; elements are computed on demand by running the real expression at that index"""

    def __init__(self, src, elt, kind):
        self.stamp = next(E.counter)
        self.src, self.elt, self.n, self.kind = src, Thunk(elt, kind == "gen"), src.n, kind
        self.cache = {}

    def at(self, k):
        key = k if isinstance(k, int) else ("t", term(k).get_id())
        if key in self.cache:
            return self.cache[key][0]
        E.lazy += 1
        E.since.append(self.elt.since)
        try:
            v = self.elt(self.src.at(k))
            if hasattr(v, "element_of"):
                v = v.element_of(self, k)
        except Control:
            raise
        except BaseException:
            # creation already explored the case of a raising element
            if E.decide(z3.And(term(k) >= 0, term(k) < term(self.n))):
                raise Infeasible()
            unsupported("element outside a sequence")
        finally:
            E.lazy -= 1
            E.since.pop()
        if not E.sub:
            self.cache[key] = (v, k)
        return v


class RankIndex:
    """an order-preserving selection of n of the indices [0, last): pos(j) is the j-th selected index, rank(i) the number of selected indices before i"""

    def __init__(self, last):
        self.last = last
        self.n = E.int("filt_n", lo=0)
        self.p, self.q = E.func("filt_pos", "int", "int"), E.func("filt_rank", "int", "int")
        self.js, self.is_ = [], []
        self.bounded = False

    def bound(self):
        if not self.bounded:
            self.bounded = True
            E.fact(self.n <= self.last)

    def _pair(self, j, i):
        pj = self.p(j)
        E.fact(z3.Implies(z3.And(j >= 0, j < term(self.n), i >= 0), (pj < i) == (j < self.q(i))))

    def pos(self, k):
        j = term(k)
        i = self.p(j)
        E.fact(z3.Implies(z3.And(j >= 0, j < term(self.n)), z3.And(i >= 0, i < term(self.last), self.q(i) == j)))
        if not any(j.eq(x) for x in self.js):
            for x in self.js:
                for a, b in ((x, j), (j, x)):
                    E.fact(z3.Implies(z3.And(a >= 0, a < b, b < term(self.n)), self.p(a) < self.p(b)))
            for x in self.is_:
                self._pair(j, x)
            if not E.sub:
                self.js.append(j)
        return SInt(i)

    def rank(self, k):
        i = term(k)
        r = self.q(i)
        E.fact(z3.Implies(i >= 0, z3.And(r >= 0, r <= i, r <= term(self.n))))
        if not any(i.eq(x) for x in self.is_):
            for x in self.js:
                self._pair(x, i)
            if not E.sub:
                self.is_.append(i)
        return SInt(r)


class Filtered:
    """[elt(x) for x in src if cond(x)] - order-preserving subsequence of src"""
    symbolic_iter = True
    kind = "list"

    def __init__(self, src, elt, cond, index=None):
        self.src, self.elt, self.cond = src, Thunk(elt), Thunk(cond)
        self.index_ = index
        self._seq = None
        E.filters.append(self)

    def viter(self):
        return self.seq()

    @property
    def index(self):
        if self.index_ is None:
            self.index_ = RankIndex(self.src.n)
        self.index_.bound()
        return self.index_

    def seq(self):
        """as a sequence: position function p (strictly increasing) into src"""
        if self._seq is not None:
            return self._seq
        x = self.index
        src, elt, cond = self.src, self.elt, self.cond

        def at(k):
            i = x.pos(k)
            inr = z3.And(term(k) >= 0, term(k) < term(x.n))
            if E.decide(inr):
                if not cond(src.at(i)):
                    raise Infeasible()
                return elt(src.at(i))
            try:
                return elt(src.at(i))
            except Control:
                raise
            except BaseException:
                unsupported("element outside a filtered sequence")
        s = VSeq(x.n, at)
        s.filtered = self
        if not E.sub:
            self._seq = s
        return s

    def complete(self, i):
        """the position of source index i in the filtered sequence, None if it is filtered out"""
        x = self.index
        if not E.decide(z3.And(term(i) >= 0, term(i) < term(self.src.n))):
            return None
        if not self.cond(self.src.at(i)):
            return None
        r = term(x.rank(i))
        E.fact(z3.And(r >= 0, r < term(x.n), x.p(r) == term(i)))
        return SInt(r)

    @property
    def n(self):
        return self.seq().n

    def at(self, k):
        return self.seq().at(k)

    def vlen(self):
        return self.n

    def __iter__(self):
        unsupported("native iteration over a symbolic sequence")

    def member_by(self, x):
        unsupported("membership in filtered sequence")

    def __bool__(self):
        return bool(self.n != 0)


def cut_at(s, T):
    """a sequence that keeps the elements before (or those from) source index T on, as that part of the source; other sequences as they are"""
    fl = s if isinstance(s, Filtered) else getattr(s, "filtered", None)
    if fl is None:
        return s
    src = fl.src
    if not E.valid(z3.And(term(T) >= 0, term(T) <= term(src.n))):
        return s

    def one():
        k = E.int("k", lo=0, hi=src.n)
        c = bool(fl.cond(src.at(k)))
        return (E.valid((term(k) < term(T)) == c), E.valid((term(k) >= term(T)) == c))
    r = E.subexplore(one)
    if r and all(x[0] for x in r):
        return VSeq(T, lambda j: fl.elt(src.at(j)))
    if r and all(x[1] for x in r):
        return VSeq(src.n - T, lambda j: fl.elt(src.at(T + j)))
    return s


class FlatSet:
    """{e for x in outer for e in inner(x)}: only its size (the number of distinct elements) is available to the code"""
    is_model = True

    def __init__(self, outer, elt):
        elt = Thunk(elt)
        self.outer = outer
        self.inner = lambda i: (lambda v: v.src if isinstance(v, VSet) else v)(elt(outer.at(i)))
        if E.choose(2, "element raises") == 1:
            self.inner(E.int("k", lo=0, hi=outer.n))
            raise PathDone()
        self.size_ = E.int("n_distinct", lo=0)
        E.flatsets.append(self)

    def vlen(self):
        return self.size_


def comp(kind, it, elt, cond):
    it = iter_(it)
    if isinstance(it, KIter):
        return key_comp(kind, it, elt, cond)
    if is_symseq(it):
        if isinstance(it, VMap):
            it = it.keys()
        if isinstance(it, VList):
            it = it.sym
        if isinstance(it, Filtered):
            it = it.seq()
        if kind == "flat_set":
            return FlatSet(it, elt)
        if kind.startswith("flat_"):
            unsupported("nested comprehension over symbolic sequence")
        # does some element raise?
        if E.choose(2, "comprehension element raises") == 1:
            k = E.int("k", lo=0, hi=it.n)
            x = it.at(k)
            E.lazy += 1
            try:
                if cond is None or cond(x):
                    elt(x)
            finally:
                E.lazy -= 1
            raise PathDone()
        if cond is not None:
            s = Filtered(it, elt, cond)
            if kind == "dict":
                s = s.seq()
        else:
            s = Lazy(it, elt, "list" if kind == "list" else "gen")
            if (isinstance(it, IdSeq) or getattr(it, "ids", None) is not None) and is_identity(elt):
                s.ids_src = it
        if kind == "dict":
            return dict_of(s, it)
        if kind == "set":
            return VSet(s)
        return s
    out = []
    for x in it:
        if cond is None or cond(x):
            v = elt(x)
            if kind.startswith("flat_"):
                if is_symseq(v):
                    unsupported("nested comprehension over symbolic sequence")
                out.extend(v.items() if isinstance(v, dict) else v)
            else:
                out.append(v)
    base = kind[5:] if kind.startswith("flat_") else kind
    if base == "dict":
        d = VDict()
        for k, v in out:
            dict.__setitem__(d, k, v)
        return d
    if base == "set":
        return v_set(out)
    return VList(out)


def is_identity(elt):
    """does the comprehension return its element unchanged?"""
    tok = E.id("probe")

    def go():
        E.lazy += 1
        try:
            r = elt(tok)
            return isinstance(r, SId) and r.t.eq(tok.t)
        except Control:
            raise
        except BaseException:
            return False
        finally:
            E.lazy -= 1
    try:
        rs = E.subexplore(go)
    except Unsupported:
        return False
    return rs == [True]


def dict_of(s, src):
    """{key: val for ...}: recognises keys that run through a duplicate-free id sequence in order"""
    def mk(ids=None):
        r = VMap(s.n, lambda k: s.at(k)[0], lambda k: s.at(k)[1], ids)
        r.filtered = getattr(s, "filtered", None)
        return r
    ids = None
    if not E.possible(term(s.n) > 0):
        return mk()
    key = probe(s, lambda v: v[0])
    if key is None:
        return mk()
    k, key = key
    for cand in E.idseqs:
        if cand.distinct and E.valid(term(cand.n) == term(s.n)) and isinstance(key, SId) and E.valid(cand.at(k).t == key.t):
            ids = cand
    return mk(ids)


def probe(s, f):
    """(k, f(element k)) at a generic index without constraining the path (None if there is more than one case)"""
    out = []

    def go():
        k = E.int("k", lo=0, hi=s.n)
        v = f(s.at(k))
        out.append((k, v, list(E.pc)))
        return k, v
    r = E.subexplore(go)
    return r[0] if len(r) == 1 else None


def contains(x, c):
    if isinstance(c, (VMap, VSet, KDict)):
        return c.member(x)
    if isinstance(c, KIter):
        return c.d.member(x)
    if isinstance(c, VSeq):
        return seq_contains(c, x)
    return x in c


def enter(q):
    E.functions[q] = True


# ---------------------------------------------------------------- loops
def iter_(x):
    if isinstance(x, VMap):
        return x.keys()
    if isinstance(x, (VSeq,)):
        return x
    if isinstance(x, VList):
        return x.sym if x.sym is not None else x
    if isinstance(x, Filtered):
        return x.seq()
    if hasattr(x, "viter"):
        return x.viter()
    return x


def symiter(x):
    return is_symseq(x) and not E.no_map


def live():
    e = sys.exc_info()[1]
    return not isinstance(e, Control)


def getlocals():
    return sys._getframe(1).f_locals


def peek(d, name):
    return d.get(name, UNBOUND)


def shape(v):
    if v is UNBOUND:
        return "unbound"
    if v is ABSENT:
        return "absent"
    if v is None:
        return "none"
    if isinstance(v, (SBool, bool)):
        return "bool"
    if isinstance(v, (SInt, int)):
        return "int"
    if isinstance(v, (SFloat, float)):
        return "float"
    if isinstance(v, SId):
        return "id"
    if isinstance(v, Token) or isinstance(v, str):
        return ("const", v)
    if isinstance(v, SStr):
        return "text"
    f = getattr(v, "v_shape", None)
    if f is not None:
        return f()
    if type(v) is VDict and E.list_elem is not None and all(isinstance(k, str) for k in v.keys()):
        sh = tuple((k, shape(x)) for k, x in dict.items(v))
        if not any(isinstance(x, tuple) and x[0] == "opaque" for k, x in sh):
            return ("dict", sh)
    return ("opaque", type(v).__name__)


def fresh_of(s, hint, entry):
    if s == "int":
        return E.int(hint)
    if s == "float":
        return E.float(hint, extended=True)
    if s == "bool":
        return E.bool(hint)
    if s == "id":
        return E.id(hint)
    if s == "text":
        return atom(E.fresh_name("text"))
    if s == "none":
        return None
    if s == "unbound":
        return UNBOUND
    if s == "absent":
        return ABSENT
    if isinstance(s, tuple) and s[0] == "const":
        return s[1]
    if isinstance(s, tuple) and s[0] == "model":
        return s[1](hint)
    if isinstance(s, tuple) and s[0] == "dict":
        d = VDict()
        for k, x in s[1]:
            dict.__setitem__(d, k, fresh_of(x, hint + "_" + k, None))
        return d
    if isinstance(s, tuple) and s[0] == "dead":
        return Poison(hint)
    return None if False else unsupported("loop-carried value of kind %s" % (s,))


class Poison:
    """value of a variable of an earlier iteration: outside the subset once it is used"""

    def __init__(self, n):
        object.__setattr__(self, "_n", n)

    def _no(self, *a, **k):
        unsupported("value of an earlier iteration (%s)" % object.__getattribute__(self, "_n"))

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        self._no()

    __call__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __len__ = __iter__ = __getitem__ = __setitem__ = __contains__ = __add__ = __radd__ = __sub__ = __mul__ = __hash__ = __setattr__ = _no


class Canon(VSeq):
    """list at the head of a cut loop: n elements; where 'ok' they are the canonical ones"""

    def __init__(self, n, ok, f):
        self.n, self.ok, self.f, self.kind = n, ok, f, "list"

    def at(self, k):
        if not E.decide(self.ok.t):
            unsupported("elements of a list filled by a loop")
        return self.f(k)


class LoopInfo:
    def __init__(self):
        self.shapes = {}
        self.lists = {}
        self.scratch = []
        self.heap = {}     # (regname, key) -> shapes


class Ctx:
    pass


class Loop:
    def __init__(self, lid, it, names, tnames):
        self.lid, self.it = lid, it
        self.symbolic = is_symseq(it)
        self.names = names
        self.tnames = tnames
        self.entry, self.cur = {}, {}
        if self.symbolic:
            self.info = E.loopinfo.setdefault(lid, LoopInfo())

    def havoc(self, name, val):
        if name in self.tnames and val is UNBOUND:
            return None
        self.entry[name] = val
        s0 = shape(val)
        sh = self.info.shapes.setdefault((name, s0), [])
        if s0 not in sh:
            if isinstance(s0, tuple) and s0[0] == "opaque":
                # only acceptable if the body leaves it alone or rebinds before reading: keep as is, checked at iteration end
                self.cur[name] = val
                return val
            sh.append(s0)
        j = E.choose(len(sh), "shape of " + name) if len(sh) > 1 else 0
        v = fresh_of(sh[j], "lv_" + name, val)
        self.cur[name] = v
        return v if v is not UNBOUND else None

    def written(self, obj, key):
        if getattr(obj, "stamp", None) is not None and self.start_stamp is not None and obj.stamp > self.start_stamp:
            return
        reg = E.regs.get(id(obj))
        if reg is None and isinstance(obj, VList) and E.list_elem is not None and self.start_stamp is not None:
            if any(obj is o for o in self.outer.values()):
                n = [x for x, o in self.outer.items() if o is obj][0]
                if n not in self.info.lists:
                    self.info.lists[n] = None
                    raise Restart()
                return
        if reg is None and hasattr(obj, "forget") and self.start_stamp is not None:
            ns = [x for x, o in self.frame.items() if o is obj]
            if ns:
                if ns[0] not in self.info.scratch:
                    self.info.scratch.append(ns[0])
                    raise Restart()
                return
        if reg is None:
            st = E.stamps.get(id(obj))
            if hasattr(obj, "mut"):
                unsupported("loop writes to %s" % type(obj).__name__)
            if st is None or (self.start_stamp is not None and st[1] > self.start_stamp):
                return
            unsupported("loop writes to unregistered object %s" % type(obj).__name__)
        if isinstance(key, Sym):
            unsupported("loop writes symbolic key")
        loc = (reg[0], key)
        if loc not in self.info.heap:
            self.info.heap[loc] = []
            raise Restart()

    def heap_get(self, loc):
        obj = E.by_reg[loc[0]]
        key = loc[1]
        if isinstance(key, tuple) and key[0] == "attr":
            return getattr(obj, key[1])
        if isinstance(obj, dict):
            return dict.get(obj, key, ABSENT)
        if hasattr(obj, "v_state"):
            return obj.v_state()
        unsupported("heap location %r" % (loc,))

    def heap_set(self, loc, v):
        obj = E.by_reg[loc[0]]
        key = loc[1]
        if isinstance(key, tuple) and key[0] == "attr":
            builtins.setattr(obj, key[1], v)
        elif isinstance(obj, dict):
            if v is ABSENT:
                dict.pop(obj, key, None)
            else:
                dict.__setitem__(obj, key, v)
        else:
            obj.v_set_state(v)

    def ctx(self, vars, k, heap):
        c = Ctx()
        c.vars, c.k, c.n, c.heap, c.ghost, c.lid, c.it, c.entry = vars, k, self.it.n if self.it is not None else None, heap, E.ghost, self.lid, self.it, self.entry
        c.entry_heap = self.entry_heap
        c.lists = {}
        for n in self.info.lists:
            o = self.outer[n]
            if isinstance(o.sym, Canon) and not o.pushed:
                c.lists[n] = (o.sym.n, o.sym.ok)
            elif o.pushed is None:
                if o.sym is not None or list.__len__(o):
                    unsupported("list %s in a loop" % n)
                c.lists[n] = (0, True)
            else:
                base = o.base
                c.lists[n] = ((base.n if base else 0) + len(o.pushed), sand(base.ok if base else True, *[E.list_match(x, (base.n if base else 0) + i) for i, x in enumerate(o.pushed)]))
        c.entry_ghost = self.entry_ghost
        return c

    def list_candidates(self, c):
        for n in self.info.lists:
            size, ok = c.lists[n]
            yield n + " canonical", ok
            yield n + " length", size == c.k

    def candidates(self, c):
        out = []
        for f in E.loop_candidates + [auto_candidates, self.list_candidates]:
            for name, phi in f(c):
                if (self.lid, name) in E.dropped:
                    continue
                out.append((name, phi))
        return out

    def begin(self):
        """entry check, havoc of heap and ghost state, assumption of the invariant at an arbitrary iteration"""
        k = E.int("it", lo=0)
        self.k = k
        fl = getattr(self, "frame", None) or {}
        self.outer = {n: o for n, o in fl.items() if isinstance(o, VList)}
        if set(self.info.lists) - set(self.outer):
            unsupported("list filled by a loop")
        self.entry_heap = {loc: self.heap_get(loc) for loc in self.info.heap}
        self.entry_ghost = dict(E.ghost)
        self.check(self.ctx(self.entry, 0, self.entry_heap), "entry")
        heap = {}
        for loc, sh in self.info.heap.items():
            s0 = shape(self.entry_heap[loc])
            if s0 not in sh:
                sh.append(s0)
            j = E.choose(len(sh), "shape of %r" % (loc,)) if len(sh) > 1 else 0
            v = fresh_of(sh[j], "hv_%s" % (loc,).__repr__(), self.entry_heap[loc])
            heap[loc] = v
            note_write(E.by_reg[loc[0]], loc[1])
            self.heap_set(loc, v)
        self.heap = heap
        for n in self.info.scratch:
            fl[n].forget()
        for n, sample in self.info.lists.items():
            o = self.outer[n]
            o.base = None
            if sample is not None:
                f = E.list_elem(sample[0])
                if f is None:
                    unsupported("elements of list %s" % n)
                o.base = o.sym = Canon(E.int("len_" + n, lo=0), E.bool("canonical_" + n), f)
            o.pushed = []
        for g in sorted(E.ghost):
            sh = self.info.shapes.setdefault("ghost:" + g, [])
            s0 = shape(E.ghost[g])
            if s0 not in sh:
                sh.append(s0)
            j = E.choose(len(sh), "shape of ghost " + g) if len(sh) > 1 else 0
            E.ghost[g] = fresh_of(sh[j], "gh_" + g, E.ghost[g])
        vars = {n: v for n, v in self.cur.items()}
        if self.it is not None:
            E.assume(k <= self.it.n)
        c = self.ctx(vars, k, heap)
        for name, phi in self.candidates(c):
            E.assume(phi)
        given = [name for f in E.loop_candidates for name, phi in f(c) if (self.lid, name) not in E.dropped]
        auto = {name for name, phi in auto_candidates(c) if (self.lid, name) not in E.dropped}
        vague = [n for n, v in vars.items() if isinstance(v, (Sym, VList, VSeq)) and not auto & {"%s==entry" % n, "%s==entry+k" % n}]
        vague += ["%r" % (loc,) for loc in heap if "%r==entry" % (loc,) not in auto]
        if E.strict_pins:
            pins = [name.split(":")[1] for name in given if name.startswith("pin:")]
            vague = [n for n in vague if n not in pins]
        if vague and (not given or E.strict_pins):
            # no invariant of the contract constrains these: a counter-model would not be one of the code
            E.abstract.append("loop state %s" % ", ".join(vague))
        self.start_stamp = next(E.counter)
        self.k = k

    def check(self, c, when):
        bad = []
        for name, phi in self.candidates(c):
            if not E.valid(bterm(phi), timeout=5000):
                bad.append(name)
        if bad:
            for b in bad:
                E.dropped.add((self.lid, b))
            raise Restart()

    def end_iteration(self, frame_locals, knext):
        vars = {}
        for n in self.cur:
            v = frame_locals.get(n, UNBOUND)
            if n in self.tnames and n not in self.entry:
                continue
            s = shape(v)
            sh = self.info.shapes.setdefault((n, shape(self.entry.get(n, UNBOUND))), [])
            if isinstance(s, tuple) and s[0] == "opaque":
                if v is self.cur[n]:
                    vars[n] = v
                    continue
                if E.list_elem is None:
                    unsupported("loop-carried value %s of kind %s" % (n, s[1]))
                s = ("dead",)
            if s not in sh:
                sh.append(s)
                raise Restart()
            vars[n] = v
        for n, sample in self.info.lists.items():
            if self.outer[n].pushed is None:
                unsupported("list %s is not only appended to" % n)
            if sample is None and self.outer[n].pushed:
                self.info.lists[n] = self.outer[n].pushed[:1]
                raise Restart()
        heap = {}
        for loc, sh in self.info.heap.items():
            v = self.heap_get(loc)
            s = shape(v)
            if s not in sh:
                if isinstance(s, tuple) and s[0] == "opaque":
                    unsupported("loop writes value of kind %s to %r" % (s[1], loc))
                sh.append(s)
                raise Restart()
            heap[loc] = v
        for g in E.ghost:
            s = shape(E.ghost[g])
            sh = self.info.shapes.setdefault("ghost:" + g, [])
            if s not in sh:
                sh.append(s)
                raise Restart()
        c = self.ctx(vars, knext, heap)
        self.check(c, "preserved")
        E.iter_checks(c)
        raise PathDone()

    def exit(self):
        if any(x is self for x in E.loops_active):
            E.loops_active[:] = [x for x in E.loops_active if x is not self]

    def __iter__(self):
        if not self.symbolic:
            return builtins.iter(self.it)
        return self.gen()

    def gen(self):
        self.start_stamp = None
        self.frame = sys._getframe(1).f_locals
        self.begin()
        if E.choose(2, "loop") == 0:
            E.assume(self.k < self.it.n)
            E.loops_active.append(self)
            E.on_iteration(self)
            try:
                yield self.it.at(self.k)
            finally:
                self.exit()
            E.loops_active.append(self)
            fl = sys._getframe(1).f_locals
            self.end_iteration(fl, self.k + 1)
        else:
            E.assume(self.k == self.it.n)
            return


def loop(lid, it, names, tnames):
    return Loop(lid, it, names, tnames)


class While(Loop):
    def __init__(self, lid, names):
        super().__init__(lid, None, names, ())
        self.info = E.loopinfo.setdefault(lid, LoopInfo())
        self.it = None
        self.phase = 0

    def enter(self, test):
        """True: symbolic loop (cut); the condition is evaluated once to see whether it is symbolic"""
        if not E.while_symbolic(self.lid):
            return False
        self.symbolic = True
        return True

    def head(self):
        if not self.symbolic:
            self.phase += 1
            if self.phase > 200:
                unsupported("while loop with more than 200 concrete iterations")
            return True
        if self.phase == 0:
            self.phase = 1
            self.start_stamp = None
            self.frame = sys._getframe(1).f_locals
            self.begin()
            E.loops_active.append(self)
            return True
        self.end_iteration(sys._getframe(1).f_locals, self.k + 1)


def while_(lid, names):
    return While(lid, names)


def auto_candidates(c):
    for n, v in c.vars.items():
        e = c.entry.get(n)
        if isinstance(v, (SInt, int)) and not isinstance(v, bool) and isinstance(e, (int, SInt)) and not isinstance(e, bool):
            yield "%s==entry" % n, v == e
            yield "%s>=entry" % n, v >= e
            yield "%s<=entry" % n, v <= e
            yield "%s==entry+k" % n, v == e + c.k
            yield "%s<=entry+k" % n, v <= e + c.k
        elif isinstance(v, (SFloat, float)) and isinstance(e, (float, SFloat)):
            yield "%s==entry" % n, mkbool(same(v, e))
    for loc, v in c.heap.items():
        e = c.entry_heap[loc]
        if isinstance(v, (SInt, int, SFloat, float)) and isinstance(e, (int, SInt, SFloat, float)):
            yield "%r==entry" % (loc,), mkbool(same(v, e))


BREAK = Token("break")


class Rec(list):
    """effects of one iteration of a summarised loop"""

    def __init__(self, k, info):
        self.k, self.info = k, info

    def length(self, o, base):
        """len(o) during iteration k: the appends of the earlier iterations, then those of this one"""
        f = self.info
        base = f.bases.setdefault(id(o), (o, base))[1]
        if id(o) not in f.ranks:
            if id(o) in f.const:
                return base
            if f.done:
                unsupported("length of a list read late")
            f.ranks[id(o)] = (o, RankIndex(f.last))
        own = 0
        for (p, op, v) in self:
            if p is o:
                own = own + (1 if op == "append" else length(v))
        r = f.ranks[id(o)][1].rank(self.k)
        if f.every.get(id(o)):
            E.fact(r.t == term(self.k))
        return base + r + own


class LoopSum:
    def __init__(self, last):
        self.last = last
        self.ranks, self.read, self.const, self.every, self.bases, self.done = {}, {}, {}, {}, {}, False
        self.brk = UNBOUND


def map_loop(lid, it, body, breaks=False):
    """for x in it: body(x) where the body carries no local state: effects are appends to outer lists (len of them may be read);
    a break ends it after some iteration b: no earlier iteration breaks, b does"""
    it = iter_(it)
    if isinstance(it, KIter):
        return key_loop(it, body, breaks)
    if hasattr(it, "cell_loop"):
        return it.cell_loop(body, breaks)
    body = Thunk(body)
    if E.eigs:
        from .eig import At, world
        body = At(body, world())
    info = LoopSum(it.n)
    # discover the effects on every path of the body at a generic index
    for rnd in range(2):
        seen = E.subexplore(lambda: run_body(it, body, E.int("k", lo=0, hi=it.n), info))
        objs = []
        for effects in seen:
            for (o, op, val) in effects:
                if not any(o is x for x in objs):
                    objs.append(o)
        lost = [i for i, (o, x) in info.ranks.items() if not any(o is y for y in objs)]
        if not lost:
            break
        for i in lost:
            info.const[i] = info.ranks.pop(i)[0]
    else:
        unsupported("loop effects depend on an unwritten list")
    if any(any(o is x for x in info.read.values()) for o in objs):
        unsupported("loop reads elements of a list it appends to")
    for o in objs:
        counts = {sum(1 for (p, op, v) in effects if p is o) for effects in seen}
        info.every[id(o)] = counts == {1}
    info.done = True
    if getattr(info, "raises", False) and E.choose(2, "loop body raises") == 1:
        k = E.int("k", lo=0, hi=it.n)
        E.recording.append((Rec(k, info), next(E.counter)))
        try:
            body(it.at(k))
        finally:
            E.recording.pop()
        raise PathDone()
    last = it.n
    if breaks:
        if E.choose(2, "loop breaks") == 1:
            info.brk = E.int("break_at", lo=0, hi=it.n)
            last = info.brk + 1
            fin = run_body(it, body, info.brk, info)
        else:
            info.brk = None
    if not E.sub:
        E.done_loops.append((it, last, lambda k: run_body(it, body, k, info)))
    shared, runs = {}, {}

    def effects_at(k):
        """the effects of iteration k: one run of the body for all that is asked about it"""
        t = z3.simplify(term(k))
        if t.get_id() in runs:
            return runs[t.get_id()][1]
        r = run_body(it, body, k, info)
        if not E.sub:
            runs[t.get_id()] = (t, r)
        return r
    for o in objs:
        counts = {sum(1 for (p, op, v) in effects if p is o) for effects in seen}
        ops = {op for effects in seen for (p, op, v) in effects if p is o}
        pattern = tuple(sum(1 for (p, op, v) in effects if p is o) for effects in seen)
        mine = lambda k, o=o: [e for e in effects_at(k) if e[0] is o]
        if isinstance(o, VList) and ops == {"append"} and counts == {1}:
            s = Lazy(VSeq(last, lambda k: k), lambda k, mine=mine: mine(k)[0][2], "list")
        elif isinstance(o, VList) and ops == {"append"} and counts == {0, 1}:
            x = info.ranks[id(o)][1] if id(o) in info.ranks else shared[pattern] if pattern in shared else RankIndex(last)
            shared.setdefault(pattern, x)
            x.last = last
            if info.brk is not UNBOUND and info.brk is not None:
                E.fact(x.n == x.rank(info.brk) + sum(1 for e in fin if e[0] is o))
            F = Filtered(VSeq(last, lambda k: k), lambda k, mine=mine: mine(k)[0][2], lambda k, mine=mine: len(mine(k)) == 1, x)
            F.it = it
            s = F.seq()
        elif isinstance(o, VList) and "extend" in ops and ops <= {"append", "extend"} and (E.recorder(o) is not None or list.__len__(o) == 0 and o.sym is None):
            s = Concat(last, lambda k, mine=mine: joined(mine(k)), None)
            s.off = Acc(0, last, lambda k, s=s: length(s.seg(k)))
            s.off.nonneg = True
        elif hasattr(o, "absorb_loop"):
            mine.last = last
            o.absorb_loop(it, mine, ops, counts)
            continue
        else:
            unsupported("loop effects %s on %s" % (ops, type(o).__name__))
        outer = E.recorder(o)
        if outer is not None:
            outer.append((o, "extend", s))
        else:
            note_write(o)
            o.pushed = None if o.pushed is None or E.loops_active else o.pushed
            o.sym = s if o.sym is None and list.__len__(o) == 0 else concat_seq(o, s)


def joined(es):
    """the elements that appends and extensions add, in order"""
    if len(es) == 1 and es[0][1] == "extend" and isinstance(es[0][2], VSeq):
        return es[0][2]
    v = VList()
    for _, op, x in es:
        (v.append if op == "append" else v.extend)(x)
    if v.sym is not None:
        return v.sym
    items = list(list.__iter__(v))
    return VSeq(len(items), lambda k: pick(items, k))


def run_body(it, body, k, info):
    rec = Rec(k, info)
    E.recording.append((rec, next(E.counter)))
    g0 = dict(E.ghost)
    try:
        r = body(it.at(k))
        if any(g0.get(x) is not E.ghost[x] for x in E.ghost):
            unsupported("summarised loop changes ghost state")
    except Control:
        raise
    except BaseException:
        info.raises = True
        raise Infeasible()
    finally:
        E.recording.pop()
    if info.brk is not UNBOUND:
        here = info.brk is not None and E.decide(term(k) == info.brk.t)
        if here and r is not BREAK:
            raise Infeasible()
        if not here and r is BREAK and E.decide(term(k) < (term(it.n) if info.brk is None else info.brk.t)):
            raise Infeasible()
    return rec


class Acc:
    """prefix sums: S(0) = entry, S(k+1) = S(k) + delta(k) for iterations k"""

    def __init__(self, entry, n, delta):
        self.entry, self.n, self.delta = entry, n, delta
        self.f = E.func("prefix", "int", "int")
        self.asked = []
        self.nonneg = False
        E.fact(self.f(z3.IntVal(0)) == term(entry))

    def at(self, k):
        if self.nonneg:
            E.lemma("PrefixSum", "running totals of non-negative amounts never decrease")
            E.fact(z3.Implies(z3.And(term(k) >= 0, term(k) <= term(self.n)), z3.And(self.f(term(k)) >= term(self.entry), self.f(term(k)) <= self.f(term(self.n)))))
        return mkint(self.f(term(k)))

    def step(self, k):
        t = z3.simplify(term(k))
        if any(t.eq(x) for x in self.asked):
            return
        if not E.sub:
            self.asked.append(t)
        E.fact(z3.Implies(z3.And(t >= 0, t < term(self.n)), self.f(z3.simplify(t + 1)) == self.f(t) + term(self.delta(k))))


class Concat(VSeq):
    """the concatenation of seg(0), ..., seg(m-1); seg(k) starts at off.at(k)"""

    def __init__(self, m, seg, off):
        self.m, self.seg, self.off = m, seg, off
        self.kind = "list"
        self.which = E.func("segment", "int", "int")

    @property
    def n(self):
        return self.off.at(self.m)

    def at(self, t):
        k = SInt(self.which(term(t)))
        self.off.step(k)
        E.fact(z3.Implies(z3.And(term(t) >= 0, term(t) < term(self.n)), z3.And(k.t >= 0, k.t < term(self.m), term(self.off.at(k)) <= term(t), term(t) < term(self.off.at(k + 1)))))
        return self.seg(k).at(t - self.off.at(k))

    def place(self, k, j):
        """the position of element j of seg(k)"""
        self.off.step(k)
        t = term(self.off.at(k)) + term(j)
        self.off.at(k + 1)
        E.fact(z3.Implies(z3.And(term(k) >= 0, term(k) < term(self.m), term(j) >= 0, term(j) < term(length(self.seg(k)))), self.which(t) == term(k)))
        return mkint(t)


class Effects:
    """an object of the environment whose changes are recorded, in order, in .log: (operation, value), or ("loop", LoopEvent)"""

    def __init__(self):
        self.stamp = next(E.counter)
        self.log = []

    def effect(self, op, val):
        rec = E.recorder(self)
        if rec is not None:
            rec.append((self, op, val))
        else:
            self.log.append((op, val))

    def absorb_loop(self, it, mine, ops, counts):
        self.effect("loop", LoopEvent(it, mine))

    def element_of(self, seq, k):
        """this object is the k-th element of a sequence computed on demand: its effects are recorded with the sequence"""
        if getattr(seq, "family", None) is None:
            seq.family = Effects()
            seq.family.stamp = seq.stamp
            seq.family.seq = seq
        v = copy.copy(self)
        fam = seq.family
        v.fam, v.k = fam, k
        v.effect = lambda op, val: fam.effect("element", (k, op, val))
        return v


class LoopEvent:
    """the effects of iteration k of a loop of n iterations"""

    def __init__(self, it, mine):
        self.n, self.it, self.mine = getattr(mine, "last", it.n), it, mine

    def at(self, k):
        return [(op, val) for (o, op, val) in self.mine(k)]


def map_acc(lid, it, body, entry):
    """for x in it: body(x, *acc) where the carried integers only grow by amounts that do not depend on them, other carried variables take one of
    a few values, and the other effects are one append or one extend per iteration to outer lists, or recorded effects;
    None if the loop is not of this form (it is then cut at an invariant)"""
    it = iter_(it)
    if hasattr(it, "cell_loop"):
        return None
    isint = lambda e: isinstance(e, (int, SInt)) and not isinstance(e, (bool, SBool))
    if any(isinstance(e, (Sym, bool, float, str, tuple, VList, VSeq)) and not isint(e) for e in entry) or any(e is UNBOUND for e in entry):
        return None
    if E.loops_active or E.recording:
        return None
    body = Thunk(body)
    info = LoopSum(it.n)
    ints = [i for i, e in enumerate(entry) if isint(e)]
    cases = {i: [e] for i, e in enumerate(entry) if not isint(e)}

    def run(k, vs):
        rec = Rec(k, info)
        E.recording.append((rec, next(E.counter)))
        g0 = dict(E.ghost)
        try:
            r = body(it.at(k), *vs)
            if any(g0.get(x) is not E.ghost[x] for x in E.ghost):
                unsupported("summarised loop changes ghost state")
        finally:
            E.recording.pop()
        return rec, r

    def state(k, num):
        """the carried values at iteration k"""
        out = []
        for i in range(len(entry)):
            if i in cases:
                c = cases[i]
                j = 0 if len(c) == 1 or isinstance(k, int) and k == 0 else E.choose(len(c), "carried value")
                if j and not E.sub:
                    E.abstract.append("carried variable of a loop")
                out.append(c[j])
            else:
                out.append(num(i))
        return out

    def go():
        k = E.int("k", lo=0, hi=it.n)
        vs = state(k, lambda i: E.int("acc"))
        try:
            rec, outs = run(k, vs)
        except Control:
            raise
        except BaseException:
            raise Infeasible()
        for i in cases:
            if not any(outs[i] is x for x in cases[i]):
                if isinstance(outs[i], (Sym, VList, VSeq)) or len(cases[i]) >= 4:
                    return None
                cases[i].append(outs[i])
                return "again"
        if any(not isint(outs[i]) for i in ints):
            return None
        ds = {i: z3.simplify(term(outs[i]) - vs[i].t) for i in ints}
        names = {vs[i].t.decl().name() for i in ints}
        if any(E._consts(d, set()) & names for d in ds.values()):
            return None
        objs = {}
        for (o, op, v) in rec:
            objs.setdefault(id(o), (o, []))[1].append((op, v))
        if any(len(l) != 1 or l[0][0] not in ("append", "extend") or not isinstance(o, VList) for o, l in objs.values() if not hasattr(o, "absorb_loop")):
            return None
        lens = {i: term(length(l[0][1])) for i, (o, l) in objs.items() if l[0][0] == "extend" and isinstance(o, VList)}
        allt = [("v", i, d) for i, d in ds.items()] + [("l", i, t) for i, t in lens.items()]
        eq = {(a[:2], b[:2]) for a in allt for b in allt if a[:2] < b[:2] and E.valid(a[2] == b[2])}
        pos = {("v", i) for i, d in ds.items() if E.valid(d >= 0)} | {("l", i) for i in lens}
        return {i: (o, l[0][0] if isinstance(o, VList) else "effects", len(l)) for i, (o, l) in objs.items()}, eq, pos

    try:
        for rnd in range(6):
            seen = E.subexplore(go)
            if "again" not in seen:
                break
        else:
            return None
    except Unsupported:
        return None
    lists = lambda x: {i: op for i, (o, op, c) in x[0].items() if op != "effects"}
    if not seen or any(x is None for x in seen) or any(lists(x) != lists(seen[0]) for x in seen):
        return None
    if info.ranks or any(i in info.read for x in seen for i in x[0]):
        return None
    objs = {}
    for x in seen:
        objs.update({i: (o, op) for i, (o, op, c) in x[0].items()})
    if not objs:
        return None
    eq = set.intersection(*[x[1] for x in seen])
    accs = {}
    runs = {}

    def at(k):
        key = k if isinstance(k, int) else ("t", z3.simplify(term(k)).get_id())
        if key in runs:
            return runs[key][0]
        try:
            r = run(k, state(k, lambda i: accs[("v", i)].at(k)))
        except Control:
            raise
        except BaseException:
            raise Infeasible()
        for i in ints:
            E.fact(z3.Implies(z3.And(term(k) >= 0, term(k) < term(it.n)), accs[("v", i)].f(z3.simplify(term(k) + 1)) == term(r[1][i])))
        if not E.sub:
            runs[key] = (r, k, z3.simplify(term(k)))
        return r
    val = lambda k, i: [v for (o, op, v) in at(k)[0] if id(o) == i][0]
    todo = [(("v", i), entry[i], lambda k, i=i: at(k)[1][i] - accs[("v", i)].at(k)) for i in ints]
    todo += [(("l", i), list.__len__(o) if o.sym is None else o.sym.n, lambda k, i=i: length(val(k, i))) for i, (o, op) in objs.items() if op == "extend"]
    for name, e, delta in todo:
        for other, a in accs.items():
            if tuple(sorted((name, other))) in eq and E.valid(term(a.entry) == term(e)):
                accs[name] = a
                break
        else:
            accs[name] = Acc(e, it.n, delta)
    for name, a in accs.items():
        a.loop = lid
        a.nonneg = a.nonneg or all(name in x[2] for x in seen)
        if not any(a is b for b in E.accs):
            E.accs.append(a)
    if E.choose(2, "loop body raises") == 1:
        k = E.int("k", lo=0, hi=it.n)
        run(k, state(k, lambda i: accs[("v", i)].at(k)))
        raise PathDone()
    for i, (o, op) in objs.items():
        if op == "effects":
            o.absorb_loop(it, lambda k, i=i: [e for e in at(k)[0] if id(e[0]) == i], None, None)
            continue
        base = list.__len__(o) if o.sym is None else o.sym.n
        if op == "extend":
            s = Concat(it.n, lambda k, i=i: val(k, i), accs[("l", i)])
            if not (isinstance(base, int) and base == 0):
                unsupported("extension of a non-empty list in a loop")
            o.sym = s
        else:
            s = Lazy(VSeq(it.n, lambda k: k), lambda k, i=i: val(k, i), "list")
            o.sym = s if isinstance(base, int) and base == 0 else concat_seq(o, s)
    outs = []
    for i in range(len(entry)):
        if i in cases:
            j = 0 if len(cases[i]) == 1 else E.choose(len(cases[i]), "value after the loop")
            outs.append(cases[i][j])
        else:
            outs.append(accs[("v", i)].at(it.n))
    return tuple(outs)
