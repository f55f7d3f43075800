"""P10: IDMapper / ItemIDMapper.recommend_for_*, list_of_user_profile_to_matrix, constructors"""
import z3
from pyvc.core import *
from pyvc import rt
from pyvc.rt import IdSeq, VList, VSeq, VMap
from pyvc.npmodel import Arr, float64, as_arr

MOD = "irspack.utils.id_mapping"


class Model:
    """a fitted model: records what is asked; the scores it returns are arbitrary"""

    def __init__(self, n_users, n_items):
        self.n_users, self.n_items = n_users, n_items
        self.asked = []

    def scores(self, n):
        f = E.func("model_score", "int", "int", "real")
        return Arr((n, self.n_items), lambda i, j: SFloat(f(term(i), term(j))), float64)

    def get_score_remove_seen(self, idx):
        idx = as_arr(idx)
        S = self.scores(idx.shape[0])
        self.asked.append(("known", idx, S, S.snapshot()))
        return S

    def get_score_cold_user_remove_seen(self, X):
        S = self.scores(X.shape[0])
        self.asked.append(("cold", X, S, S.snapshot()))
        return S


class Opt:
    """opaque option value, passed on unchanged"""

    def __init__(self, name):
        self.name = name


def run(V):
    L = V.loader()
    m = L.load(MOD)
    E.note("score_to_recommended_items / _batch: contracts P08, P09 (recorded here); get_n_threads: contract P25")

    def recorder(cls):
        class R(cls):
            def score_to_recommended_items(self, *a, **k):
                names = ["score", "cutoff", "allowed_item_ids", "forbidden_item_ids"]
                self.got = dict(zip(names, a), **k)
                return "single"

            def score_to_recommended_items_batch(self, *a, **k):
                names = ["score", "cutoff", "allowed_item_ids", "per_user_allowed_item_ids", "forbidden_item_ids", "n_threads"]
                self.got = dict(zip(names, a), **k)
                return "batch"
        return R

    def options(E, batch):
        names = ["allowed_item_ids", "forbidden_item_ids"] + (["per_user_allowed_item_ids"] if batch else [])
        return {n: (Opt(n) if E.choose(2, n + " given") else None) for n in names}

    def passed(E, mapper, out, opts, cutoff, kind, row):
        """the scores handed to the list builder are those of the model, with the caller's options"""
        got = getattr(mapper, "got", None)
        E.prove("the result is the list built from the model's scores", got is not None and out.value == kind)
        if got is None:
            return
        E.prove("options are passed on", sand(*[got.get(n) is v for n, v in opts.items()], got.get("cutoff") == cutoff))
        asked = mapper.model.asked
        E.prove("the model is asked once", len(asked) == 1)
        if len(asked) != 1:
            return
        s = as_arr(got["score"])
        snap = asked[0][3]
        M = mapper.model
        if kind == "single":
            E.prove("one score per item", sand(s.ndim == 1, s.shape[0] == M.n_items if s.ndim == 1 else False))
            if s.ndim != 1:
                return
            j = E.int("sj", lo=0, hi=M.n_items)
            E.prove("the scores used are the user's", mkbool(same(s.at(j), snap(0, j))))
        else:
            E.prove("a score row per user", sand(s.ndim == 2, s.shape[0] == asked[0][2].shape[0], s.shape[1] == M.n_items) if s.ndim == 2 else False)
            if s.ndim != 2:
                return
            i, j = E.int("si", lo=0, hi=s.shape[0]), E.int("sj", lo=0, hi=M.n_items)
            E.prove("the scores used are the users'", mkbool(same(s.at(i, j), snap(i, j))))

    def known(E):
        nu, ni = E.int("n_users", lo=0), E.int("n_items", lo=0)
        users, items = IdSeq(nu, hint="users"), IdSeq(ni, hint="items")
        mapper = recorder(m.IDMapper)(users, items)
        M = Model(E.int("model_users", lo=0), ni)
        mapper.model = M
        u = SId(E.int("u").t)
        opts, cutoff = options(E, False), E.int("cutoff", lo=1)
        out = E.attempt(mapper.recommend_for_known_user_id, M, u, cutoff=cutoff, **opts)
        if E.decide(term(M.n_users) != term(nu)):
            E.reach("another number of users")
            E.prove("a model with another number of users raises", not out.returned)
            return
        if not E.decide(bterm(users.member(u))):
            E.reach("unknown user")
            E.prove("an unknown user id raises", not out.returned)
            return
        E.reach("known user")
        E.prove("a known user is answered", out.returned)
        if not out.returned:
            return
        passed(E, mapper, out, opts, cutoff, "single", None)
        if len(M.asked) == 1:
            k, idx = M.asked[0][:2]
            E.prove("scores of exactly the user's row are requested", sand(k == "known", idx.shape[0] == 1, idx.at(0) == users.position(u)) if k == "known" else False)
    V.explore(MOD + ".IDMapper.recommend_for_known_user_id", known)

    def known_batch(E):
        nu, ni = E.int("n_users", lo=0), E.int("n_items", lo=0)
        users, items = IdSeq(nu, hint="users"), IdSeq(ni, hint="items")
        mapper = recorder(m.IDMapper)(users, items)
        M = Model(E.int("model_users", lo=0), ni)
        mapper.model = M
        us = IdSeq(hint="batch", distinct=False)
        opts, cutoff = options(E, True), E.int("cutoff", lo=1)
        k = E.int("k", lo=0)
        if E.decide(term(k) < term(us.n)):
            x = us.at(k)
            E.hints.append(k)
        else:
            x = None
        out = E.attempt(mapper.recommend_for_known_user_batch, M, us, cutoff=cutoff, n_threads=1, **opts)
        if E.decide(term(M.n_users) != term(nu)):
            E.reach("another number of users")
            E.prove("a model with another number of users raises", not out.returned)
            return
        if not out.returned:
            # an error is justified only by some unknown user: the failing element is a witness chosen by the loop
            E.reach("unknown user in the batch")
            return
        E.reach("batch of known users")
        passed(E, mapper, out, opts, cutoff, "batch", None)
        if len(M.asked) == 1:
            kind, idx = M.asked[0][:2]
            E.prove("one row per requested user", sand(kind == "known", idx.shape[0] == us.n) if kind == "known" else False)
            if x is not None and kind == "known":
                got = idx.at(k)
                E.prove("an unknown user in the batch raises", users.member(x))
                E.prove("row k is requested for the k-th user", got == users.position(x))
    V.explore(MOD + ".IDMapper.recommend_for_known_user_batch", known_batch)

    def profile(E, kind, hint):
        ids = IdSeq(hint=hint)
        if kind == 0:
            return ids, (lambda x: 1.0), ids
        r = E.func(hint + "_rating", "int", "real")
        return VMap(ids.n, ids.at, lambda k: SFloat(r(term(k))), ids), (lambda x: SFloat(r(term(ids.position(x))))), ids

    def row_ok(E, X, i, ids, value, items, tag):
        """row i of X has exactly the known items of the profile with their values"""
        if not hasattr(X, "seg"):
            unsupported("matrix not built from its compressed rows")
        lo, hi, col, dat = X.seg(i)
        t, t2 = E.int("t", lo=lo, hi=hi), E.int("t2", lo=lo, hi=hi)
        ok = E.possible(True)
        if ok and E.decide(term(t) < term(t2)):
            c, c2 = col.at(t), col.at(t2)
            E.prove("no item has two entries" + tag, c != c2)
        elif ok:
            c, d = col.at(t), dat.at(t)
            x = items.at(c)
            E.prove("every entry is a known item of the profile" + tag, sand(c >= 0, c < items.n, ids.member(x)))
            E.prove("every entry has the profile's value" + tag, mkbool(same(flift(tofloat(d)), flift(tofloat(value(x))))))

    def row_complete(E, X, i, ids, items, tag):
        lo, hi, col, dat = X.seg(i)
        j = E.int("j", lo=0, hi=items.n)
        x = items.at(j)
        E.assume(ids.member(x))
        F = col if isinstance(col, rt.Filtered) else getattr(col, "filtered", None)
        if F is None:
            F = next((f for f in reversed(E.filters) if term(f.n).eq(term(hi))), None)
        if F is None:
            unsupported("columns are not a filtered sequence of the profile")
        E.reach("a known item of the profile" + tag)
        r = F.complete(ids.position(x))
        if r is None:
            E.fail("every known item of the profile has an entry" + tag, "filtered out")
            return
        E.prove("every known item of the profile has an entry" + tag, sand(r >= lo, r < hi, col.at(r) == j))

    def new_user(E):
        ni = E.int("n_items", lo=0)
        items = IdSeq(ni, hint="items")
        base = m.IDMapper if E.choose(2, "mapper class") else None
        mapper = recorder(m.ItemIDMapper)(items)
        M = Model(E.int("model_users", lo=0), E.int("model_items", lo=0))
        mapper.model = M
        kind = E.choose(2, "profile kind")
        prof, value, ids = profile(E, kind, "profile")
        opts, cutoff = options(E, False), E.int("cutoff", lo=1)
        out = E.attempt(mapper.recommend_for_new_user, M, prof, cutoff=cutoff, **opts)
        if E.decide(term(M.n_items) != term(ni)):
            E.reach("another number of items")
            E.prove("a model with another number of items raises", not out.returned)
            return
        tag = ", list profile" if kind == 0 else ", dictionary profile"
        E.prove("a new user is answered" + tag, out.returned)
        if not out.returned:
            return
        E.reach("new user" + tag)
        part = E.choose(3, "part")
        if part == 0:
            passed(E, mapper, out, opts, cutoff, "single", None)
        if len(M.asked) == 1:
            k, X = M.asked[0][:2]
            if k != "cold":
                E.fail("the profile's scores are requested", k)
                return
            E.prove("one row, one column per item", sand(X.shape[0] == 1, X.shape[1] == ni))
            if part == 1:
                row_ok(E, X, 0, ids, value, items, tag)
            elif part == 2:
                row_complete(E, X, 0, ids, items, tag)
    V.explore(MOD + ".ItemIDMapper.recommend_for_new_user", new_user)

    class Profiles(VSeq):
        """a sequence of profiles: each a list or a dictionary of distinct ids"""

        def __init__(self, E):
            self.n, self.kind = E.int("n_profiles", lo=0), "list"
            self.len_, self.f = E.func("profile_len", "int", "int"), E.func("profile", "int", "int", "int")
            self.pos, self.mem = E.func("profile_pos", "int", "int", "int"), E.func("profile_mem", "int", "int", "bool")
            self.dict_, self.rating = E.func("profile_is_dict", "int", "bool"), E.func("profile_rating", "int", "int", "real")

        def ids(self, k):
            k = term(k)
            E.fact(self.len_(k) >= 0)
            s = IdSeq.__new__(IdSeq)
            s.n, s.distinct, s.kind = mkint(self.len_(k)), True, "list"
            s.f, s.pos, s.mem = (lambda j: self.f(k, j)), (lambda x: self.pos(k, x)), (lambda x: self.mem(k, x))
            return s

        def at(self, k):
            s = self.ids(k)
            if E.decide(self.dict_(term(k))):
                return VMap(s.n, s.at, lambda j: SFloat(self.rating(term(k), term(j))), s)
            return s

        def info(self, k):
            p, s = self.at(k), self.ids(k)
            return p, (lambda x: SFloat(self.rating(term(k), term(s.position(x))))) if isinstance(p, VMap) else (lambda x: 1.0), s

    def batch_common(E, call, done):
        ni = E.int("n_items", lo=0)
        items = IdSeq(ni, hint="items")
        P = Profiles(E)
        X = call(E, items, P)
        if X is None:
            return
        E.prove("one row per profile, one column per item", sand(X.shape[0] == P.n, X.shape[1] == ni))
        i = E.int("row", lo=0, hi=P.n)
        if not E.possible(True):
            return
        prof, value, ids = P.info(i)
        tag = ", dictionary profile" if isinstance(prof, VMap) else ", list profile"
        E.reach("row of a batch" + tag)
        if E.choose(2, "part"):
            row_ok(E, X, i, ids, value, items, tag)
        else:
            row_complete(E, X, i, ids, items, tag)

    def matrix(E):
        def call(E, items, P):
            out = E.attempt(m.ItemIDMapper(items).list_of_user_profile_to_matrix, P)
            E.prove("profiles are converted", out.returned)
            return out.value if out.returned else None
        batch_common(E, call, None)
    V.explore(MOD + ".ItemIDMapper.list_of_user_profile_to_matrix", matrix)

    def new_batch(E):
        ni = E.int("n_items", lo=0)
        items = IdSeq(ni, hint="items")
        X0 = Opt("matrix")
        X0.shape = (E.int("rows", lo=0), ni)

        class R(recorder(m.ItemIDMapper)):
            def list_of_user_profile_to_matrix(self, users_info):
                self.converted = users_info
                return X0
        mapper = R(items)
        M = Model(E.int("model_users", lo=0), E.int("model_items", lo=0))
        mapper.model = M
        P = Opt("profiles")
        opts, cutoff = options(E, True), E.int("cutoff", lo=1)
        out = E.attempt(mapper.recommend_for_new_user_batch, M, P, cutoff=cutoff, n_threads=1, **opts)
        if E.decide(term(M.n_items) != term(ni)):
            E.reach("another number of items")
            E.prove("a model with another number of items raises", not out.returned)
            return
        E.reach("new users")
        E.prove("new users are answered", out.returned)
        if not out.returned:
            return
        passed(E, mapper, out, opts, cutoff, "batch", None)
        E.prove("the matrix of the given profiles is scored", sand(getattr(mapper, "converted", None) is P, len(M.asked) == 1 and M.asked[0][0] == "cold" and M.asked[0][1] is X0))
    V.explore(MOD + ".ItemIDMapper.recommend_for_new_user_batch", new_batch)

    def dup(E):
        side = E.choose(2, "duplicates in")
        a, b = E.int("a", lo=0), E.int("b", lo=0)
        ids = IdSeq(hint="ids", distinct=False)
        E.assume(z3.And(a.t < b.t, b.t < term(ids.n)))
        xa, xb = ids.at(a), ids.at(b)
        E.assume(xa.t == xb.t)
        E.hints += [a, b]
        E.reach("duplicated %s ids" % ("item" if side else "user"))
        if side:
            out = E.attempt(m.ItemIDMapper, ids)
        else:
            out = E.attempt(m.IDMapper, ids, IdSeq(hint="items"))
        E.prove("duplicated %s ids raise" % ("item" if side else "user"), not out.returned)
    V.explore(MOD + ".IDMapper.__init__", dup)

    def nodup(E):
        out = E.attempt(m.IDMapper, IdSeq(hint="users"), IdSeq(hint="items"))
        E.reach("distinct ids")
        E.prove("distinct ids are accepted", out.returned)
    V.explore(MOD + ".IDMapper.__init__", nodup)
