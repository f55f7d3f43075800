import importlib, os
import numpy as np
from irspack._threading import get_n_threads
import irspack._threading as T

class Env:
    def __init__(self, value, cpu): self.v, self.cpu = value, cpu
    def __enter__(self):
        self.old = os.environ.get("IRSPACK_NUM_THREADS_DEFAULT"); self.oc = os.cpu_count
        os.environ.pop("IRSPACK_NUM_THREADS_DEFAULT", None)
        if self.v is not None: os.environ["IRSPACK_NUM_THREADS_DEFAULT"] = self.v
        os.cpu_count = lambda: self.cpu
    def __exit__(self, *a):
        os.cpu_count = self.oc
        os.environ.pop("IRSPACK_NUM_THREADS_DEFAULT", None)
        if self.old is not None: os.environ["IRSPACK_NUM_THREADS_DEFAULT"] = self.old

def resolve(c):
    arg = c.pick([None, None, 1, 2, 7, 64, c.integer(1, 1000)])
    env = c.pick([None, "1", "3", " 4 ", "12", "+5", str(c.integer(1, 9999)), "abc", "1.5", "2 3", "0x10", "1e3", "None"])
    cpu = c.pick([1, 2, 8, 96, None, c.integer(1, 300)])
    c.note(argument=arg, environment=env, cpu_count=cpu)
    with Env(env, cpu):
        get_n_threads = importlib.reload(T).get_n_threads  # also sees `from os import cpu_count`
        if arg is None and env is not None:
            try: exp = int(env)
            except ValueError: exp = None
            if exp is None:
                with c.raises("environment value %r accepted" % env, ValueError): get_n_threads(None)
                return
        elif arg is None: exp = cpu if cpu is not None else 1
        else: exp = arg
        got = get_n_threads(arg)
        c.expect(type(got) is int and got == exp, "resolved %r, expected %r" % (got, exp))
        c.expect(os.environ.get("IRSPACK_NUM_THREADS_DEFAULT") == env, "environment changed")

def users(c):
    """components that take n_threads resolve it by the same rule"""
    from irspack import CosineKNNRecommender, IALSRecommender, SLIMRecommender, Evaluator
    import scipy.sparse as sps
    X = sps.csr_matrix(np.eye(3))
    arg = c.pick([None, 2, 5]); env = c.pick([None, "3"]); cpu = c.pick([4, None])
    c.note(argument=arg, environment=env, cpu_count=cpu)
    with Env(env, cpu):
        exp = arg if arg is not None else int(env) if env else get_n_threads(None)
        for f in (lambda: CosineKNNRecommender(X, n_threads=arg), lambda: IALSRecommender(X, n_threads=arg), lambda: SLIMRecommender(X, n_threads=arg), lambda: Evaluator(X, n_threads=arg)):
            o = f()
            c.expect(o.n_threads == exp, "%s uses %r threads, expected %r" % (type(o).__name__, o.n_threads, exp))

CASES = [resolve, resolve, resolve, users]
MAXN = dict(quick=3000, thorough=30000)
