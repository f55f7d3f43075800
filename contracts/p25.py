"""P25: get_n_threads"""
from pyvc.core import *
from pyvc.models import EnvStr

VAR = "IRSPACK_NUM_THREADS_DEFAULT"
FN = "irspack._threading.get_n_threads"


def run(V):
    L = V.loader()
    m = L.load("irspack._threading")
    os_ = L.models["os"]

    def spec(E):
        E.use("os.environ/os.getenv look up the named variable; os.cpu_count() returns a positive integer or None; int(str) parses integer literals and raises ValueError otherwise")
        E.note("the environment variable, when set, is not the empty string")
        env = os_.environ
        env.vars = {}
        other = E.int("other_env")
        env.vars["OMP_NUM_THREADS"] = EnvStr(other)
        state = E.choose(3, "environment")
        v = None
        if state == 1:
            v = E.int("env_value")
            env.vars[VAR] = EnvStr(v)
        elif state == 2:
            env.vars[VAR] = EnvStr(None)
        env.cpu = None if E.choose(2, "cpu count unknown") else E.int("cpus", lo=1)
        if E.choose(2, "argument given"):
            n = E.int("n_threads")
            out = E.attempt(m.get_n_threads, n)
            E.reach("argument given")
            E.prove("the given argument is returned", out.returned and same(out.value, n) if out.returned else False)
            return
        out = E.attempt(m.get_n_threads, None)
        E.reach("state %d" % state)
        if state == 0:
            want = 1 if env.cpu is None else env.cpu
            E.prove("no argument, no variable: the CPU count, 1 if unknown", same(out.value, want) if out.returned and isnum(out.value) else False)
        elif state == 1:
            E.prove("no argument: the integer in the variable", same(out.value, v) if out.returned and isnum(out.value) else False)
        else:
            E.prove("a non-integer variable raises ValueError", out.raised(ValueError))

    V.explore(FN, spec)
