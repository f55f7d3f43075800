"""pyvc.models - models (trusted contracts) of the external modules the verified code imports"""
import types
from .core import *
from .core import E
from . import rt


def default_models():
    m = {}
    m["os"] = OS()
    m["fastprogress"] = types.SimpleNamespace(progress_bar=lambda it, **k: ProgressBar(it))
    m["pydantic"] = types.SimpleNamespace(BaseModel=BaseModel)
    m["optuna"] = types.SimpleNamespace(exceptions=types.SimpleNamespace(TrialPruned=TrialPruned), TrialPruned=TrialPruned, Trial=object, Study=object)
    m["optuna.exceptions"] = m["optuna"].exceptions
    m["uuid"] = UUID()
    import collections as C
    m["collections"] = types.SimpleNamespace(**{n: getattr(C, n) for n in ("defaultdict", "namedtuple", "Counter", "deque", "abc")}, OrderedDict=rt.VDict)
    m["collections.abc"] = C.abc
    import importlib
    for name in ("remodel", "npmodel", "spmodel", "pdmodel"):
        try:
            mod = importlib.import_module("pyvc." + name)
        except ModuleNotFoundError:
            continue
        m.update(mod.MODULES)
    for ext in ("irspack.utils._util_cpp", "irspack.evaluation._core_evaluator", "irspack.recommenders._ials", "irspack.recommenders._knn", "irspack.evaluation._core"):
        m[ext] = Stub(ext)
    return m


class UUID:
    """uuid: a fresh name, different from every other name"""

    def uuid1(self, *a):
        E.use("uuid: a freshly generated name differs from every other column name")
        E.ghost["uuid"] = E.ghost.get("uuid", 0) + 1
        return "uuid-%d" % E.ghost["uuid"]

    uuid4 = uuid1


class Stub:
    """extension module: every attribute must be given a contract by the property that needs it"""

    def __init__(self, name):
        self.__dict__["_n"] = name

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        return Missing(self._n + "." + a)


class Missing:
    def __init__(self, n):
        self._n = n

    def __call__(self, *a, **k):
        unsupported("no contract for %s" % self._n)

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        return Missing(self._n + "." + a)


class TrialPruned(Exception):
    pass


class BaseModel:
    """pydantic.BaseModel: keyword construction, dict()"""

    def __init__(self, **k):
        self.__dict__.update(k)

    def dict(self):
        return dict(self.__dict__)


class ProgressBar:
    """fastprogress: iterates its argument unchanged"""

    def __init__(self, it):
        E.use("fastprogress.progress_bar(it) iterates it unchanged")
        self.it = it
        self.comment = ""
        E.register(self, "progress_bar") if not isinstance(it, (list, tuple, range)) else None

    def viter(self):
        return rt.iter_(self.it)

    def __iter__(self):
        return iter(self.it)

    def on_interrupt(self, *a):
        pass

    def __setattr__(self, n, v):
        # display state only
        object.__setattr__(self, n, v)


class EnvStr:
    """a non-empty environment string: either the decimal form of an integer or not an integer at all"""

    def __init__(self, value):
        self.value = value      # SInt or None

    def __bool__(self):
        return True

    def v_int(self):
        if self.value is None:
            raise ValueError("invalid literal for int()")
        return self.value

    def v_float(self):
        """float() of it: an integer literal parses; a non-integer string may still be a decimal fraction"""
        if self.value is not None:
            return tofloat(self.value)
        if E.choose(2, "float() of a non-integer string fails") == 0:
            raise ValueError("could not convert string to float")
        return E.float("envfloat")

    def isdigit(self):
        if self.value is None:
            return False
        return bool(self.value >= 0)

    isdecimal = isnumeric = isdigit

    def strip(self, *a):
        return self

    def v_isinstance(self, t):
        return t is str


class OS:
    """os: environ / getenv / cpu_count"""

    def __init__(self):
        self.environ = Environ()
        import os
        self.path = os.path
        self.PathLike = os.PathLike

    def getenv(self, k, d=None):
        return self.environ.get(k, d)

    def cpu_count(self):
        return self.environ.cpu

    def process_cpu_count(self):
        unsupported("process_cpu_count")

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        unsupported("os.%s" % a)


class Environ:
    def __init__(self):
        self.vars = {}
        self.cpu = None
        self.log = []

    def get(self, k, d=None):
        self.log.append(k)
        return self.vars.get(k, d)

    def __getitem__(self, k):
        self.log.append(k)
        return self.vars[k]

    def __contains__(self, k):
        self.log.append(k)
        return k in self.vars
