"""Import the REAL irspack package from $VERIF_REPO (default /repo), with its
C++ extensions compiled from that tree's cpp_source through /verif/shim.

The compiled extensions are cached per content hash of cpp_source + shim.
"""
import hashlib, importlib.abc, importlib.util, importlib.machinery, os, subprocess, sys, tempfile, fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
SHIM = os.path.join(VERIF, "shim")
EXT = {
    "irspack.utils._util_cpp": ("_util_cpp", "util.cpp"),
    "irspack.evaluation._core_evaluator": ("_core_evaluator", "evaluator.cpp"),
    "irspack.recommenders._knn": ("_knn", "knn/wrapper.cpp"),
    "irspack.recommenders._ials_core": ("_ials_core", "als/wrapper.cpp"),
}

class BuildError(Exception):
    pass

def cache_root():
    for d in (os.environ.get("VERIF_CACHE"), os.path.join(VERIF, ".cache"), os.path.join(tempfile.gettempdir(), "verif-cache-%d" % os.getuid())):
        if not d:
            continue
        try:
            os.makedirs(d, exist_ok=True)
            if os.access(d, os.W_OK):
                return d
        except OSError:
            pass
    raise BuildError("no writable cache directory")

def _tree_hash(name, src):
    h = hashlib.sha256()
    files = []
    for base in (os.path.join(REPO, "cpp_source"), SHIM):
        for dp, dn, fn in os.walk(base):
            dn.sort()
            for f in sorted(fn):
                if f.endswith((".cpp", ".hpp", ".h", ".cc", ".hh")):
                    files.append((os.path.relpath(os.path.join(dp, f), base), os.path.join(dp, f)))
    for rel, f in files:
        h.update(rel.encode()); h.update(open(f, "rb").read())
    h.update((name + src).encode())
    return h.hexdigest()[:24]

def build(name, src):
    """Compile one extension (if not cached) and return the .so path."""
    key = _tree_hash(name, src)
    d = os.path.join(cache_root(), "ext", key)
    so = os.path.join(d, name + ".so")
    if os.path.exists(so):
        return so
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(so):
            return so
        tmp = so + ".tmp%d" % os.getpid()
        cmd = ["g++", "-std=c++17", "-O1", "-fPIC", "-shared", "-w", "-I" + SHIM,
               "-I" + os.path.join(REPO, "cpp_source"), "-I/usr/include/eigen3", "-I/usr/include/python3.12",
               os.path.join(REPO, "cpp_source", src), "-o", tmp, "-lpthread"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise BuildError("compiling %s failed:\n%s" % (src, r.stderr[-4000:]))
        os.replace(tmp, so)
    return so

def build_all(which=None):
    from concurrent.futures import ThreadPoolExecutor
    items = [v for k, v in EXT.items() if which is None or v[0] in which]
    with ThreadPoolExecutor(4) as ex:
        return list(ex.map(lambda v: build(*v), items))

class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname in EXT:
            name, src = EXT[fullname]
            so = build(name, src)
            return importlib.util.spec_from_file_location(fullname, so, loader=importlib.machinery.ExtensionFileLoader(fullname, so))
        if fullname == "irspack._version" and not os.path.exists(os.path.join(REPO, "src/irspack/_version.py")):
            class L(importlib.abc.Loader):
                def create_module(self, spec):
                    return None
                def exec_module(self, module):
                    module.__version__ = "0+verif"
            return importlib.machinery.ModuleSpec(fullname, L())
        return None

def install():
    sys.dont_write_bytecode = True
    src = os.path.join(REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder())

if __name__ == "__main__":
    print(build_all(sys.argv[1:] or None))
