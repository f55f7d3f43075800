"""P24: BaseDownloader.__init__, SingleZipDownloader, MINDDataManager.__init__ / _download

The file system, network, prompt and environment are modelled; every one of their operations may fail at any call. The obligation about the final
archive path is checked at every change of the file system, so it holds at every moment of every failing history."""
import types
import urllib.error
import z3
from pyvc.core import *
from pyvc import rt

DL = "irspack.dataset.downloader"
MIND = "irspack.dataset.mind"
BASE = {"huggingface": "https://huggingface.co/datasets/yjw1029/MIND/resolve/main", "azure": "https://mind201910small.blob.core.windows.net/release"}


PROBES = {"is_model", "at", "n", "sym", "stamp", "symbolic_iter", "shape", "items_at"}  # asked by the engine itself


class Boom(BaseException):
    """any failure (operating system, network, interruption)"""


class BoomOS(OSError):
    """a failure reported as an OSError"""


class W:
    """the world of one path"""
    files, temps, finals, faults, requests, prompts, saved = {}, set(), set(), True, [], [], []

    @classmethod
    def reset(cls, faults):
        cls.files, cls.temps, cls.finals, cls.faults, cls.requests, cls.prompts, cls.saved, cls.zips, cls.old, cls.failed = {}, set(), set(), faults, [], [], [], [], {}, False

    @classmethod
    def fault(cls, where):
        if cls.faults:
            k = E.choose(3, "fault in " + where)
            if k:
                cls.failed = True
                raise (Boom if k == 1 else BoomOS)(where)

    @classmethod
    def put(cls, path, content):
        if path in cls.finals:
            E.prove("the final archive path only ever holds a completely received file", content == "complete" and cls.files.get(path) in (None, "complete"))
            if cls.old.get(path):
                E.prove("an existing archive is not overwritten", False)
        cls.files[path] = content


class Path:
    """pathlib.Path on the model file system"""

    def __init__(self, *a):
        self.s = "/".join(str(x) for x in a)

    def __str__(self):
        return self.s

    __fspath__ = __repr__ = __str__

    def __format__(self, spec):
        return format(self.s, spec)

    def __eq__(self, o):
        return isinstance(o, Path) and self.s == o.s

    def __hash__(self):
        return hash(self.s)

    def __truediv__(self, o):
        return Path(self.s + "/" + str(o))

    def expanduser(self):
        return Path(self.s.replace("~", "/HOME"))

    resolve = absolute = lambda self, *a: self

    @property
    def parent(self):
        return Path(self.s.rsplit("/", 1)[0])

    @property
    def name(self):
        return self.s.rsplit("/", 1)[1]

    @property
    def suffix(self):
        return ".zip"

    def with_name(self, n):
        return self.parent / n

    def with_suffix(self, x):
        return Path(self.s.rsplit(".", 1)[0] + x)

    def exists(self):
        return self.s in W.files

    is_file = exists

    def mkdir(self, *a, **k):
        W.fault("mkdir")

    def replace(self, target):
        W.fault("replace")
        if self.s not in W.files:
            raise FileNotFoundError(self.s)
        c = W.files.pop(self.s)
        W.temps.discard(self.s)
        W.put(str(target), c)
        return Path(str(target))

    rename = replace

    def unlink(self, missing_ok=False):
        if self.s not in W.files:
            if missing_ok:
                return
            raise FileNotFoundError(self.s)
        E.prove("an existing archive is not deleted", not W.old.get(self.s))
        del W.files[self.s]
        W.temps.discard(self.s)

    def open(self, mode="r", *a, **k):
        return open_(self, mode)

    def write_bytes(self, b):
        with open_(self, "wb") as f:
            f.write(b)

    def __getattr__(self, n):
        if n.startswith("_") or n in PROBES or n.startswith("v"):
            raise AttributeError(n)
        unsupported("Path.%s" % n)


class File:
    def __init__(self, path, delete):
        self.name, self.got, self.closed, self.delete = path, [], False, delete
        if path not in W.finals:
            W.temps.add(path)
        W.put(path, "partial")

    def __enter__(self):
        return self

    def write(self, b):
        W.fault("write")
        self.got.append(b)

    def flush(self):
        W.fault("flush")
        self.sync()

    def fileno(self):
        return 3

    def sync(self):
        if self.name in W.files:
            W.put(self.name, "complete" if [c.what for c in self.got] == ["complete"] else "partial")

    def close(self):
        if not self.closed:
            self.closed = True
            self.sync()
            if self.delete and self.name in W.files:
                del W.files[self.name]
                W.temps.discard(self.name)

    def __exit__(self, *a):
        self.close()
        W.fault("close")
        return False

    def __getattr__(self, n):
        if n.startswith("_") or n in PROBES or n.startswith("v"):
            raise AttributeError(n)
        unsupported("file.%s" % n)


def open_(path, mode="r", *a, **k):
    if "w" not in mode:
        unsupported("open for reading")
    W.fault("open")
    return File(str(path), False)


def NamedTemporaryFile(mode="w+b", buffering=-1, encoding=None, newline=None, suffix=None, prefix=None, dir=None, delete=True, **k):
    W.fault("temporary file")
    return File("%s/%stmp%d%s" % (dir or "/tmp", prefix or "", len(W.requests), suffix or ""), delete)


class Bytes:
    def __init__(self, what):
        self.what = what


class Response:
    """of a download: the body arrives completely, or the connection ends early (then .length tells what is missing, if the length was announced), or fails"""

    def __init__(self, url):
        self.url, self.done = url, False
        self.kind = E.choose(3, "announced length") if W.faults else 1
        self.status = self.code = 200
        # 0: no length announced; 1: length announced, complete; 2: length announced, cut short
        self.length = None if self.kind == 0 else E.int("announced", lo=1)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def _take(self):
        """body as far as it arrives"""
        W.fault("read")
        if self.done:
            return Bytes("empty")
        self.done = True
        if self.kind == 2:
            self.length = E.int("missing", lo=1)
            W.failed = True
            return Bytes("partial")
        if self.kind == 1:
            self.length = 0
        return Bytes("complete")

    def read(self, n=None):
        if n is not None:
            unsupported("read in pieces")
        b = self._take()
        if b.what == "partial":
            import http.client
            raise http.client.IncompleteRead(b"", 1)
        return b

    def __getattr__(self, n):
        if n.startswith("_") or n in PROBES or n.startswith("v"):
            raise AttributeError(n)
        unsupported("response.%s" % n)


def copyfileobj(src, dst, length=0):
    if W.faults and E.choose(2, "fault while copying") == 1:
        dst.got.append(Bytes("partial"))
        W.failed = True
        raise (Boom if E.choose(2, "kind") == 0 else BoomOS)("copy")
    dst.write(src._take())


def move(a, b, *k):
    if isinstance(a, Path):
        return a.replace(b)
    return Path(a).replace(b)


class Request:
    def __init__(self, url, data=None, headers={}, **k):
        if data is not None:
            unsupported("request data")
        self.full_url, self.headers = url, dict(headers)

    def add_header(self, k, v):
        self.headers[k] = v


def urlopen(r, *a, **k):
    url, h = (r, {}) if isinstance(r, str) else (r.full_url, r.headers)
    W.requests.append((url, {str(x).lower(): v for x, v in h.items()}.get("authorization")))
    if W.faults:
        if E.choose(2, "HTTP error") == 1:
            W.failed = True
            raise urllib.error.HTTPError(url, E.int("code", lo=400), "error", {}, None)
        W.fault("connect")
    return Response(url)


def urlretrieve(url, path=None, *a, **k):
    W.saved.append((url, str(path)))
    W.files[str(path)] = "complete"
    return (path, None)


class Zip:
    def __init__(self, path, *a, **k):
        self.path = str(path)
        if self.path not in W.files:
            raise FileNotFoundError(self.path)
        W.zips.append(self.path)

    def close(self):
        pass


class Answer:
    """what the user typed: equal to y in either case, or not"""

    def __init__(self, yes, case=None):
        self.yes, self.case = yes, case

    def lower(self):
        return Answer(self.yes, "lower")

    casefold = lower

    def upper(self):
        return Answer(self.yes, "upper")

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        if self.case == "lower":
            return self.yes if o == "y" else False if self.yes or o != o.lower() else E.choose(2, "typed") == 1
        if self.case == "upper":
            return self.yes if o == "Y" else False if self.yes or o != o.upper() else E.choose(2, "typed") == 1
        if o in ("y", "Y"):
            return self.yes and E.choose(2, "typed case") == (o == "Y")
        return False if self.yes else E.choose(2, "typed") == 1

    def __hash__(self):
        unsupported("hash of the answer")

    def startswith(self, p):
        if self.case == "lower" and p == "y" or self.case == "upper" and p == "Y":
            return True if self.yes else E.choose(2, "typed more") == 1
        unsupported("startswith")

    def strip(self, *a):
        if self.yes:
            return self
        return Answer(E.choose(2, "typed with blanks") == 1, self.case)

    def __getattr__(self, n):
        if n.startswith("_") or n in PROBES or n.startswith("v"):
            raise AttributeError(n)
        unsupported("answer.%s" % n)


def run(V):
    ns = types.SimpleNamespace
    req = ns(Request=Request, urlopen=urlopen, urlretrieve=urlretrieve, __name__="urllib.request")
    models = {"pathlib": ns(Path=Path, __name__="pathlib"), "tempfile": ns(NamedTemporaryFile=NamedTemporaryFile, __name__="tempfile"), "shutil": ns(copyfileobj=copyfileobj, move=move, __name__="shutil"), "zipfile": ns(ZipFile=Zip, __name__="zipfile"),
              "urllib": ns(request=req, error=urllib.error, __name__="urllib"), "urllib.request": req, "urllib.error": urllib.error, "json": ns(__name__="json"), "io": ns(BytesIO=type("BytesIO", (), {}), __name__="io")}
    L = V.loader(models)
    d = L.load(DL)
    m = L.load(MIND)
    asked = []

    def world(E, mod, faults):
        W.reset(faults)
        E.note("every modelled operation (connect, read, create, write, close, rename, mkdir) may fail; interruptions between operations and a failing deletion of the temporary file are not modelled")
        E.use("pathlib / tempfile / shutil / urllib / zipfile: documented effects; a rename is atomic; http.client leaves the missing amount in response.length when a connection with announced length ends early")

        yes = E.choose(2, "answer") == 1

        def ask(*a):
            W.prompts.append(a)
            return Answer(yes)
        for x in (mod,):
            x.input, x.print, x.open = ask, (lambda *a, **k: None), open_
        return yes

    def consent(E):
        yes = world(E, d, False)
        P = "/D/data.zip"
        W.finals = set()
        exists = E.choose(2, "archive exists") == 1
        if exists:
            W.files[P] = "complete"
        force = E.choose(2, "force") == 1
        saves = []

        class K(d.BaseDownloader):
            DEFAULT_PATH = Path(P)

            def _save_to_zippath(self, path):
                saves.append(str(path))
                W.files[str(path)] = "complete"
        how = E.choose(3, "path given")
        if how == 2:
            K.DEFAULT_PATH = Path("/elsewhere/x.zip")
        kw = [dict(zippath=P), {}, dict(zippath=Path(P))][how]
        out = E.attempt(K, force_download=force, **kw)
        go = exists or force or yes
        E.reach("reader")
        if exists:
            E.prove("an existing archive is neither downloaded nor asked for", not saves and not W.prompts)
            E.prove("an existing archive is used", out.returned)
        elif force:
            E.prove("a forced download asks nothing and saves once to the archive path", not W.prompts and saves == [P] and out.returned)
        elif yes:
            E.prove("the user is asked once; yes downloads to the archive path", len(W.prompts) == 1 and saves == [P] and out.returned)
        else:
            E.prove("without consent nothing is downloaded", not saves and len(W.prompts) == 1)
            E.prove("without consent a RuntimeError is raised", out.raised(RuntimeError))
    V.explore(DL + ".BaseDownloader.__init__", consent)

    def single(E):
        world(E, d, False)

        class K(d.SingleZipDownloader):
            DEFAULT_PATH = Path("/D/default.zip")
            DOWNLOAD_URL = "https://example/data.zip"
        E.attempt(K, "/D/x.zip", force_download=True)
        E.reach("single")
        E.prove("the data set's own URL is saved to the archive path", W.saved == [("https://example/data.zip", "/D/x.zip")] or [r[0] for r in W.requests] == ["https://example/data.zip"] and "/D/x.zip" in W.files)
    V.explore(DL + ".SingleZipDownloader._save_to_zippath", single)

    def mind(E, faults):
        yes = world(E, m, faults)
        size, src = ("small", "large")[E.choose(2, "size")] if not faults else "small", ("huggingface", "azure")[E.choose(2, "source")]
        given = E.choose(2, "paths given") if not faults else 1
        if given:
            P = {"train": "/D/tr.zip", "dev": "/D/de.zip"}
        else:
            P = {s: "/HOME/.mind/MIND%s_%s.zip" % (size, s) for s in ("train", "dev")}
        W.finals = set(P.values())
        ex = {s: E.choose(2, "archive exists") == 1 for s in P}
        for s, p in P.items():
            if ex[s]:
                W.files[p] = "complete"
                W.old[p] = True
        force = E.choose(2, "force") == 1 if not faults else True
        token = (None, "", "given-token")[E.choose(3, "token")] if not faults else None
        env = L.models["os"].environ
        env.vars = {}
        if not faults:
            for k, v in (("HF_TOKEN", "token-A"), ("HUGGING_FACE_HUB_TOKEN", "token-B")):
                c = E.choose(3, k)
                if c:
                    env.vars[k] = v if c == 2 else ""
        kw = dict(size=size, force_download=force, download_source=src, hf_token=token)
        if given:
            kw.update(train_zippath=P["train"], dev_zippath=Path(P["dev"]))
        out = E.attempt(m.MINDDataManager, **kw)
        miss = [s for s in ("train", "dev") if not ex[s]]
        go = not miss or force or yes
        E.prove("the user is asked exactly when an archive is missing and downloading is not forced", len(W.prompts) == (1 if miss and not force else 0))
        want = sorted("%s/MIND%s_%s.zip" % (BASE[src], size, s) for s in miss)
        if not miss or not go:
            E.prove("nothing is requested without need and consent", not W.requests)
        if not go:
            E.reach("no consent")
            E.prove("without consent a RuntimeError is raised", out.raised(RuntimeError))
        elif not W.failed:
            E.reach("downloads" if miss else "nothing to download")
            E.prove("with need and consent the missing archives are fetched", out.returned and sorted(r[0] for r in W.requests) == want)
            E.prove("afterwards both archives are complete", all(W.files.get(p) == "complete" for p in P.values()))
        else:
            E.reach("a failing download")
            E.prove("a failure is reported", not out.returned)
            E.prove("only missing archives are requested", all(r[0] in want for r in W.requests))
        if src == "huggingface":
            t = token or env.vars.get("HF_TOKEN") or env.vars.get("HUGGING_FACE_HUB_TOKEN")
            E.prove("the access token is the given one or the documented environment variables in order", all(r[1] == ("Bearer " + t if t else None) for r in W.requests))
        E.prove("no temporary file remains", not W.temps and set(W.files) <= set(P.values()))
        E.prove("final paths hold complete archives or nothing", all(W.files.get(p) in (None, "complete") for p in P.values()))
        E.prove("existing archives are kept", all(W.files.get(P[s]) == "complete" for s in P if ex[s]))
    V.explore(MIND + ".MINDDataManager.__init__", lambda E: mind(E, False))
    V.explore(MIND + ".MINDDataManager._download", lambda E: mind(E, True))

    def wrong(E):
        world(E, m, False)
        bad = (dict(size="tiny"), dict(download_source="s3"))[E.choose(2, "argument")]
        out = E.attempt(m.MINDDataManager, "/D/a", "/D/b", force_download=True, **bad)
        E.reach("rejected")
        E.prove("unknown sizes and sources are rejected before any request", out.raised(ValueError) and not W.requests)
    V.explore(MIND + ".MINDDataManager.__init__ (arguments)", wrong)
