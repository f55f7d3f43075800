import builtins, http.client, io, os, pathlib, shutil, socket, tempfile, urllib.request, urllib.error, zipfile, email
import irspack.dataset as D
from irspack.dataset.downloader import BaseDownloader, SingleZipDownloader

class Boom(Exception): pass

def zbytes(names=("x",)):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        for n in names: z.writestr(n, "hello " * 3000)
    return b.getvalue()

class Raw(io.RawIOBase):
    """socket stand-in: delivers payload, calls on_read before each read, may fail or end early"""
    def __init__(self, payload, fail_at=None, exc=None, on_read=None, step=4096):
        self.p, self.pos, self.fail_at, self.exc, self.on_read, self.step = payload, 0, fail_at, exc, on_read, step
    def readable(self): return True
    def readinto(self, b):
        if self.on_read: self.on_read()
        if self.fail_at is not None and self.pos >= self.fail_at: raise self.exc
        end = len(self.p) if self.fail_at is None else min(len(self.p), max(self.fail_at, self.pos + 1))
        d = self.p[self.pos : min(end, self.pos + min(len(b), self.step))]
        b[: len(d)] = d; self.pos += len(d)
        return len(d)

class Sock:
    def __init__(self, raw): self.raw = raw
    def makefile(self, *a, **k): return io.BufferedReader(self.raw, 1024)
    def close(self): pass
    def sendall(self, *a): pass

class World:
    """replaces the global URL opener and input(); records requests and prompts"""
    def __init__(self, c, respond, answer="n", env=None):
        self.c, self.respond, self.answer, self.requests, self.prompts, self.env = c, respond, answer, [], [], env or {}
    def __enter__(self):
        w = self
        class H(urllib.request.HTTPHandler):
            def http_open(self, req): return w.open(req)
        class HS(urllib.request.HTTPSHandler):
            def https_open(self, req): return w.open(req)
        self.old = urllib.request._opener
        urllib.request.install_opener(urllib.request.build_opener(H, HS, urllib.request.ProxyHandler({})))
        self.oi = builtins.input
        builtins.input = lambda *a: (w.prompts.append(a), w.answer)[1]
        self.oe = dict(os.environ)
        for k in ("HF_TOKEN", "HUGGING_FACE_HUB_TOKEN"): os.environ.pop(k, None)
        os.environ.update(self.env)
        self.d = pathlib.Path(tempfile.mkdtemp(prefix="verif24_"))
        return self
    def open(self, req):
        self.requests.append((req.full_url, req.get_header("Authorization")))
        status, raw, length = self.respond(len(self.requests) - 1, req)
        head = ("HTTP/1.1 %d X\r\n" % status + ("Content-Length: %d\r\n" % length if length is not None else "Connection: close\r\n") + "\r\n").encode()
        class Two(io.RawIOBase):
            def __init__(s): s.h = head
            def readable(s): return True
            def readinto(s, b):
                if s.h:
                    d = s.h[: len(b)]; s.h = s.h[len(d):]; b[: len(d)] = d; return len(d)
                return raw.readinto(b)
        r = http.client.HTTPResponse(Sock(Two()), method="GET"); r.begin()
        r.msg = r.headers if hasattr(r, "headers") else r.msg
        # urllib expects .msg to be the reason phrase
        r.msg = r.reason
        return r
    def __exit__(self, *a):
        urllib.request._opener = self.old
        builtins.input = self.oi
        os.environ.clear(); os.environ.update(self.oe)
        shutil.rmtree(self.d, ignore_errors=True)

YES = ["y", "Y"]; NO = ["", "n", "N", "no", "yess?", "1", " ", "q", "nay"]
SINGLE = [D.MovieLens100KDataManager, D.MovieLens1MDataManager, D.MovieLens20MDataManager, D.CiteULikeADataManager]

def consent(c):
    """base downloader: exists / flag / answer decide alone"""
    cls = c.pick(SINGLE + [D.NeuMFML1MDownloader, D.NeuMFMPinterestDownloader])
    exists, force = c.chance(), c.chance()
    ans = c.pick(YES + NO)
    good = zbytes()
    c.note(manager=cls.__name__, exists=exists, force=force, answer=ans)
    as_str, default = c.chance(), c.chance(0.3)
    with World(c, lambda k, r: (200, Raw(good), len(good)), ans) as w:
        p = w.d / "a.zip"
        if exists: p.write_bytes(zbytes(("old",)))
        kls = type("K", (cls,), {"DEFAULT_PATH": p})
        kw = {} if default else dict(zippath=str(p) if as_str else p)
        kw["force_download"] = force
        go = exists or force or ans in YES
        before = p.read_bytes() if exists else None
        try:
            m = kls(**kw)
            ok = True
            m.zf.close()
        except RuntimeError: ok = False
        c.expect(ok == go, "constructor %s" % ("succeeded without consent" if ok else "failed although allowed"))
        c.expect(len(w.prompts) == (0 if exists or force else 1), "asked %d times" % len(w.prompts))
        if exists or not go:
            c.expect(not w.requests, "downloaded %r" % w.requests)
            c.expect((p.read_bytes() if p.exists() else None) == before, "archive changed without download")
        else:
            c.expect(len(w.requests) >= 1 and p.exists(), "did not download")
            if cls in SINGLE:
                c.expect([r[0] for r in w.requests] == [cls.DOWNLOAD_URL], "requested %r" % w.requests)
                c.expect(p.read_bytes() == good, "saved file differs from the received one")
            else:
                c.expect([r[0] for r in w.requests] == [cls.TRAIN_URL, cls.NEGATIVE_URL], "requested %r" % w.requests)
                with zipfile.ZipFile(p) as z: c.expect(z.read("train") == good and z.read("test") == good, "saved members differ from the received files")

def mind_consent(c):
    ex = {"train": c.chance(), "dev": c.chance()}
    force, ans, size, src = c.chance(), c.pick(YES + NO), c.pick(["small", "large"]), c.pick(["huggingface", "azure"])
    tok = c.pick([None, "t0k", ""]); env = {}
    if c.chance(): env["HF_TOKEN"] = c.pick(["envA", ""])
    if c.chance(): env["HUGGING_FACE_HUB_TOKEN"] = "envB"
    good = zbytes()
    length = c.pick([len(good), None])
    c.note(exists=ex, force=force, answer=ans, size=size, source=src, token=tok, env=env)
    default = c.chance(0.3)
    with World(c, lambda k, r: (200, Raw(good), length), ans, env) as w:
        sub = c.pick(["", "deep/er"])
        base = w.d / sub if sub and not any(ex.values()) else w.d
        P = {"train": base / ("MIND%s_train.zip" % size), "dev": base / ("MIND%s_dev.zip" % size)}
        for s in ex:
            if ex[s]: P[s].write_bytes(zbytes(("old" + s,)))
        before = {s: P[s].read_bytes() for s in ex if ex[s]}
        kls = type("K", (D.MINDDataManager,), {"DEFAULT_DIR": base})
        kw = {} if default else dict(train_zippath=P["train"] if c.chance() else str(P["train"]), dev_zippath=P["dev"])
        if src != "huggingface" or c.chance(): kw["download_source"] = src
        if tok is not None: kw["hf_token"] = tok
        miss = [s for s in ("train", "dev") if not ex[s]]
        go = not miss or force or ans in YES
        try:
            m = kls(size=size, force_download=force, **kw); ok = True; m.close()
        except RuntimeError: ok = False
        c.expect(ok == go, "constructor %s" % ("succeeded without consent" if ok else "failed although allowed"))
        c.expect(len(w.prompts) == (1 if miss and not force else 0), "asked %d times" % len(w.prompts))
        if not go or not miss:
            c.expect(not w.requests, "downloaded without need or consent: %r" % w.requests)
        else:
            b = "https://huggingface.co/datasets/yjw1029/MIND/resolve/main" if src == "huggingface" else "https://mind201910small.blob.core.windows.net/release"
            c.expect(sorted(r[0] for r in w.requests) == sorted("%s/MIND%s_%s.zip" % (b, size, s) for s in miss), "requested %r for missing %r" % (w.requests, miss))
            if src == "huggingface":
                t = tok or env.get("HF_TOKEN") or env.get("HUGGING_FACE_HUB_TOKEN")
                for _, a in w.requests: c.expect(a == ("Bearer " + t if t else None), "Authorization header %r with token %r env %r" % (a, tok, env))
            elif tok:
                for _, a in w.requests: c.expect(a is None or tok not in a, "Hugging Face token sent to %r" % src)
            for s in miss: c.expect(P[s].read_bytes() == good, "saved archive differs from the received one")
        for s, b in before.items(): c.expect(P[s].read_bytes() == b, "existing archive changed")
        left = sorted(str(x.relative_to(w.d)) for x in w.d.rglob("*") if x.is_file())
        exp = sorted(str(P[s].relative_to(w.d)) for s in ex if ex[s] or (go and miss))
        c.expect(left == exp, "files left: %r, expected %r" % (left, exp))

def mind_fault(c):
    """a fault at any step: final path holds only complete data, nothing temporary is left"""
    payload = zbytes()
    kind = c.pick(["read", "short", "status", "urlerror", "write", "replace", "interrupt", "exit", "create"])
    which = c.integer(0, 1)
    exc = {"interrupt": KeyboardInterrupt(), "exit": SystemExit(3)}.get(kind, c.pick([OSError("net"), Boom("x"), http.client.HTTPException("h"), TimeoutError()]))
    at = c.pick([0, 1, 100, 5000, len(payload) // 2, len(payload) - 1])
    status = c.pick([401, 403, 404, 409, 500, 503])
    seen = []
    state = {}
    def check_final():
        for s in ("train", "dev"):
            p = state["P"][s]
            if p.exists() and p.read_bytes() != payload: seen.append(s)
    def respond(k, req):
        if k == which:
            if kind in ("read", "interrupt", "exit"): return 200, Raw(payload, at, exc, check_final), c.pick([len(payload), None])
            if kind == "short": return 200, Raw(payload[:at], on_read=check_final), len(payload)
            if kind == "status": return status, Raw(b"err"), 3
            if kind == "urlerror": raise urllib.error.URLError("down")
        return 200, Raw(payload, on_read=check_final), len(payload)
    c.note(kind=kind, at=at, which=which, status=status, exc=repr(exc))
    via = c.chance(0.3)
    with World(c, respond) as w:
        P = state["P"] = {"train": w.d / "tr.zip", "dev": w.d / "de.zip"}
        prior = c.chance(0.3) and via
        undo = []
        def patch(o, n, f): undo.append((o, n, getattr(o, n))); setattr(o, n, f)
        if kind == "replace":
            n = [0]
            def mk(orig):
                def f(*a, **k):
                    n[0] += 1
                    if n[0] == which + 1: raise OSError("replace failed")
                    return orig(*a, **k)
                return f
            for nm in ("replace", "rename"): patch(os, nm, mk(getattr(os, nm)))
            patch(shutil, "move", mk(shutil.move)) if False else None
        if kind == "write":
            import tempfile as T
            orig = shutil.copyfileobj; n2 = [0]
            def cp(src, dst, *a):
                n2[0] += 1
                if n2[0] == which + 1:
                    dst.write(src.read(50)); raise OSError("disk full")
                return orig(src, dst, *a)
            patch(shutil, "copyfileobj", cp)
        try:
            failed = None
            try:
                D.MINDDataManager(P["train"], P["dev"], force_download=True).close()
            except BaseException as e: failed = e
        finally:
            for o, n_, f in undo: setattr(o, n_, f)
        if kind in ("write", "replace", "create"):
            pass
        else:
            c.expect(failed is not None, "fault %s at %d went unnoticed" % (kind, at))
        if kind in ("interrupt", "exit"): c.expect(failed is exc or type(failed) is type(exc), "interrupt became %r" % failed)
        if kind == "status": c.expect(isinstance(failed, (RuntimeError, urllib.error.HTTPError)), "HTTP %d became %r" % (status, failed))
        c.expect(not seen, "final path held an incomplete archive during the download of %r" % seen)
        names = sorted(x.name for x in w.d.rglob("*") if x.is_file())
        c.expect(set(names) <= {"tr.zip", "de.zip"}, "files left behind: %r" % names)
        for s in P:
            if P[s].exists(): c.expect(P[s].read_bytes() == payload, "final path of %s holds an incomplete archive" % s)
        if failed is None: c.expect(names == ["de.zip", "tr.zip"], "no error but archives missing: %r" % names)

def rejected(c):
    with World(c, lambda k, r: (200, Raw(b""), 0)) as w:
        for kw in (dict(size="tiny"), dict(size="Small"), dict(download_source="s3"), dict(download_source="")):
            with c.raises("%r accepted" % kw, ValueError): D.MINDDataManager(w.d / "a", w.d / "b", force_download=True, **kw)
        c.expect(not w.requests, "request made for rejected arguments")

CASES = [consent, mind_consent, mind_fault, consent, mind_consent, mind_fault, rejected]
MAXN = dict(quick=3000, thorough=40000)
