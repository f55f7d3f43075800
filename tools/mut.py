"""python3 tools/mut.py PROP FILE OLD NEW [OLD NEW]...  - run the obligations of PROP against a scratch copy with a textual edit"""
import os, shutil, subprocess, sys, tempfile
prop, f = sys.argv[1:3]
d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
try:
    shutil.copytree("/repo/src", d + "/src"); shutil.copytree("/repo/cpp_source", d + "/cpp_source")
    p = os.path.join(d, "src/irspack", f)
    s = open(p).read()
    a = sys.argv[3:]
    for o, n in zip(a[::2], a[1::2]):
        o, n = o.encode().decode("unicode_escape"), n.encode().decode("unicode_escape")
        assert s.count(o) >= 1, "not found: " + o
        s = s.replace(o, n, 1)
    open(p, "w").write(s)
    env = dict(os.environ, VERIF_REPO=d)
    r = subprocess.run(["python3-vt", "-m", "pyvc.run", prop, "-v"], cwd="/verif", env=env, capture_output=True, text=True)
    if os.environ.get("SHOWERR"): print(r.stderr[:3000])
    out = [l for l in r.stdout.splitlines() if l.startswith(("refuted", "unknown", "UNSUPPORTED"))]
    print("\n".join("    " + l[:500] for l in out) or ("    all proved" if "paths" in r.stdout else r.stderr[-2000:]))
finally:
    shutil.rmtree(d)
