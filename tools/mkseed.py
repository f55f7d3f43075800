"""mkseed.py [ID...]: (re)generate /verif/seeded/<id>/ from tools/seeds.py and validate each planted bug
in a scratch copy of /repo: builds, stable tests pass, demo exits 0 unpatched and nonzero patched."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seeds import SEEDS
DEMO = '''#!/bin/bash
# exit 0: property holds; nonzero: broken
D="$(cd "$(dirname "$0")" && pwd)"
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export VERIF_CACHE="$T/cache" HOME="$T" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 PYTHONHASHSEED=0
export VERIF_REPO="${VERIF_REPO:-$PWD}"
unset IRSPACK_NUM_THREADS_DEFAULT HF_TOKEN HUGGING_FACE_HUB_TOKEN
cp "$D/demo.py" "$T/"; mkdir -p "$T/lib"; cp -r "$D/lib/." "$T/lib/"
cd "$T" && /opt/venv/bin/python demo.py
'''
PRE = '''import os, sys, warnings
warnings.filterwarnings("ignore")
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib", "harness"))
import realirs
realirs.install()
import logging; logging.disable(logging.CRITICAL)
import numpy as np, pandas as pd, scipy.sparse as sps
'''
PRE_BARE = '''import os, sys, types
R = os.environ.get("VERIF_REPO", "/repo")
m = types.ModuleType("irspack"); m.__path__ = [R + "/src/irspack"]; sys.modules["irspack"] = m
import pandas as pd
'''
def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)
def main():
    want = sys.argv[1:]
    work = tempfile.mkdtemp(prefix="seedwork_")
    copy = os.path.join(work, "repo")
    run(["cp", "-a", "/repo", copy])
    bad = 0
    for s in SEEDS:
        if want and s["id"] not in want:
            continue
        d = os.path.join(VERIF, "seeded", s["id"])
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        run(["git", "checkout", "--", "."], cwd=copy)
        for f, old, new in s["edits"]:
            p = os.path.join(copy, f); t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "EDIT MATCHES", t.count(old), f); bad += 1
            open(p, "w").write(t.replace(old, new, 1))
        diff = run(["git", "diff"], cwd=copy).stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write((PRE_BARE if s.get("bare") else PRE) + s["demo"])
        os.makedirs(d + "/lib/harness")
        if not s.get("bare"):
            shutil.copy(VERIF + "/harness/realirs.py", d + "/lib/harness/")
            shutil.copytree(VERIF + "/shim", d + "/lib/shim")
        else:
            open(d + "/lib/harness/.keep", "w").close()
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        e = dict(os.environ, VERIF_REPO=copy)
        r1 = run(["bash", d + "/demo.sh"], cwd=copy, env=e)
        run(["git", "checkout", "--", "."], cwd=copy)
        r0 = run(["bash", d + "/demo.sh"], cwd=copy, env=e)
        # build + tests need /repo paths: run the scripts with /repo substituted
        run(["git", "apply", d + "/patch.diff"], cwd=copy)
        ok = []
        for sc in ("build.sh", "test.sh"):
            t = open("/opt/vp/" + sc).read().replace("/repo", copy).replace("/opt/vp/scope", work + "/scope")
            shutil.copytree("/opt/vp/scope", work + "/scope", dirs_exist_ok=True)
            for q in os.listdir(work + "/scope"):
                qq = work + "/scope/" + q
                if q.endswith(".py"):
                    open(qq, "w").write(open("/opt/vp/scope/" + q).read().replace("/repo", copy))
            open(work + "/" + sc, "w").write(t)
            r = run(["bash", work + "/" + sc, work + "/out.json"])
            ok.append(r.returncode == 0 if sc == "build.sh" else None)
        base = json.load(open("/opt/vp/BASELINE.json")); got = json.load(open(work + "/out.json"))
        want_pass = set(base.get("stable") or base.get("passed") or base.get("pass") or [])
        have = set(got.get("passed") or got.get("pass") or [])
        t_ok = want_pass <= have and bool(want_pass)
        good = r0.returncode == 0 and r1.returncode != 0 and all(x is not False for x in ok) and t_ok
        print(s["id"], s["property"], "OK" if good else "BAD clean=%d patched=%d build=%s tests=%s\n%s\n%s" % (r0.returncode, r1.returncode, ok, t_ok, r0.stderr[-800:], r1.stderr[-800:]), flush=True)
        bad += not good
    shutil.rmtree(work, ignore_errors=True)
    sys.exit(1 if bad else 0)
main()
