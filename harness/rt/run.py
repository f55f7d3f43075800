"""usage: run.py PXX --tier quick|thorough --seed N [--only IDX] [--start A --step B --budget SEC --max N]
Runs runtime-contract cases on the REAL code and prints a JSON summary (last line)."""
import argparse, importlib, json, os, sys, time, traceback, signal, warnings, io, contextlib, logging
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.dirname(HERE))
warnings.filterwarnings("ignore")
os.environ.setdefault("OMP_NUM_THREADS", "1"); os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
import realirs
from core import Case, Violation, Skip

class Hang(BaseException):
    pass

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default="quick"); ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--only", type=int); ap.add_argument("--start", type=int, default=0); ap.add_argument("--step", type=int, default=1)
    ap.add_argument("--budget", type=float, default=30); ap.add_argument("--max", type=int, default=10**9)
    ap.add_argument("--progress")
    a = ap.parse_args()
    out = dict(cases=0, evals=0, violations=[], per_case={}, build_error=None)
    real_stdout = os.dup(1)
    def finish():
        os.write(real_stdout, (json.dumps(out, default=str) + "\n").encode())
        os._exit(0)
    def on_alarm(*_):
        raise Hang()
    signal.signal(signal.SIGALRM, on_alarm)
    realirs.install()
    try:
        realirs.build_all()
    except realirs.BuildError as e:
        out["build_error"] = str(e); finish()
    logging.disable(logging.CRITICAL)
    try:
        mod = importlib.import_module(a.prop.lower())
    except Exception as e:
        out["import_error"] = traceback.format_exc()[-3000:]; finish()
    cases = mod.CASES
    limit = a.max if a.max < 10**9 else getattr(mod, "MAXN", {}).get(a.tier, 10**9)
    t0 = time.time()
    idx = a.start if a.only is None else a.only
    while True:
        if a.only is None and (idx >= limit or time.time() - t0 > a.budget):
            break
        if a.progress:
            with open(a.progress, "w") as f:
                f.write(str(idx))
        f = cases[idx % len(cases)]
        c = Case(a.prop, a.seed, idx // len(cases) * len(cases) + idx % len(cases), a.tier)
        c.round = idx // len(cases)
        v = None
        buf = io.StringIO()
        signal.alarm(120)
        try:
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
                f(c)
        except Violation as e:
            v = str(e)
        except Skip:
            pass
        except Hang:
            v = "did not finish within 120 s"
        except Exception as e:
            v = "unexpected %s on a valid input: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])
        except BaseException as e:
            v = "unexpected %s escaped: %s" % (type(e).__name__, e)
        finally:
            signal.alarm(0)
        out["cases"] += 1; out["evals"] += c.evals
        out["per_case"][f.__name__] = out["per_case"].get(f.__name__, 0) + 1
        if v is not None:
            out["violations"].append(dict(case=f.__name__, index=idx, seed=a.seed, tier=a.tier, message=v, input=c.notes,
                replay="/opt/venv/bin/python /verif/harness/rt/run.py %s --tier %s --seed %d --only %d" % (a.prop, a.tier, a.seed, idx)))
            break
        if a.only is not None:
            break
        idx += a.step
    finish()

main()
