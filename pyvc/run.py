"""python3-vt -m pyvc.run PXX [--tier quick|thorough] [-v]   - generate and discharge the obligations of one property"""
import argparse, importlib, json, os, sys, time, traceback
from . import core, rt, load
from .core import E, Engine, Unsupported, OutOfTime, Control


class Verifier:
    def __init__(self, tier, deadline):
        self.tier, self.deadline = tier, deadline
        self.engine = Engine(deadline=deadline, timeout_ms=10000 if tier == "quick" else 40000)
        E._set(self.engine)
        self.unsupported, self.bounded, self.vacuous = [], [], []
        self.log, self.units = [], {}

    def loader(self, models=None):
        from . import models as M
        m = M.default_models()
        m.update(models or {})
        return load.Loader(rt, m)

    def cpp(self, name, src, filt, **extern):
        """a translation unit of /repo/cpp_source as a module (see cpp.py)"""
        from . import cpp
        if (src, filt) not in self.units:
            self.units[src, filt] = cpp.Unit(src, filt)
        return self.units[src, filt].module(name, **extern)

    def explore(self, fn, spec, max_paths=4000):
        t0 = time.time()
        n0 = len(self.engine.order)
        i0 = sum(o['instances'] for o in self.engine.obls.values())
        try:
            n = self.engine.explore(spec, fn, max_paths)
            self.log.append("%s: %d paths, %d new obligations, %.1f s" % (fn, n, len(self.engine.order) - n0, time.time() - t0))
            if sum(o['instances'] for o in self.engine.obls.values()) == i0:
                self.unsupported.append(dict(function=fn, reason="no obligation generated (vacuous contract?)"))
        except Unsupported as e:
            self.unsupported.append(dict(function=fn, reason="outside the verifier's subset: %s" % e, where=where(e)))
        except OutOfTime:
            self.unsupported.append(dict(function=fn, reason="time budget exhausted"))
        except Control as e:
            self.unsupported.append(dict(function=fn, reason="engine control %s" % type(e).__name__))
        except Exception as e:
            self.unsupported.append(dict(function=fn, reason="contract not applicable: %s: %s" % (type(e).__name__, e), where=where(e)))


def where(e):
    if getattr(e, "remote", None):
        return e.remote
    tb = traceback.extract_tb(e.__traceback__)
    return [("%s:%d %s" % (f.filename, f.lineno, f.name)) for f in tb[-7:]]


def lean(name, what):
    import subprocess
    f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "proofs", name + ".lean")
    t0 = time.time()
    o = dict(name="lemma %s: %s" % (name, what), function="proofs/%s.lean" % name, status="unknown", instances=1, solver="lean", kind="lemma")
    try:
        p = subprocess.run(["lean", f], capture_output=True, text=True, timeout=200)
        if p.returncode == 0 and "error" not in p.stdout and "sorry" not in open(f).read() + p.stdout and "axiom" not in open(f).read():
            o["status"] = "proved"
        else:
            o["reason"] = (p.stdout + p.stderr)[-800:]
    except (OSError, subprocess.TimeoutExpired) as e:
        o["reason"] = str(e)
    o["time"] = round(time.time() - t0, 2)
    return o


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default="quick"); ap.add_argument("-v", action="store_true"); ap.add_argument("--budget", type=float, default=0)
    a = ap.parse_args()
    sys.setrecursionlimit(20000)
    t0 = time.time()
    V = Verifier(a.tier, t0 + (a.budget or (150 if a.tier == "quick" else 600)))
    err = None
    try:
        mod = importlib.import_module("contracts." + a.prop.lower())
        mod.run(V)
    except Unsupported as e:
        V.unsupported.append(dict(function=a.prop, reason="outside the verifier's subset: %s" % e, where=where(e)))
    except OutOfTime:
        V.unsupported.append(dict(function=a.prop, reason="time budget exhausted"))
    except Exception as e:
        V.unsupported.append(dict(function=a.prop, reason="%s: %s" % (type(e).__name__, e), where=where(e)))
    en = V.engine
    obls = [en.obls[n] for n in en.order]
    for l, what in sorted(en.lemmas.items()):
        obls.append(lean(l, what))
        if obls[-1]["status"] == "proved":
            en.back_ends["lean"] = en.back_ends.get("lean", 0) + 1
    unreached = [n for n, ok in en.reached.items() if not ok]
    for n in unreached:
        V.unsupported.append(dict(function=n, reason="vacuity guard: this case of the contract is unreachable"))
    out = dict(obligations=obls, functions=sorted(en.functions), assumptions=sorted(en.assumptions), trusted=sorted(en.trusted), unsupported=V.unsupported, bounded=V.bounded,
               back_ends=en.back_ends, solver_time=round(en.solver_time, 2), vacuity=len(en.reached), error=err, paths=en.paths, queries=en.queries, wall=round(time.time() - t0, 2),
               used_invariants=sorted("%s: %s" % k for k in en.used_candidates))
    if a.v:
        for l in V.log:
            print(l)
        for o in obls:
            print("%-9s %-60s x%d %.2fs %s" % (o["status"], o["name"], o["instances"], o["time"], o.get("reason", "") and (o["reason"] + " | goal " + str(o.get("goal")))))
            if o["status"] != "proved":
                print("   ", o.get("counterexample")); print("   ", o.get("path"))
        for u in V.unsupported:
            print("UNSUPPORTED", u["function"], u["reason"]); print("\n".join("      " + w for w in u.get("where", [])))
        print("paths", en.paths, "queries", en.queries, "solver", round(en.solver_time, 1), "wall", round(time.time() - t0, 1))
    else:
        print(json.dumps(out, default=str))


if __name__ == "__main__":
    main()
