#!/usr/bin/env python3
"""check.py PXX [--tier quick|thorough] [--seed N]

Decides one property on /repo's current working tree (or $VERIF_REPO):
 1. deductive part  - pyvc/cvc generate verification conditions from the real source and z3/cvc5 discharge them
                      (contracts/pXX.py; see DESIGN.md);
 2. runtime part    - the same contracts evaluated on the real, compiled code over generated inputs
                      (harness/rt/pXX.py): replays counterexamples and stands in (bounded) for functions
                      the verifier cannot reach.
exit 0: held; exit 1: VIOLATION line printed; exit 2: undecided / machinery failure.
"""
import argparse, json, os, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"
RUN = os.path.join(HERE, "harness", "rt", "run.py")
EVID = os.path.join(HERE, "evidence")
BUDGET = {"quick": 25, "thorough": 420}
PROOF_BUDGET = {"quick": 240, "thorough": 700}


def env():
    e = dict(os.environ)
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        e[k] = "1"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONHASHSEED"] = "0"
    e.pop("IRSPACK_NUM_THREADS_DEFAULT", None)
    return e


def last_json(path):
    try:
        for line in reversed(open(path, errors="replace").read().splitlines()):
            line = line.strip()
            if line.startswith("{"):
                return json.loads(line)
    except (OSError, ValueError):
        pass
    return None


class Runtime:
    """parallel workers evaluating runtime contracts on the real code"""

    def __init__(self, prop, tier, seed, workers):
        self.prop, self.tier, self.seed, self.n = prop, tier, seed, workers
        self.tmp = tempfile.mkdtemp(prefix="verif_rt_")
        self.procs = []

    def build(self):
        r = subprocess.run([PY, os.path.join(HERE, "harness", "realirs.py")], capture_output=True, text=True, env=env(), timeout=600)
        if r.returncode:
            return (r.stdout + r.stderr)[-4000:]
        return None

    def start(self):
        for w in range(self.n):
            o = os.path.join(self.tmp, "o%d" % w)
            pg = os.path.join(self.tmp, "p%d" % w)
            cmd = [PY, RUN, self.prop, "--tier", self.tier, "--seed", str(self.seed), "--start", str(w), "--step", str(self.n), "--budget", str(BUDGET[self.tier]), "--progress", pg]
            self.procs.append((subprocess.Popen(cmd, stdout=open(o, "w"), stderr=open(o + ".err", "w"), env=env(), start_new_session=True, cwd=self.tmp), o, pg))

    def only(self, idx, timeout=200):
        o = os.path.join(self.tmp, "only")
        p = subprocess.Popen([PY, RUN, self.prop, "--tier", self.tier, "--seed", str(self.seed), "--only", str(idx)], stdout=open(o, "w"), stderr=open(o + ".err", "w"), env=env(), start_new_session=True, cwd=self.tmp)
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            self.kill(p)
            return dict(hang=True)
        j = last_json(o)
        return j if j is not None else dict(crash=p.returncode, stderr=open(o + ".err", errors="replace").read()[-2000:])

    @staticmethod
    def kill(p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()

    def finish(self):
        res = dict(cases=0, evals=0, per_case={}, violations=[], notes=[], build_error=None, import_error=None)
        deadline = time.time() + BUDGET[self.tier] + 200
        suspects = []
        for p, o, pg in self.procs:
            try:
                p.wait(max(1, deadline - time.time()))
                hung = False
            except subprocess.TimeoutExpired:
                self.kill(p)
                hung = True
            j = last_json(o)
            if j is None:
                try:
                    idx = int(open(pg).read())
                except (OSError, ValueError):
                    idx = None
                suspects.append((idx, "hang" if hung else "crash %s" % p.returncode, open(o + ".err", errors="replace").read()[-2000:]))
                continue
            res["cases"] += j["cases"]; res["evals"] += j["evals"]
            for k, v in j["per_case"].items():
                res["per_case"][k] = res["per_case"].get(k, 0) + v
            res["violations"] += j["violations"]
            for k in ("build_error", "import_error"):
                if j.get(k):
                    res[k] = j[k]
        for idx, what, err in suspects:
            if res["violations"] or idx is None:
                res["notes"].append("worker ended abnormally (%s) at case %s: %s" % (what, idx, err[-500:]))
                continue
            r = self.only(idx)
            if r.get("hang") or "crash" in r:
                kind = "does not terminate" if r.get("hang") else "process crashes with status %s" % r["crash"]
                res["violations"].append(dict(case="case", index=idx, seed=self.seed, tier=self.tier, message="the real code %s on this input" % kind, input={"stderr": r.get("stderr", "")},
                    replay="%s %s %s --tier %s --seed %d --only %d" % (PY, RUN, self.prop, self.tier, self.seed, idx)))
            elif r.get("violations"):
                res["violations"] += r["violations"]
            else:
                res["notes"].append("worker ended abnormally (%s) at case %s, not reproduced: %s" % (what, idx, err[-500:]))
        shutil.rmtree(self.tmp, ignore_errors=True)
        return res


def run_proof(prop, tier, seed):
    if not os.path.exists(os.path.join(HERE, "contracts", prop.lower() + ".py")):
        return None
    cmd = ["python3-vt", "-m", "pyvc.run", prop, "--tier", tier]
    o = tempfile.mkdtemp(prefix="verif_pf_")
    e = env(); e["PYTHONPATH"] = HERE
    try:
        p = subprocess.Popen(cmd, cwd=HERE, env=e, stdout=open(o + "/out", "w"), stderr=open(o + "/err", "w"), start_new_session=True)
        try:
            p.wait(PROOF_BUDGET[tier])
        except subprocess.TimeoutExpired:
            Runtime.kill(p)
            return dict(error="verifier did not finish within %d s" % PROOF_BUDGET[tier], obligations=[], functions=[], assumptions=[], unsupported=[])
        j = last_json(o + "/out")
        if j is None:
            return dict(error="verifier failed: " + open(o + "/err", errors="replace").read()[-3000:], obligations=[], functions=[], assumptions=[], unsupported=[])
        return j
    finally:
        shutil.rmtree(o, ignore_errors=True)


def known(prop):
    out = []
    try:
        for line in open(os.path.join(HERE, "known_findings.txt")):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                out.append(line.split(" ", 2)[2])
    except OSError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--workers", type=int, default=0)
    a = ap.parse_args()
    t0 = time.time()
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    ncpu = os.cpu_count() or 4
    workers = a.workers or max(2, ncpu - 2)
    rt = Runtime(a.prop, a.tier, a.seed, workers)
    berr = rt.build()
    has_rt = os.path.exists(os.path.join(HERE, "harness", "rt", a.prop.lower() + ".py"))
    if berr is None and has_rt:
        rt.start()
    proof = run_proof(a.prop, a.tier, a.seed)
    res = rt.finish()
    if berr:
        res["build_error"] = berr

    obs = proof["obligations"] if proof else []
    n = {s: sum(1 for o in obs if o["status"] == s) for s in ("proved", "refuted", "unknown")}
    refuted = [o for o in obs if o["status"] == "refuted"]
    fully = bool(proof) and not proof.get("error") and obs and n["proved"] == len(obs) and not proof.get("unsupported")
    bounded = sorted(set((proof or {}).get("bounded", [])) | {u["function"] for u in (proof or {}).get("unsupported", [])} | {o["function"] for o in obs if o["status"] != "proved"})

    # --- verdict
    viol = None
    kf = known(a.prop)
    for v in res["violations"]:
        hit = next((k for k in kf if k.split(" ")[0] and k.split(" ")[0] in v["message"]), None)
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (a.prop, hit))
        elif viol is None:
            viol = ("runtime", v)
    if viol is None and refuted:
        viol = ("proof", refuted)
    code = 0
    if viol:
        path = os.path.join(EVID, "replays", "%s.json" % a.prop)
        if viol[0] == "runtime":
            body = dict(property=a.prop, kind="contract violated by the real code on this input", **viol[1], failed_obligations=refuted, undecided=[o for o in obs if o["status"] == "unknown"])
            tail = ""
        else:
            body = dict(property=a.prop, kind="obligation refuted by the verifier", failed_obligations=refuted, runtime_cases_without_failure=res["cases"])
            tail = " no-failing-input-found"
        with open(path, "w") as f:
            json.dump(body, f, indent=1, default=str)
        print(json.dumps(body, indent=1, default=str)[:3000])
        print("VIOLATION property=%s replay=%s%s" % (a.prop, path, tail))
        code = 1
    elif res["import_error"] or res["build_error"] or (has_rt and res["cases"] == 0):
        if fully and not bounded:
            pass
        else:
            code = 2
            print("UNDECIDED: %s" % (res["build_error"] or res["import_error"] or res["notes"]))
    elif not has_rt and not fully:
        code = 2
        print("UNDECIDED: %s" % (proof or {}).get("error"))

    level = "proof" if obs and n["proved"] else "other"
    cov = dict(
        obligations=len(obs), discharged=n["proved"], refuted=n["refuted"], undecided=n["unknown"],
        checker_cmd="python3-vt -m pyvc.run %s --tier %s" % (a.prop, a.tier),
        functions_under_contract=(proof or {}).get("functions", []),
        back_ends=(proof or {}).get("back_ends", {}), solver_time_s=(proof or {}).get("solver_time", 0.0),
        vacuity_checks=(proof or {}).get("vacuity", 0),
        obligation_list=[dict(name=o["name"], function=o["function"], status=o["status"], solver=o.get("solver"), time=o.get("time")) for o in obs][:400],
        bounded_functions=bounded, unsupported=(proof or {}).get("unsupported", []), proof_error=(proof or {}).get("error"),
        trusted_base=(proof or {}).get("trusted", []) or ["runtime-contract harness only"],
        bounded_standin=dict(label="bounded (sampled inputs on the real compiled code), not counted as proved", evaluations=res["evals"], cases=res["cases"], per_case=res["per_case"], budget_s=BUDGET[a.tier], workers=workers, notes=res["notes"]),
        explanation="obligations generated from the current source of the listed functions and discharged by SMT; the same contracts evaluated on the real compiled code for generated inputs as replay and as a bounded stand-in for what the verifier does not reach",
    )
    ev = dict(property=a.prop, tier=a.tier, seed=a.seed, level=level, coverage=cov, assumptions=(proof or {}).get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    with open(os.path.join(EVID, a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d/%d obligations discharged, %d undecided, %d refuted; %d runtime cases (%d contract evaluations); %.1f s; exit %d" % (
        a.prop, a.tier, n["proved"], len(obs), n["unknown"], n["refuted"], res["cases"], res["evals"], time.time() - t0, code))
    sys.exit(code)


main()
