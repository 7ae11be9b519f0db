"""check.py ID: decide one property. Proves every contract of the property against /repo's current source, and runs the same
specifications concretely against the real code."""
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
PY = "/opt/venv/bin/python"


def known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.isfile(p) else []


def oracle(pid, seed, tier, secs):
    if not os.path.isfile(os.path.join(HERE, "oracles", pid.lower() + ".py")):
        return None
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    return subprocess.Popen([PY, "-m", "oracles.base", pid, str(seed), tier, str(secs)], cwd=HERE, env=env,
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)


def collect(p, limit):
    if p is None:
        return {}
    try:
        out, err = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return {"error": "the concrete run did not finish in time"}
    for l in out.splitlines():
        if l.startswith("RESULT "):
            r = json.loads(l[7:])
            if "error" in r:
                r["stderr"] = err[-3000:]
            return r
    return {"error": "the concrete run gave no result", "stderr": err[-3000:]}


def one(pid, i, deadline, tier):
    """Prove one contract (in its own process)."""
    import resource
    from pyvc.contract import Runner
    n = min(8, len(importlib.import_module("contracts." + pid.lower()).contracts()))
    lim = (26 << 30) // n                   # a proof that needs more memory is given up
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    c = importlib.import_module("contracts." + pid.lower()).contracts()[i]
    R = Runner(extra=(HERE,))
    if tier == "thorough":
        R.prover.rlimit *= 4
    st = R.run(c, deadline)
    return {"name": c.name, "status": st, "obls": R.obls, "unsupported": R.unsupported, "functions": R.functions, "trusted": R.trusted,
            "paths": R.paths, "stats": dict(R.prover.stats)}


def run_all(pid, cs, deadline, tier, short):
    import multiprocessing as mp
    out = []
    with mp.get_context("fork").Pool(max(1, min(len(cs), 8)), maxtasksperchild=1) as pool:
        jobs = [(c, pool.apply_async(one, (pid, i, deadline, tier))) for i, c in enumerate(cs)]
        for c, j in jobs:
            try:
                while not j.ready() and time.time() < min(deadline + 90, short()):
                    j.wait(0.5)
                out.append(j.get(timeout=0.1))
            except Exception as e:
                out.append({"name": c.name, "status": "unsupported", "obls": [], "functions": set(), "trusted": set(), "paths": 0, "stats": {},
                            "unsupported": [(c.name, "%s %s" % (type(e).__name__, str(e)[:300]))]})
        pool.terminate()
    return out


class Merged:
    pass


def merged(rs):
    R = Merged()
    R.statuses = {r["name"]: r["status"] for r in rs}
    R.obls = [o for r in rs for o in r["obls"]]
    R.unsupported = [u for r in rs for u in r["unsupported"]]
    R.functions = set().union(*[r["functions"] for r in rs]) if rs else set()
    R.trusted = set().union(*[r["trusted"] for r in rs]) if rs else set()
    R.paths = sum(r["paths"] for r in rs)
    R.stats = {k: sum(r["stats"].get(k, 0) for r in rs) for k in ("z3_queries", "z3_s", "cvc5_queries", "cvc5_s", "lemmas")}
    return R


def main(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    man = [c for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"] if c["property"] == pid]
    level = man[0]["level"] if man else "proof"
    osecs = 8 if tier == "quick" else 240
    proc = oracle(pid, seed, tier, osecs)
    has_contracts = os.path.isfile(os.path.join(HERE, "contracts", pid.lower() + ".py"))
    kf = [k for k in known() if k["property"] == pid and k.get("status", "known") == "known"]
    sigs = {k["signature"]: k for k in kf}
    box = {}

    def wait():
        box["r"] = collect(proc, 420)
        box["t"] = time.time()
    import threading
    th = threading.Thread(target=wait)
    th.start()
    R = None
    failed, unsup, statuses = [], [], {}
    extra_trust, bounded_note = [], []
    if has_contracts:
        try:
            m = importlib.import_module("contracts." + pid.lower())
            cs = m.contracts()
            deadline = time.time() + (240 if tier == "quick" else 600)
            def short():
                # a failing input was found: the obligations only name the place
                r = box.get("r")
                bad = r and [f for f in r.get("failures", []) if f["signature"] not in sigs]
                return box["t"] + 40 if bad else deadline + 90
            R = merged(run_all(pid, cs, deadline, tier, short))
            statuses, failed, unsup = R.statuses, [o for o in R.obls if not o.ok], list(R.unsupported)
            extra_trust = list(getattr(m, "TRUST", []))
            bounded_note = list(getattr(m, "BOUNDED", []))
        except Exception as e:
            import traceback
            traceback.print_exc()
            unsup.append(("front end", "%s: %s" % (type(e).__name__, e)))
    th.join()
    res = box["r"]
    if "error" in res and proc is not None:
        print("note: concrete run: %s\n%s" % (res["error"], res.get("stderr", "")), file=sys.stderr)
    fails = [f for f in res.get("failures", []) if f["signature"] not in sigs]
    if (failed or unsup) and not fails and proc is not None and "error" not in res:
        # search longer for a failing input behind the failed obligation
        r2 = collect(oracle(pid, seed + 1000, "thorough", 45 if failed else 15), 200)
        fails = [f for f in r2.get("failures", []) if f["signature"] not in sigs]
        for k in ("evaluations", "distinct_nontrivial"):
            if k in r2:
                res[k] = res.get(k, 0) + r2[k]
    # contract names whose failure is a recorded finding
    kobl = {k.get("obligation") for k in kf}
    failed = [o for o in failed if (o.contract + "|" + o.what) not in kobl]
    viol = 0
    EVID = os.environ.get("VERIF_EVID", os.path.join(HERE, "evidence"))
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + "-"):
            os.remove(os.path.join(rdir, f))
    obl = [{"obligation": "%s: %s" % (o.contract, o.what), "path": o.path, "verifier": o.detail} for o in failed[:10]]
    if fails:
        viol = len(fails)
        p = os.path.join(rdir, pid + "-1.json")
        json.dump({"property": pid, "case": fails[0]["case"], "observed": fails[0]["observed"], "required": fails[0]["required"],
                   "failed_obligations": obl,
                   "replay_cmd": "cd /verif && %s -m oracles.base %s --replay %s" % (PY, pid, p)}, open(p, "w"), indent=1)
        print("failing input: %s" % json.dumps(fails[0]["case"])[:1500])
        print("observed: %s" % fails[0]["observed"][:1500])
        print("required: %s" % fails[0]["required"][:1500])
        for o in obl[:5]:
            print("failed obligation: " + o["obligation"])
        print("VIOLATION property=%s replay=%s" % (pid, p))
    elif failed:
        viol = len(failed)
        p = os.path.join(rdir, pid + "-1.json")
        json.dump({"property": pid, "failed_obligations": obl, "replay": "none found"}, open(p, "w"), indent=1)
        for o in obl[:5]:
            print("failed obligation: " + o["obligation"])
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, p))
    else:
        for k in kf:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    cov = {}
    if R is not None:
        cov.update({
            "obligations": len(R.obls), "discharged": sum(o.ok for o in R.obls),
            "obligations_syntactic": sum(o.trivial for o in R.obls),
            "checker_cmd": "python3-vt /verif/check.py %s" % pid,
            "paths": R.paths, "contracts": statuses, "functions_under_contract": sorted(R.functions),
            "undecided_contracts_bounded_only": ["%s: %s" % u for u in unsup] + bounded_note,
            "back_ends": {"z3 queries": R.stats["z3_queries"], "z3 seconds": round(R.stats["z3_s"], 2),
                          "cvc5 queries": R.stats["cvc5_queries"], "cvc5 seconds": round(R.stats["cvc5_s"], 2),
                          "loop lemmas": R.stats["lemmas"]},
            "trusted_base": ["pyvc (symbolic execution of Python ASTs and loop summaries, /verif/pyvc)", "z3", "cvc5"]
            + ["external function (uninterpreted): " + t for t in sorted(R.trusted)] + extra_trust})
    if res:
        cov.update({"evaluations": res.get("evaluations", 0), "distinct_nontrivial": res.get("distinct_nontrivial", 0),
                    "rule": res.get("rule", ""), "samples": res.get("samples", []) or ["none"]})
        if "error" in res:
            cov["concrete_run_error"] = res["error"]
    if not cov:
        cov["explanation"] = "nothing ran"
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "violations": viol,
          "assumptions": ["types of fields and arguments as declared in /verif/contracts/%s.py" % pid.lower(),
                          "machine integers are mathematical; strings are sequences of characters; string operations without an "
                          "SMT counterpart are uninterpreted functions of their arguments",
                          "iteration over a set is in some order that is a function of the set"]}
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    print("%s: %s obligations, %s discharged, %d undecided contracts, %s concrete cases, %.1fs" % (
        pid, cov.get("obligations", 0), cov.get("discharged", 0), len(unsup), cov.get("evaluations", 0), time.time() - t0))
    return 1 if viol else 0


if __name__ == "__main__":
    os.chdir(HERE)
    sys.exit(main(sys.argv[1]))
