"""Check of one property: python3-vt run.py C01
Exit 0 held, 1 violated (VIOLATION line), 2 undecided/error."""
import hashlib
import json
import os
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)


def load_known(pid):
    out = []
    p = os.path.join(ROOT, "known_findings.json")
    if os.path.exists(p):
        out = [k for k in json.load(open(p))["known"] if k["property"] == pid]
    return out


def concrete(pid, seed, tier, models, budget):
    d = os.path.join(ROOT, "evidence")
    mf = os.path.join(d, f"{pid}.models.json")
    json.dump(models, open(mf, "w"))
    env = dict(os.environ, PYTHONPATH=os.environ.get("VERIF_REPO", "/repo") + "/src/python", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1")
    cmd = ["/opt/venv/bin/python", os.path.join(ROOT, "concrete", "main.py"), pid, "--seed", str(seed), "--tier", tier,
           "--budget", str(budget), "--models", mf]
    try:
        r = subprocess.run(cmd, env=env, capture_output=True, text=True, timeout=budget * 3 + 240, cwd=ROOT)
    except subprocess.TimeoutExpired:
        return {"status": "error", "reason": "timeout"}
    try:
        return json.loads(r.stdout.strip().splitlines()[-1])
    except Exception:
        return {"status": "error", "reason": (r.stdout[-800:] + r.stderr[-1500:])}


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "0") or "0")
    t0 = time.time()
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev_path = os.path.join(ROOT, "evidence", pid + ".json")
    from vc import driver
    m, reports = driver.run_all(pid, tier)
    models = []
    for r in reports:
        for f in r["failed"]:
            if f.get("model"):
                models.append({"proof": r["proof"], "obligation": f["name"], "model": f["model"]})
    undecided = [r for r in reports if r["status"] != "ok" or any(f["status"] == "unknown" for f in r["failed"])]
    post_refuted, loop_refuted = [], []
    for r in reports:
        if r["status"] == "engine-error":
            continue
        loopbad = [f for f in r["failed"] if f["kind"] == "loop"]
        for f in r["failed"]:
            if f["status"] == "refuted":
                (loop_refuted if f["kind"] == "loop" else post_refuted).append((r["proof"], f, bool(loopbad) or r["status"] != "ok" or bool(r["unbound"])))
    allproved = bool(reports) and all(r["status"] == "ok" and not r["failed"] for r in reports)
    budget = {"quick": 8, "thorough": 90}[tier]
    if not allproved:
        budget = {"quick": 45, "thorough": 200}[tier]
    conc = concrete(pid, seed, tier, models, budget)
    known_hits = conc.get("known", [])
    viol = None
    if conc.get("status") == "violation":
        viol = (conc["replay"], "")
    elif conc.get("status") == "error" and not allproved:
        viol = None
    if viol is None and post_refuted:
        solid = [x for x in post_refuted if not x[2]]
        if solid:
            rp = os.path.join(ROOT, "evidence", f"{pid}.obligation.json")
            json.dump({"property": pid, "kind": "failed obligation", "failed": [{"proof": p, **f} for p, f, _ in solid],
                       "note": "verifier output; no failing concrete input was found for it"}, open(rp, "w"), indent=1, default=str)
            viol = (rp, " no-failing-input-found")
    n_ob = sum(r["obligations"] for r in reports)
    n_dis = sum(r["discharged"] for r in reports)
    backends = {}
    for r in reports:
        for k, v in r["backends"].items():
            backends[k] = backends.get(k, 0) + v
    functions = sorted({f for r in reports for f in r["functions"]})
    assumed = sorted({a for r in reports for a in r["assumed"]})
    level = m.LEVEL
    if level == "proof" and not allproved:
        level = "exploration"
    cov = {
        "obligations": n_ob, "discharged": n_dis, "checker_cmd": f"python3-vt run.py {pid}",
        "trusted_base": ["vc/ (verification condition generator)", "z3", "cvc5", "CPython ast", "models of external functions listed in assumed_contracts"],
        "functions_under_contract": functions, "backends": backends,
        "solver_s": round(sum(r["solver_s"] for r in reports), 3), "solver_queries": sum(r["queries"] for r in reports),
        "paths": sum(r["paths"] for r in reports),
        "assumed_contracts": assumed,
        "proofs": [{k: r[k] for k in ("proof", "status", "reason", "obligations", "discharged", "paths", "nonvacuous", "wall_s")} for r in reports],
        "failed_obligations": [{"proof": r["proof"], **{k: f[k] for k in ("name", "status", "kind")}} for r in reports for f in r["failed"]],
        "evaluations": conc.get("evaluations", 0), "distinct_nontrivial": conc.get("distinct", 0),
        "rule": conc.get("rule", ""), "samples": conc.get("samples", []),
        "concrete_status": conc.get("status"), "concrete_reason": conc.get("reason"),
        "bounded_parts": getattr(m, "BOUNDED", []),
        "fully_proved_on_this_run": allproved,
        "explanation": "obligations generated from /repo's current source and discharged; executable contracts run on the real code as cross-check and for replay",
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(time.time() - t0, 3),
          "assumptions": list(getattr(m, "ASSUMPTIONS", [])) + ["floats are treated as exact real numbers", "64-bit integers are treated as mathematical integers (no overflow); numpy arrays of narrower integers keep only values that fit"],
          "violations": 1 if viol else 0}
    json.dump(ev, open(ev_path, "w"), indent=1, default=str)
    for k in known_hits:
        print(f"KNOWN-FINDING: property={pid} {k}")
    for r in reports:
        print(f"  {r['proof']}: {r['status']} obligations={r['obligations']} discharged={r['discharged']} paths={r['paths']} "
              f"{r['wall_s']}s{' ' + str(r['reason'])[-500:] if r['reason'] else ''}")
        for f in r["failed"][:6]:
            print(f"    {f['status']}: {f['name']} [{f['kind']}] {('model ' + str(f['model'])[:300]) if f['model'] else ''} {f['detail'][:300] if f['detail'] and os.environ.get('VERIF_DEBUG') else ''}")
    print(f"  concrete: {conc.get('status')} evaluations={conc.get('evaluations')} distinct={conc.get('distinct')} {str(conc.get('reason') or conc.get('message') or '')[:1500]}")
    if viol:
        print(f"VIOLATION property={pid} replay={viol[0]}{viol[1]}")
        sys.exit(1)
    if allproved or m.LEVEL != "proof":
        if conc.get("status") == "error":
            print("  note: executable contracts could not run")
            if m.LEVEL != "proof" or not allproved:
                sys.exit(2)
        print(f"OK property={pid} level={level} obligations={n_ob} discharged={n_dis}")
        sys.exit(0)
    if conc.get("status") == "ok":
        print(f"OK property={pid} level=bounded (proof undecided on this tree): {conc.get('evaluations')} executions")
        sys.exit(0)
    print("UNDECIDED")
    sys.exit(2)


if __name__ == "__main__":
    main()
