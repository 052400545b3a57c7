"""Runs the proofs of one contract file and returns a JSON-able report."""
import importlib.util
import os
import re
import sys
import time
import traceback
import multiprocessing as mp
from multiprocessing.connection import wait
from . import core, interp, lib, api


def load_contract(pid):
    path = os.path.join(os.path.dirname(__file__), "..", "contracts", pid + ".py")
    api.PROOFS.clear()
    spec = importlib.util.spec_from_file_location("contract_" + pid, path)
    m = importlib.util.module_from_spec(spec)
    sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
    spec.loader.exec_module(m)
    # proofs of another property's contract file imported for its helpers are not this one's
    return m, [p for p in api.PROOFS if not re.match(r"contracts\.C\d", p.fn.__module__)]


def run_proof(pid, idx, tier):
    m, proofs = load_contract(pid)
    p = proofs[idx]
    world = interp.World()
    lib.install(world)
    if hasattr(m, "setup"):
        m.setup(world)
    if p.setup:
        p.setup(world)
    ov = lib.default_overrides()
    if callable(p.overrides):
        ov.update(p.overrides())
    elif p.overrides:
        ov.update(p.overrides)
    for q in ov:
        if q.startswith("deepgnn.") and not world.defined(q):
            world.asked.setdefault(q, False)
    quick = tier == "quick"
    r = core.Runner(p.name, budget_s=p.opts.get("budget", 150 if quick else 600), qtimeout=p.opts.get("qtimeout", 10000 if quick else 60000))
    r.feas_ms = p.opts.get("feas_ms", 400)
    core.STATS.__init__()
    t0 = time.time()
    status, reason = "ok", None

    def body(ctx):
        it = interp.Interp(ctx, world, p.loops(ctx) if callable(p.loops) else p.loops, ov)
        try:
            p.fn(ctx, it)
        except core.PyExc as e:
            # exception escaping the contract's own handling: not allowed
            ctx.oblige(f"no unexpected {e.name()}{tuple(str(x)[:60] for x in e.eargs)} (line {it.curline})", False)
    try:
        r.run(body)
    except core.Unsupported as e:
        status, reason = "unsupported", str(e)
    except core.PyExc as e:
        status, reason = "unsupported", "python exception in specification: " + e.name() + str(e.eargs)[:200]
    except Exception as e:  # engine failure: never a verdict
        status, reason = "engine-error", traceback.format_exc()[-1500:]
    obls = r.obls
    rep = {
        "proof": p.name, "status": status, "reason": reason, "paths": r.paths, "ended": r.ended,
        "nonvacuous": r.nonvacuous, "wall_s": round(time.time() - t0, 3), "solver_s": round(core.STATS.solver_s, 3),
        "queries": core.STATS.queries, "backends": dict(core.STATS.by_backend),
        "obligations": len(obls), "discharged": sum(o.status == "discharged" for o in obls),
        "failed": [{"name": o.name, "status": o.status, "kind": o.kind, "backend": o.backend, "detail": o.detail, "model": o.model}
                   for o in obls if o.status != "discharged"][:40],
        "names": sorted({o.name for o in obls}),
        "unbound": sorted(n for n, b in world.asked.items() if not b),
        "functions": sorted(world.functions), "assumed": sorted(world.used),
    }
    if status == "ok":
        if not obls:
            rep["status"], rep["reason"] = "unsupported", "no obligations generated"
        elif not any(f["status"] == "refuted" for f in rep["failed"]) and r.nonvacuous == 0 and not p.opts.get("no_normal_end"):
            rep["status"], rep["reason"] = "unsupported", "precondition or path conditions are vacuous"
    return rep


def _no_report(a, status, reason):
    return {"proof": str(a), "status": status, "reason": reason, "obligations": 0, "discharged": 0,
            "failed": [], "functions": [], "assumed": [], "paths": 0, "ended": 0, "nonvacuous": 0, "wall_s": 0, "solver_s": 0, "queries": 0,
            "backends": {}, "names": [], "unbound": []}


def _job(a, out):
    try:
        rep = run_proof(*a)
    except BaseException:
        rep = _no_report(a, "engine-error", traceback.format_exc()[-1500:])
    out.send(rep)
    out.close()


def run_all(pid, tier, jobs=6, deadline=None):
    """every proof in a process of its own; one that does not return (a solver can ignore its time limit) is started once more, then given up"""
    m, proofs = load_contract(pid)
    fork = mp.get_context("fork")
    one, total = (240, 480) if tier == "quick" else (480, 600)
    end = time.time() + (deadline or total)
    todo = [((pid, i, tier), 0) for i in range(len(proofs))]
    reports, running = {}, {}
    while todo or running:
        while todo and len(running) < jobs:
            a, tries = todo.pop(0)
            r, w = fork.Pipe(False)
            p = fork.Process(target=_job, args=(a, w), daemon=True)
            p.start()
            w.close()
            running[r] = (p, a, tries, min(time.time() + one, max(end, time.time() + 5)))
        for r in wait(list(running), timeout=1):
            p, a, tries, _ = running.pop(r)
            try:
                reports[a] = r.recv()
            except EOFError:
                reports[a] = _no_report(a, "engine-error", "verifier process ended without a report")
            r.close()
            p.join()
        for r in [r for r, x in running.items() if time.time() > x[3]]:
            p, a, tries, _ = running.pop(r)
            p.kill()
            p.join()
            r.close()
            if tries == 0 and time.time() + 30 < end:
                todo.append((a, 1))
            else:
                reports[a] = _no_report(a, "unsupported", "verifier did not return in time")
    for a, x in reports.items():
        if x["proof"] == str(a):
            x["proof"] = proofs[a[1]].name
    return m, [reports[(pid, i, tier)] for i in range(len(proofs))]
