"""Executable contracts on the real code.  Prints one JSON line.

Module concrete/<id>.py provides:
  cases(rng, tier)      -> iterator of JSON-able cases (finite part first, then random)
  check(case)           -> None, or a message when the property is violated
  from_model(proof, obligation, model) -> iterable of cases (optional)
  trivial(case)         -> True for cases that exercise nothing (optional)
  RULE                  -> text
"""
import argparse
import importlib.util
import json
import os
import random
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "concrete"))
from _broken import Broken


def from_repo(e, m):
    """did the code under test itself raise (and not because of a harness stand-in)?"""
    tb, repo, harness_after = e.__traceback__, False, False
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(os.environ.get("VERIF_REPO", "/repo") + "/"):
            repo, harness_after = True, False
        elif f.startswith(ROOT):
            harness_after = True
        tb = tb.tb_next
    if not repo or harness_after:
        return False
    obj = getattr(e, "obj", None)
    if isinstance(e, AttributeError) and (type(obj).__module__ == m.__name__ or obj is None):
        return False
    if isinstance(e, (TypeError, AttributeError, ImportError, NameError)):
        names = [n for n, v in vars(m).items() if callable(v) and getattr(v, "__module__", None) == m.__name__]
        if any(n in str(e) for n in names) or "lambda" in str(e) or "<locals>" in str(e):
            return False
    if isinstance(e, ImportError):
        return False
    return True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--budget", type=float, default=20)
    ap.add_argument("--models")
    ap.add_argument("--replay")
    a = ap.parse_args()
    out = sys.stdout
    sys.stdout = sys.stderr
    import logging
    logging.disable(logging.CRITICAL)
    spec = importlib.util.spec_from_file_location("conc_" + a.pid, os.path.join(ROOT, "concrete", a.pid + ".py"))
    m = importlib.util.module_from_spec(spec)
    res = {"status": "ok", "evaluations": 0, "distinct": 0, "rule": "", "samples": [], "known": []}
    t0 = time.time()
    try:
        spec.loader.exec_module(m)
        if a.replay:
            case = json.load(open(a.replay))["case"]
            try:
                msg = m.check(case)
            except Broken as e:
                msg = str(e)
            except Exception as e:
                if not from_repo(e, m):
                    raise
                msg = "valid input raised " + repr(e)
            print(msg or "property holds on this case", file=out)
            sys.exit(1 if msg else 0)
        known = []
        kp = os.path.join(ROOT, "known_findings.json")
        if os.path.exists(kp):
            known = [k for k in json.load(open(kp))["known"] if k["property"] == a.pid]
        res["rule"] = m.RULE
        rng = random.Random(a.seed * 7919 + 13)
        seen = set()
        fails = []

        def gen():
            if a.models and os.path.exists(a.models) and hasattr(m, "from_model"):
                for e in json.load(open(a.models)):
                    try:
                        for c in m.from_model(e["proof"], e["obligation"], e["model"]) or []:
                            yield c
                    except Exception:
                        continue
            yield from m.cases(rng, a.tier)

        for case in gen():
            key = json.dumps(case, sort_keys=True, default=str)
            if key in seen:
                continue
            seen.add(key)
            res["evaluations"] += 1
            if not (hasattr(m, "trivial") and m.trivial(case)):
                res["distinct"] += 1
            if len(res["samples"]) < 3 and len(key) < 2000:
                res["samples"].append(case)
            try:
                msg = m.check(case)
            except Broken as e:
                msg = str(e)
            except Exception as e:
                if not from_repo(e, m):
                    raise
                msg = "valid input raised " + "".join(traceback.format_exception_only(type(e), e)).strip() + " | " + traceback.format_exc()[-900:]
            if msg:
                kf = next((k for k in known if hasattr(m, "is_known") and m.is_known(k["key"], case, msg)), None)
                if kf is not None:
                    if kf["text"] not in res["known"]:
                        res["known"].append(kf["text"])
                    continue
                rp = os.path.join(ROOT, "evidence", f"{a.pid}.replay.json")
                json.dump({"property": a.pid, "case": case, "message": msg,
                           "how": f"PYTHONPATH=/repo/src/python /opt/venv/bin/python concrete/main.py {a.pid} --replay {rp}"}, open(rp, "w"), indent=1)
                res.update(status="violation", replay=rp, message=msg)
                break
            if time.time() - t0 > a.budget:
                break
        if res["evaluations"] == 0:
            res.update(status="error", reason="no cases")
    except SystemExit:
        raise
    except BaseException:
        res.update(status="error", reason=traceback.format_exc()[-2500:])
    if hasattr(m, "cleanup"):
        m.cleanup()
    print(json.dumps(res), file=out)
    out.flush()
    os._exit(0)


main()
