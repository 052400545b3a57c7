#!/usr/bin/env python3
"""Development aid: plant a bug described on stdin (python code setting SEEDS to a list of dicts), confirm it and run its property's check.
Not used by any check."""
import json, os, subprocess, sys, xml
ROOT = "/verif/seeded"
GE = "src/python/deepgnn/graph_engine/"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main():
    runcheck = "--nocheck" not in sys.argv
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    ns = {}
    exec(sys.stdin.read(), ns)
    for d in ns["SEEDS"]:
        assert sh("git -C /repo status --porcelain").stdout == "", "dirty repo"
        f = "/repo/" + (d["file"] if d["file"].startswith("src") else GE + d["file"])
        s = open(f).read()
        edits = d.get("edits") or [(d["old"], d["new"])]
        for o, n in edits:
            if s.count(o) != d.get("count", 1):
                print(d["id"], "PATTERN COUNT", s.count(o), repr(o)); break
            s = s.replace(o, n)
        else:
            open(f, "w").write(s)
            diff = sh("git -C /repo diff").stdout
            sh("git -C /repo checkout -- .")
            p = f"{ROOT}/{d['id']}"
            os.makedirs(p, exist_ok=True)
            open(p + "/patch.diff", "w").write(diff)
            demo = d["demo"].strip("\n") + "\n"
            open(p + "/demo.py", "w").write(demo)
            open(p + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/src/python\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            os.chmod(p + "/demo.sh", 0o755)
            json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["what"]}, open(p + "/meta.json", "w"), indent=1)
            test(d["id"], stable, runcheck)


def test(i, stable, runcheck=True):
    p = f"{ROOT}/{i}"
    prop = json.load(open(p + "/meta.json"))["property"]
    clean = sh(f"bash {p}/demo.sh", cwd="/repo")
    r = sh(f"git -C /repo apply {p}/patch.diff")
    if r.returncode:
        print(i, "patch does not apply", r.stderr); return
    try:
        b = sh("bash /opt/vp/build.sh")
        t = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
        try:
            res = json.load(open("/tmp/seedtest.json"))
            bad = sorted(stable - set(res['passed']))
        except Exception as e:
            bad = [repr(e)]
        m = sh(f"bash {p}/demo.sh", cwd="/repo")
        c = sh(f"python3-vt run.py {prop}", cwd="/verif") if runcheck else None
    finally:
        sh("git -C /repo checkout -- .")
    v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")] if c else []
    print(f"{i} [{prop}] build={b.returncode} tests={'ok' if not bad else bad[:3]} ({t.stdout.strip().splitlines()[-1][:40]}) demo clean={clean.returncode} patched={m.returncode} "
          f"check={c.returncode if c else '-'} {v}")
    if clean.returncode:
        print("   CLEAN DEMO:", (clean.stdout + clean.stderr)[-600:])
    if m.returncode == 0:
        print("   PATCHED DEMO PASSES")
    if c and c.returncode != 1:
        print(c.stdout[-1500:])
    elif c:
        print("   ", next((l for l in c.stdout.splitlines() if "concrete:" in l), "")[:220])
        print("   failed obligations:", [l.strip()[:100] for l in c.stdout.splitlines() if l.strip().startswith(("refuted", "unknown"))][:3], [l.strip()[-150:] for l in c.stdout.splitlines() if ": unsupported" in l or "engine-error" in l][:2])


if __name__ == "__main__":
    if len(sys.argv) > 1 and not sys.argv[1].startswith("-"):
        for i in sys.argv[1:]:
            test(i, set(json.load(open("/opt/vp/BASELINE.json"))["stable"]))
    else:
        main()
