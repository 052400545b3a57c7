"""development aid: run the proofs of one contract and print everything: tools/prove.py C15 [index]"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.setrecursionlimit(20000)
from vc import driver
pid = sys.argv[1]
if len(sys.argv) > 2:
    m, ps = driver.load_contract(pid)
    reps = [driver.run_proof(pid, int(i), "quick") for i in sys.argv[2:]]
else:
    m, reps = driver.run_all(pid, "quick")
for i, r in enumerate(reps):
    print(f"[{i}] {r['proof']}: {r['status']} {r['discharged']}/{r['obligations']} paths={r['paths']} {r['wall_s']}s", (r["reason"] or "")[-900:], ("unbound: " + " ".join(r["unbound"])) if r["unbound"] else "")
    for f in r["failed"][:8]:
        print("    ", f["status"], f["kind"], f["name"], str(f["model"])[:400], "" if len(sys.argv) < 3 else str(f["detail"])[:600])
