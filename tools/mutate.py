#!/usr/bin/env python3
"""Development aid: systematic small changes to every function under contract, each run against the checks that cover it.
usage: mutate.py OUT.jsonl [-j N] [-p C04,C05] [-f regex on qualname] [--per-func N] [--seed S]
Works on copies below /tmp/mutate.  Not used by any check."""
import argparse, ast, json, multiprocessing as mp, os, random, re, shutil, subprocess, sys, time
BASE = os.environ.get("VERIF_REPO", "/repo")
EVID = os.environ.get("VERIF_EVIDENCE", "/verif/evidence")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "//", ast.FloorDiv: "*", ast.Div: "*", ast.Mod: "//", ast.LShift: ">>", ast.BitOr: "&"}


class Src:
    def __init__(self, text):
        self.text = text
        self.off = [0]
        for l in text.encode().splitlines(True):
            self.off.append(self.off[-1] + len(l))
        self.b = text.encode()

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def seg(self, n):
        a, e = self.span(n)
        return self.b[a:e].decode()


def skip(n):
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
        return True
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
        t = ast.unparse(n.value.func)
        return "logger" in t or "print" in t or "logging" in t
    return isinstance(n, ast.JoinedStr)


def mutants(src, fn):
    """(start, end, replacement, description)"""
    out = []

    def rep(n, new, d):
        a, e = src.span(n)
        out.append((a, e, new, f"line {n.lineno}: {d}"))

    def stmt(s):
        if skip(s) or isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Raise, ast.Pass, ast.Global)):
            return
        if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign)) and not isinstance(getattr(s, "value", None), (ast.Yield, ast.YieldFrom)):
            rep(s, "pass", "drop " + src.seg(s)[:60].replace("\n", " "))
        if isinstance(s, ast.Assert):
            rep(s, "pass", "drop " + src.seg(s)[:60].replace("\n", " "))
        if isinstance(s, ast.Break):
            rep(s, "continue", "break -> continue")
        if isinstance(s, ast.Continue):
            rep(s, "pass", "drop continue")
        if isinstance(s, (ast.If, ast.While)):
            rep(s.test, f"(not ({src.seg(s.test)}))", "negate " + src.seg(s.test)[:60])
        if isinstance(s, ast.If):
            rep(s.test, "True", "if True instead of " + src.seg(s.test)[:60])
            rep(s.test, "False", "if False instead of " + src.seg(s.test)[:60])

    def expr(e):
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and type(e.ops[0]) in CMP:
            new = CMP[type(e.ops[0])]
            rep(e, f"({src.seg(e.left)} {new} {src.seg(e.comparators[0])})", f"{src.seg(e)[:60]} -> {new}")
        if isinstance(e, ast.BinOp) and type(e.op) in BIN and not isinstance(e.left, (ast.Constant, ast.JoinedStr)) | (isinstance(e.left, ast.Constant) and isinstance(e.left.value, str)):
            new = BIN[type(e.op)]
            rep(e, f"({src.seg(e.left)} {new} {src.seg(e.right)})", f"{src.seg(e)[:60]} -> {new}")
        if isinstance(e, ast.BoolOp):
            o = " or " if isinstance(e.op, ast.And) else " and "
            rep(e, "(" + o.join(f"({src.seg(v)})" for v in e.values) + ")", f"{src.seg(e)[:60]} ->{o}")
            for i in range(len(e.values)):
                rest = [v for k, v in enumerate(e.values) if k != i]
                j = " and " if isinstance(e.op, ast.And) else " or "
                rep(e, "(" + j.join(f"({src.seg(v)})" for v in rest) + ")", f"drop {src.seg(e.values[i])[:50]} from condition")
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            rep(e, f"({src.seg(e.operand)})", f"drop not in {src.seg(e)[:60]}")
        if isinstance(e, ast.IfExp):
            rep(e, f"({src.seg(e.body)})", f"always first of {src.seg(e)[:60]}")
            rep(e, f"({src.seg(e.orelse)})", f"always second of {src.seg(e)[:60]}")
        if isinstance(e, ast.Constant):
            if isinstance(e.value, bool):
                rep(e, str(not e.value), f"{e.value} -> {not e.value}")
            elif isinstance(e.value, int):
                rep(e, str(e.value + 1), f"{e.value} -> {e.value + 1}")
                rep(e, f"({e.value - 1})", f"{e.value} -> {e.value - 1}")
        if isinstance(e, ast.Call):
            t = ast.unparse(e.func)
            if "logger" in t or "isinstance" in t:
                return
            a = e.args
            if not any(isinstance(x, ast.Starred) for x in a):
                for i in range(len(a) - 1):
                    s0, e0 = src.span(a[i])
                    s1, e1 = src.span(a[i + 1])
                    out.append((s0, e1, src.seg(a[i + 1]) + src.b[e0:s1].decode() + src.seg(a[i]), f"line {e.lineno}: swap arguments {i},{i + 1} of {t[:40]}"))
            for k in e.keywords:
                if k.arg:
                    s0, e0 = src.span(k)
                    tail = src.b[e0:]
                    m = re.match(rb"\s*,", tail)
                    if m:
                        out.append((s0, e0 + m.end(), "", f"line {e.lineno}: drop {src.seg(k)[:40]}"))
        if isinstance(e, ast.Slice):
            if e.lower is not None and e.upper is not None:
                rep(e.lower, "", f"drop lower bound {src.seg(e)[:40]}")
                rep(e.upper, "", f"drop upper bound {src.seg(e)[:40]}")
        if isinstance(e, ast.Attribute) and e.attr in ("NODE", "EDGE"):
            rep(e, src.seg(e)[:-4] + ("EDGE" if e.attr == "NODE" else "NODE"), "NODE <-> EDGE")

    def walk(n, top=False):
        if not top and isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            return
        if skip(n):
            return
        if isinstance(n, ast.stmt):
            stmt(n)
        if isinstance(n, ast.expr) or isinstance(n, ast.Slice):
            expr(n)
        for f, v in ast.iter_fields(n):
            if f in ("annotation", "returns", "decorator_list", "msg", "exc"):
                continue
            for x in v if isinstance(v, list) else [v]:
                if isinstance(x, ast.AST):
                    walk(x)
    for s in fn.body:
        walk(s)
    for d in fn.args.defaults + [x for x in fn.args.kw_defaults if x]:
        walk(d)
    return out


def functions(tree, mod):
    def go(n, pre):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.FunctionDef):
                yield pre + c.name, c
                yield from go(c, pre + c.name + ".")
            elif isinstance(c, ast.ClassDef):
                yield from go(c, pre + c.name + ".")
            elif not isinstance(c, ast.expr):
                yield from go(c, pre)
    return go(tree, mod + ".")


def worker(args):
    w, jobs, out = args
    base = f"/tmp/mutate/{w}"
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    shutil.copytree(BASE + "/src/python", base + "/repo/src/python")
    os.makedirs(base + "/verif/evidence")
    for x in ("vc", "contracts", "concrete"):
        shutil.copytree(f"{HERE}/{x}", f"{base}/verif/{x}")
    for x in ("run.py", "known_findings.json"):
        shutil.copy(f"{HERE}/{x}", f"{base}/verif/{x}")
    while True:
        try:
            j = jobs.get(timeout=5)
        except Exception:
            return
        if j is None:
            return
        rel, pos, qual, pids = j
        p = f"{base}/repo/{rel}"
        orig = open(f"{BASE}/{rel}", "rb").read()
        a, e, new, d = pos
        text = orig[:a] + new.encode() + orig[e:]
        try:
            ast.parse(text)
        except SyntaxError:
            continue
        open(p, "wb").write(text)
        env = dict(os.environ, VERIF_REPO=base + "/repo", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", VERIF_TIER="quick")
        res, t0 = {}, time.time()
        for pid in pids:
            envc = dict(env, PYTHONPATH=base + "/repo/src/python")
            how = "?"
            try:
                r = subprocess.run(["/opt/venv/bin/python", "concrete/main.py", pid, "--seed", "1", "--budget", "4"], env=envc, capture_output=True, text=True, timeout=150, cwd=base + "/verif")
                st = json.loads(r.stdout.strip().splitlines()[-1])["status"]
            except Exception as x:
                st = "error"
            if st == "violation":
                res[pid] = "caught (replay)"
                break
            try:
                r = subprocess.run(["python3-vt", "run.py", pid], env=env, capture_output=True, text=True, timeout=700, cwd=base + "/verif")
                last = r.stdout.strip().splitlines()[-1][:160] if r.stdout.strip() else r.stderr[-200:]
                res[pid] = f"rc={r.returncode} {last}"
                if r.returncode == 1:
                    break
            except subprocess.TimeoutExpired:
                res[pid] = "timeout"
        open(p, "wb").write(orig)
        with open(out, "a") as f:
            f.write(json.dumps({"func": qual, "file": rel, "mutant": d, "new": new[:200], "span": [a, e], "caught": any(v.startswith(("caught", "rc=1")) for v in res.values()), "results": res, "s": round(time.time() - t0, 1)}) + "\n")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("-j", type=int, default=7)
    ap.add_argument("-p")
    ap.add_argument("-f", default=".")
    ap.add_argument("--per-func", type=int, default=1000)
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    cover = {}
    for f in sorted(os.listdir(EVID)):
        m = re.fullmatch(r"(C\d+)\.json", f)
        if m:
            for q in json.load(open(EVID + "/" + f))["coverage"]["functions_under_contract"]:
                cover.setdefault(q, []).append(m.group(1))
    rng = random.Random(a.seed)
    todo = []
    for root, _, fs in os.walk(BASE + "/src/python/deepgnn"):
        for f in sorted(fs):
            if f.endswith(".py") and "test" not in f and "/tests" not in root:
                full = os.path.join(root, f)
                rel = os.path.relpath(full, BASE)
                mod = os.path.relpath(full, BASE + "/src/python")[:-3].replace("/", ".").replace(".__init__", "")
                s = Src(open(full).read())
                for q, fn in functions(ast.parse(s.text), mod):
                    pids = cover.get(q, [])
                    if a.p:
                        pids = [x for x in pids if x in a.p.split(",")]
                    if pids and re.search(a.f, q):
                        ms = mutants(s, fn)
                        rng.shuffle(ms)
                        todo += [(rel, m, q, pids) for m in ms[:a.per_func]]
    rng.shuffle(todo)
    if a.list:
        from collections import Counter
        for k, v in sorted(Counter(t[2] for t in todo).items()):
            print(v, k, cover[k])
        print(len(todo))
        return
    done = set()
    if os.path.exists(a.out):
        done = {(d["func"], d["mutant"], tuple(d["span"])) for d in map(json.loads, open(a.out))}
    todo = [t for t in todo if (t[2], t[1][3], (t[1][0], t[1][1])) not in done]
    print(len(todo), "changes", flush=True)
    mgr = mp.Manager()
    jobs = mgr.Queue()
    for t in todo:
        jobs.put(t)
    ps = [mp.Process(target=worker, args=((i, jobs, a.out),)) for i in range(a.j)]
    [p.start() for p in ps]
    [p.join() for p in ps]
    shutil.rmtree("/tmp/mutate", ignore_errors=True)


if __name__ == "__main__":
    main()
