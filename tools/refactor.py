#!/usr/bin/env python3
"""Development aid: systematic behaviour-preserving rewrites of every function under contract; each check covering it must stay quiet.
usage: refactor.py OUT.jsonl [-j N] [-p C04,C05] [-f regex] [--per-func N] [--seed S]
Works on copies below /tmp/refactor.  Not used by any check."""
import argparse, ast, copy, json, multiprocessing as mp, os, random, re, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutate import Src, functions, HERE, BASE, EVID


def names(n, ctx):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}


def blocks(fn):
    """statement lists of the function itself (not of nested ones)"""
    out = []

    def go(n):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                out.append(b)
                for s in b:
                    if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        go(s)
        for h in getattr(n, "handlers", []):
            go(h)
    go(fn)
    return out


def has(n, kinds):
    return any(isinstance(x, kinds) for x in ast.walk(n))


PURE = (ast.Name, ast.Constant, ast.Attribute, ast.BinOp, ast.UnaryOp, ast.Compare, ast.List, ast.Tuple, ast.Load, ast.Store, ast.operator, ast.unaryop, ast.cmpop, ast.Dict)


def pure(e):
    return all(isinstance(x, PURE) for x in ast.walk(e))


def doc(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)


def rewrites(fn, cls):
    """yields (kind, new module-level helpers, new function)"""
    k = [0]

    def fresh(base="tmp"):
        k[0] += 1
        return f"{base}_v{k[0]}"

    def variants(pred, change):
        n = sum(1 for b in blocks(fn) for s in b if pred(s))
        for i in range(n):
            f2, c = copy.deepcopy(fn), -1
            for b in blocks(f2):
                for p, s in enumerate(list(b)):
                    if pred(s):
                        c += 1
                        if c == i:
                            yield change(f2, b, b.index(s), s)

    N = lambda x, c=None: ast.Name(x, c or ast.Load())
    S = lambda x: ast.Name(x, ast.Store())

    def ret(f2, b, p, s):
        t = fresh("result")
        b[p:p + 1] = [ast.Assign([S(t)], s.value), ast.Return(N(t))]
        return "name the result", [], f2
    yield from variants(lambda s: isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)), ret)

    def hoist(f2, b, p, s):
        new = []
        call = s.value
        for i, a in enumerate(call.args):
            if not isinstance(a, (ast.Constant, ast.Starred)):
                t = fresh("arg")
                new.append(ast.Assign([S(t)], a))
                call.args[i] = N(t)
        for kw in call.keywords:
            if kw.arg and not isinstance(kw.value, ast.Constant):
                t = fresh("arg")
                new.append(ast.Assign([S(t)], kw.value))
                kw.value = N(t)
        b[p:p] = new
        return "name the arguments", [], f2
    yield from variants(lambda s: isinstance(s, (ast.Assign, ast.Expr, ast.Return)) and isinstance(s.value, ast.Call) and not any(isinstance(a, ast.Starred) for a in s.value.args) and (s.value.args or s.value.keywords)
                        and isinstance(s.value.func, (ast.Name, ast.Attribute)) and not (isinstance(s.value.func, ast.Name) and s.value.func.id in ("super", "locals")) and "logger" not in ast.unparse(s.value.func), hoist)

    def while_(f2, b, p, s):
        i, n = fresh("i"), fresh("n")
        r = s.iter.args
        lo = r[0] if len(r) > 1 else ast.Constant(0)
        hi = r[-1]
        b[p:p + 1] = [ast.Assign([S(i)], lo), ast.Assign([S(n)], hi),
                      ast.While(ast.Compare(N(i), [ast.Lt()], [N(n)]), [ast.Assign([s.target], N(i)), ast.AugAssign(S(i), ast.Add(), ast.Constant(1))] + s.body, [])]
        return "while loop", [], f2
    yield from variants(lambda s: isinstance(s, ast.For) and not s.orelse and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and len(s.iter.args) in (1, 2), while_)

    def enum(f2, b, p, s):
        s.target = ast.Tuple([S(fresh("position")), s.target], ast.Store())
        s.iter = ast.Call(N("enumerate"), [s.iter], [])
        return "enumerate", [], f2
    yield from variants(lambda s: isinstance(s, ast.For) and not (isinstance(s.iter, ast.Call) and ast.unparse(s.iter.func) in ("range", "enumerate")), enum)

    def indexed(f2, b, p, s):
        xs, i = fresh("xs"), fresh("i")
        b[p:p + 1] = [ast.Assign([S(xs)], ast.Call(N("list"), [s.iter], [])),
                      ast.For(S(i), ast.Call(N("range"), [ast.Call(N("len"), [N(xs)], [])], []), [ast.Assign([s.target], ast.Subscript(N(xs), N(i), ast.Load()))] + s.body, s.orelse)]
        return "loop over positions", [], f2
    yield from variants(lambda s: isinstance(s, ast.For) and not (isinstance(s.iter, ast.Call) and ast.unparse(s.iter.func) == "range"), indexed)

    def explicit(f2, b, p, s):
        t = fresh("iterator")
        b[p:p + 1] = [ast.Assign([S(t)], ast.Call(N("iter"), [s.iter], [])),
                      ast.While(ast.Constant(True), [ast.Try([ast.Assign([s.target], ast.Call(N("next"), [N(t)], []))], [ast.ExceptHandler(N("StopIteration"), None, [ast.Break()])], [], [])] + s.body, [])]
        return "explicit iterator", [], f2
    yield from variants(lambda s: isinstance(s, ast.For) and not s.orelse, explicit)

    def guard(f2, b, p, s):
        b[p:p + 1] = [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Continue()], [])] + s.body
        return "guard clause", [], f2
    loops = [id(x.body[-1]) for x in ast.walk(fn) if isinstance(x, (ast.For, ast.While)) and isinstance(x.body[-1], ast.If) and not x.body[-1].orelse]
    n = len(loops)
    for i in range(n):
        f2 = copy.deepcopy(fn)
        x = [x for x in ast.walk(f2) if isinstance(x, (ast.For, ast.While)) and isinstance(x.body[-1], ast.If) and not x.body[-1].orelse][i]
        yield guard(f2, x.body, len(x.body) - 1, x.body[-1])

    def invert(f2, b, p, s):
        s.test, s.body, s.orelse = ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body
        return "invert the condition", [], f2
    yield from variants(lambda s: isinstance(s, ast.If) and s.orelse, invert)

    def cond(f2, b, p, s):
        t = fresh("condition")
        b[p:p] = [ast.Assign([S(t)], s.test)]
        s.test = N(t)
        return "name the condition", [], f2
    # not for elif branches: their test is evaluated conditionally
    elifs = {id(x.orelse[0]) for x in ast.walk(fn) if isinstance(x, ast.If) and len(x.orelse) == 1 and isinstance(x.orelse[0], ast.If)}
    yield from variants(lambda s: isinstance(s, ast.If), cond)

    def aug(f2, b, p, s):
        t = copy.deepcopy(s.target)
        for x in ast.walk(t):
            if hasattr(x, "ctx"):
                x.ctx = ast.Load()
        s.target.ctx = ast.Store()
        b[p] = ast.Assign([s.target], ast.BinOp(t, s.op, s.value))
        return "expand augmented assignment", [], f2
    yield from variants(lambda s: isinstance(s, ast.AugAssign) and isinstance(s.value, (ast.Constant, ast.BinOp)) and pure(s.target), aug)

    def comp(f2, b, p, s):
        t = fresh("items")
        g = s.value.generators[0]
        body = [ast.Expr(ast.Call(ast.Attribute(N(t), "append", ast.Load()), [s.value.elt], []))]
        for c in reversed(g.ifs):
            body = [ast.If(c, body, [])]
        tgt = s.targets[0] if isinstance(s, ast.Assign) else None
        b[p:p + 1] = [ast.Assign([S(t)], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, []), ast.Assign([tgt], N(t)) if tgt is not None else ast.Return(N(t))]
        return "loop instead of comprehension", [], f2
    yield from variants(lambda s: isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1
                        and not (names(s.value.generators[0].target, ast.Store) & {a.arg for a in fn.args.args}), comp)

    # reorder independent neighbours
    def indep(a, c):
        if not all(isinstance(s, ast.Assign) and len(s.targets) == 1 and pure(s.value) and isinstance(s.targets[0], (ast.Name, ast.Attribute)) for s in (a, c)):
            return False
        ta, tc = ast.unparse(a.targets[0]), ast.unparse(c.targets[0])
        return ta != tc and ta not in ast.unparse(c.value) and tc not in ast.unparse(a.value)
    n = sum(1 for b in blocks(fn) for x, y in zip(b, b[1:]) if indep(x, y))
    for i in range(n):
        f2, c = copy.deepcopy(fn), -1
        done = False
        for b in blocks(f2):
            for p in range(len(b) - 1):
                if not done and indep(b[p], b[p + 1]):
                    c += 1
                    if c == i:
                        b[p], b[p + 1] = b[p + 1], b[p]
                        done = True
        yield "reorder independent statements", [], f2

    # extract helper
    params = {a.arg for a in fn.args.args + fn.args.kwonlyargs + ([fn.args.vararg] if fn.args.vararg else []) + ([fn.args.kwarg] if fn.args.kwarg else [])}
    local = params | names(fn, ast.Store)
    inner = {x.name for x in ast.walk(fn) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not fn}
    nb = len(blocks(fn))
    for bi in range(nb):
        L = len(blocks(fn)[bi])
        for lo in range(L):
            for hi in range(lo + 1, min(L, lo + 4) + 1):
                f2 = copy.deepcopy(fn)
                b = blocks(f2)[bi]
                seg = b[lo:hi]
                if any(doc(s) for s in seg) or any(has(s, (ast.Return, ast.Yield, ast.YieldFrom, ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.Nonlocal, ast.Global, ast.Delete)) for s in seg):
                    continue
                txt = "\n".join(ast.unparse(s) for s in seg)
                if "super(" in txt or "__" in txt or len(txt) < 25 or "get_logger" in txt or "locals(" in txt:
                    continue

                def loose(s, depth=0):
                    """break/continue that leaves the segment"""
                    if isinstance(s, (ast.Break, ast.Continue)):
                        return depth == 0
                    d = depth + isinstance(s, (ast.For, ast.While))
                    return any(loose(x, d) for x in ast.iter_child_nodes(s))
                if any(loose(s) for s in seg):
                    continue
                comps = {x.id for s in seg for c in ast.walk(s) if isinstance(c, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)) for g in c.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                reads = {x for s in seg for x in names(s, ast.Load)} & local - inner
                if {x for s in seg for x in names(s, ast.Load)} & inner:
                    continue
                writes = {x for s in seg for x in names(s, ast.Store)} - comps
                sure = set()
                for s in seg:
                    if isinstance(s, ast.Assign):
                        sure |= names(s, ast.Store)
                    if isinstance(s, ast.AugAssign):
                        sure |= names(s.target, ast.Store)
                        reads |= names(s.target, ast.Store)
                for s in seg:
                    for x in ast.walk(s):
                        if isinstance(x, ast.AugAssign):
                            reads |= names(x.target, ast.Store)
                # variables first bound inside the segment are not parameters
                bound, need = set(), set()
                for s in seg:
                    need |= (names(s, ast.Load) | {y for x in ast.walk(s) if isinstance(x, ast.AugAssign) for y in names(x.target, ast.Store)}) - bound
                    if isinstance(s, ast.Assign):
                        bound |= names(s, ast.Store)
                    if isinstance(s, (ast.For, ast.With)):
                        pass
                inner_bound = {y for s in seg for x in ast.walk(s) if isinstance(x, (ast.For, ast.withitem)) for t in [getattr(x, "target", None) or getattr(x, "optional_vars", None)] if t is not None for y in names(t, ast.Store)}
                inner_bound |= {x.name for s in seg for x in ast.walk(s) if isinstance(x, ast.ExceptHandler) and x.name}
                reads = sorted((need & local) - comps - (inner_bound - params))
                rest = ast.unparse(ast.Module([s for bb in blocks(f2) for s in bb if bb is not b or not (lo <= b.index(s) < hi)], []))
                if inner_bound & set(re.findall(r"\w+", rest)):
                    continue
                out = sorted(writes - inner_bound)
                if any(w not in sure and w not in reads for w in out):
                    # assigned on some paths only and not known before: local to the helper if unused elsewhere
                    if any(w not in sure and w not in reads and re.search(rf"\b{w}\b", rest) for w in out):
                        continue
                    out = [w for w in out if w in sure or w in reads]
                h = fresh("_part_of_" + fn.name.strip("_"))
                body = copy.deepcopy(seg)
                if out:
                    r = N(out[0]) if len(out) == 1 else ast.Tuple([N(w) for w in out], ast.Load())
                    body.append(ast.Return(r))
                helper = ast.FunctionDef(h, ast.arguments([], [ast.arg(x) for x in reads], None, [], [], None, []), body, [], None, type_params=[])
                call = ast.Call(N(h), [N(x) for x in reads], [])
                t = None if not out else S(out[0]) if len(out) == 1 else ast.Tuple([S(w) for w in out], ast.Store())
                b[lo:hi] = [ast.Assign([t], call) if out else ast.Expr(call)]
                yield f"helper for {txt[:70]!r}", [helper], f2

    # rename the local variables
    cand = sorted(names(fn, ast.Store) - params - inner)
    if cand and not inner and not has(fn, (ast.Global, ast.Nonlocal, ast.Lambda, ast.ExceptHandler)):
        f2 = copy.deepcopy(fn)
        for x in ast.walk(f2):
            if isinstance(x, ast.Name) and x.id in cand:
                x.id += "_renamed"
        yield "rename local variables", [], f2


def worker(args):
    w, jobs, out = args
    base = f"/tmp/refactor/{w}"
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    shutil.copytree(BASE + "/src/python", base + "/repo/src/python")
    os.makedirs(base + "/verif/evidence")
    for x in ("vc", "contracts", "concrete"):
        shutil.copytree(f"{HERE}/{x}", f"{base}/verif/{x}")
    for x in ("run.py", "known_findings.json"):
        shutil.copy(f"{HERE}/{x}", f"{base}/verif/{x}")
    while True:
        try:
            j = jobs.get(timeout=5)
        except Exception:
            return
        rel, text, qual, pids, kind, diff = j
        texts = text if isinstance(text, dict) else {rel: text}
        for r_, t_ in texts.items():
            open(f"{base}/repo/{r_}", "w").write(t_)
        env = dict(os.environ, VERIF_REPO=base + "/repo", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", VERIF_TIER="quick")
        res, t0 = {}, time.time()
        for pid in pids:
            try:
                r = subprocess.run(["python3-vt", "run.py", pid], env=env, capture_output=True, text=True, timeout=880, cwd=base + "/verif")
                res[pid] = f"rc={r.returncode} " + (r.stdout.strip().splitlines()[-1][:160] if r.stdout.strip() else r.stderr[-200:])
                if r.returncode:
                    res[pid] += " || " + r.stdout[-1500:]
            except subprocess.TimeoutExpired:
                res[pid] = "timeout"
        for r_ in texts:
            shutil.copy(f"{BASE}/{r_}", f"{base}/repo/{r_}")
        with open(out, "a") as f:
            f.write(json.dumps({"func": qual, "file": rel, "kind": kind, "quiet": all(v.startswith("rc=0") for v in res.values()), "proved": all("level=proof" in v for v in res.values()), "results": res, "diff": diff, "s": round(time.time() - t0, 1)}) + "\n")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("-j", type=int, default=7)
    ap.add_argument("-p")
    ap.add_argument("-f", default=".")
    ap.add_argument("--per-func", type=int, default=3)
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("-k", default=".", help="kinds of rewriting")
    ap.add_argument("--private", action="store_true", help="rename private names across files instead")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    cover = {}
    for f in sorted(os.listdir(EVID)):
        m = re.fullmatch(r"(C\d+)\.json", f)
        if m:
            for q in json.load(open(EVID + "/" + f))["coverage"]["functions_under_contract"]:
                cover.setdefault(q, []).append(m.group(1))
    rng = random.Random(a.seed)
    import difflib
    todo = []
    for root, _, fs in os.walk(BASE + "/src/python/deepgnn"):
        for f in sorted(fs):
            if not f.endswith(".py") or "test" in f or "/tests" in root:
                continue
            full = os.path.join(root, f)
            rel = os.path.relpath(full, BASE)
            mod = os.path.relpath(full, BASE + "/src/python")[:-3].replace("/", ".").replace(".__init__", "")
            s = Src(open(full).read())
            tree = ast.parse(s.text)
            tops = {id(x): t for t in tree.body for x in ast.walk(t)}
            for q, fn in functions(tree, mod):
                pids = [x for x in cover.get(q, []) if not a.p or x in a.p.split(",")]
                if not pids or not re.search(a.f, q):
                    continue
                if a.private:
                    continue
                vs = [v for v in rewrites(fn, None) if re.search(a.k, v[0])]
                bykind = {}
                for v in vs:
                    bykind.setdefault(v[0].split(" for ")[0], []).append(v)
                pick = []
                ks = sorted(bykind)
                rng.shuffle(ks)
                while len(pick) < a.per_func and any(bykind.values()):
                    for k in ks:
                        if bykind[k] and len(pick) < a.per_func:
                            pick.append(bykind[k].pop(rng.randrange(len(bykind[k]))))
                for kind, helpers, f2 in pick:
                    a0, e0 = s.span(fn)
                    ind = fn.col_offset
                    body = ast.unparse(ast.fix_missing_locations(ast.Module([ast.fix_missing_locations(f2)], [])))
                    f2.decorator_list and None
                    dec = f2.decorator_list
                    f2.decorator_list = []
                    body = ast.unparse(ast.fix_missing_locations(f2))
                    f2.decorator_list = dec
                    body = ("\n" + " " * ind).join(body.split("\n"))
                    new = s.b[:a0] + body.encode() + s.b[e0:]
                    if helpers:
                        top = tops[id(fn)]
                        line = (top.decorator_list[0].lineno if getattr(top, "decorator_list", None) else top.lineno) - 1
                        at = s.off[line]
                        new = new[:at] + ("\n\n".join(ast.unparse(ast.fix_missing_locations(h)) for h in helpers) + "\n\n\n").encode() + new[at:]
                    text = new.decode()
                    try:
                        ast.parse(text)
                    except SyntaxError as e:
                        print("bad rewrite", q, kind, e)
                        continue
                    d = "".join(difflib.unified_diff(ast.unparse(tree).splitlines(True), ast.unparse(ast.parse(text)).splitlines(True), n=1))[:1500]
                    todo.append((rel, text, q, pids, kind, d))
    if a.private:
        texts, tests, defs = {}, "", {}
        for root, _, fs in os.walk(BASE + "/src/python/deepgnn"):
            for f in fs:
                if f.endswith(".py"):
                    full = os.path.join(root, f)
                    t = open(full).read()
                    if "test" in f or "/tests" in root:
                        tests += t
                        continue
                    rel = os.path.relpath(full, BASE)
                    mod = os.path.relpath(full, BASE + "/src/python")[:-3].replace("/", ".").replace(".__init__", "")
                    texts[rel] = t
                    for q, fn in functions(ast.parse(t), mod):
                        for x in ast.walk(fn):
                            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and isinstance(x.ctx, ast.Store):
                                defs.setdefault(x.attr, set()).add(q)
                            if isinstance(x, ast.FunctionDef):
                                defs.setdefault(x.name, set()).add(q)
        for nm, qs in sorted(defs.items()):
            if not nm.startswith("_") or nm.startswith("__") or re.search(rf"\b{nm}\b", tests) or not re.search(a.f, nm):
                continue
            new = {r_: re.sub(rf"\b{nm}\b", nm + "_renamed", t) for r_, t in texts.items()}
            new = {r_: t for r_, t in new.items() if t != texts[r_]}
            mods = {r_[len("src/python/"):-3].replace("/", ".") for r_ in new}
            pids = sorted({pid for q, ps in cover.items() if q in qs or any(q.startswith(m + ".") for m in mods) for pid in ps} & set(a.p.split(",") if a.p else [x for ps in cover.values() for x in ps]))
            if pids:
                todo.append((next(iter(new)), new, nm, pids, "rename private name", nm))
    rng.shuffle(todo)
    print(len(todo), "rewrites", flush=True)
    if a.list:
        from collections import Counter
        print(Counter(t[4].split(" for ")[0] for t in todo))
        return
    mgr = mp.Manager()
    jobs = mgr.Queue()
    for t in todo:
        jobs.put(t)
    ps = [mp.Process(target=worker, args=((i, jobs, a.out),)) for i in range(a.j)]
    [p.start() for p in ps]
    [p.join() for p in ps]
    shutil.rmtree("/tmp/refactor", ignore_errors=True)


if __name__ == "__main__":
    main()
