"""Real type counts, samplers and sampler reuse against a recording stand-in for the native library."""
import random, sys
import numpy as np
import _fake
from _fake import LIB, cleanup, client, view
import deepgnn.graph_engine.snark.local as local
from deepgnn.graph_engine import SamplingStrategy

sys.unraisablehook = lambda *a: None        # half-built samplers complain when deleted
RULE = "0-5 types in the graph, some empty; requests of 0-6 types with repeats and unknown ones, an int or -1; up to 6 requests to one client, also with >1000 types; non-trivial with 2+ existing types requested"
KINDS = {"weighted": "CreateWeighted%sSampler", "uniform": "CreateUniform%sSampler", "withoutreplacement": "CreateUniform%sSamplerWithoutReplacement"}
STRAT = {"weighted": SamplingStrategy.Weighted, "uniform": SamplingStrategy.Random, "withoutreplacement": SamplingStrategy.RandomWithoutReplacement}


def cases(rng, tier):
    yield {"what": "reuse", "edge": True, "counts": [3, 2], "reqs": [[0, "weighted"], [0, "uniform"], [[0, 1], "uniform"]], "seed": 1}
    yield {"what": "reuse", "edge": False, "counts": [3, 2], "reqs": [[1, "weighted"], [[1], "withoutreplacement"], [[0, 1], "uniform"], [[1, 0], "uniform"]], "seed": 1}
    for edge in (False, True):        # type lists whose digits agree
        yield {"what": "reuse", "edge": edge, "counts": [1] * 130, "reqs": [[t, "uniform"] for t in ([1, 23], [12, 3], 123, [1, 2, 3], [123], [3, 12], 12, [1, 2])], "seed": 1}
    big = list(range(1200))
    for edge in (False, True):
        yield {"what": "reuse", "edge": edge, "counts": [1] * 1200, "reqs": [[big, "weighted"], [[x for x in big if x != 600] + [1199], "weighted"]], "seed": 1}
    while True:
        edge = rng.random() < .5
        counts = [rng.choice([0, 1, 2, 7]) for _ in range(rng.randrange(0, 6))]
        tp = lambda: rng.choice([rng.randrange(-2, 7), [rng.randrange(-2, 7) for _ in range(rng.randrange(0, 7))]])
        w = rng.choice(["count", "sampler", "reuse"])
        reqs = [[tp(), rng.choice(list(KINDS))] for _ in range(rng.randrange(2, 7) if w == "reuse" else 1)]
        if w == "reuse" and rng.random() < .3:
            reqs = [[reqs[0][0], rng.choice(list(KINDS))] for _ in reqs]
        yield {"what": w, "edge": edge, "counts": counts, "reqs": reqs, "seed": rng.randrange(10 ** 6)}


def trivial(c):
    t = c["reqs"][0][0]
    return isinstance(t, int) or sum(0 <= x < len(c["counts"]) for x in set(t)) < 2


def from_model(proof, obligation, m):
    w = "count" if "count" in proof else "reuse" if "reuse" in proof else "sampler"
    for counts in ([3, 0, 2], [2, 2], [0, 1, 0]):
        for reqs in ([[-1, "weighted"]], [[0, "weighted"], [0, "uniform"], [1, "uniform"]], [[[2, 0, 2, 1, 9, -1], "uniform"], [[2], "weighted"], [[2], "uniform"]], [[[], "weighted"]]):
            yield {"what": w, "edge": proof.startswith("edge"), "counts": counts, "reqs": reqs if w == "reuse" else reqs[:1], "seed": 3}


def check(c):
    rng = random.Random(c["seed"])
    LIB.reset(c["seed"])
    edge, counts = c["edge"], c["counts"]
    kw = {"edges" if edge else "nodes": counts}
    cl = local.Client(_fake.folder(_fake.meta(**kw)), [0])
    g = cl.graph
    C = "Edge" if edge else "Node"
    what = f"{C.lower()} types {counts}"
    ok = lambda t: sorted(x for x in set(range(len(counts)) if t == -1 else [t] if isinstance(t, int) else t) if 0 <= x < len(counts) and counts[x] > 0)
    if c["what"] == "count":
        t = c["reqs"][0][0]
        l = [t] if isinstance(t, int) else t
        want = sum(counts[x] for x in set(l) if 0 <= x < len(counts))
        rs = []
        if l:
            rs.append((g.get_edge_type_count if edge else g.get_node_type_count)(list(l)))
            f = cl.edge_count if edge else cl.node_count
            rs.append(f(t if isinstance(t, int) else np.array(t)))
        for r in rs:
            if r != want:
                return f"{what}: count of {t} is {r}, expected {want}"
        return None
    keep = []
    handles = {}
    for t, kind in c["reqs"]:
        LIB.calls.clear()
        want = ok(t) if c["what"] == "sampler" or t != -1 else []
        size = rng.randrange(1, 5)
        seed = rng.choice([None, 0, rng.randrange(2 ** 40)])
        arg = t if isinstance(t, int) else list(t)
        if c["what"] == "reuse" and not isinstance(t, int):
            arg = _fake.types_view(rng, t)
        try:
            if c["what"] == "sampler":
                s = getattr(client, C + "Sampler")(g, arg, kind)
                keep.append(s)
            else:
                r = getattr(cl, f"sample_{C.lower()}s")(size, arg, STRAT[kind])
        except Exception as e:
            LIB.calls = [x for x in LIB.calls if not x["!name"].startswith("Reset")]
            if want or LIB.calls:
                return f"{what}: {kind} sampler for {t} failed with {e!r}"
            continue
        if not want:
            return f"{what}: {kind} sampler for {t} was created although nothing can be sampled"
        if c["what"] == "sampler":
            r = s.sample(size, seed)
        if LIB.problems:
            return f"{what}: " + LIB.problems[0]
        draw = LIB.calls[-1]
        made = [x for x in LIB.calls if x["!name"].startswith("Create")]
        if len(made) > 1 or draw["!name"] != f"Sample{C}s":
            return f"{what}: native calls {[x['!name'] for x in LIB.calls]}"
        for x in made:
            handles[x["sampler"]] = x
        used = handles.get(draw["sampler"])
        if used is None:
            return f"{what}: request {t} {kind} drew from an unknown sampler"
        if used["!name"] != KINDS[kind] % C:
            return f"{what}: request {t} {kind} drew from a sampler made by {used['!name']}"
        if sorted(used["etypes"]) != want:
            return f"{what}: request {t if len(str(t)) < 60 else '(many types)'} {kind} drew from a sampler of types {used['etypes'][:20]}, expected {want[:20]}"
        if draw["count"] != size or c["what"] == "sampler" and seed is not None and draw["seed"] != seed:
            return f"{what}: engine asked for {draw['count']} with seed {draw['seed']}, caller for {size}, {seed}"
        w = draw["wrote"]
        cols = [w["out"], w["outdst"], w["outtypes"]] if edge else [w["out"], w["outtypes"]]
        if c["what"] == "reuse" and edge:
            good = r.shape == (size, 3) and all(np.array_equal(r[:, k], x) for k, x in enumerate(cols))
        elif c["what"] == "reuse" and isinstance(t, int):
            good = np.array_equal(r, cols[0])
        else:
            good = len(r) == len(cols) and all(np.array_equal(x, y) for x, y in zip(r, cols))
        if not good:
            return f"{what}: result {r} is not what the engine drew"
    return None
