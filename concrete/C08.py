"""Real alias tables and sampler files; mass received by every element recomputed from the table."""
from _part import *
import deepgnn.graph_engine.snark.alias as alias

RULE = "weights: 1-40 elements of equal, random, zero, tiny/huge and dominant weights; whole sampler files of random partitions; non-trivial with 2+ elements"


def weights(rng):
    n = rng.choice([1, 2, 3, 5, 8, 17, 40, 40, 300])
    k = rng.randrange(6)
    if k == 0:
        w = [1.0] * n
    elif k == 1:
        w = [rng.randrange(0, 4) / 2 for _ in range(n)]
    elif k == 2:
        w = [float(2 ** rng.randrange(-20, 20)) for _ in range(n)]
    elif k == 3:
        w = [0.0] * n
        w[rng.randrange(n)] = 3.0
    elif k == 4:
        w = [float(i + 1) for i in range(n)]
    else:
        w = [rng.random() for _ in range(n)]
    return w if sum(w) > 0 else [1.0] * n


def cases(rng, tier):
    for w in ([1.0], [1.0, 1.0], [0.0, 1.0], [1.0, 0.0], [1., 2., 3.], [.5, .25, .25], [10., 1., 1., 1.]):
        yield {"k": "vose", "w": w}
    i = 0
    while True:
        i += 1
        if i % 4 == 0:
            c = mkcase(rng, False, False)
            for b in c["batches"]:
                for r in b:
                    r[3] = r[3] or 1.0
            c.update(k="files", sn=rng.random() < .1, se=rng.random() < .1)
            yield c
        else:
            yield {"k": "vose", "w": weights(rng)}


def trivial(c):
    return c["k"] == "vose" and len(c["w"]) < 2


def mass_ok(n, slots, w, what):
    """slots: [(left index, right index or None, prob)]"""
    tot = sum(w)
    if tot <= 0:
        return None
    m = [0.0] * n
    for l, r, p in slots:
        if not 0 <= p <= 1:
            return f"{what}: slot probability {p}"
        m[l] += p
        if p < 1:
            if r is None or not 0 <= r < n:
                return f"{what}: slot refers to element {r} of {n}"
            m[r] += 1 - p
    for i in range(n):
        want = w[i] * n / tot
        if abs(m[i] - want) > 1e-4 * max(1, n):
            return f"{what}: element {i} of weights {w} gets {m[i] / n}, its share is {want / n}"


def check(c):
    if c["k"] == "vose":
        n = len(c["w"])
        el = [f"e{i}" for i in range(n)]
        wt = np.array(c["w"], dtype=np.float32)
        v = alias.Vose(el, wt.copy())
        if len(v.prob) != n or len(v.alias) != n or list(v.elements) != el:
            return "table does not have one slot per element"
        return mass_ok(n, [(i, int(v.alias[i]) if v.prob[i] < 1 else None, float(v.prob[i])) for i in range(n)], c["w"], "table")
    recs = [r for b in c["batches"] for r in b]
    p, w = write(c)
    names = set()
    for kind, rs, skip in (("node", [r for r in recs if r[1] == -1], c["sn"]), ("edge", [r for r in recs if r[1] != -1], c["se"])):
        if skip:
            continue
        nt = max([r[2] + 1 for r in rs] or [0])
        for t in range(nt):
            name = f"{kind}_{t}_{c['part']}.alias"
            names.add(name)
            if name not in p.alias:
                return f"sampler file {name} missing"
            got = list(struct.iter_unpack("=qqf" if kind == "node" else "=qqqqf", p.alias[name]))
            mine = [r for r in rs if r[2] == t]
            ids = [(r[0],) if kind == "node" else (r[0], r[1]) for r in mine]
            q = len(ids[0]) if ids else 1
            if len(got) != len(mine):
                return f"{name}: {len(got)} records for {len(mine)} elements"
            if sorted(x[:q] for x in got) != sorted(ids):
                return f"{name}: elements {sorted(x[:q] for x in got)}, records give {sorted(ids)}"
            # shares per distinct id
            uniq = sorted(set(ids))
            m = {i: 0.0 for i in uniq}
            for x in got:
                pr = x[-1]
                if not 0 <= pr <= 1:
                    return f"{name}: probability {pr}"
                m[x[:q]] += pr
                if pr < 1:
                    if x[q:2 * q] not in m:
                        return f"{name}: alias {x[q:2 * q]} is no element"
                    m[x[q:2 * q]] += 1 - pr
            tot = sum(r[3] for r in mine)
            for i in uniq:
                want = sum(r[3] for r, j in zip(mine, ids) if j == i) / tot * len(mine)
                if abs(m[i] - want) > 1e-4 * len(mine):
                    return f"{name}: element {i} gets {m[i]} of {len(mine)}, its weight asks for {want}"
    if set(p.alias) != names:
        return f"sampler files {sorted(p.alias)}, expected {sorted(names)}"
