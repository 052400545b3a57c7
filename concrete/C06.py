"""Statistics the real partition writer keeps, against a recount of the records."""
from _part import *

RULE = "as for whole partitions, also with one edge out of type order; non-trivial with 2+ records"


def cases(rng, tier):
    for size in (0, 1, 2):
        yield mkcase(rng, False, True, size)
    i = 0
    while True:
        i += 1
        c = mkcase(rng, feats=i % 3 == 0)
        if i % 4 == 0:
            recs = [r for b in c["batches"] for r in b]
            js = [j for j in range(1, len(recs)) if recs[j][1] != -1 and recs[j - 1][1] != -1 and recs[j][0] == recs[j - 1][0]]
            if js:
                j = rng.choice(js)
                recs[j - 1][2] = recs[j][2] + rng.randrange(1, 3)
                c["bad"] = True
        yield c


def trivial(c):
    return sum(map(len, c["batches"])) < 2


def totals(recs, i):
    n = max([r[2] + 1 for r in recs] or [0])
    return n, [sum(1 for r in recs if r[2] == t) for t in range(n)], [float(sum(r[3] for r in recs if r[2] == t)) for t in range(n)]


def check(c):
    recs = [r for b in c["batches"] for r in b]
    prev = None
    bad = False
    for r in recs:
        if r[1] != -1 and prev is not None and prev[0] == r[0] and prev[1] != -1 and r[2] < prev[2]:
            bad = True
        prev = r
    try:
        p, w = write(c)
    except AssertionError as e:
        return None if bad else f"valid records refused: {e!r}"
    if bad:
        return "edges of one source with decreasing types were accepted"
    nodes, edges = [r for r in recs if r[1] == -1], [r for r in recs if r[1] != -1]
    for kind, rs in (("node", nodes), ("edge", edges)):
        n, cnt, wt = totals(rs, kind)
        got = (getattr(w, kind + "_count"), getattr(w, kind + "_type_num"), list(getattr(w, kind + "_type_count")), [float(x) for x in getattr(w, kind + "_weight")], getattr(w, kind + "_feature_count"))
        want = (len(rs), n, cnt, wt, max([len(r[6]) for r in rs] or [0]))
        if got != want:
            return f"{kind} (count, types, count per type, weight per type, features) = {got}, records give {want}"
