"""Whole partitions written by the real writer and read back from the binary files."""
from _part import *

RULE = "0-5 sources (80% with a node record), 0-5 edges each, features of every kind, one or many add calls, temporal or not; non-trivial with an edge or a feature"


def cases(rng, tier):
    for size in (0, 1, 2):
        for t in (False, True):
            yield mkcase(rng, t, True, size)
    # features larger than any buffer of the files
    big = lambda n: {"s": "ab" * n}
    yield {"batches": [[[1, -1, 0, 1., None, None, [big(5000), None, big(40000), {"s": "z"}]], [1, 2, 0, 1., None, None, [{"s": "y"}, big(40000), big(70)]],
                        [1, 3, 0, 1., None, None, [big(1)]]], [[2, -1, 0, 1., None, None, [big(40000), big(3)]], [2, 3, 1, 1., None, None, [big(50000)]]]], "wm": None, "part": 0}
    while True:
        yield mkcase(rng)


def trivial(c):
    return not any(c["batches"])


def check(c):
    recs = [r for b in c["batches"] for r in b]
    p, w = write(c)
    R = rows(recs)
    if [tuple(x) for x in p.nodes] != [(r[0], i, r[1]) for i, r in enumerate(R)]:
        return f"node map {p.nodes}, records give {[(r[0], i, r[1]) for i, r in enumerate(R)]}"
    # node features
    pos, idx, ni, nfi, data = 0, 0, [], [], b""
    for r in R:
        ni.append(len(nfi))
        for f in r[2]:
            nfi.append(len(data))
            data += payload(f)
    ni.append(len(nfi))
    nfi.append(len(data))
    if p.ni != ni:
        return f"node index {p.ni}, expected {ni}"
    if p.nfi != nfi:
        return f"node feature index {p.nfi}, expected {nfi}"
    if p.nfd != data:
        return "node feature data differs"
    nbi, ei, efi, data = [], [], [], b""
    for r in R:
        nbi.append(len(ei))
        for e in r[3]:
            ei.append((e[1], len(efi), e[2], f32(e[3])))
            for f in e[6]:
                efi.append(len(data))
                data += payload(f)
    nbi.append(len(ei))
    ei.append((0, len(efi), 0, -1.0))
    efi.append(len(data))
    if p.nbi != nbi:
        return f"neighbor index {p.nbi}, expected {nbi}"
    if p.edges != ei:
        return f"edge index {p.edges}, expected {ei}"
    if p.efi != efi:
        return f"edge feature index {p.efi}, expected {efi}"
    if p.efd != data:
        return "edge feature data differs"
