"""The real citation graph builders on generated paper and citation lists."""
import json
import os
import random
import shutil
import tempfile
import zipfile
from unittest import mock
import _fake
from _fake import LIB
from deepgnn.graph_engine.data import data_util, cora, citeseer

RULE = "1-9 papers with 1-4 labels, 0-20 citations (repeated, reversed, to itself; for the second dataset also of unknown papers), few features or the full number, any split with a training node, 1-3 partitions, bundled or downloaded archive; non-trivial with both kinds of nodes and repeated or reversed citations"


def cases(rng, tier):
    yield {"which": 0, "n": 5, "m": 8, "ratio": 0.5, "rand": False, "parts": 2, "full": False, "web": False, "seed": 1}
    yield {"which": 1, "n": 5, "m": 8, "ratio": 1.0, "rand": False, "parts": 1, "full": False, "web": False, "seed": 2}
    yield {"which": 0, "n": 3, "m": 4, "ratio": 1.0, "rand": True, "parts": 3, "full": True, "web": False, "seed": 3}
    yield {"which": 1, "n": 3, "m": 4, "ratio": 0.5, "rand": False, "parts": 1, "full": True, "web": False, "seed": 4}
    yield {"which": 0, "n": 3, "m": 4, "ratio": 0.5, "rand": False, "parts": 1, "full": False, "web": True, "seed": 5}
    while True:
        full = rng.random() < 0.05
        which = rng.randrange(2)
        yield {"which": which, "n": rng.randrange(1, 10), "m": rng.randrange(0, 21), "ratio": rng.choice([1.0, 0.5, 0.34, 0.75]), "rand": rng.random() < 0.5,
               "parts": rng.randrange(1, 4) if not which or not full else 1, "full": full, "web": rng.random() < 0.1, "seed": rng.randrange(10 ** 6)}


def trivial(c):
    return c["ratio"] == 1.0 or c["m"] < 6


def from_model(proof, obligation, m):
    for which in (0, 1):
        for n in (1, 2, 3, 5):
            for k in (0, 1, 3, 8):
                for r in (1.0, 0.5):
                    for w in (False, True):
                        yield {"which": which, "n": n, "m": k, "ratio": r, "rand": False, "parts": 1 + (n % 3) * (not which), "full": False, "web": w, "seed": n * 7 + k}


def small(which, F):
    """the dataset with another number of features"""
    base = (cora.CoraFull, citeseer.CiteseerFull)[which]

    class Small(base):
        def __init__(self, url, out, ratio, rand, parts):
            data_util.Dataset.__init__(self, url, ("cora_full", "citeseer_full")[which], 9, F, 4, ratio, rand, output_dir=out, num_partitions=parts)
    return Small


def check(c):
    rng = random.Random(c["seed"])
    n, which = max(c["n"], 1 if c["ratio"] == 1.0 else 3), c["which"]        # at least one training node
    F = (1433, 3703)[which] if c["full"] else rng.randrange(1, 6)
    papers = rng.sample(["31336", "7", "a1", "zz", "10", "0", "100", "-1", "x_y", "9", "nips94", "1"], n)
    kinds = rng.sample(["Theory", "Agents", "0", "ML", "theory"], 4)
    labels = [rng.choice(kinds[:rng.randrange(1, 5)]) for _ in papers]
    feats = [[rng.choice(["0", "1", "0.5", "2"]) for _ in range(F)] for _ in papers]
    cites = [(rng.choice(papers), rng.choice(papers)) for _ in range(c["m"])]
    cites += [tuple(reversed(x)) for x in cites[:c["m"] // 4]] + cites[:c["m"] // 5]
    if which:
        cites += [(rng.choice(papers), "unknown"), ("other", rng.choice(papers)), ("p", "q")][:rng.randrange(4)]
        rng.shuffle(cites)
    tmp = tempfile.mkdtemp(prefix="c35_")
    here = os.getcwd()
    try:
        LIB.reset()
        os.chdir(tmp)
        z = os.path.join(tmp, "input.zip")
        sub, name = (("cora", "cora"), ("citeseer-doc-classification", "citeseer"))[which]
        with zipfile.ZipFile(z, "w") as f:
            f.writestr(f"{sub}/{name}.content", "".join("\t".join([p] + x + [l]) + "\n" for p, x, l in zip(papers, feats, labels)))
            f.writestr(f"{sub}/{name}.cites", "".join(f"{a}\t{b}\n" for a, b in cites))
        out = os.path.join(tmp, "out")
        seen = {}
        real = data_util.convert.MultiWorkersConverter

        class Converter(real):
            def convert(self):
                super().convert()
                seen["text"] = open(self.graph_path).read()

        def fetch(url, to, *a, **k):
            seen["url"] = url
            shutil.copy(z, to)
        url = "http://127.0.0.1/graph.zip" if c["web"] else z
        with mock.patch.object(data_util.convert, "MultiWorkersConverter", Converter), mock.patch.object(data_util.urllib.request, "urlretrieve", fetch):
            if c["full"]:
                kw = {"num_partitions": c["parts"]} if not which else {}
                (cora.CoraFull, citeseer.CiteseerFull)[which](out, c["ratio"], c["rand"], url=url, **kw)
            else:
                small(which, F)(url, out, c["ratio"], c["rand"], c["parts"])
        what = f"{n} papers {papers} of {labels}, citations {cites}"
        if c["web"] and seen.get("url") != url:
            return f"downloaded {seen.get('url')}"
        lists = [[int(x) for x in open(os.path.join(out, f)).read().split()] for f in ("train.nodes", "test.nodes")]
        if sorted(lists[0] + lists[1]) != list(range(1, n + 1)) or len(lists[0]) != int(n * c["ratio"]):
            return f"{what}: node lists {lists} with share {c['ratio']}"
        train = set(lists[0])
        nid = {p: i + 1 for i, p in enumerate(papers)}
        links = [set(), set()]
        for a, b in cites:
            if a in nid and b in nid:
                a, b = nid[a], nid[b]
                links[0 if a in train and b in train else 1] |= {(a, b), (b, a)}
        got, num = [[], []], {}
        nodes = []
        for l in seen["text"].splitlines():
            x = l.split(",")
            if x[1] == "-1":
                i = int(x[0])
                nodes.append(i)
                if not 1 <= i <= n:
                    return f"{what}: node {i}"
                if x[2] != ("0" if i in train else "1") or float(x[3]) != 1.0 or x[4] != "float32" or int(x[5]) != F or x[6 + F:8 + F] != ["float32", "1"] or len(x) != F + 9:
                    return f"{what}: node {i} is written as {l[:100]}"
                if [float(v) for v in x[6:6 + F]] != [float(v) for v in feats[i - 1]]:
                    return f"{what}: features of node {i}"
                k = num.setdefault(labels[i - 1], float(x[-1]))
                if k != float(x[-1]):
                    return f"{what}: label {labels[i - 1]} has numbers {k} and {x[-1]}"
            else:
                if not nodes or int(x[0]) != nodes[-1] or float(x[3]) != 1.0 or len(x) != 4 or x[1] not in ("0", "1"):
                    return f"{what}: link written as {l}"
                got[int(x[1])].append((int(x[0]), int(x[2])))
        if sorted(nodes) != list(range(1, n + 1)):
            return f"{what}: nodes {nodes}"
        if sorted(num.values()) != list(range(len(num))):
            return f"{what}: label numbers {num}"
        for k in (0, 1):
            if sorted(got[k], key=lambda x: x[0]) != sorted(links[k]):
                return f"{what}, training nodes {sorted(train)}: links of kind {k} are {got[k]}, listed {sorted(links[k])}"
        with open(os.path.join(out, "meta.json")) as f:
            m = json.load(f)
        if m["node_count"] != n or m["edge_count"] != len(links[0]) + len(links[1]) or sorted(m["partitions"]) != [str(i) for i in range(c["parts"])]:
            return f"{what}: metadata {m}"
        calls = [x for x in LIB.calls if x["!name"] == "CreateLocalGraph"]
        if len(calls) != 1 or sorted(calls[0]["parts"]) != list(range(c["parts"])):
            return f"{c['parts']} partitions written, opened {[x['parts'] for x in calls]}"
        return LIB.problems[0] if LIB.problems else None
    finally:
        os.chdir(here)
        shutil.rmtree(tmp, ignore_errors=True)
