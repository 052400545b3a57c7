"""The real prefetching iterator over real thread pools, with forced and random orders."""
import contextlib, io, threading, time
import deepgnn.graph_engine.prefetch as pf
from deepgnn.graph_engine._adl_reader import FetchDone

RULE = "0-12 samples, 1-4 parallel queries, queue 1-5, delays so that results come before or after the end marker, at most one failing sample or query (with and without a message), results that are None or empty; non-trivial with 2+ samples"
pf.traceback.print_exc = lambda *a, **k: None


def cases(rng, tier):
    yield {"n": 0, "par": 1, "size": 2, "fail": None, "late": False, "delay": 0}
    yield {"n": 1, "par": 2, "size": 3, "fail": ["query", 0], "late": True, "delay": 0}
    yield {"n": 2, "par": 2, "size": 3, "fail": ["query", 1], "late": True, "delay": 0}
    yield {"n": 3, "par": 2, "size": 9, "fail": None, "late": True, "delay": 0}
    yield {"n": 2, "par": 2, "size": 3, "fail": ["sampler", 2], "late": False, "delay": 0}
    yield {"n": 4, "par": 2, "size": 3, "fail": None, "late": False, "delay": 0, "odd": True}
    for k in range(5):
        yield {"n": 3, "par": 2, "size": 3, "fail": ["sampler", 1], "late": False, "delay": 0, "error": k}
        yield {"n": 3, "par": 2, "size": 3, "fail": ["query", 1], "late": False, "delay": 0, "error": k}
    yield {"n": 25, "par": 3, "size": 2, "fail": None, "late": False, "delay": 0}
    while True:
        n = rng.randrange(0, 13)
        fail = None
        if rng.random() < .4:
            fail = ["sampler", rng.randrange(0, n + 1)] if rng.random() < .5 or not n else ["query", rng.randrange(n)]
        odd = rng.random() < .3
        late = rng.random() < .4 and not (fail and fail[0] == "sampler")
        yield {"n": n, "par": rng.randrange(1, 5), "size": n + 2 if late else rng.randrange(1, 6), "fail": fail, "late": late, "delay": rng.choice([0, 0, 1, 2]), "odd": odd, "error": rng.randrange(5)}


class Stop(BaseException):
    pass


def error(c, text):
    return [OSError(text), ValueError(), KeyError(0), Stop(), AssertionError()][c.get("error", 0)]


ODD = [None, 0, (), "", False]


def trivial(c):
    return c["n"] < 2


class Sampler:
    def __init__(self, c):
        self.c = c

    def __iter__(self):
        for i in range(self.c["n"]):
            if self.c["fail"] == ["sampler", i]:
                raise error(self.c, "sampler")
            yield ("sample", i)
        if self.c["fail"] == ["sampler", self.c["n"]]:
            raise error(self.c, "sampler")


def run(c, out):
    hold, g0 = {}, object()
    marked = threading.Event()

    class Q(pf.Queue):
        def put(self, item, *a, **k):
            super().put(item, *a, **k)
            if type(item) is FetchDone and item.exception_info is None:
                marked.set()

    def query(graph, sample):
        if graph is not g0:
            raise RuntimeError("another graph")
        i = sample[1]
        if c["late"] and i >= c["n"] - c["par"]:
            marked.wait(5)
        if c["delay"]:
            time.sleep(.0005 * c["delay"] * ((i * 7) % 3))
        if c["fail"] == ["query", i]:
            raise error(c, "query")
        if c.get("odd"):
            return ODD[i % len(ODD)]
        return ("result", i)
    old = pf.Queue
    pf.Queue = Q
    try:
        gen = pf.Generator(g0, Sampler(c), query, prefetch_size=c["size"], max_parallel=c["par"])
    finally:
        pf.Queue = old
    got, err = [], None
    try:
        for x in gen:
            got.append(x)
    except Exception as e:
        err = e
    if err is None:
        # asking again must end again
        try:
            x = next(gen)
            out.append(f"after the end came {x!r}")
            return
        except StopIteration:
            pass
    out.append((got, err))
    gen.stop_evt.set()
    gen.join()


def check(c):
    out = []
    t = threading.Thread(target=lambda: guarded(c, out), daemon=True)
    t.start()
    t0 = time.time()
    while not out and time.time() - t0 < 20 and t.is_alive():
        time.sleep(.002)
    t.join(5)
    if not out:
        return "the iterator waits forever" if t.is_alive() else "the iterator ended without an answer"
    if isinstance(out[0], (str, Exception)):
        if isinstance(out[0], Exception):
            raise out[0]
        return out[0]
    got, err = out[0]
    if c.get("odd"):
        if not c["fail"]:
            want = [ODD[i % len(ODD)] for i in range(c["n"])]
            if err is not None:
                return f"raised {err!r} without a failure"
            return None if sorted(map(repr, got)) == sorted(map(repr, want)) else f"returned {got!r} for results {want!r}"
        return None if err is not None else f"{c['fail'][0]} failed but iteration ended normally"
    bad = [x for x in got if not (isinstance(x, tuple) and x[0] == "result")]
    if bad:
        return f"returned {bad[0]!r}, which is no query result"
    ids = [x[1] for x in got]
    if len(set(ids)) != len(ids):
        return f"results {ids} contain a repetition"
    if c["fail"]:
        return None if err is not None else f"{c['fail'][0]} failed but iteration ended normally after {ids}"
    if err is not None:
        return f"raised {err!r} without a failure"
    if sorted(ids) != list(range(c["n"])):
        return f"results {sorted(ids)} for {c['n']} samples"


def guarded(c, out):
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            run(c, out)
    except Exception as e:
        out.append(e)
