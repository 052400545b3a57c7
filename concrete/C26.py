"""Real marker files in a scratch folder, real threads and server processes, polling sped up."""
import os, shutil, tempfile, threading, time as real_time
from deepgnn.graph_engine.backends.snark import synchronized as S

RULE = "1-3 servers whose markers appear in any order (or never, or one of them late), 1-3 client threads, stale markers, client markers that disappear or stay until the timeout; non-trivial with 2+ servers or a shutdown"


class Fast:
    def __getattr__(self, k):
        return getattr(real_time, k)

    def sleep(self, x):
        real_time.sleep(min(x, .01))


def cases(rng, tier):
    for w in ("connect", "late", "reset", "stale", "server", "shutdown", "timeout"):
        yield {"what": w, "servers": 2, "threads": 2, "rank": 1, "order": [1, 0], "missing": 1, "clients": 2}
    while True:
        n = rng.randrange(1, 4)
        order = list(range(n))
        rng.shuffle(order)
        yield {"what": rng.choice(["connect", "connect", "late", "late", "reset", "stale", "server", "shutdown", "timeout"]), "servers": n, "threads": rng.randrange(1, 4), "rank": rng.randrange(12), "order": order,
               "missing": rng.randrange(n), "clients": rng.randrange(1, 4)}


def trivial(c):
    return c["servers"] < 2 and c["what"] in ("connect", "late")


def marker(tmp, i, kind):
    return os.path.join(tmp, f"snark_{i}.{kind}")


def put(p, text="x"):
    with open(p, "w") as f:
        f.write(text)


class Made:
    def __init__(self, log, tmp, n):
        log.append(all(os.path.exists(marker(tmp, i, "server")) for i in range(n)))
        real_time.sleep(.005)

    def reset(self):
        pass


class Resets:
    def __init__(self, log):
        self.log = log

    def reset(self):
        self.log.append("reset")


def state(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            return f.read().rsplit(")", 1)[1].split()[0]
    except OSError:
        return "gone"


def wait(f, t=8.):
    end = real_time.time() + t
    while real_time.time() < end:
        if f():
            return True
        real_time.sleep(.003)
    return f()


class Server:
    def __init__(self, tmp, i, slow):
        real_time.sleep(slow)
        if os.path.exists(marker(tmp, i, "server")):
            put(os.path.join(tmp, f"early{i}"))
        put(os.path.join(tmp, f"started{i}.part"), str(os.getpid()))
        os.rename(os.path.join(tmp, f"started{i}.part"), os.path.join(tmp, f"started{i}"))

    def reset(self):
        pass


def connect(c, tmp):
    n = c["servers"]
    late = c["what"] == "late"
    log, out = [], []
    cl = S.SynchronizedClient(tmp, c["rank"], n, .12 if late else 20., Made, log, tmp, n)
    own = marker(tmp, c["rank"], "client")
    if not os.path.exists(own):
        return "no marker of the client"

    def use():
        try:
            out.append(cl.client)
        except TimeoutError as e:
            out.append(e)
        except FileNotFoundError as e:
            out.append(e) if c["threads"] > 1 and late else out.append(RuntimeError(repr(e)))
        except Exception as e:
            out.append(RuntimeError(repr(e)))
    ts = [threading.Thread(target=use, daemon=True) for _ in range(1 if late else c["threads"])]
    for t in ts:
        t.start()
    for i in c["order"]:
        real_time.sleep(.02)
        if not (late and i == c["missing"]):
            put(marker(tmp, i, "server"))
    for t in ts:
        t.join(30)
        if t.is_alive():
            return "connecting did not finish"
    for x in out:
        if isinstance(x, RuntimeError):
            return f"connecting failed: {x}"
    if late:
        if log or not isinstance(out[0], TimeoutError):
            return f"a client was created although server {c['missing']} never started" if log else f"got {out[0]!r} instead of a timeout"
        if os.path.exists(own):
            return "the marker of the client stays after the timeout"
        return None
    if not all(log):
        return "a client was created before all servers started"
    if len(log) != 1 or any(x is not out[0] for x in out) or isinstance(out[0], Exception):
        return f"{len(log)} clients created, {out}"
    if not os.path.exists(own):
        return "the marker of the client is gone while it is connected"
    cl.reset()
    return "the marker of the client stays after disconnecting" if os.path.exists(own) else None


def reset(c, tmp):
    log = []
    cl = S.SynchronizedClient(tmp, c["rank"], 1, 20., Resets, log)
    put(marker(tmp, 0, "server"))
    put(marker(tmp, c["rank"] + 1, "client"))
    cl.client
    cl.reset()
    if log != ["reset"]:
        return f"resets of the client: {log}"
    if os.path.exists(marker(tmp, c["rank"], "client")) or not os.path.exists(marker(tmp, c["rank"] + 1, "client")) or not os.path.exists(marker(tmp, 0, "server")):
        return "not exactly its own marker was removed"


def stale(c, tmp):
    put(marker(tmp, c["rank"], "client"), "stale")
    try:
        S.SynchronizedClient(tmp, c["rank"], 1, 1., Made, [], tmp, 1)
        return "a client started over a marker left behind"
    except AssertionError:
        pass
    put(marker(tmp, c["missing"], "server"), "stale")
    p = S._ServerProcess(tmp, c["missing"], Server, tmp, c["missing"] + 100, 0)
    p.start()
    if not wait(lambda: state(p.pid) in ("Z", "gone")):
        p.terminate()
        return "a server keeps running over a marker left behind"
    for q in (marker(tmp, c["rank"], "client"), marker(tmp, c["missing"], "server")):
        with open(q) as f:
            if f.read() != "stale":
                return "a marker left behind was replaced"


def server(c, tmp):
    s = S.SynchronizedServer(tmp, 0, 5., Server, tmp, 0, .05)
    try:
        if not wait(lambda: os.path.exists(marker(tmp, 0, "server"))):
            return "no marker of the server"
        if not os.path.exists(os.path.join(tmp, "started0")) or os.path.exists(os.path.join(tmp, "early0")):
            return "the marker was published before the server started"
        if c["what"] == "server":
            s.reset()
            return "the marker of the server stays" if os.path.exists(marker(tmp, 0, "server")) else None
        with open(os.path.join(tmp, "started0")) as f:
            pid = int(f.read())
        for i in range(c["clients"]):
            put(marker(tmp, c["rank"] + 7 * i, "client"))
        if c["what"] == "timeout":
            s.timeout = .1
        done = []
        t = threading.Thread(target=lambda: done.append(s.reset()), daemon=True)
        t.start()
        if c["what"] == "timeout":
            t.join(20)
            return "shutdown does not end after the timeout" if t.is_alive() else None
        for i in range(c["clients"]):
            real_time.sleep(.04)
            if done or not t.is_alive() or state(pid) in ("Z", "gone"):
                return f"the server stopped while {c['clients'] - i} clients were connected"
            if not os.path.exists(marker(tmp, 0, "server")):
                return "the marker of the server was removed while clients were connected"
            os.remove(marker(tmp, c["rank"] + 7 * i, "client"))
        t.join(20)
        return "shutdown does not end although every client left" if t.is_alive() else None
    finally:
        for p in [x for x in vars(s).values() if hasattr(x, "is_alive") and hasattr(x, "terminate")]:
            if p.is_alive():
                p.terminate()


def check(c):
    if hasattr(S, "time"):
        S.time = Fast()
    tmp = tempfile.mkdtemp(prefix="c26_")
    try:
        return {"connect": connect, "late": connect, "reset": reset, "stale": stale}.get(c["what"], server)(c, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def cleanup():
    import multiprocessing
    for p in multiprocessing.active_children():
        p.terminate()
