"""C08: alias tables."""
from contracts._writers import *

LEVEL = "proof"
LEVEL_NOTE = (
    "Unbounded proof in exact real arithmetic: any number of elements, any non-negative weights with positive total. Ghost code follows the table stores; the invariant says that for every element "
    "the mass received from finished slots plus its own remaining weight equals its scaled weight, and that the remaining weights sum to the number of unfinished slots. "
    "Rounding of float32 tables is not modelled (checked to a tolerance on concrete inputs)."
)
ASSUMPTIONS = ["arithmetic is exact (float32 rounding not modelled)", "numpy.fromfile reads back what was written to the temporary file",
               "linearity of finite sums: weights scaled by count/total sum to count",
               "a finite family of numbers all >= 1 (or all <= 1) whose sum equals its size has only ones"]
A = GE + "snark.alias:"


def setup(world):
    install_mp(world)
    install_binary(world)
    world.kinds["wfile"] = WFile


def G(c):
    return c.ghost["acc"].fields


def on_store(it, a, i, v):
    """ghost code: done(i), mass received by the probed element, sum of the weights of unfinished slots"""
    c = it.ctx
    vo, e, n = c.ghost["%v"], c.ghost["%e"], c.ghost["%n"]
    acc = c.ghost["acc"]
    g = acc.fields
    done = snap(g["done"])
    log = c.ghost["%log"]
    same = lambda x, y: simp(to_z(x) == to_z(y)) is True
    if a is vo.fields.get("alias"):
        c.oblige("alias refers to an element", inrange(0, v, n))
        for s, p in log:
            if same(s, i):
                al = snap(a)(i)
                term = lambda w: z3.If(z3.And(to_real(p) < 1, to_z(w) == e), 1 - to_real(p), z3.RealVal(0))
                it.setfield(acc, "recv", g["recv"] - term(al) + term(v))
                return
        c.oblige("finished slots keep their alias", Not(done(i)))
        return
    if a is vo.fields.get("prob"):
        c.oblige("every slot is filled once", Not(done(i)))
        c.oblige("slot probability lies between 0 and 1", And(ge(v, 0), le(v, 1)))
        al = snap(vo.fields["alias"])(i)
        it.setfield(acc, "recv", g["recv"] + z3.If(z3.And(to_real(v) < 1, to_z(al) == e), 1 - to_real(v), z3.RealVal(0)))
        it.setfield(acc, "T", g["T"] - to_real(snap(c.ghost["%wts"])(i)))
        it.setfield(acc, "done", c.reg(NArr((n,), lambda q, d=done, j=i: Or(to_z(q) == to_z(j), d(q)), "bool")))
        log.append((i, v))
        return
    if a is c.ghost.get("%wts"):
        c.oblige("only weights of unfinished slots change", Not(done(i)))
        it.setfield(acc, "T", g["T"] + to_real(v) - to_real(snap(a)(i)))
        return
    raise Unsupported("store to another array")


def to_real(x):
    x = to_z(x)
    return z3.ToReal(x) if z3.is_int(x) else x


def at(l, q):
    return lget(l, q) if l.sym else None


def each(l, f):
    """for all positions p of list l: f(p, l[p])"""
    if l.items is not None:
        return And(*[f(p, x) for p, x in enumerate(l.items)])
    return ForAll(1, lambda p: Implies(inrange(0, p, l.length()), f(p, lget(l, p))))


def isin(l, e):
    if l.items is not None:
        return Or(*[eqv(x, e) for x in l.items])
    return Exists(1, lambda p: And(inrange(0, p, l.length()), eqv(lget(l, p), e)))


def inv(building, drain=False):
    def f(L):
        c = L.c
        g, n, e = G(c), c.ghost["%n"], c.ghost["%e"]
        vo = c.ghost["%v"]
        if L.phase in ("init", "assume"):
            c.ghost["%log"] = []
        sm, la, wts = L.small, L.large, L.weights
        if L.phase == "init" and building:
            c.ghost["%wts"] = wts
        if wts is not c.ghost["%wts"]:
            raise Unsupported("weights replaced")
        w = lambda i: to_real(snap(wts)(i))
        done = snap(g["done"])
        if L.phase == "assume":
            # finite families: numbers all >= 1 (or all <= 1) whose sum is their number are ones
            c.assume(Implies(And(eqv(sm.length(), 0), g["T"] == to_real(la.length())), each(la, lambda p, x: w(x) == 1)))
            c.assume(Implies(And(eqv(la.length(), 0), g["T"] == to_real(sm.length())), each(sm, lambda p, x: w(x) == 1)))
        hi = L.k if building else n
        out = [("light slots", each(sm, lambda p, x: And(inrange(0, x, hi), w(x) <= 1, w(x) >= 0, Not(done(x))))),
               ("heavy slots", each(la, lambda p, x: And(inrange(0, x, hi), w(x) >= 1, Not(done(x))))),
               ("light slots differ", each(sm, lambda p, x: each(sm, lambda q, y: Implies(lt(p, q), Not(eqv(x, y)))))),
               ("heavy slots differ", each(la, lambda p, x: each(la, lambda q, y: Implies(lt(p, q), Not(eqv(x, y)))))),
               ("light and heavy slots differ", each(sm, lambda p, x: each(la, lambda q, y: Not(eqv(x, y))))),
               ("every unfinished slot is waiting", Implies(And(lt(e, hi), Not(done(e))), Or(isin(sm, e), isin(la, e)))),
               ("mass of every element", g["recv"] + z3.If(to_z(done(e)), to_real(snap(vo.fields["prob"])(e)), w(e)) == c.ghost["%w0"](e))]
        if building:
            out += [("nothing finished yet", And(Not(done(e)), g["T"] == to_real(n), eqv(add(sm.length(), la.length()), L.k), g["recv"] == 0)),
                    ("nothing finished", ForAll(1, lambda i: Not(done(i))))]
        else:
            if drain:
                out.append(("only light or only heavy slots are left", Or(eqv(sm.length(), 0), eqv(la.length(), 0))))
            out.append(("weights sum to the number of unfinished slots", g["T"] == to_real(add(sm.length(), la.length()))))
        return out
    return f


TY = {"L:small/contents": "int", "L:large/contents": "int"}
LOOPS = [LoopSpec("build", inv(True), when=lambda L: isinstance(L.node, ast.For), types=TY),
         LoopSpec("pair", inv(False), when=lambda L: isinstance(L.node, ast.While) and "weights" in L.src(), types=TY, variant=lambda L: add(L.small.length(), L.large.length())),
         LoopSpec("drain", inv(False, True), when=lambda L: isinstance(L.node, ast.While), types=TY, variant=lambda L: add(L.small.length(), L.large.length()))]


@proof("the table gives each element its share", loops=LOOPS, feas_ms=40, budget=300)
def p_vose(c, it):
    n = c.int("n", lo=1)
    w = c.func("w", "int", "real")
    W = c.real("total")
    c.assume(W > 0)
    c.assume(ForAll(1, lambda i: w(i) >= 0))
    e = c.int("e", lo=0)
    c.assume(e < n)
    M = dict(it.world.models)
    weights = c.reg(NArr((n,), lambda i: w(to_z(i)), "float32"))

    def npsum(it, a, k):
        if a[0] is weights:
            return W
        return M["numpy.sum"](it, a, k)
    it.world.models["numpy.sum"] = npsum
    v = it.new(A + "Vose")
    scale = z3.ToReal(to_z(n)) / W
    c.assume(scale > 0)
    c.ghost.update({"%v": v, "%e": to_z(e), "%n": to_z(n), "%w0": lambda i: w(i) * scale, "%on_store": on_store, "%log": [],
                    "acc": c.reg(Ext("acc", recv=z3.RealVal(0), T=z3.ToReal(to_z(n)), done=c.reg(NArr((n,), lambda i: False, "bool"))))})
    el = c.reg(VList(n=n, fn=lambda i: Tok("element", to_z(i))))
    try:
        it.call_method(v, "__init__", [el, weights])
    except PyExc as x:
        c.oblige("no exception on valid weights", False)
        return
    g = G(c)
    al, pr = v.fields["alias"], v.fields["prob"]
    c.oblige("elements kept", v.fields["elements"] is el)
    c.oblige("a probability and an alias per element", And(len(al.shape) == 1, eqv(al.shape[0], n), eqv(pr.shape[0], n)))
    c.oblige("every slot is filled", to_z(snap(g["done"])(e)))
    c.oblige("the mass an element receives over all slots is its share", (g["recv"] + to_real(snap(pr)(e))) == w(to_z(e)) * scale)


# ---------------------------------------------------------------- sampler files
add_proof({"alias"}, False)


def check(c, it, w, suf, sn, se, wm):
    f = w.fields
    for k, sk in (("node_alias", sn), ("edge_alias", se)):
        x = f[k]
        real = isinstance(x, Ext)
        c.oblige(k + " exactly when not skipped", cmp("==", sk, not real))
        if real:
            a = x.fields["args"]
            c.oblige(k + " gets folder and partition", len(a) == 2 and a[0] == "out" and eqv(a[1], suf))


init_proof(check)


class FList:
    """temporary files of all types"""

    def m___getitem__(it, o, t):
        c = it.ctx
        n = o.fields["n"]
        if not c.branch(inrange(0, t, n)):
            raise PyExc(IndexError, ("list index out of range",))
        return c.reg(Ext("tmpfile", which=o.fields["which"], t=t, name=Tok("tmpname", o.fields["which"], t)))

    def m___len__(it, o):
        return o.fields["n"]

    def m_append(it, o, f):
        it.ctx.ghost["%opened"].append((o.fields["which"], f))
        it.setfield(o, "n", add(o.fields["n"], 1))


class Tmp:
    def m_write(it, o, data):
        it.ctx.ghost["%written"].append((o.fields["which"], o.fields["t"], as_bytes(it, data)))
        return as_bytes(it, data).length()

    def m_tell(it, o):
        c = it.ctx
        return mul(c.ghost["%size"][o.fields["which"]], c.ghost["%cnt"](to_z(o.fields["t"])))

    def m_close(it, o):
        return None

    def m_flush(it, o):
        return None


def fromfile(it, a, k):
    c = it.ctx
    f = it.force(a[0])
    dt = dtype_of(it, k.get("dtype", a[1] if len(a) > 1 else None))
    off = k.get("offset", 0)
    which, t = f.fields["which"], to_z(f.fields["t"])
    size = c.ghost["%size"][which]
    c.oblige("the file is read from its beginning", eqv(off, mul(-1, mul(size, c.ghost["%cnt"](t)))))
    c.oblige("the file is read to its end", k.get("count", -1) == -1)
    cnt = c.ghost["%cnt"](t)
    if which == "weights":
        c.oblige("weights are read as they were written", dt == "float32")
        return c.reg(NArr((cnt,), lambda i: c.ghost["%wt"](t, to_z(i)), "float32"))
    c.oblige("ids are read as they were written", dt in ("int64", "uint64"))
    if which == "nodes":
        return c.reg(NArr((cnt,), lambda i: c.ghost["%id"](t, to_z(i), 0), dt))
    pairs = c.reg(NArr((mul(cnt, 2),), lambda i: c.ghost["%flatid"](it, t, i), dt))
    return pairs


def flatid(it, t, i):
    c = it.ctx
    q, r = c.divmod(i, 2)
    return c.ghost["%id"](t, to_z(q), to_z(r))


def vose(it, a, k):
    """contract of the table (proved above): valid aliases and probabilities for the elements given"""
    c = it.ctx
    ids, w = it.force(a[0]), it.force(a[1])
    n = ids.shape[0]
    t = c.ghost["%curt"]
    q = c.int("slot", lo=0)
    if len(ids.shape) == 2:
        col = c.int("col", lo=0, hi=1)
        same = eqv(snap(ids)(q, col), c.ghost["%id"](to_z(t), to_z(q), to_z(col)))
    else:
        same = eqv(snap(ids)(q), c.ghost["%id"](to_z(t), to_z(q), 0))
    cnt = c.ghost["%cnt"](to_z(t))
    c.oblige("the table is built from the type's own elements", And(eqv(n, cnt), Implies(lt(q, cnt), same)))
    c.oblige("the table is built from the type's own weights", And(eqv(w.shape[0], cnt), Implies(lt(q, cnt), cmp("==", snap(w)(q), c.ghost["%wt"](to_z(t), to_z(q))))))
    al, pr = c.ghost["%al"], c.ghost["%pr"]
    tz = to_z(t)
    c.assume(ForAll(1, lambda i: z3.And(al(tz, i) >= 0, z3.Implies(z3.And(i >= 0, i < cnt), al(tz, i) < cnt), pr(tz, i) >= 0, pr(tz, i) <= 1)))
    return c.reg(Ext("vose", elements=ids, alias=c.reg(NArr((n,), lambda i: al(tz, to_z(i)), "uint64")), prob=c.reg(NArr((n,), lambda i: pr(tz, to_z(i)), "float32"))))


class AFS:
    def m_open(it, o, path, mode="rb", **k):
        c = it.ctx
        edge = c.ghost["%edge"]
        p = it.tostr(path)
        want = mkstr(["out/", "edge" if edge else "node", "_", int_str(it, c.ghost["%curt"]), "_", int_str(it, c.ghost["%part"]), ".alias"])
        c.oblige("sampler file named after type and partition", eqv(p, want))
        c.oblige("written from scratch", mode == "wb")
        return c.reg(Ext("wfile", role="alias", pos=0, writes=0, closed=False))


def int_str(it, v):
    return it.tostr(v)


def hook(it, o, b):
    c = it.ctx
    t, edge = to_z(c.ghost["%curt"]), c.ghost["%edge"]
    k = to_z(o.fields["writes"])
    idf, al, pr = c.ghost["%id"], c.ghost["%al"], c.ghost["%pr"]
    ncol = 2 if edge else 1
    segs = b.segs
    c.oblige("fields of a record", len(segs) == 2 * ncol + 1 and [s[0][2:] for s in segs[:-1]] in (["q"] * 2 * ncol, ["Q"] * 2 * ncol) and segs[-1][0] == "c:f")
    if len(segs) != 2 * ncol + 1:
        return
    for j in range(ncol):
        c.oblige("records list the elements in order", eqv(segs[j][1][0], idf(t, k, j)))
        c.oblige("with the element that takes the rest of the slot", Implies(pr(t, k) < 1, eqv(segs[ncol + j][1][0], idf(t, al(t, k), j))))
    c.oblige("and the probability of the slot", cmp("==", segs[-1][1][0], pr(t, k)))


def on_close(it, o):
    c = it.ctx
    c.oblige("one record per element of the type", eqv(o.fields["writes"], c.ghost["%cnt"](to_z(c.ghost["%curt"]))))


def ghosts(c, it, edge):
    it.world.kinds.update({"flist": FList, "tmpfile": Tmp, "afs": AFS})
    it.world.models["numpy.fromfile"] = fromfile
    cnt = c.func("cnt", "int", "int")
    c.assume(ForAll(1, lambda t: cnt(t) >= 0))
    part = c.int("part", lo=0)
    c.ghost.update({"%cnt": cnt, "%id": c.func("id", "int", "int", "int", "int"), "%wt": c.func("wt", "int", "int", "real"), "%al": c.func("al", "int", "int", "int"),
                    "%pr": c.func("pr", "int", "int", "real"), "%size": {"weights": 4, "nodes": 8, "pairs": 16}, "%edge": edge, "%part": part, "%flatid": flatid,
                    "%opened": [], "%written": [], "%hook_alias": hook, "%close_alias": on_close, "%records": []})
    T = c.int("types", lo=0)
    ids = "pairs" if edge else "nodes"
    w = it.new(W + ("EdgeAliasWriter" if edge else "NodeAliasWriter"), fs=c.reg(Ext("afs")), folder="out", partition=part, meta_tmp_folder=c.reg(Ext("tmpdir", name="tmp")),
               weights=c.reg(Ext("flist", which="weights", n=T)), **{ids: c.reg(Ext("flist", which=ids, n=T))})
    return w, T, ids


class TmpDir:
    def m_cleanup(it, o):
        return None


def rec_inv(L):
    f = [v for v in L.env.vars.values() if isinstance(v, Ext) and v.kind == "wfile"]
    if len(f) != 1:
        raise Unsupported("sampler file not identified")
    return [("records so far", eqv(f[0].fields["writes"], L.k))]


def type_inv(L):
    if not isinstance(L.node, ast.For):
        raise Unsupported("types not counted by the loop")
    L.c.ghost["%curt"] = L.k


def mk(edge):
    what = "edge" if edge else "node"
    loops = [LoopSpec("records", rec_inv, when=lambda L: "pack" in L.src() and "fromfile" not in L.src()),
             LoopSpec("types", type_inv, when=lambda L: "fromfile" in L.src() or "Vose" in L.src()),
             LoopSpec("cleanup", type_inv)]

    @proof(f"{what} sampler files: one record per element of the type", loops=loops, overrides={GE + "snark.alias.Vose": vose})
    def p(c, it):
        it.world.kinds["tmpdir"] = TmpDir
        it.world.models["os.remove"] = lambda it, a, k: it.ctx.oblige("only temporary files are removed", isinstance(a[0], Tok) and a[0].kind == "tmpname")
        w, T, ids = ghosts(c, it, edge)
        c.ghost["%done"] = []
        it.call_method(w, "close", [])

    @proof(f"{what} samplers keep id and weight of every record under its type")
    def q(c, it):
        w, T, ids = ghosts(c, it, edge)
        t = c.int("t", lo=0)
        c.assume(lt(t, T))
        a, b, wt = c.int("a", lo=0), c.int("b", lo=0), c.real("w")
        it.call_method(w, "add", [a, b, t, wt] if edge else [a, t, wt])
        log = c.ghost["%written"]
        mine = [x for x in log if x[0] == ids]
        c.oblige("only the id and weight files of the type are written", And(len(log) == len(mine) + 1, *[eqv(x[1], t) for x in log]))
        allb = Bytes([s for x in mine for s in x[2].segs])
        c.oblige("id of the element", bytes_are(allb, [("Q", a), ("Q", b)] if edge else [("Q", a)]))
        ws = [x for x in log if x[0] == "weights"]
        c.oblige("its weight", len(ws) == 1 and bytes_are(ws[0][2], [("f", wt)]))


mk(False)
mk(True)


def types_proof(edge):
    @proof(("edge" if edge else "node") + " samplers open files of their own for a new type")
    def p(c, it):
        opened = []

        def op(it, a, k):
            opened.append((it.tostr(a[0]), a[1] if len(a) > 1 else k.get("mode", "r")))
            return it.ctx.reg(Ext("tmpfile", which="new", t=0))
        it.world.models["builtins.open"] = op
        names = []
        w, T, ids = ghosts(c, it, edge)
        it.call_method(w, "add_type", [])
        it.call_method(w, "add_type", [])
        c.oblige("an id file and a weight file per type", And(len(opened) == 4, eqv(w.fields[ids].fields["n"], add(T, 2)), eqv(w.fields["weights"].fields["n"], add(T, 2))))
        for i in range(len(opened)):
            for j in range(i):
                c.oblige("files of their own", Not(eqv(opened[i][0], opened[j][0])))
            c.oblige("opened empty for writing and reading back", opened[i][1] in ("wb+", "w+b", "bw+"))


types_proof(False)
types_proof(True)
