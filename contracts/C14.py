"""C14: the text reader returns every line once, whatever the block layout."""
import ast
from vc.api import *

LEVEL = "proof"
LEVEL_NOTE = (
    "Proof over files of any content and size, any block size, offset, queue and batch size: blocks read by parallel threads merge into exactly the text between the "
    "first and last line feed plus the two open ends; the producer hands over every byte of every file of every epoch once and in order; the consumer turns that "
    "stream into its lines. The merge is proved for any number of threads, with tasks run one after the other, and for 1 to 3 threads also with the tasks run late in reverse order. Decoded text becomes the non-empty parts between its line feeds, without a final carriage return; a reader is created at the first byte to read with nothing left over."
)
ASSUMPTIONS = ["reading a file at an offset returns its bytes there, fewer only at the end", "tasks of a thread pool have finished when the pool is left; each writes its own part only (obliged), so their order does not matter",
               "a queue hands over items in order", "no read fails", "files keep their content while they are read",
               "splitting text at line feeds gives the parts between them; decoding utf-8 keeps line feeds; text between two line feeds is one line; bytes.index finds the first match (first and last line feed axioms)"]
R = GE + "_adl_reader:"
Q = GE + "_adl_reader."
I_, B_ = z3.IntSort(), z3.BoolSort()
FN, PN = z3.Function("first_lf", I_, I_), z3.Function("last_lf", I_, I_)   # first line feed at or after, last before
NL = z3.Function("is_lf", I_, B_)


def setup(world):
    world.kinds.update({"fs14": FS, "rf14": RF, "adl14": ADL, "seg": Seg, "rseg": RSeg, "pool14": Pool, "q14": Q14, "blk": Blk, "object": type("O", (), {})})


def seg(c, a, b):
    return c.reg(Ext("seg", a=a, b=b))


class Seg:
    """bytes a..b of the file being read"""

    def m___len__(it, o):
        return sub(o.fields["b"], o.fields["a"])

    def find(it, o):
        a, b = to_z(o.fields["a"]), to_z(o.fields["b"])
        return it.ctx.branch(FN(a) < b), FN(a) - a

    def lf(x):
        if x not in (b"\n", 10, "\n"):
            raise Unsupported("search for something else")

    def m_index(it, o, x):
        Seg.lf(x)
        ok, p = Seg.find(it, o)
        if not ok:
            raise PyExc(ValueError, ("subsection not found",))
        return p

    def m_find(it, o, x):
        Seg.lf(x)
        ok, p = Seg.find(it, o)
        return p if ok else -1

    def m_rindex(it, o, x):
        Seg.lf(x)
        ok, _ = Seg.find(it, o)
        if not ok:
            raise PyExc(ValueError, ("subsection not found",))
        return PN(to_z(o.fields["b"])) - to_z(o.fields["a"])

    def m_rfind(it, o, x):
        Seg.lf(x)
        ok, _ = Seg.find(it, o)
        return PN(to_z(o.fields["b"])) - to_z(o.fields["a"]) if ok else -1

    def m___contains__(it, o, x):
        Seg.lf(x)
        return FN(to_z(o.fields["a"])) < to_z(o.fields["b"])

    def m___getitem__(it, o, k):
        c, a, b = it.ctx, to_z(o.fields["a"]), to_z(o.fields["b"])
        if not isinstance(k, slice):
            raise Unsupported("single byte")
        if k.step == -1 and k.start is None and k.stop is None:
            return c.reg(Ext("rseg", a=a, b=b))
        if k.step not in (None, 1):
            raise Unsupported("stride")

        def at(x, d):
            if x is None:
                return d
            x = to_z(x)
            x = z3.If(x < 0, x + (b - a), x)
            return a + z3.If(x < 0, 0, z3.If(x > b - a, b - a, x))
        s, e = at(k.start, a), at(k.stop, b)
        return seg(c, simp(s), simp(z3.If(e < s, s, e)))

    def iop_Add(it, o, v):
        v = it.force(v)
        if not (isinstance(v, Ext) and v.kind == "seg"):
            raise Unsupported("appending something else")
        it.ctx.oblige("bytes are joined where they meet in the file", Or(eqv(o.fields["b"], v.fields["a"]), eqv(v.fields["a"], v.fields["b"]), eqv(o.fields["a"], o.fields["b"])))
        empty = eqv(o.fields["a"], o.fields["b"])
        it.setfield(o, "a", ite(And(empty, Not(eqv(v.fields["a"], v.fields["b"]))), v.fields["a"], o.fields["a"]))
        it.setfield(o, "b", ite(eqv(v.fields["a"], v.fields["b"]), o.fields["b"], v.fields["b"]))

    def op_Add(it, o, v):
        r = seg(it.ctx, o.fields["a"], o.fields["b"])
        Seg.iop_Add(it, r, v)
        return r


class RSeg:
    def m_index(it, o, x):
        a, b = to_z(o.fields["a"]), to_z(o.fields["b"])
        Seg.lf(x)
        if not it.ctx.branch(FN(a) < b):
            raise PyExc(ValueError, ())
        return b - 1 - PN(b)


class RF:
    def m_seek(it, o, p, *a):
        it.setfield(o, "pos", p)

    def m_read(it, o, n=-1):
        return cut(it, o.fields["pos"], n)

    def m___enter__(it, o):
        return o

    def m___exit__(it, o, *a):
        return None

    def m_close(it, o):
        return None


def cut(it, p, n):
    c = it.ctx
    p, n, S = to_z(p), to_z(n), c.ghost["%size"]
    e = z3.If(p + n < S, p + n, S)
    return seg(c, p, simp(z3.If(e < p, p, e)))


class FS:
    def m_open(it, o, path, mode="r", *a, **k):
        it.ctx.oblige("the current file is read", eqv(path, it.ctx.ghost["%file"]))
        it.ctx.oblige("files are read as bytes", mode == "rb")
        return it.ctx.reg(Ext("rf14", pos=0))


class ADL:
    def m_read_block(it, o, path, p, n):
        it.ctx.oblige("the current file is read", eqv(path, it.ctx.ghost["%file"]))
        return cut(it, p, n)


class Pool:
    """tasks run when submitted or, in the other case, in reverse order when the pool is left"""

    def m___enter__(it, o):
        return o

    def m_submit(it, o, f, *a, **k):
        if it.ctx.ghost["%late"]:
            it.ctx.ghost["%tasks"].append((f, a, k))
        else:
            it.call(f, list(a), k)
        return it.ctx.reg(Ext("object"))

    def m_map(it, o, f, *seqs):
        raise Unsupported("map")

    def m___exit__(it, o, *a):
        ts, it.ctx.ghost["%tasks"] = it.ctx.ghost["%tasks"], []
        for f, a, k in reversed(ts):
            it.call(f, list(a), k)

    def m_shutdown(it, o, *a, **k):
        Pool.m___exit__(it, o)


def axioms(c):
    """first/last line feed of the text"""
    c.assume(ForAll(1, lambda a: And(FN(a) >= a, PN(a) < a)))
    c.assume(ForAll(2, lambda a, b: Implies(a <= b, And(cmp("==", FN(a) < b, PN(b) >= a), Implies(FN(a) < b, And(FN(a) <= PN(b), NL(FN(a)), NL(PN(b))))))))
    c.assume(ForAll(2, lambda a, m: Implies(And(a <= m, FN(a) >= m), FN(a) == FN(m))))
    c.assume(ForAll(2, lambda m, b: Implies(And(m <= b, PN(b) < m), PN(b) == PN(m))))


def is_seg(v, a, b):
    """the value is the bytes a..b"""
    if isinstance(v, Opt):
        return And(Not(v.isnone), is_seg(v.val, a, b))
    if not (isinstance(v, Ext) and v.kind == "seg"):
        return False
    x, y = v.fields["a"], v.fields["b"]
    return Or(And(eqv(x, a), eqv(y, b)), And(eqv(a, b), eqv(x, y)))


def cover(items, n1, n2):
    """the line groups cover the text between the line feeds n1 and n2 in order; a skipped group is one empty line"""
    e, fs = n1, []
    for t in items:
        if not (isinstance(t, Tok) and t.kind == "lines"):
            return False
        a, b = t.fields
        fs.append(Or(eqv(a, add(e, 1)), And(eqv(a, add(e, 2)), NL(to_z(add(e, 1))))))
        e = b
    fs.append(Or(eqv(e, n2), And(eqv(add(e, 1), n2), e is not n1)) if items else Or(eqv(n1, n2), eqv(add(n1, 1), n2)))
    return And(*fs)


def split_lines(it, a, k):
    s = a[0]
    return it.ctx.reg(VList(items=[Tok("lines", s.fields["a"], s.fields["b"])]))


def merged(T, adl):
    @proof(f"blocks of {T} thread{'s' if T > 1 else ''} merge ({'data lake' if adl else 'file system'})", overrides={Q + "_split_lines": split_lines}, qtimeout=8000, feas_ms=60)
    def p(c, it):
        S, off, ln = c.int("size", lo=0), c.int("offset", lo=0), c.int("block", lo=1)
        c.assume(off <= S)
        axioms(c)
        f = c.atom("str", "file")
        files = c.reg(VList(n=c.int("files", lo=1), fn=lambda i: Atom("str", z3.Function("fname", I_, Val)(to_z(i)))))
        fi = c.int("file_idx", lo=0)
        c.assume(lt(fi, files.length()))
        c.ghost.update({"%size": S, "%file": lget(files, fi), "%late": c.choose(2) == 1 and T > 1, "%tasks": []})
        it.world.models["concurrent.futures.ThreadPoolExecutor"] = lambda it, a, k: c.reg(Ext("pool14"))
        it.world.models["builtins.bytearray"] = lambda it, a, k: seg(it.ctx, a[0].fields["a"], a[0].fields["b"]) if a else seg(it.ctx, 0, 0)
        o = it.new(R + "TextFileIterator", stop=False, fs=c.reg(Ext("fs14")), files=files, file_idx=fi, offset=off, length=ln, thread_count=T)
        if adl:
            o.fields["adl"] = c.reg(Ext("adl14"))
        r = it.call_method(o, "_read_block_by_threads", [])
        E = z3.If(off + ln < S, off + ln, S)
        get = lambda k: it.force(it.getitem(r, k))
        c.oblige("block length is what was read", eqv(get("length"), E - off))
        if not c.branch(E > off):
            return
        pre, suf, ls = get("prefix"), get("suffix"), get("lines")
        items = ls.items
        if suf is None:
            c.oblige("an open block has no line feed", FN(off) >= E)
            c.oblige("all of an open block is its prefix", is_seg(pre, off, E) if pre is not None else False)
            c.oblige("an open block has no lines", eqv(ls.length(), 0))
        else:
            c.oblige("a block with ends has a line feed", FN(off) < E)
            c.oblige("prefix up to the first line feed", is_seg(pre, off, FN(off)) if pre is not None else False)
            c.oblige("suffix after the last line feed", is_seg(suf, PN(E) + 1, E))
            c.oblige("lines between", cover(items, FN(off), PN(E)) if items is not None else False)
    return p


for _t in (1, 2, 3):
    merged(_t, False)
merged(2, True)


# ---------------------------------------------------------------- merging for any number of threads
def pos(c, i):
    """where the part of thread i starts in the file, before the end of the file is taken into account"""
    g = c.ghost["%m"]
    i = to_z(i)
    return z3.If(i < g["T"], g["off"] + i * g["sub"], g["off"] + g["len"])


CUT = z3.Function("cut", I_, I_)


def clip(c, i):
    """where the part of thread i really starts: not past the end of the file"""
    return CUT(to_z(i))


def define(c, *ix):
    S = c.ghost["%size"]
    for i in ix:
        p = pos(c, i)
        c.assume(clip(c, i) == z3.If(p < S, p, S))


class Lines:
    """lines of the text after the line feed at base, up to the one at e"""
    def m_extend(it, o, v):
        c = it.ctx
        v = it.force(v)
        if isinstance(v, Ext) and v.kind == "lines14":
            gs = [(add(v.fields["base"], 1), v.fields["e"], Not(eqv(v.fields["base"], v.fields["e"])))]
        elif isinstance(v, VList) and v.items is not None and all(isinstance(x, Tok) and x.kind == "lines" for x in v.items):
            gs = [(*x.fields, True) for x in v.items]
        else:
            raise Unsupported("lines in another form")
        for a, b, there in gs:
            e = o.fields["e"]
            c.oblige("lines are appended where the ones before end", Implies(there, Or(eqv(a, add(e, 1)), And(eqv(a, add(e, 2)), NL(to_z(add(e, 1)))))), kind="loop")
            it.setfield(o, "e", ite(there, b, e))

    def m___len__(it, o):
        raise Unsupported("number of lines")


def entry(it, i):
    """what thread i leaves: length, prefix, suffix and lines of its part"""
    c = it.ctx
    s, e = clip(c, i), clip(c, add(i, 1))
    d = [("length", sub(e, s)), ("prefix", None), ("suffix", None)]
    ln = c.reg(Ext("lines14", base=FN(s), e=FN(s)))
    if c.branch(e > s):
        if c.branch(FN(s) >= e):
            d[1] = ("prefix", seg(c, s, e))
        else:
            d[1], d[2] = ("prefix", seg(c, s, FN(s))), ("suffix", seg(c, PN(e) + 1, e))
            ln = c.reg(Ext("lines14", base=FN(s), e=PN(e)))
    return c.reg(VDict([("prefix", d[1][1]), ("lines", ln), ("suffix", d[2][1]), ("length", d[0][1])]))


class Bufs:
    """the list of parts: n of them, the first `done` filled by their threads, those before lo taken out"""
    def m_append(it, o, d):
        v = dict(d.pairs) if isinstance(d, VDict) else {}
        if set(v) != {"prefix", "lines", "suffix", "length"} or v["prefix"] is not None or v["suffix"] is not None or v["length"] != 0 or not (isinstance(v["lines"], VList) and v["lines"].items == []):
            raise Unsupported("another empty part")
        o.fields["n"] = add(o.fields["n"], 1)

    def m___len__(it, o):
        return sub(o.fields["n"], o.fields["lo"])

    def m___getitem__(it, o, i):
        c = it.ctx
        w = c.ghost["%work"]
        if w is not None:
            c.oblige("a thread writes its own part", eqv(i, w[0]), kind="loop")
            return w[1]
        c.oblige("parts are merged after all threads are done", eqv(o.fields["done"], o.fields["n"]), kind="loop")
        c.oblige("parts are taken from the front", And(eqv(i, 0), lt(o.fields["lo"], o.fields["n"])), kind="loop")
        d = entry(it, o.fields["lo"])
        c.ghost["%first"] = (simp(o.fields["lo"]), d)
        return d

    def m_remove(it, o, d):
        c = it.ctx
        lo, x = c.ghost["%first"] or (None, None)
        if x is not d or not eqv(lo, o.fields["lo"]) is True and not z3.eq(to_z(lo), to_z(simp(o.fields["lo"]))):
            raise Unsupported("removal of another part")
        it.setfield(o, "lo", add(o.fields["lo"], 1))
        c.ghost["%first"] = None

    def m_pop(it, o, i=-1):
        d = Bufs.m___getitem__(it, o, i)
        Bufs.m_remove(it, o, d)
        return d


class Threads(Pool):
    """a task runs when it is submitted; it touches its own part only, so the order does not matter"""
    def m_submit(it, o, f, *a, **k):
        c = it.ctx
        b = c.ghost["%bufs"]
        i = b.fields["done"]
        define(c, i, add(i, 1))
        d = c.reg(VDict([("prefix", None), ("lines", c.reg(VList(items=[]))), ("suffix", None), ("length", 0)]))
        c.ghost["%work"] = (i, d)
        it.call(f, list(a), k)
        c.ghost["%work"] = None
        v = {x: it.force(it.getitem(d, x)) for x in ("prefix", "lines", "suffix", "length")}
        s, e = clip(c, i), clip(c, add(i, 1))
        c.oblige("a part is as long as what was read", eqv(v["length"], sub(e, s)), kind="loop")
        ls = v["lines"].items
        if v["prefix"] is None:
            r = And(e <= s, v["suffix"] is None and ls == [])
        elif v["suffix"] is None:
            r = And(e > s, FN(s) >= e, is_seg(v["prefix"], s, e), ls == [])
        else:
            r = And(FN(s) < e, is_seg(v["prefix"], s, FN(s)), is_seg(v["suffix"], PN(e) + 1, e),
                    FN(s) == PN(e) if ls == [] else And(FN(s) < PN(e), eqv(ls[0].fields[0], FN(s) + 1), eqv(ls[0].fields[1], PN(e))) if len(ls) == 1 else False)
        c.oblige("a part holds the ends and the lines of what was read", r, kind="loop")
        it.setfield(b, "done", add(i, 1))
        return c.reg(Ext("object"))

    def m___exit__(it, o, *a):
        return None


def bufs_fill(it, o):
    o.__class__ = Ext
    o.kind, o.fields = "bufs14", {"n": it.ctx.fresh_int("parts"), "done": 0, "lo": 0}
    it.ctx.ghost["%bufs"] = o


def made_inv(L):
    b = L.decoded_buf
    n = b.fields["n"] if isinstance(b, Ext) else b.length()
    return [("parts so far", eqv(n, L.k))]


def sent_inv(L):
    b = L.decoded_buf
    if not isinstance(b, Ext):
        raise Unsupported("parts in another form")
    return [("threads so far", And(eqv(b.fields["done"], L.k), eqv(b.fields["n"], L.ghost["%m"]["T"])))]


def head_fill(it, o):
    c = it.ctx
    v = {"prefix": None, "suffix": None}
    if c.branch(c.fresh_bool("prefix there")):
        v["prefix"] = seg(c, c.fresh_int("a"), c.fresh_int("b"))
        if c.branch(c.fresh_bool("suffix there")):
            v["suffix"] = seg(c, c.fresh_int("a"), c.fresh_int("b"))
    o.pairs[:] = [("prefix", v["prefix"]), ("lines", c.reg(Ext("lines14", base=FN(c.ghost["%m"]["off"]), e=c.fresh_int("e")))), ("suffix", v["suffix"]), ("length", c.fresh_int("length"))]


def head_state(it, c, h, cur, assume=False):
    """the part merged so far is that of the bytes from the offset to cur; empty bytes are assumed where they belong"""
    seg_at = (lambda v, a, b: And(eqv(v.fields["a"], a), eqv(v.fields["b"], b))) if assume else is_seg
    off = c.ghost["%m"]["off"]
    v = {x: it.force(it.getitem(h, x)) for x in ("prefix", "lines", "suffix", "length")}
    e = v["lines"].fields["e"]
    r = [("length so far", eqv(v["length"], sub(cur, off)))]
    if v["prefix"] is None:
        r.append(("nothing read so far", And(cur <= off, v["suffix"] is None, eqv(e, FN(off)))))
    elif v["suffix"] is None:
        r.append(("no line feed so far", And(cur > off, FN(off) >= cur, seg_at(v["prefix"], off, cur), eqv(e, FN(off)))))
    else:
        r.append(("ends and lines so far", And(FN(off) < cur, seg_at(v["prefix"], off, FN(off)), seg_at(v["suffix"], PN(cur) + 1, cur), Or(eqv(e, PN(cur)), eqv(add(e, 1), PN(cur))), eqv(v["lines"].fields["base"], FN(off)))))
    return r


def merge_inv(L):
    b, c = L.decoded_buf, L.c
    if not isinstance(b, Ext):
        raise Unsupported("parts in another form")
    g = c.ghost["%m"]
    lo, T = to_z(b.fields["lo"]), g["T"]
    if L.phase == "assume":
        c.assume(Implies(lo < T, And(clip(c, lo) <= clip(c, lo + 1), g["off"] <= clip(c, lo))))      # discharged below as "parts follow each other"
    return [("parts left", And(1 <= lo, lo <= T, eqv(b.fields["done"], T), eqv(b.fields["n"], T)))] + head_state(L.interp, c, L.head_block, clip(c, lo), L.phase == "assume")


def any_setup(world):
    setup(world)
    world.kinds.update({"bufs14": Bufs, "lines14": Lines, "threads14": Threads})


def merged_any(adl):
    @proof(f"blocks of any number of threads merge ({'data lake' if adl else 'file system'})", setup=any_setup, overrides={Q + "_split_lines": split_lines}, qtimeout=8000, feas_ms=15, budget=400, loops=[
        LoopSpec("merge", merge_inv, when=lambda L: L.maybe("head_block") and L.has("decoded_buf"), func="_read_block_by_threads$", types={"L:head_block/contents": ("fill", head_fill)}),
        LoopSpec("threads", sent_inv, when=lambda L: "submit" in L.src() and L.has("decoded_buf"), func="_read_block_by_threads$"),
        LoopSpec("parts", made_inv, when=lambda L: L.has("decoded_buf"), func="_read_block_by_threads$", types={"L:decoded_buf/contents": ("fill", bufs_fill)})])
    def p(c, it):
        S, off, ln, T = c.int("size", lo=0), c.int("offset", lo=0), c.int("block", lo=1), c.int("threads", lo=1)
        c.assume(off <= S)
        axioms(c)
        sb = c.int("part", lo=0)
        files = c.reg(VList(n=c.int("files", lo=1), fn=lambda i: Atom("str", z3.Function("fname", I_, Val)(to_z(i)))))
        fi = c.int("file_idx", lo=0)
        c.assume(lt(fi, files.length()))
        c.ghost.update({"%size": S, "%file": lget(files, fi), "%work": None, "%first": None, "%bufs": None, "%m": {"T": T, "off": off, "len": ln, "sub": sb}})
        c.assume(And(sb * T <= ln, ln < sb * T + T))                   # sb is the quotient
        i = c.int("i", lo=0)
        define(c, 0, T, i, i + 1)
        c.oblige("parts follow each other", Implies(i < T, And(clip(c, i) <= clip(c, i + 1), off <= clip(c, i))))
        it.world.models["concurrent.futures.ThreadPoolExecutor"] = lambda it, a, k: c.reg(Ext("threads14"))
        it.world.models["builtins.bytearray"] = lambda it, a, k: seg(it.ctx, a[0].fields["a"], a[0].fields["b"]) if a else seg(it.ctx, 0, 0)
        o = it.new(R + "TextFileIterator", stop=False, fs=c.reg(Ext("fs14")), files=files, file_idx=fi, offset=off, length=ln, thread_count=T)
        if adl:
            o.fields["adl"] = c.reg(Ext("adl14"))
        r = it.call_method(o, "_read_block_by_threads", [])
        E = z3.If(off + ln < S, off + ln, S)
        if not (isinstance(r, VDict) and isinstance(it.force(it.getitem(r, "lines")), Ext)):
            raise Unsupported("result in another form")
        b = c.ghost["%bufs"]
        c.oblige("every part is merged", eqv(b.fields["lo"], T))
        for nm, f in head_state(it, c, r, E):
            c.oblige("block: " + nm, f)
    return p


for _adl in (False, True):
    merged_any(_adl)


# ---------------------------------------------------------------- producer
SZ = z3.Function("file_size", I_, I_)
RL = z3.Function("read_len", I_, I_, I_)


class Blk:
    pass


def block(it, a, k):
    """the next block at the current file and offset"""
    c, o = it.ctx, a[0]
    f, p = to_z(o.fields["file_idx"]), to_z(o.fields["offset"])
    ep = c.ghost["%cursor"]
    n = RL(f, p)
    c.assume(And(n >= 0, p + n <= SZ(f), Implies(p < SZ(f), n > 0)))
    d = VDict([("prefix", None), ("lines", None), ("suffix", None), ("length", n)])
    c.reg(d)
    d.blk = (f, p, n)
    return d


class Q14:
    """the cursor (epoch, file, offset) of what has been handed over"""

    def m_put(it, o, v):
        c = it.ctx
        g = c.ghost["%cursor"]
        e, f, p, done = (g.fields[x] for x in ("epoch", "file", "pos", "done"))
        F, EP = c.ghost["%files"], c.ghost["%epochs"]
        c.oblige("nothing after the end", Not(done))
        if isinstance(v, Inst):
            c.oblige("the end only after every file of every epoch", And(eqv(f, F - 1), p >= SZ(to_z(f)), eqv(e, EP - 1)))
            it.setfield(g, "done", True)
            return
        b = getattr(v, "blk", None)
        if b is not None:
            c.oblige("blocks are handed over in file order without gaps", And(eqv(b[0], f), eqv(b[1], p)))
            it.setfield(g, "pos", add(p, b[2]))
            return
        get = lambda k: it.force(it.getitem(v, k))
        empty = all(isinstance(get(k), Ext) and get(k).kind == "seg" and simp(get(k).fields["a"]) == simp(get(k).fields["b"]) for k in ("prefix", "suffix")) and get("lines").items == []
        c.oblige("a separator holds no text", empty)
        c.oblige("a separator only at the end of a file", p >= SZ(to_z(f)))
        last = eqv(f, F - 1)
        c.oblige("an epoch ends only if another follows", Implies(last, lt(e, EP - 1)))
        it.setfield(g, "epoch", ite(last, add(e, 1), e))
        it.setfield(g, "file", ite(last, 0, add(f, 1)))
        it.setfield(g, "pos", 0)


def cursor_inv(L):
    g, o = L.ghost["%cursor"], L.self
    e, f, p = (to_z(g.fields[x]) for x in ("epoch", "file", "pos"))
    F, EP = L.ghost["%files"], L.ghost["%epochs"]
    rs = [("reading position is the cursor", And(eqv(o.fields["file_idx"], f), eqv(o.fields["offset"], p))), ("cursor inside", And(f >= 0, f < F, p >= 0, e >= 0, e < EP)),
          ("epochs left", Or(g.fields["done"], eqv(o.fields["left_epochs"], EP - e))), ("file list keeps its length", eqv(o.fields["files"].length(), F)),
          ("stopped exactly at the end", eqv(o.fields["stop"], g.fields["done"]))]
    return rs


def next_file_inv(L):
    rs = [r for r in cursor_inv(L)]
    n = to_z(L.total_len)
    f, p = to_z(L.self.fields["file_idx"]), to_z(L.self.fields["offset"])
    rs.append(("block belongs to the reading position", eqv(n, RL(f, p))))
    rs.append(("not stopped", Not(L.ghost["%cursor"].fields["done"])))
    rs.append(("block size", And(n >= 0, p + n <= SZ(f), Implies(p < SZ(f), n > 0))))
    b = L.block
    if getattr(b, "blk", None) is None:
        b.blk = (f, p, n)
    else:
        rs.append(("block read there", And(eqv(b.blk[0], f), eqv(b.blk[1], p), eqv(b.blk[2], n))))
    return rs


PT = {"L:block": ("make", lambda it, n: it.ctx.reg(VDict([("prefix", None), ("lines", None), ("suffix", None), ("length", it.ctx.fresh_int("len"))])))}


@proof("producer hands over every byte in order", loops=[
    LoopSpec("blocks", cursor_inv, when=lambda L: not L.has("total_len"), types=PT),
    LoopSpec("next file", next_file_inv, when=lambda L: L.has("total_len"), types=PT)],
    overrides={Q + "TextFileIterator._read_block_by_threads": block})
def p_producer(c, it):
    F, EP = c.int("files", lo=1), c.int("epochs", lo=1)
    it.world.models["builtins.bytearray"] = lambda it, a, k: seg(it.ctx, 0, 0)
    it.world.models["random.shuffle"] = lambda it, a, k: None
    g = c.reg(Ext("object", epoch=z3.IntVal(0), file=z3.IntVal(0), pos=z3.IntVal(0), done=False))
    c.ghost.update({"%cursor": g, "%files": F, "%epochs": EP, "cursor": g})
    c.assume(ForAll(1, lambda i: SZ(i) >= 0))
    o = it.new(R + "TextFileIterator", stop=False, files=c.reg(VList(n=F, fn=lambda i: Atom("str", z3.Function("fname", I_, Val)(to_z(i))))), file_idx=z3.IntVal(0), offset=z3.IntVal(0), left_epochs=EP,
               outputs=c.reg(Ext("q14")), shuffle=c.bool("shuffle"))
    it.call_method(o, "_read_block", [])
    c.oblige("the end is announced", g.fields["done"])


# ---------------------------------------------------------------- consumer
B = z3.Function("item_at", I_, I_)              # stream position where queue item k starts
GL = z3.Function("line", I_, Val)              # non-empty lines of the stream
LC = z3.Function("lines_before", I_, I_)       # number of them before a line start
CT = z3.Function("lines_within", I_, I_, I_)   # number of them in a piece that starts at a line start


def lines_seq(c, a, b):
    a, b = to_z(a), to_z(b)
    return c.reg(VList(n=CT(a, b), fn=lambda i: Atom("str", GL(LC(a) + to_z(i)))))


def line_start(c, a):
    a = to_z(a)
    return Or(a == 0, NL(a - 1))


def split_piece(it, a, k):
    c, s = it.ctx, a[0]
    x, y = to_z(s.fields["a"]), to_z(s.fields["b"])
    c.oblige("a line is completed from its start", Or(eqv(x, y), line_start(c, x)))
    c.oblige("a line is completed up to its end", Or(eqv(x, y), NL(y), y == B(c.ghost["%K"])))
    if c.branch(x == y):
        return c.reg(VList(items=[]))
    return lines_seq(c, x, y)


class QGet:
    def m_get(it, o, *a, **k):
        c = it.ctx
        kk = to_z(c.ghost["%q"].fields["k"])
        c.oblige("nothing is awaited after the end", kk <= c.ghost["%K"])
        it.setfield(c.ghost["%q"], "k", kk + 1)
        c.assume(Or(PN(B(kk)) == -1, And(PN(B(kk)) >= 0, NL(PN(B(kk))))))
        if c.branch(kk == c.ghost["%K"]):
            return it.new(R + "FetchDone", count=0, exception_info=None)
        a, b = B(kk), B(kk + 1)
        c.assume(And(0 <= a, a <= b))
        item_rules(c, kk)
        if not c.branch(FN(a) < b):
            return c.reg(VDict([("prefix", seg(c, a, b)), ("lines", c.reg(VList(items=[]))), ("suffix", None), ("length", b - a)]))
        n1, n2 = FN(a), PN(b)
        l = c.reg(VList(items=[])) if c.branch(n1 == n2) else lines_seq(c, n1 + 1, n2)
        return c.reg(VDict([("prefix", seg(c, a, n1)), ("lines", l), ("suffix", seg(c, n2 + 1, b)), ("length", b - a)]))

    def m_task_done(it, o):
        return None


def item_rules(c, k):
    """counting rules at the pieces of item k"""
    a, b = B(k), B(k + 1)
    ls, n1, n2 = LSt(k), FN(a), PN(b)
    c.assume(And(CT(ls, n1) >= 0, CT(n1 + 1, n2) >= 0, LC(n1 + 1) == LC(ls) + z3.If(ls == n1, 0, CT(ls, n1)), Implies(n1 < n2, LC(n2 + 1) == LC(n1 + 1) + CT(n1 + 1, n2))))


def LSt(k):
    return PN(B(k)) + 1


def window(c, l, s, n):
    """the list is lines s .. s+n"""
    q = c.ghost["%p"]
    return And(eqv(l.length(), n), Implies(inrange(s, q, add(s, n)), eqv(lget(l, sub(q, s)), Atom("str", GL(q)))))


def stream_state(c, o, s, skip=0):
    """the object holds the rest of the lines from number s on"""
    k = to_z(c.ghost["%q"].fields["k"])
    rl, rb = o.fields["remain_lines"], o.fields["remain_bytes"]
    n = to_z(rl.length())
    return [("open line kept", is_seg(rb, LSt(k), B(k))), ("lines waiting", window(c, rl, s, n)), ("no line missing", eqv(add(s, n), LC(LSt(k)))), ("items", And(k >= 0, k <= c.ghost["%K"]))]


def batch_inv(L):
    c, o, s0 = L.c, L.self, L.ghost["%s"]
    n = to_z(L.buf.length())
    return [("batch", And(n >= 0, n <= o.fields["batch_size"])), ("lines taken", window(c, L.buf, s0, n))] + stream_state(c, o, add(s0, n))


CTY = {"self/F:remain_lines": ("list", ("atom", "str", Val)), "L:buf/contents": ("atom", "str", Val),
       "L:self/F:remain_lines": ("list", ("atom", "str", Val)), "L:self.remain_lines/contents": ("atom", "str", Val),
       "self/F:remain_bytes": ("make", lambda it, n: seg(it.ctx, it.ctx.fresh_int("a"), it.ctx.fresh_int("b"))),
       "L:self/F:remain_bytes": ("make", lambda it, n: seg(it.ctx, it.ctx.fresh_int("a"), it.ctx.fresh_int("b")))}


@proof("consumer turns the stream into batches of lines", loops=[LoopSpec("batch", batch_inv, when=lambda L: L.has("buf"), types=CTY)], overrides={Q + "_split_lines": split_piece}, feas_ms=60)
def p_consumer(c, it):
    it.world.kinds["q14"] = QGet
    it.world.models["builtins.bytearray"] = lambda it, a, k: seg(it.ctx, 0, 0)
    axioms(c)
    K, s, bs = c.int("items", lo=0), c.int("start", lo=0), c.int("batch_size", lo=1)
    k0 = c.int("k0", lo=0)
    q = c.reg(Ext("object", k=k0))
    c.ghost.update({"%K": K, "%q": q, "q": q, "%s": s, "%p": c.int("p", lo=0)})
    c.assume(ForAll(1, lambda i: B(i) >= 0))
    nrl = c.int("waiting", lo=0)
    drop = c.bool("drop_last")
    ended = c.bool("ended")
    o = it.new(R + "TextFileIterator", end=ended, batch_size=bs, drop_last=drop, outputs=c.reg(Ext("q14")), remain_bytes=seg(c, LSt(k0), B(k0)),
               remain_lines=c.reg(VList(n=nrl, fn=lambda i: Atom("str", GL(s + to_z(i))))))
    c.assume(Implies(Not(ended), And(s + nrl == LC(LSt(k0)), k0 <= K)))
    TOT = LC(LSt(K)) + z3.If(LSt(K) == B(K), 0, CT(LSt(K), B(K)))
    c.assume(And(CT(LSt(K), B(K)) >= 0, CT(LSt(K), B(K)) <= 1))
    try:
        r = it.call_method(o, "__next__", [])
    except PyExc as e:
        if e.cls is not StopIteration:
            raise
        k = to_z(q.fields["k"])
        c.oblige("iteration stops only at the end of the stream", Or(ended, k == K + 1))
        n = c.ghost.get("%n")
        left = sub(TOT, s)
        c.oblige("stops with nothing left, or a short batch that is dropped", Or(ended, left == 0, And(drop, left < bs)))
        c.oblige("stays stopped", o.fields["end"])
        return
    n = to_z(r.length())
    c.oblige("not after the end", Not(ended))
    c.oblige("lines in order and unchanged", window(c, r, s, n))
    c.oblige("a batch is full or the last", And(n >= 1, n <= bs, Or(n == bs, s + n == TOT)))
    c.oblige("a short batch is dropped when asked", Implies(drop, n == bs))
    end = o.fields["end"]
    c.oblige("marked as ended only with everything delivered", Implies(end, s + n == TOT))
    c.oblige("a short batch is the last", Implies(n != bs, end))
    for nm, f in stream_state(c, o, s + n):
        c.oblige("rest: " + nm, Implies(Not(end), f))


@proof("reset starts from the beginning", overrides={Q + "TextFileIterator.join": lambda it, a, k: None})
def p_reset(c, it):
    it.world.models["builtins.bytearray"] = lambda it, a, k: seg(it.ctx, 0, 0)
    subs = []

    class PoolR:
        def m_submit(it, o, f, *a, **k):
            subs.append(f)
            return it.ctx.reg(Ext("object"))
    it.world.kinds["pool14"] = PoolR
    it.world.models["concurrent.futures.ThreadPoolExecutor"] = lambda it, a, k: c.reg(Ext("pool14"))
    ep = c.int("epochs", lo=1)
    o = it.new(R + "TextFileIterator", epochs=ep, left_epochs=c.int("l"), file_idx=c.int("f"), offset=c.int("o"), end=c.bool("e"), stop=True, remain_bytes=seg(c, c.int("a"), c.int("b")),
               remain_lines=c.reg(VList(n=c.int("n", lo=0), fn=lambda i: Atom("str", GL(to_z(i))))), workers=c.reg(VList(items=[])))
    it.call_method(o, "reset", [])
    f = o.fields
    c.oblige("from the first byte of the first file", And(eqv(f["file_idx"], 0), eqv(f["offset"], 0)))
    c.oblige("all epochs again", eqv(f["left_epochs"], ep))
    c.oblige("not stopped", And(Not(f["end"]), Not(f["stop"])))
    c.oblige("nothing left over", And(eqv(f["remain_lines"].length(), 0), eqv(f["remain_bytes"].fields["a"], f["remain_bytes"].fields["b"])))
    c.oblige("one producer", len(subs) == 1 and isinstance(subs[0], Bound) and subs[0].self_ is o)


LINE = z3.DeclareSort("TextLine")
PART, TRIM = z3.Function("part", I_, LINE), z3.Function("without_last", LINE, LINE)
CR, LN = z3.Function("ends_with_cr", LINE, B_), z3.Function("chars", LINE, I_)


def line_methods():
    def at(it, o, k):
        if isinstance(k, slice) and k.start in (None, 0) and k.step in (None, 1) and k.stop == -1:
            return Atom("line14", TRIM(o.expr))
        if k == -1:
            return Atom("last14", o.expr)
        raise Unsupported("other part of a line")

    def ends(it, o, x):
        if x != "\r":
            raise Unsupported("another ending")
        return CR(o.expr)

    return {"__len__": lambda it, o: LN(o.expr), "truth": lambda it, o: LN(o.expr) > 0, "__getitem__": at, "endswith": ends,
            "op_Eq": lambda it, o, x: LN(o.expr) == 0 if x == "" else None}


class Text:
    def m_decode(it, o, enc="utf-8", *a):
        if str(enc).lower().replace("_", "-") not in ("utf-8", "utf8"):
            raise Unsupported("another encoding")
        return o

    def m_split(it, o, sep=None, *a):
        if sep not in ("\n", b"\n") or a:
            raise Unsupported("another separator")
        return it.ctx.reg(VList(n=it.ctx.ghost["%parts"], fn=lambda i: Atom("line14", PART(to_z(i)))))


@proof("text becomes its non-empty lines")
def p_split(c, it):
    """the parts between line feeds, in order, each once, without a final carriage return, empty ones left out"""
    it.world.kinds["text14"] = Text
    it.world.atom_methods["line14"] = line_methods()
    it.world.atom_methods["last14"] = {"op_Eq": lambda it, o, x: CR(o.expr) if x == "\r" else None}
    n = c.int("parts", lo=1)
    c.ghost["%parts"] = n
    q = z3.Const("q", LINE)
    c.assume(z3.ForAll([q], And(LN(q) >= 0, Implies(CR(q), LN(q) >= 1), Implies(LN(q) >= 1, LN(TRIM(q)) == LN(q) - 1)), patterns=[LN(q)]))
    c.assume(z3.ForAll([q], Implies(CR(q), LN(q) >= 1), patterns=[CR(q)]))
    r = it.call(it.get(R + "_split_lines"), [c.reg(Ext("text14"))])
    m = to_z(r.length())
    want = lambda i: z3.If(CR(PART(i)), TRIM(PART(i)), PART(i))
    keep = lambda i: LN(want(i)) > 0
    i = c.int("i", lo=0)
    j = c.int("j", lo=0)
    at = lambda x: r.fn(x).expr
    if not hasattr(r, "fmap"):
        raise Unsupported("lines not selected from the parts")
    mp, inv = r.fmap, r.finv
    c.oblige("every line is a part of the text, without its carriage return", Implies(j < m, And(inrange(0, mp(j), n), at(j) == want(mp(j)))))
    c.oblige("no line is empty", Implies(j < m, LN(at(j)) > 0))
    c.oblige("every non-empty line is there", Implies(And(i < n, keep(i)), And(inrange(0, inv(i), m), at(inv(i)) == want(i))))
    j2 = c.int("j2", lo=0)
    c.oblige("in order, each once", Implies(And(j < j2, j2 < m), mp(j) < mp(j2)))


def seen(log, key):
    def f(it, a, k):
        log.append((key, a, k))
        return it.ctx.reg(Ext("object"))
    return f


def creation(name, split):
    @proof(name, overrides={GE + "_base.get_fs": lambda it, a, k: (it.ctx.ghost["%fs"], None), Q + "TextFileIterator.get_worker_files": lambda it, a, k: files_of(it, a, k),
                            Q + "TextFileSplitIterator.get_worker_files": lambda it, a, k: files_of(it, a, k)})
    def p_new(c, it):
        log = []
        it.world.models["builtins.bytearray"] = lambda it, a, k: seg(it.ctx, 0, 0)
        it.world.models["queue.Queue"] = seen(log, "queue")
        it.world.models["concurrent.futures.ThreadPoolExecutor"] = seen(log, "pool")
        c.ghost["%fs"] = c.reg(Ext("fs14"))
        c.ghost["%files"] = log
        path = Atom("str", z3.Const("path", Val))
        bs, ep, blk, qs, th = c.int("batch_size", lo=1), c.int("epochs", lo=1), c.int("block", lo=1), c.int("queue", lo=1), c.int("threads")
        wi, nw = c.int("worker", lo=0), c.int("workers", lo=1)
        off, tot = c.int("worker_offset", lo=0), c.int("total_read_length", lo=-1)
        kw = dict(filename=path, batch_size=bs, read_block_in_M=blk, buffer_queue_size=qs, thread_count=th)
        kw.update(dict(worker_offset=off, total_read_length=tot) if split else dict(epochs=ep, worker_index=wi, num_workers=nw, drop_last=c.bool("drop_last")))
        o = it.call(it.get(R + ("TextFileSplitIterator" if split else "TextFileIterator")), [], kw)
        f = o.fields
        c.oblige("from the first byte to read of the first file", And(eqv(f["file_idx"], 0), eqv(f["offset"], off if split else 0)))
        c.oblige("block size", eqv(f["length"], blk * 1000000))
        c.oblige("batch size", eqv(f["batch_size"], bs))
        c.oblige("epochs", And(eqv(f["epochs"], 1 if split else ep), eqv(f["left_epochs"], 1 if split else ep)))
        c.oblige("at least one thread, otherwise as many as asked for", eqv(f["thread_count"], ite(th < 1, 1, th)))
        c.oblige("not ended, not stopped", And(Not(f["end"]), Not(f["stop"])))
        c.oblige("nothing left over", And(eqv(f["remain_lines"].length(), 0), eqv(f["remain_bytes"].fields["a"], f["remain_bytes"].fields["b"])))
        c.oblige("nothing is running yet", eqv(f["workers"].length(), 0))
        c.oblige("dropping as asked", (f["drop_last"] is False) if split else eqv(f["drop_last"], kw["drop_last"]))
        c.oblige("shuffling off unless asked for", f["shuffle"] is False)
        fl = [x for x in log if x[0] == "files"]
        c.oblige("the files of this worker", len(fl) == 1 and f["files"] is fl[0][3])
        c.oblige("asked for with its path and share", len(fl) == 1 and fl[0][1] is path and (split or (And(eqv(fl[0][2][0], wi), eqv(fl[0][2][1], nw)))))
        qu = [x for x in log if x[0] == "queue"]
        c.oblige("a queue of the size asked for", len(qu) == 1 and (eqv(qu[0][1][0], qs) if qu[0][1] else eqv(qu[0][2].get("maxsize", 0), qs)))
    return p_new


def files_of(it, a, k):
    a = list(a)
    p = a[1] if len(a) > 1 else k["path"]
    w = (a[2] if len(a) > 2 else k.get("worker_index", 0)), (a[3] if len(a) > 3 else k.get("num_workers", 1))
    l = it.ctx.reg(VList(n=it.ctx.fresh_int("nfiles"), fn=lambda i: Atom("str", GL(to_z(i)))))
    it.ctx.ghost["%files"].append(("files", p, w, l))
    return l


creation("creating a reader", False)
creation("creating a reader of a part of a file", True)


class QJoin:
    """the queue while the producer may still be running"""

    def others(it, q):
        c = it.ctx
        done = c.ghost["%fut"].fields["done"]
        more = c.fresh_int("more")
        c.assume(And(more >= 0, Implies(done, more == 0)))
        it.setfield(q, "n", add(q.fields["n"], more))
        it.setfield(q, "open", add(q.fields["open"], more))

    def m_qsize(it, o):
        QJoin.others(it, o)
        return o.fields["n"]

    def m_empty(it, o):
        QJoin.others(it, o)
        return eqv(o.fields["n"], 0)

    def m_get(it, o, *a, **k):
        it.ctx.oblige("taking from the queue does not wait for ever", to_z(o.fields["n"]) >= 1)
        it.setfield(o, "n", sub(o.fields["n"], 1))
        return it.ctx.reg(Ext("object"))

    def m_task_done(it, o):
        it.setfield(o, "open", sub(o.fields["open"], 1))

    def m_join(it, o):
        it.ctx.oblige("waiting for the queue ends", And(it.ctx.ghost["%fut"].fields["done"], eqv(o.fields["open"], 0)))


class Fut:
    def m_done(it, o):
        c = it.ctx
        QJoin.others(it, c.ghost["%q"])
        d = c.fresh_bool("done")
        c.assume(Implies(o.fields["done"], d))
        it.setfield(o, "done", d)
        return d


def join_inv(L):
    q = L.c.ghost["%q"]
    return [("items waiting and tasks open", And(to_z(q.fields["n"]) >= 0, eqv(q.fields["n"], q.fields["open"]))), ("told to stop", L.c.ghost["%o"].fields["stop"]), ("nothing runs when nothing was started", Implies(L.c.ghost["%idle"], L.c.ghost["%fut"].fields["done"]))]


@proof("stopping leaves nothing behind", loops=[LoopSpec("wait", join_inv)])
def p_join(c, it):
    log = []

    class PoolJ:
        def m_shutdown(it, o, wait=True, **k):
            log.append(wait)
            it.ctx.oblige("waiting for the pool ends", Or(Not(wait), it.ctx.ghost["%fut"].fields["done"]))

    class Main:
        def m_is_alive(it, o):
            return True
    it.world.kinds.update({"qj": QJoin, "fut": Fut, "pool14": PoolJ, "main14": Main})
    it.world.models["threading.main_thread"] = lambda it, a, k: it.ctx.reg(Ext("main14"))
    n = c.int("items", lo=0)
    idle = c.branch(c.bool("nothing_started"))
    if idle:
        c.assume(n == 0)
    fut = c.reg(Ext("fut", done=True if idle else c.bool("finished")))
    q = c.reg(Ext("qj", n=n, open=n))
    o = it.new(R + "TextFileIterator", outputs=q, workers=c.reg(VList(items=[] if idle else [fut])), pool=c.reg(Ext("pool14")), stop=c.bool("stop"))
    c.ghost.update({"%q": q, "%fut": fut, "%o": o, "%idle": idle})
    it.call_method(o, "join", [])
    c.oblige("no item is left in the queue", eqv(q.fields["n"], 0))
    c.oblige("the producer has finished", fut.fields["done"])
    c.oblige("the pool is shut down", len(log) == 1)
