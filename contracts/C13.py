"""C13: delimited text lines decode to exactly the fields written in them."""
import ast
from vc.api import *
from vc.lib import dtype_of

LEVEL = "proof"
LEVEL_NOTE = (
    "Unbounded proof over the real decoders: a line is any number of tokens; which token becomes which field is proved for every combination of "
    "configured defaults, any number of features (dense, sparse, text, empty) and any number of TSV neighbors. A text feature is any number of fields whose "
    "delimiters are escaped."
)
ASSUMPTIONS = ["str.split returns the text between delimiters in order", "csv.reader splits a line at tabs", "int, float and numpy parse the token they are given",
               "sorted returns a stable sorted permutation", "numpy.fromiter with a count consumes exactly that many items",
               "a text that continues after a delimiter ends with an odd run of escapes exactly when its last field does (the delimiter is not part of the escape)"]
DE = GE + "snark.decoders:EdgeListDecoder"
QE = GE + "snark.decoders.EdgeListDecoder"
DTV = GE + "snark.decoders:TsvDecoder"
QT = GE + "snark.decoders.TsvDecoder"
I_, B_ = z3.IntSort(), z3.BoolSort()
TK = z3.Function("token", I_, Val)
STRIP = z3.Function("strip", Val, Val)
EMPTY = z3.Function("isempty", Val, B_)
ISBIN = z3.Function("isbinary", Val, B_)
NP = z3.Function("nparts", Val, I_)
PART = z3.Function("part_of", Val, I_, Val)
PI = lib.parse_int
PR = lib.parse_real


def tok(e):
    return Atom("str", e)


def setup(world):
    world.atom_methods["str"] = {
        "strip": lambda it, o: tok(STRIP(o.expr)), "truth": lambda it, o: Not(EMPTY(o.expr)), "__len__": lambda it, o: z3.If(EMPTY(o.expr), 0, z3.Function("slen", Val, I_)(o.expr)),
        "split": split, "op_Eq": str_eq}
    world.kinds["farr"] = FArr
    world.kinds["object"] = type("O", (), {})


def str_eq(it, o, x):
    if x == "":
        return EMPTY(o.expr)
    if x == "binary":
        return ISBIN(o.expr)
    return eqv(o, x)


def split(it, o, sep=None):
    h = it.ctx.ghost["%split"]
    return h(it, o, sep)


# ---------------------------------------------------------------- edge list: which token is which field
def edge_split(it, o, sep):
    c = it.ctx
    if o is c.ghost["%line"]:
        c.oblige("line is split at the column delimiter", eqv(sep, c.ghost["%delim"]))
        return c.reg(VList(n=c.ghost["%n"], fn=lambda i: tok(TK(to_z(i)))))
    c.oblige("lengths are split at the length delimiter", eqv(sep, c.ghost["%ldelim"]))
    e = o.expr
    return c.reg(VList(n=NP(e), fn=lambda j: tok(PART(e, to_z(j)))))


P = z3.Function("pos_of", I_, I_)                       # first token of feature f
CONS = z3.Function("consumes", Val, I_, I_, I_, I_, I_) # tokens used by a feature of this dtype and lengths starting here
KG, LG = z3.Function("key_absent", I_, B_), z3.Function("len_absent", I_, B_)
KT = z3.Function("key_default", I_, Val)
LL, LN_ = z3.Function("len_default", I_, I_, I_), z3.Function("len_count", I_, I_)


def parts(c, f):
    """(end, key, (n, l0, l1), start of values) of feature f"""
    F = c.ghost["%F"]
    n = c.ghost["%n"]
    kdef = And(f < F, Not(KG(f)))
    ldef = And(f < F, Not(LG(f)))
    p = P(f)
    end = And(Not(kdef), Or(p >= n, EMPTY(STRIP(TK(p)))))
    key = z3.If(kdef, KT(f), STRIP(TK(p)))
    q = z3.If(kdef, p, p + 1)
    e = TK(q)
    ln = z3.If(ldef, LN_(f), NP(e))
    l0 = z3.If(ldef, LL(f, 0), PI(PART(e, 0)))
    l1 = z3.If(ln == 2, z3.If(ldef, LL(f, 1), PI(PART(e, 1))), -1)
    return end, key, (ln, l0, l1), z3.If(ldef, q, q + 1)


def valid(c, f):
    """the line holds a complete feature f"""
    n, F = c.ghost["%n"], c.ghost["%F"]
    end, key, (ln, l0, l1), s = parts(c, f)
    need = CONS(key, ln, l0, l1, s)
    ldef = And(f < F, Not(LG(f)))
    c.assume(And(P(f) >= 0, P(f + 1) == s + need, need >= 0, Or(ln == 1, ln == 2)))
    c.assume(Implies(Not(end), And(s + need <= n, Implies(Not(ldef), s <= n))))


def feat(c, f):
    end, key, (ln, l0, l1), s = parts(c, f)
    return Tok("feat", tok(key), ln, l0, l1, s)


def get_feature(it, a, k):
    c = it.ctx
    key, length, data = a[1], it.force(a[2]), a[3]
    key = it.force(key)
    if not isinstance(key, Atom):
        raise Unsupported("feature key")
    ln = length.length()
    l0 = lget(length, 0)
    l1 = ite(eqv(ln, 2), lget(length, 1) if not (isinstance(ln, int) and ln < 2) else -1, -1)
    s = data.fields["pos"]
    it.setfield(data, "pos", add(s, CONS(key.expr, to_z(ln), to_z(l0), to_z(l1), to_z(s))))
    return Tok("feat", key, ln, l0, l1, s)


def features_inv(L):
    c = L.c
    l = L.features
    f = to_z(l.length())
    g = L.ghost["%g"]
    if L.phase == "assume":
        valid(c, f)
    c.ghost["%f"] = f
    return [("next token", And(eqv(L.data.fields["pos"], P(f)), 0 <= P(f), Or(P(f) <= c.ghost["%n"], f > 0))), ("count", f >= 0), ("feature", Implies(inrange(0, g, f), And(Not(parts(c, g)[0]), eqv(lget(l, g), feat(c, g)))))]


FT = {"L:features/contents": ("tok", "feat", ("atom", "str", Val), "int", "int", "int", "int")}


@proof("edge list fields", loops=[LoopSpec("features", features_inv, when=lambda L: L.has("features", "data"), types=FT)],
       overrides={QE + "._get_feature": get_feature})
def p_fields(c, it):
    n = c.int("tokens", lo=2)
    F = c.int("defaults", lo=0)
    g = c.int("g", lo=0)
    line = c.atom("str", "line")
    c.assume(Not(EMPTY(line.expr)))
    dl, ll = c.atom("str", "delim"), c.atom("str", "ldelim")
    c.ghost.update({"%line": line, "%n": n, "%g": g, "%delim": dl, "%ldelim": ll, "%split": edge_split})
    d = it.call(it.get(DE), [])
    node = c.int("dst0")                                # second token as a number
    c.assume(PI(TK(1)) == node)
    temporal = c.bool("temporal")
    opt = {x: Opt(c.bool(x + "_absent"), (c.real if "weight" in x else c.int)(x)) for x in ("node_type", "node_weight", "edge_type", "edge_weight", "default_created_at", "default_removed_at")}
    kind = "node" if c.choose(2) == 0 else "edge"
    c.assume((node == -1) if kind == "node" else (node != -1))
    for x, v in opt.items():
        d.fields[x] = v
    d.fields.update({"delimiter": dl, "length_delimiter": ll, "is_temporal": temporal})
    F2 = c.int("other_defaults", lo=0)
    for x in ("node", "edge"):
        m = F if x == kind else F2
        d.fields[f"n_{x}_feature"] = m
        d.fields[f"{x}_feature_types"] = c.reg(VList(n=m, fn=(lambda i: Opt(KG(to_z(i)), tok(KT(to_z(i))))) if x == kind else (lambda i: Opt(c.bool("!x"), c.atom("str", "!x")))))
        d.fields[f"{x}_feature_lens"] = c.reg(VList(n=m, fn=(lambda i: Opt(LG(to_z(i)), VList(n=LN_(to_z(i)), fn=lambda j: LL(to_z(i), to_z(j))))) if x == kind else (lambda i: Opt(True, None))))
    c.ghost["%F"] = F
    # the record: ids, then type, weight and times that have no default, then features
    ty, wt = opt[kind + "_type"], opt[kind + "_weight"]
    p = z3.IntVal(2)
    if kind == "node":
        typ, dst = z3.If(ty.isnone, PI(TK(p)), ty.val), z3.IntVal(-1)
    else:
        typ, dst = z3.If(ty.isnone, node, ty.val), z3.If(ty.isnone, PI(TK(p)), node)
    p = p + z3.If(ty.isnone, 1, 0)
    w = z3.If(wt.isnone, PR(TK(p)), wt.val)
    p = p + z3.If(wt.isnone, 1, 0)
    cr, rm = opt["default_created_at"], opt["default_removed_at"]
    t1, t2 = And(temporal, cr.isnone), And(temporal, rm.isnone)
    ecr = Opt(And(cr.isnone, Not(temporal)), z3.If(cr.isnone, PI(TK(p)), cr.val))
    p = p + z3.If(t1, 1, 0)
    erm = Opt(And(rm.isnone, Not(temporal)), z3.If(rm.isnone, PI(TK(p)), rm.val))
    p = p + z3.If(t2, 1, 0)
    c.assume(And(p <= n, P(0) == p))
    rec = it.seq(it.call_method(d, "decode", [line]))
    c.oblige("one record per line", eqv(rec.n, 1))
    r = rec.fn(0)
    c.oblige("source", eqv(r[0], PI(TK(0))))
    c.oblige("destination", eqv(r[1], dst))
    c.oblige("type", eqv(r[2], typ))
    c.oblige("weight", eqv(r[3], w))
    c.oblige("created", eqv(r[4], ecr))
    c.oblige("removed", eqv(r[5], erm))
    f = to_z(r[6].length())
    c.oblige("features up to the end of the line", parts(c, f)[0])
    c.oblige("each feature from its own tokens", Implies(inrange(0, g, f), And(Not(parts(c, g)[0]), eqv(lget(r[6], g), feat(c, g)))))


@proof("empty edge list line")
def p_empty(c, it):
    d = it.call(it.get(DE), [])
    c.oblige("no record", eqv(it.seq(it.call_method(d, "decode", [""])).n, 0))


@proof("edge list configuration")
def p_conf(c, it):
    """the decoder keeps the defaults it is given"""
    v = {"default_node_type": Opt(c.bool("a"), c.int("nt")), "default_edge_type": Opt(c.bool("b"), c.int("et")), "default_node_weight": Opt(c.bool("d"), c.real("nw")),
         "default_edge_weight": Opt(c.bool("e"), c.real("ew")), "default_created_at": Opt(c.bool("f"), c.int("cr")), "default_removed_at": Opt(c.bool("g"), c.int("rm")),
         "is_temporal": c.bool("t"), "delimiter": "\t", "length_delimiter": ";"}
    lists = {x: c.reg(VList(n=c.int("n" + x, lo=0), fn=lambda i: tok(KT(to_z(i))))) for x in ("default_node_feature_types", "default_edge_feature_types", "default_node_feature_lens", "default_edge_feature_lens")}
    given = c.choose(2)
    d = it.call(it.get(DE), [], dict(v, **(lists if given else {})))
    for a, b in (("node_type", "default_node_type"), ("edge_type", "default_edge_type"), ("node_weight", "default_node_weight"), ("edge_weight", "default_edge_weight"),
                 ("default_created_at",) * 2, ("default_removed_at",) * 2, ("is_temporal",) * 2, ("delimiter",) * 2, ("length_delimiter",) * 2):
        c.oblige(f"{a} kept", eqv(d.fields[a], v[b]))
    i = c.int("i", lo=0)
    for x in ("node", "edge"):
        for y in ("types", "lens"):
            l, w = d.fields[f"{x}_feature_{y}"], lists[f"default_{x}_feature_{y}"]
            c.oblige(f"{x} feature {y} kept", And(eqv(l.length(), w.length()), Implies(lt(i, w.length()), eqv(lget(l, i), lget(w, i)))) if given else eqv(l.length(), 0))
        c.oblige(f"number of {x} feature defaults", eqv(d.fields[f"n_{x}_feature"], d.fields[f"{x}_feature_types"].length()))


# ---------------------------------------------------------------- values of one feature
class FArr:
    def m_reshape(it, o, *sh):
        sh = sh[0] if len(sh) == 1 else tuple(sh)
        return it.ctx.reg(Ext("farr", start=o.fields["start"], count=o.fields["count"], dt=o.fields["dt"], shape=sh if isinstance(sh, tuple) else (sh,)))


def fromiter(it, a, k):
    c = it.ctx
    data, cnt = a[0], k.get("count", a[2] if len(a) > 2 else -1)
    dt = k.get("dtype", a[1] if len(a) > 1 else None)
    s = data.fields["pos"]
    if cnt == -1:
        cnt = sub(data.fields["seq"].n, s)
    if not c.branch(le(add(s, cnt), data.fields["seq"].n)):
        raise PyExc(ValueError, ("iterator too short",))
    it.setfield(data, "pos", add(s, cnt))
    return c.reg(Ext("farr", start=s, count=cnt, dt=dt, shape=(cnt,)))


def is_arr(c, it, r, start, count, dt, shape):
    if not (isinstance(r, Ext) and r.kind == "farr"):
        return False
    f = r.fields
    d = f["dt"] is dt or eqv(f["dt"], dt) if isinstance(dt, Atom) else dtype_of(it, f["dt"]) == dt
    return And(eqv(f["start"], start), eqv(f["count"], count), d, len(f["shape"]) == len(shape) and And(*[eqv(x, y) for x, y in zip(f["shape"], shape)]))


@proof("values of one feature", loops=[])
def p_values(c, it):
    n, s = c.int("tokens", lo=0), c.int("start", lo=0)
    it.world.models["numpy.fromiter"] = fromiter
    key = c.atom("str", "dtype")
    data = c.reg(Ext("iterator", seq=Seq(n, lambda i: tok(TK(to_z(i)))), pos=s))
    v, dim = c.int("values", lo=0), c.int("dim", lo=0)
    sparse = c.choose(2) == 1
    c.assume(Not(ISBIN(key.expr)))
    vd = c.mul(v, z3.If(dim > 1, dim, 1)) if hasattr(c, "mul") else v * z3.If(dim > 1, dim, 1)
    used = z3.If(v == 0, 0, vd + v if sparse else v)
    c.assume(And(s + used <= n, vd >= v))
    d = it.call(it.get(DE), [])
    r = it.call_method(d, "_get_feature", [key, c.reg(VList(items=[v, dim] if sparse else [v])), data])
    c.oblige("exactly the tokens of this feature are used", eqv(data.fields["pos"], s + used))
    if r is None:
        c.oblige("absent only with length zero", v == 0)
        return
    c.oblige("length zero is an absent feature", v != 0)
    if not sparse:
        c.oblige("dense values", is_arr(c, it, r, s, v, key, (v,)))
        return
    ok = isinstance(r, tuple) and len(r) == 2
    c.oblige("coordinates and values", ok)
    if ok:
        flat = isinstance(r[0], Ext) and len(r[0].fields["shape"]) == 1
        c.oblige("flat coordinates only without a dimension", (dim == 0) if flat else (dim != 0))
        c.oblige("coordinates", is_arr(c, it, r[0], s, vd, "int64", (v,) if flat else (v, dim)))
        c.oblige("values after coordinates", is_arr(c, it, r[1], s + vd, v, key, (v,)))


# ---------------------------------------------------------------- text with escaped delimiters
ODD = z3.Function("ends_escaped", Val, B_)              # ends with an odd run of escapes
CUT = z3.Function("without_last", Val, Val)
JOIN = z3.Function("joined", Val, Val, Val)             # text, delimiter, text
ACC = z3.Function("fields_up_to", I_, Val)              # fields from the first one up to this one, delimiters restored


def texpr(v):
    if isinstance(v, Ext) and v.kind == "etext":
        return v.fields["e"]
    if isinstance(v, Atom) and v.kind == "str":
        return v.expr
    raise Unsupported("text in another form")


class EText:
    def m___len__(it, o):
        n = it.ctx.fresh_int("len")
        it.ctx.assume(And(n >= 0, (n == 0) == EMPTY(o.fields["e"]), Implies(EMPTY(o.fields["e"]), Not(ODD(o.fields["e"])))))
        return n

    def m_replace(it, o, a, b):
        c = it.ctx
        a = it.force(a)
        es = c.ghost["%escape"]
        if b != "" or not isinstance(a, SStr) or [x[1] if isinstance(x, tuple) else x for x in a.parts] != [es, es]:
            raise Unsupported("replacement in a text")
        return c.reg(Ext("undoubled", e=o.fields["e"]))

    def m___getitem__(it, o, k):
        if isinstance(k, slice) and (k.start, k.stop, k.step) == (None, -1, None):
            return it.ctx.reg(Ext("etext", e=CUT(o.fields["e"])))
        raise Unsupported("part of a text")

    def op_Add(it, o, s):
        c = it.ctx
        s = it.force(s)
        if not (isinstance(s, SStr) and len(s.parts) == 2 and all(isinstance(x, tuple) and x[0] == "atom" for x in s.parts) and s.parts[0][1] is c.ghost["%delim"]):
            raise Unsupported("text added to a text")
        return c.reg(Ext("etext", e=JOIN(o.fields["e"], s.parts[1][1].expr)))


class Undoubled:
    """a text without pairs of escapes: empty or ending with an escape exactly when the run at its end is odd"""
    def m___len__(it, o):
        n = it.ctx.fresh_int("len")
        it.ctx.assume(And(n >= 0, Implies(ODD(o.fields["e"]), n > 0)))
        return n

    def m___getitem__(it, o, k):
        if k != -1:
            raise Unsupported("part of a text")
        return it.ctx.reg(Ext("lastchar", e=o.fields["e"]))


class LastChar:
    def op_Eq(it, o, x):
        if x is it.ctx.ghost["%escape"]:
            return ODD(o.fields["e"])
        raise Unsupported("comparison of a character")


def text_setup(world):
    setup(world)
    world.kinds.update({"etext": EText, "undoubled": Undoubled, "lastchar": LastChar})


def step(c, i):
    """definition of the joined fields at one index"""
    c.assume(And(ACC(i + 1) == JOIN(CUT(ACC(i)), TK(i + 1)), ODD(ACC(i + 1)) == ODD(TK(i + 1)), Not(EMPTY(ACC(i + 1)))))


def text_inv(L):
    c = L.c
    s, g = L.ghost["%s"], L.ghost["%g"]
    j = to_z(sub(L.data.fields["pos"], 1))
    if L.phase == "assume":
        step(c, j)
        c.assume(Implies(EMPTY(TK(s)), Not(ODD(TK(s)))))
    return [("fields so far", And(texpr(L.output) == ACC(j), s <= j, j < L.ghost["%n"])), ("all but the last are escaped", Implies(inrange(s, g, j), ODD(TK(g)))),
            ("an empty first field stands alone", Implies(EMPTY(TK(s)), j == s)), ("the run at the end", ODD(ACC(j)) == ODD(TK(j)))]


@proof("text of one feature", setup=text_setup, loops=[LoopSpec("fields", text_inv, when=lambda L: L.has("output", "data"), types={
    "L:output": ("make", lambda it, n: it.ctx.reg(Ext("etext", e=it.ctx.atom("str", "!text").expr)))})])
def p_text(c, it):
    n, s, g = c.int("tokens", lo=1), c.int("start", lo=0), c.int("g")
    c.assume(s < n)
    dl, es = c.atom("str", "delim"), c.atom("str", "escape")
    data = c.reg(Ext("iterator", seq=Seq(n, lambda i: tok(TK(to_z(i)))), pos=s))
    c.ghost.update({"%s": s, "%n": n, "%g": g, "%delim": dl, "%escape": es})
    c.assume(And(ACC(s) == TK(s), Implies(EMPTY(TK(s)), Not(ODD(TK(s)))), z3.Function("slen", Val, I_)(TK(s)) > 0, Not(EMPTY(es.expr)), Not(eqv("", es))))
    d = it.call(it.get(DE), [])
    it.setfield(d, "delimiter", dl)
    it.setfield(d, "escape", es)
    r = it.call_method(d, "_get_feature", ["binary", c.reg(VList(items=[1])), data])
    last = to_z(sub(data.fields["pos"], 1))
    c.oblige("at least one field and only fields of the line", And(s <= last, last < n))
    c.oblige("every field but the last ends with an escaped delimiter", Implies(inrange(s, g, last), ODD(TK(g))))
    c.oblige("the text ends where no escaped delimiter follows or the line ends", Or(Not(ODD(TK(last))), last == n - 1))
    c.oblige("delimiters are restored", texpr(r) == z3.If(ODD(TK(last)), CUT(ACC(last)), ACC(last)))


# ---------------------------------------------------------------- TSV
COL = z3.Function("column", I_, Val)
NB = z3.Function("neighbor", I_, Val)
NC = z3.Function("cells", Val, I_)
CELL = z3.Function("cell", Val, I_, Val)


def tsv_split(it, o, sep):
    c = it.ctx
    if sep == "|":
        c.oblige("neighbors come from the fifth column", eqv(o, tok(COL(4))))
        return c.reg(VList(n=c.ghost["%nb"], fn=lambda i: tok(NB(to_z(i)))))
    if sep != ",":
        raise Unsupported("split")
    e = o.expr
    if it.generic is None:
        for m in (1, 2, 3):
            if c.branch(NC(e) == m):
                return c.reg(VList(items=[tok(CELL(e, j)) for j in range(m)]))
        c.assume(NC(e) >= 4)
        if c.branch(NC(e) == 4):
            return c.reg(VList(items=[tok(CELL(e, j)) for j in range(4)]))
        return c.reg(VList(items=[tok(CELL(e, j)) for j in range(5)]))
    return c.reg(VList(n=NC(e), fn=lambda j: tok(CELL(e, to_z(j)))))


def has(e, j):
    return And(NC(e) > j, Not(EMPTY(CELL(e, j))))


def etype(e):
    return z3.If(has(e, 1), PI(CELL(e, 1)), 0)


def neighbor(c, e):
    f = z3.If(NC(e) > 3, CELL(e, 3), c.ghost["%blank"])
    return (c.ghost["%id"], PI(CELL(e, 0)), etype(e), z3.If(has(e, 2), PR(CELL(e, 2)), 0), None, None, Tok("tf", tok(f)))


def nb_inv(L):
    out = L.env.lookup_env("%yield").vars["%yield"]
    s = L.interp.seq(L.seq)
    rs = [("one record per neighbor so far", eqv(out.length(), add(1, L.k))), ("node record first", eqv(lget(out, 0), L.ghost["%node"]))]
    for n in ("q", "r"):
        q = L.ghost["%" + n]
        rs.append((f"record {n}", Implies(inrange(0, q, L.k), eqv(lget(out, add(q, 1)), neighbor(L.c, s.fn(q).expr)))))
    return rs


NBL = LoopSpec("neighbors", nb_inv, when=lambda L: L.env.lookup_env("%yield") is not None and L.has("neighbors"),
               types={"L:%yield/contents": ("tuple", "int", "int", "int", "real", ("opt", "int"), ("opt", "int"), ("tok", "tf", ("atom", "str", Val)))})


def parsed(it, a, k):
    x = a[1]
    return Tok("tf", tok(it.ctx.ghost["%blank"]) if isinstance(x, str) and x == "" else x)


@proof("TSV node and neighbors", loops=[NBL], overrides={QT + "._parse_feature_string": parsed})
def p_tsv(c, it):
    m = 1 + c.choose(6)                                  # columns present
    nb = c.int("neighbors", lo=1)
    line = c.atom("str", "line")
    c.assume(Not(EMPTY(line.expr)))
    blank = z3.Const("blank", Val)
    c.assume(EMPTY(blank))
    c.ghost.update({"%nb": nb, "%split": tsv_split, "%blank": blank, "%id": PI(COL(0))})

    def reader(it, a, k):
        c.oblige("columns are separated by tabs", k.get("delimiter") == "\t")
        return c.reg(Ext("iterator", seq=Seq(1, lambda i: c.reg(VList(items=[tok(COL(j)) for j in range(m)]))), pos=0))
    it.world.models["csv.reader"] = reader
    e = [c.int(x, lo=0) for x in ("i", "j")]
    i, j = e
    c.assume(i < j)
    c.ghost.update({"%q": i, "%r": j})
    c.assume(Not(EMPTY(COL(0))))
    c.assume(ForAll(1, lambda x: And(NC(NB(x)) >= 1, Not(EMPTY(CELL(NB(x), 0))))))
    c.assume(ForAll(1, lambda x: z3.Function("slen", Val, I_)(CELL(NB(x), 0)) > 0))
    c.assume(And(z3.Function("slen", Val, I_)(line.expr) > 0, z3.Function("slen", Val, I_)(COL(0)) > 0))
    col = lambda x, f, d: z3.If(EMPTY(COL(x)), d, f(COL(x))) if x < m else d
    ft = tok(COL(3)) if m > 3 else tok(blank)
    node = (PI(COL(0)), -1, col(1, PI, 0), col(2, PR, 0), None, None, Tok("tf", ft))
    c.ghost["%node"] = node
    d = it.call(it.get(DTV), [])
    s = it.seq(it.call_method(d, "decode", [line]))
    c.oblige("node record first", eqv(s.fn(0), node))
    have = And(m > 4, Not(EMPTY(COL(4))))
    c.oblige("one record for the node and each neighbor", eqv(s.n, z3.If(have, nb + 1, 1) if m > 4 else 1))
    n = simp(s.n)
    if isinstance(n, int):
        return
    order = c.ghost["%sorts"].d
    (p, q), = order.values()
    a, b = s.fn(add(i, 1)), s.fn(add(j, 1))
    x, y = NB(p(i)), NB(p(j))
    c.oblige("record describes a neighbor", Implies(i < nb, And(inrange(0, p(i), nb), eqv(a, neighbor(c, x)))))
    c.oblige("later record describes a neighbor", Implies(j < nb, And(inrange(0, p(j), nb), eqv(b, neighbor(c, y)))))
    c.oblige("no neighbor twice", Implies(j < nb, p(i) != p(j)))
    kx, ky = (etype(x), PI(CELL(x, 0))), (etype(y), PI(CELL(y, 0)))
    c.oblige("ordered by type then destination", Implies(j < nb, Or(lib.key_less(kx, ky), eqv(kx, ky))))


# ---------------------------------------------------------------- TSV features
DT = ["float64", "float32", "float16", "uint64", "int64", "uint32", "int32", "uint16", "int16", "uint8", "int8", "text"]
FORMS = [("d", "float64"), ("f", "float32"), ("f16", "float16"), ("f32", "float32"), ("f64", "float64"), ("b", "text")] + \
    [(f"{x}{b}", f"{y}{b}") for x, y in (("i", "int"), ("u", "uint")) for b in (8, 16, 32, 64)]
DTC, BAD = z3.Function("t_dt", I_, I_), z3.Function("t_bad", I_, B_)
FT_ = z3.Function("tfeature", I_, Val)
VALUE = z3.Function("tvalue", I_, Val)


def feat_split(it, o, sep):
    c = it.ctx
    if o is c.ghost["%raw"]:
        c.oblige("features are separated by semicolons", sep == ";")
        return c.reg(VList(n=c.ghost["%n"], fn=lambda i: Atom("str", FT_(to_z(i)), attrs={"feature": to_z(i)})))
    i = o.attrs.get("feature")
    if i is not None:
        c.oblige("dtype and values are separated by a colon", sep == ":")
        w = c.choose(len(FORMS) + 4)
        if w < len(FORMS):
            n, d = FORMS[w]
            v = Atom("str", VALUE(i), attrs={"value": i})
            bad = c.branch(EMPTY(VALUE(i)))
            c.assume(And(DTC(i) == DT.index(d), BAD(i) == bad))
            return c.reg(VList(items=[n, v]))
        c.assume(BAD(i))
        return c.reg(VList(items=[[""], ["", "1 2"], ["f", "1", "2"], ["f"]][w - len(FORMS)]))
    i = o.attrs.get("value")
    c.oblige("values are separated by blanks", sep == " ")
    return c.reg(Ext("object", vals=i))


def feat_array(it, a, k):
    d = dtype_of(it, k.get("dtype", a[1] if len(a) > 1 else None))
    if not isinstance(a[0], Ext) or "vals" not in a[0].fields:
        raise Unsupported("array of something else")
    return Tok("tv", a[0].fields["vals"], DT.index(d) if d in DT else -1)


def feat_store(it, v):
    if isinstance(v, Atom) and "value" in v.attrs:
        return Tok("tv", v.attrs["value"], DT.index("text"))
    return v if v is None or isinstance(v, (Tok, Opt)) else Tok("tv", -1, -1)


def tsv_slot(l, s):
    v = lget(l, s)
    return And(Implies(BAD(s), eqv(v, None)), Implies(Not(BAD(s)), eqv(v, Tok("tv", s, DTC(s)))))


@proof("TSV features", loops=[LoopSpec("features", lambda L: [("count", eqv(L.feature_map.length(), L.k)), ("feature", Implies(inrange(0, L.ghost["%s"], L.k), tsv_slot(L.feature_map, L.ghost["%s"])))],
                                       when=lambda L: L.has("feature_map"), types={"L:feature_map/contents": ("opt", ("tok", "tv", "int", "int"))})])
def p_tsv_features(c, it):
    n, s = c.int("features", lo=1), c.int("s", lo=0)
    raw = c.atom("str", "raw")
    it.world.models["numpy.array"] = feat_array
    c.ghost.update({"%raw": raw, "%n": n, "%s": s, "%split": feat_split, "%stored": feat_store})
    d = it.call(it.get(DTV), [])
    r = it.call_method(d, "_parse_feature_string", [raw])
    c.oblige("one entry per feature, none without features", cmp("==", r.length(), z3.If(EMPTY(raw.expr), 0, n)))
    c.oblige("features in order with declared type", Implies(lt(s, r.length()), tsv_slot(r, s) if r.items is None else False))
