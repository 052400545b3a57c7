"""C31: train/test splitting labels every node once in the requested proportion."""
from vc.api import *

LEVEL = "proof"
LEVEL_NOTE = "Unbounded proof for every list of distinct ids, every ratio and every random permutation; the node list writer is proved for every id-to-label table."
ASSUMPTIONS = ["the share is computed in exact arithmetic (the code multiplies floating-point numbers)", "random.shuffle permutes the list in place"]
DU = GE + "data.data_util:"


class File:
    """counts the lines and the lines of the probe id"""

    def m___enter__(it, o):
        return o

    def m___exit__(it, o, *a):
        it.setfield(o, "closed", True)

    def m_close(it, o):
        it.setfield(o, "closed", True)

    def m_write(it, o, s):
        c = it.ctx
        c.oblige("written before the file is closed", Not(o.fields["closed"]))
        ps = s.parts if isinstance(s, SStr) else ()
        if len(ps) != 2 or ps[0][0] != "int" or ps[1] != "\n":
            raise Unsupported("written in another form")
        c.oblige("only ids of the table", c.ghost["%has"](ps[0][1]))
        it.setfield(o, "n", add(o.fields["n"], 1))
        it.setfield(o, "probe", add(o.fields["probe"], ite(eqv(ps[0][1], c.ghost["%P"]), 1, 0)))


def shuffle(it, a, k):
    c, l = it.ctx, a[0]
    n, f = l.length(), (lambda l: lambda i: lget(l, i))(VList(items=l.items, n=l.n, fn=l.fn) if l.items is None else VList(items=list(l.items)))
    p, q = c.func("shuffle", "int", "int"), c.func("unshuffle", "int", "int")
    c.assume(ForAll(1, lambda i: Implies(inrange(0, i, n), And(inrange(0, p(i), n), q(p(i)) == i))))
    c.assume(ForAll(1, lambda i: Implies(inrange(0, i, n), And(inrange(0, q(i), n), p(q(i)) == i))))
    it.note_write(l, "contents", None)
    l.items, l.n, l.fn = None, n, lambda i: f(p(to_z(i)))
    c.ghost["%shuffle"].append((p, q))


def setup(world):
    world.kinds["file"] = File
    world.models["random.seed"] = lambda it, a, k: None
    world.models["random.shuffle"] = shuffle


@proof("labels")
def p_labels(c, it):
    n = c.int("n", lo=0)
    ids = c.ilist("ids", n)
    f = ids.fn
    c.assume(ForAll(2, lambda i, j: Implies(And(0 <= i, i < j, j < n), to_z(f(i)) != to_z(f(j)))))
    ratio = c.real("ratio")
    c.assume(And(ratio >= 0, ratio <= 1))
    c.assume(And(ratio * z3.ToReal(n) <= z3.ToReal(n), ratio * z3.ToReal(n) >= 0))
    T = c.floor(ratio * z3.ToReal(n))
    rand = c.choose(2) == 1
    c.ghost["%shuffle"] = []
    out = it.force(it.call(it.get(DU + "select_training_test_nodes"), [ids, ratio, rand]))
    s = sorted_view(it, c.reg(VList(n=n, fn=f)))
    j = c.int("j", lo=0)
    c.assume(j < n)
    x = lget(s, j)
    c.oblige("every id is labelled", it.contains(out, x))
    y = c.int("y")
    c.oblige("only the given ids are labelled", Implies(it.contains(out, y), Exists(1, lambda i: And(inrange(0, i, n), eqv(f(i), y)))))
    lab = it.getitem(out, x)
    sh = c.ghost["%shuffle"]
    if not rand:
        c.oblige("nothing is random", not sh)
        c.oblige("the lowest ids are the training ids", eqv(lab, ite_str(j < T)))
    else:
        c.oblige("selection is random", len(sh) == 1)
        if len(sh) == 1:
            # the labels are a rearrangement of T training and n - T test labels
            c.oblige("as many training ids as requested", eqv(lab, ite_str(sh[0][0](j) < T)))


def ite_str(b):
    return ite(b, "train", "test")


def inv(L):
    g = L.ghost["%g"]
    k, p = to_z(L.k), g["p"]
    tr, te = g["files"]
    want = lambda f, b: eqv(f.fields["probe"], ite(And(p < k, b), 1, 0))
    return [("training file", want(tr, g["train"])), ("test file", want(te, Not(g["train"]))), ("one line per id", eqv(add(tr.fields["n"], te.fields["n"]), k)),
            ("files are open", And(Not(tr.fields["closed"]), Not(te.fields["closed"])))]


@proof("node list files", loops=[LoopSpec("ids", inv)])
def p_files(c, it):
    n = c.int("n", lo=0)
    ids, train, at = c.func("id", "int", "int"), c.func("train", "int", "bool"), c.func("at", "int", "int")
    c.assume(ForAll(1, lambda i: Implies(inrange(0, i, n), at(ids(i)) == i)))
    has = lambda x: And(inrange(0, at(to_z(x)), n), ids(at(to_z(x))) == to_z(x))
    m = c.reg(SMap(has, lambda x: ite_str(train(at(to_z(x)))), n))
    m.enum, m.distinct = Seq(n, lambda i: ids(to_z(i))), True
    p = c.int("p", lo=0)
    c.assume(p < n)
    names = [c.atom("str", "train_file"), c.atom("str", "test_file")]
    fs = [c.reg(Ext("file", n=0, probe=0, closed=False)) for _ in names]
    c.ghost.update({"%has": has, "%P": ids(p)})
    c.ghost["%g"] = {"p": p, "files": fs, "train": train(p)}
    opened = []

    def op(it, a, k):
        i = [j for j, x in enumerate(names) if eqv(a[0], x) is True]
        mode = a[1] if len(a) > 1 else k.get("mode", "r")
        c.oblige("opens the two files for writing", len(i) == 1 and mode in ("w", "w+", "wt"))
        opened.append(i[0] if i else None)
        return fs[i[0]] if i else _no()
    it.world.models["builtins.open"] = op
    it.call(it.get(DU + "write_node_files"), [m] + names)
    c.oblige("both files are opened once", sorted(opened) == [0, 1])
    c.oblige("an id is written to the file of its label, once, and to no other", And(eqv(fs[0].fields["probe"], ite(train(p), 1, 0)), eqv(fs[1].fields["probe"], ite(train(p), 0, 1))))
    c.oblige("one line per id", eqv(add(fs[0].fields["n"], fs[1].fields["n"]), n))
    c.oblige("both files are closed", And(fs[0].fields["closed"], fs[1].fields["closed"]))


def _no():
    raise Unsupported("other file")
