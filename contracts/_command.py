"""The conversion command: which converter the options on the command line build."""
from vc.api import *


class Parser:
    """argparse: every option is either given, then its converted value is handed over, or has its default"""

    def m_add_argument(it, o, *names, default=None, type=None, help=None, action=None, **k):
        if k or action is not None:
            raise Unsupported("command line option of a kind without a contract")
        long = [n for n in names if isinstance(n, str) and n.startswith("--")]
        if not long:
            raise Unsupported("command line option without a long name")
        o.fields["defaults"][long[0][2:].replace("-", "_")] = default
        return None

    def m_parse_args(it, o):
        d = o.fields["defaults"]
        given = it.ctx.ghost["%given"]
        for k in given:
            if k not in d:
                raise Unsupported(f"no option --{k}")
        return it.ctx.reg(Ext("cargs", v=dict(d, **given)))


class Args:
    def dyn(it, o, name):
        if name not in o.fields["v"]:
            raise Unsupported("option " + str(name))
        return o.fields["v"][name]


def setup(world):
    install_mp(world)
    world.kinds.update({"cparser": Parser, "cargs": Args, "conv": type("Conv", (), {"m_convert": staticmethod(lambda it, o: it.ctx.ghost["%built"].update(done=True))})})
    world.models["argparse.ArgumentParser"] = lambda it, a, k: it.ctx.reg(Ext("cparser", defaults={}))


NAMES = ("graph_path", "output_dir", "decoder", "partition_count", "worker_index", "worker_count", "record_per_step", "buffer_size", "queue_size",
         "thread_count", "dispatcher", "skip_node_sampler", "skip_edge_sampler", "file_iterator", "debug", "watermark")


def build(it, a, k):
    it.ctx.ghost["%built"].update(dict(zip(NAMES, a)), **k)
    return it.ctx.reg(Ext("conv"))


OV = {GE + "snark.convert.MultiWorkersConverter": build}


def command(c, it, **given):
    """the arguments of the converter the command builds"""
    v = {"data": c.atom("str", "data"), "out": c.atom("str", "out"), "partitions": c.int("partitions", lo=1), "type": "json"}
    v.update(given)
    c.ghost["%given"] = v
    c.ghost["%built"] = b = {}
    it.run_main(GE + "snark.convert")
    c.oblige("the conversion is run", b.get("done") is True)
    return v, b
