"""The real conversion command, run inside this process."""
import runpy, sys, warnings


def convert(*argv):
    old = sys.argv
    try:
        sys.argv = ["convert.py"] + [str(a) for a in argv]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            runpy.run_module("deepgnn.graph_engine.snark.convert", run_name="__main__", alter_sys=False)
    except SystemExit as e:
        raise RuntimeError(f"the command ended with {e}")
    finally:
        sys.argv = old
