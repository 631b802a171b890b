"""A fresh process for P33: runs every kind of computation of P31 and pickles the results."""
import json, os, pickle, sys, threading, warnings

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
opts, out = json.loads(sys.argv[1]), os.path.abspath(sys.argv[2])
start = opts["start"].split("+")
if "other_cwd" in start: sys.path.insert(0, os.path.relpath(REPO))     # the module path is relative to the directory at the start
else: sys.path.insert(0, REPO)


def main():
    import numpy as np, tensorflow as tf
    import boot
    if "threads" not in start:
        tf.config.threading.set_intra_op_parallelism_threads(1)
        tf.config.threading.set_inter_op_parallelism_threads(1)
    boot._install_seam()
    boot.SEAM.script = lambda shape: (np.arange(int(np.prod(shape))) * 7 % 13 / 13.0).reshape(shape)
    if "strict" in start: warnings.simplefilter("error")
    if "configured" in start:
        np.seterr(divide="raise", over="raise", invalid="raise")
        np.random.seed(3); tf.random.set_seed(3)
        tf.constant(0.0, tf.float64)
    res = {}
    if "import" in start:
        from props import p33
        tf.constant(0)
        import PIL.Image, PIL.ImageDraw, PIL.ImageFont, scipy.special, scipy.constants
        res["before"] = p33.settings()
        import pySLM2, pySLM2.util
        res["after"] = p33.settings()
        pickle.dump(res, open(out, "wb"))
        return
    import pySLM2
    if opts["dtype"] == "float64": pySLM2.BACKEND.dtype = tf.float64
    if "other_cwd" in start: os.chdir("/")
    from props import p31, p33
    for k in p33.KINDS:
        for v in (0, 1):
            try: res["%s %d" % (k, v)] = [np.array(q, copy=True) for q in p31.make(k, v)()]
            except Exception as e: res["%s %d" % (k, v)] = "raised %s: %s" % (type(e).__name__, str(e)[:200])
    pickle.dump(res, open(out, "wb"))


if "import_in_thread" in start:
    t = threading.Thread(target=main)
    t.start(); t.join()
else:
    main()
