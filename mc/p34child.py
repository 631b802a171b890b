"""A fresh process for P34: runs one program with the real random generator and pickles the exact bytes of its results."""
import json, os, pickle, sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
sys.path.insert(0, HERE)
opts, out = json.loads(sys.argv[1]), os.path.abspath(sys.argv[2])
if opts["rubbish"]:         # another layout of the memory, with rubbish in what was freed
    import numpy as np
    keep = [np.full(n, np.nan) for n in range(1, 4000, 7)]
    del keep[::2]
import numpy as np, tensorflow as tf
tf.config.threading.set_intra_op_parallelism_threads(1)
tf.config.threading.set_inter_op_parallelism_threads(1)
import pySLM2
if opts["dtype"] == "float64": pySLM2.BACKEND.dtype = tf.float64
if opts["mode"] == "eager": tf.config.run_functions_eagerly(True)
from props import p31
if opts["seed"] is not None: tf.random.set_seed(opts["seed"])
res, made = [], {}


def bare(kind, v):
    """One public call on objects that exist already, so that nothing else is allocated before it."""
    import pySLM2 as S, optics, holo
    from pySLM2.util.sample import number_image
    nx, ny = [(5, 3), (4, 5)][v % 2]
    d = optics.Dev(nx, ny)
    X, Y = d.fgrid()
    dmd = optics.dmd(S, d, 3.3, 0.4)
    dmd.dmd_state = (np.arange(nx * ny).reshape(ny, nx) * (3 + v)) % 5 < 2
    sim = S.DMDSimulation(dmd, padding_x=1, padding_y=v)
    beam, prof, amp, flat = np.exp(0.3j * X), S.HermiteGaussian(0.1, 0.2, 1.5, 2.0, n=1), 0.5 + 0.03 * X, np.cos(X + Y)
    target, win = holo.targets(d)["pattern"][1], (X > 0) * 1.0
    frame = dmd.dmd_state
    def back(f):
        def g():
            f()
            r, dmd.dmd_state = dmd.dmd_state, frame
            return [r]
        return g
    return {"bare pack": lambda: [np.frombuffer(dmd.pack_dmd_state(), np.uint8)],
            "bare propagate": lambda: sim.propagate_to_image(beam) or [sim.image_plane_field, sim.output_field, sim.get_image_plane_power()],
            "bare call": lambda: [prof(X, Y)], "bare convert": lambda: [dmd.profile_to_tensor(prof, complex=True).numpy(), dmd.profile_to_tensor(amp).numpy()],
            "bare grating": back(lambda: dmd.set_dmd_grating_state(amp, 0.1, flat, method="ideal")), "bare patch": back(lambda: dmd.circular_patch(1, 2, amp, 0.1, flat, 3.0, method="simple")),
            "bare hologram": back(lambda: dmd.calculate_dmd_state(beam, target, method="ideal", window=win)), "bare off": back(dmd.set_dmd_state_off), "bare on": back(dmd.set_dmd_state_on),
            "bare number": lambda: [number_image(7 * v, 23, 17)], "bare remove": lambda: [S.remove_trivial_phase(flat, 1.7, True)] if hasattr(S, "remove_trivial_phase") else [flat],
            "bare grids": lambda: list(dmd.fourier_plane_grid) + list(sim.image_plane_padded_grid)}[kind]


def rubbish():              # fresh memory of any size holds other contents in every condition
    for sizes, times in ((range(1, 1024), 8), (range(1024, 1 << 16, 512), 2)):
        for n in sizes:
            keep = [np.full(n, opts["fill"], np.uint8) for _ in range(times)]
            del keep


for what, v in opts["program"]:
    if (what, v) not in made: made[what, v] = bare(what, v) if what.startswith("bare") else p31.make(what, v)
    rubbish()
    try: res.append([(str(q.dtype), q.shape, q.tobytes()) for q in (np.array(a) for a in made[what, v]())])
    except Exception as e: res.append("raised %s: %s" % (type(e).__name__, str(e)[:300]))
pickle.dump(res, open(out, "wb"))
