"""P11: simulation results are exactly those of the last propagation."""
import itertools
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of operation histories (all words up to a length) on two real simulations of one device against a reference model of the stored fields"
BOUNDS = {
    "quick": "two simulations (paddings 0,0 and 1,2) of one 5x4 DMD; every sequence of 3 of 20 operations (assign 2 states, overwrite the state / the last input / the returned arrays in place, propagate 2 inputs, block with default / small / large / zero radius, clear) in long histories, every sequence of 2 and every sequence of 3 of 9 operations from fresh objects; all results of both simulations read after every operation",
    "thorough": "every sequence of 4 in long histories, every sequence of 3 of all 20 from fresh objects"}
RULE = "state = reference state of both simulations and the device plus the last operations; transition = one operation followed by reading all fields, intensities and powers; an outcome is a distinct image-plane intensity"
ASSUMPTIONS = ["no sample lies exactly on a blocking radius"]
SHARDS = 4
PADS = ((0, 0), (1, 2))
PERIOD = 3.3

OPS = [["state", 0], ["state", 1], ["mutstate"], ["mutinput"]] + [
    [o, s] + a for s in (0, 1) for o, a in (("prop", [0]), ("prop", [1]), ("block", [None]), ("block", [1.3]), ("block", [2]), ("block", [0.0]), ("clear", []), ("mutout", []))]
SMALL = [["state", 1], ["mutstate"], ["prop", 0, 0], ["prop", 1, 1], ["block", 0, None], ["block", 1, 1.3], ["clear", 0], ["mutout", 0], ["mutinput"]]


def cases(env):
    import tours
    n = 4 if env.thorough else 3
    for s in tours.segments(tours.de_bruijn(OPS, n), 300, n - 1):
        yield {"mode": "graph", "ops": s}
    for seq in itertools.product(OPS, repeat=2):
        yield {"mode": "eager", "ops": list(seq)}
    for seq in itertools.product(OPS if env.thorough else SMALL, repeat=3):
        yield {"mode": "eager", "ops": list(seq)}


def run_case(env, case):
    import numpy as np, tensorflow as tf, pySLM2 as S, optics
    tf.config.run_functions_eagerly(case["mode"] == "eager")
    try:
        d = optics.Dev(5, 4)
        dmd = optics.dmd(S, d, PERIOD, 0.6)
        other = optics.dmd(S, d, PERIOD, 0.6)               # a device that is never touched
        sims = [S.DMDSimulation(dmd, padding_x=a, padding_y=b) for a, b in PADS]
        state0 = [optics.bits(0b10110011100011110101, (4, 5)), optics.bits(0b01101110010110000111, (4, 5))]
        ins = [optics.inputs(d)["tilt"][1].astype(env.cplx), optics.inputs(d)["real"][1].astype(env.real)]
        model = [None, None]                                # (input, output, image) per simulation
        cur = np.zeros((4, 5))
        last = None
        for k, op in enumerate(case["ops"]):
            env.failed_at = k
            what = "after operation %d %s" % (k, op)
            if op[0] == "state":
                dmd.dmd_state = state0[op[1]].copy()
                cur = state0[op[1]].astype(float)
            elif op[0] == "mutstate":
                st = np.array(dmd.dmd_state)
                st[1, 2] = not st[1, 2]
                dmd.dmd_state[1, 2] = st[1, 2]              # in place, on the device's own array
                cur = st.astype(float)
            elif op[0] == "mutinput":
                if last is not None:
                    last += 3.0
            elif op[0] == "prop":
                last = ins[op[2]].copy()
                sims[op[1]].propagate_to_image(last)
                pad = PADS[op[1]]
                E = last.astype(complex)
                out = d.embed(E * cur, *pad)
                model[op[1]] = [d.embed(E, *pad), out, d.to_image(out, *pad)]
            elif op[0] == "block":
                sim, r = sims[op[1]], op[2]
                if model[op[1]] is None:
                    env.raises(TypeError, lambda: sim.block_zeroth_order() if r is None else sim.block_zeroth_order(r), "block without a propagation " + what)
                else:
                    sim.block_zeroth_order() if r is None else sim.block_zeroth_order(r=r)
                    X, Y = d.igrid(*PADS[op[1]])
                    rr = d.sf / (PERIOD * d.px) / 2 if r is None else r
                    model[op[1]][2] = np.where(X ** 2 + Y ** 2 < rr ** 2, 0, model[op[1]][2])
            elif op[0] == "clear":
                sims[op[1]].clear()
                model[op[1]] = None
            elif op[0] == "mutout":
                for n in NAMES:
                    a = getattr(sims[op[1]], n)
                    if a is not None and a.flags.writeable:
                        a += 5.0
            env.step()
            key = []
            for i, sim in enumerate(sims):
                fields = model[i] or [None] * 3
                af, ai = d.areas(*PADS[i])
                for j, n in enumerate(("input", "output", "image_plane")):
                    f, inten = getattr(sim, n + "_field"), getattr(sim, n + "_intensity")
                    w = "%s: %s of simulation %d" % (what, n, i)
                    if fields[j] is None:
                        env.check(f is None and inten is None, lambda: w + " is not None before a propagation")
                        continue
                    env.check(f is not None and inten is not None, lambda: w + " is None")
                    env.close(f, fields[j], w + " field", scale=12.0)
                    env.close(inten, np.abs(fields[j]) ** 2, w + " intensity", scale=150.0)
                    if j == 2:
                        env.same(f == 0, (fields[2] == 0) | (f == 0), w)     # blocked samples are exactly zero
                        env.check(not np.any(f[fields[2] == 0]), lambda: w + ": blocked samples are not zero")
                        env.outcome_array(np.round(np.abs(fields[2]), 3))
                    p = getattr(sim, "get_%s_power" % n)()
                    want = float(np.sum(np.abs(fields[j]) ** 2)) * (ai if j == 2 else af)
                    env.check(abs(float(p) - want) <= (1e-9 if env.f64 else 1e-4) * 500, lambda: "%s power %r, expected %r" % (w, p, want))
                key.append(None if fields[2] is None else np.round(np.abs(fields[2]), 3).tolist())
            env.check(not np.any(other.dmd_state), "another device changed " + what)
            env.state((key, cur.tolist(), case["mode"]))
        env.sample({"operations": case["ops"][:6]})
    finally:
        tf.config.run_functions_eagerly(False)


NAMES = [a + b for a in ("input", "output", "image_plane") for b in ("_field", "_intensity")]
