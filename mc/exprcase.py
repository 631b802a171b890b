"""Execution of one expression case (P01, P02): build on the real classes, sample, compare, re-check the operands."""
LEAF_OBJECTS = {}       # one shared object per leaf: operands live through all the cases of a worker


def grids():
    import numpy as np
    xs = np.array([-2.5, -0.75, 0.0, 0.5, 1.25, 3.0])
    ys = np.array([-1.5, 0.25, 0.5, 2.0])
    X, Y = np.meshgrid(xs, ys)
    return [("plane", X, Y), ("scalar", 0.75, -0.5), ("line", xs, np.full(6, 0.25)), ("row-col", xs[None, :], ys[:, None])]


def run(env, case):
    import numpy as np, tensorflow as tf, pySLM2, ref
    tf.config.run_functions_eagerly(case["mode"] == "eager")
    try:
        memo = dict(LEAF_OBJECTS)
        e = case["e"]
        prof = ref.build(pySLM2, e, memo)
        LEAF_OBJECTS.update((repr(l), memo[repr(l)]) for l in ref.leaves_of(e))
        env.check(isinstance(prof, pySLM2.FunctionProfile), lambda: "result of the expression is %s, not a profile" % type(prof))
        env.state((case["mode"], e))
        g = grids()
        for name, x, y in g[:case["g"]]:
            v = ref.compare_profile(env, prof, e, x, y, "%s on %s" % (e, name))
            if name == "plane":
                env.outcome_array(v)
        for l in ref.leaves_of(e)[-1 if case["mode"] == "eager" else 0:]:
            ref.compare_profile(env, memo[repr(l)], l, g[0][1], g[0][2], "operand %s after evaluating %s" % (l, e))
        env.sample({"expression": e, "value_at(0.75,-0.5)": str(complex(np.asarray(prof(0.75, -0.5))))})
    finally:
        tf.config.run_functions_eagerly(False)
