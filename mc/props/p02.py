"""P02: profile transforms are the documented coordinate substitutions.  All transform/arithmetic chains up to a depth."""
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of all transform chains up to a depth, executed on the real profile classes and compared with a reference evaluator"
BOUNDS = {
    "quick": "all chains of 3 out of 13 operations (shift, rotate, rescale_x, rescale_y, as_complex_profile with int, float and numpy arguments of both signs, sum, product, negation) over a real and a complex profile and all chains of 2 over 6 further profiles (eager), all chains of 2 over a real profile traced, every single operation over all 8 profiles traced and on 4 sampling shapes; 11 further arguments (angles of several turns, large, small and neutral ones) alone and around every operation; every pair of 29 transforms with close, opposite and exchanged arguments made of the same object",
    "thorough": "all chains of 4 over a real profile, of 3 over all 8 profiles (eager), all chains of 2 over 8 profiles and of 3 over one traced"}
RULE = "state = chain of operations on a profile; transition = one evaluation compared with the reference; an outcome is a distinct sampled result"
ASSUMPTIONS = ["points whose value is ill-conditioned (window edges within rounding of the transformed coordinate, vortex centres) are not compared"]
SHARDS = 4
FAST_TRACE = True

R = ["HG", 0.5, -0.25, 1.5, 2.0, 1, 2]
C = ["LG", -0.5, 0.25, 1.25, 2.0, 1, 0]
S = ["SG", 0.25, -0.5, 2.0, 2.5, 1.5]
Z = ["Z", 1.5, 4.0, 3, -1, True, False]
K = ["K", ["f", 1.5]]
KC = ["K", ["c", 0.5, -2.0]]
W = ["WR", 0.25, 0.5, 3.0, 2.0]
WC = ["WC", 0.25, 0.5, 1.75]
LEAVES = [R, C, S, Z, K, KC, W, WC]


def ops():
    return [lambda e: ["shift", e, ["f", 0.5], ["f", -0.25]], lambda e: ["shift", e, ["i", -1], ["i", 2]], lambda e: ["shift", e, ["nf", 0.125], ["i", 0]],
            lambda e: ["rot", e, ["f", 0.7]], lambda e: ["rot", e, ["i", -2]], lambda e: ["rx", e, ["i", 2]], lambda e: ["rx", e, ["f", -0.75]],
            lambda e: ["ry", e, ["nf", 0.5]], lambda e: ["ry", e, ["f", -1.5]], lambda e: ["asc", e],
            lambda e: ["+", e, R], lambda e: ["*", e, C], lambda e: ["neg", e]]


def chains(leaf, depth):
    level = [leaf]
    for _ in range(depth):
        level = [o(e) for e in level for o in ops()]
    return level


BIG = [lambda e: ["rot", e, ["f", 7.5]], lambda e: ["rot", e, ["f", -9.5]], lambda e: ["rot", e, ["i", 100]], lambda e: ["shift", e, ["i", 40], ["f", -25.5]], lambda e: ["rx", e, ["f", 30.0]],
       lambda e: ["ry", e, ["f", 0.03]], lambda e: ["rot", e, ["i", 0]], lambda e: ["shift", e, ["i", 0], ["i", 0]], lambda e: ["rx", e, ["i", 1]], lambda e: ["ry", e, ["i", -1]], lambda e: ["asc", ["asc", e]]]


# transforms of one object with arguments that are close, of the same size, or equal but for their type
CLOSE = [["rot", ["f", 0.7]], ["rot", ["f", 0.7003]], ["rot", ["f", 0.700001]], ["rot", ["f", -0.7]], ["rot", ["f", 0.7 + 3.0]], ["rot", ["i", 1]], ["rot", ["f", 1.004]], ["shift", ["f", 0.5], ["f", -0.25]], ["shift", ["f", -0.25], ["f", 0.5]],
         ["shift", ["f", 0.5002], ["f", -0.25]], ["shift", ["f", 0.5], ["f", -0.250001]], ["shift", ["f", 0.5], ["f", 0.25]], ["shift", ["i", 0], ["f", 0.5]], ["shift", ["f", 0.5], ["i", 0]], ["rx", ["i", 2]], ["rx", ["f", 2.0003]], ["rx", ["f", 2.000001]], ["rx", ["f", -2.0]], ["rx", ["f", 0.5]], ["ry", ["i", 2]],
         ["ry", ["f", 2.0003]], ["ry", ["f", -2.0]], ["ry", ["f", 0.5]], ["asc"], ["neg"], ["+", ["f", 0.5]], ["+", ["f", 0.5003]], ["*", ["f", 0.5]], ["*", ["c", 0.5, 0.001]]]


def cases(env):
    for l in LEAVES:
        for a in range(len(CLOSE)):
            yield {"kind": "same object", "mode": "eager", "leaf": l, "first": a, "ops": list(range(len(CLOSE)))}
    # angles of several turns, large and small factors, neutral arguments; alone and around every other operation
    for l in LEAVES:
        for b in BIG:
            yield {"mode": "eager", "e": b(l), "g": 2}
            if l in (R, C):
                for o in ops():
                    yield {"mode": "eager", "e": o(b(l)), "g": 1}
                    yield {"mode": "eager", "e": b(o(l)), "g": 1}
    for l in LEAVES:
        for e in chains(l, 1):
            yield {"mode": "graph", "e": e, "g": 4 if l in (R, C, K) else 1}
    for e in chains(R, 2):
        yield {"mode": "graph", "e": e, "g": 1}
    for l in LEAVES[2:]:
        for e in chains(l, 2):
            yield {"mode": "eager", "e": e, "g": 2}
    for l in LEAVES[:2]:
        for e in chains(l, 3):
            yield {"mode": "eager", "e": e, "g": 1}
    if env.thorough:
        for l in LEAVES[2:]:
            for e in chains(l, 3):
                yield {"mode": "eager", "e": e, "g": 2}
        for l in LEAVES[1:]:
            for e in chains(l, 2):
                yield {"mode": "graph", "e": e, "g": 2}
        for e in chains(R, 3):
            yield {"mode": "graph", "e": e, "g": 1}
        for e in chains(R, 4):
            yield {"mode": "eager", "e": e, "g": 1}


def same_object(env, case):
    """Every pair of transforms of one object, both derived before either is sampled and again after."""
    import numpy as np, tensorflow as tf, ref, pySLM2 as S
    X, Y = np.meshgrid([-1.9, -0.83, 0.0, 0.41, 1.37, 2.6], [-1.63, 0.31, 0.94, 2.1])
    l = case["leaf"]
    expr = lambda o: [o[0], l] + o[1:]
    obj = ref.build(S, l)
    a = expr(CLOSE[case["first"]])
    tf.config.run_functions_eagerly(True)
    try:
        for k in case["ops"]:
            env.failed_at = k
            b = expr(CLOSE[k])
            made = []
            for e in (a, b, a):
                memo = {repr(l): obj}
                made.append(ref.build(S, e, memo))
            for n in (1, 0, 2):
                v = ref.compare_profile(env, made[n], (a, b, a)[n], X, Y, "%s made of an object that also gave %s" % ((a, b, a)[n], (b, a, b)[n]))
            env.outcome_array(v)
            env.state((l, a, b))
        ref.compare_profile(env, obj, l, X, Y, "%s after being transformed" % (l,))
    finally:
        tf.config.run_functions_eagerly(False)


def run_case(env, case):
    if case.get("kind"): return same_object(env, case)
    import exprcase
    exprcase.run(env, case)
