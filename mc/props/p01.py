"""P01: profile arithmetic is pointwise.  Explores every expression tree within the bounds, on the real classes."""
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of all expression trees up to a depth, executed on the real profile classes and compared with a reference evaluator"
BOUNDS = {
    "quick": "all expression trees with one operator over 9 profiles (real, complex, constants, window) and 8 numbers, every operator and operand order, on 4 sampling shapes (eager), the same over 5 profiles and 4 numbers on a plane and over 3 profiles on 4 shapes (traced); all trees with two operators over 3 profiles and 1 number (eager) and over 2 profiles and 1 number (traced); long chains",
    "thorough": "as quick, with one operator over everything traced on 4 shapes, two operators over 3 profiles and 3 numbers traced and over 5 profiles and 5 numbers eager, three operators over 2 profiles and 2 numbers eager"}
RULE = "state = expression tree (canonical JSON); transition = one evaluation of the real profile compared with the reference evaluation of the tree; an outcome is a distinct sampled result"
ASSUMPTIONS = ["points where the reference itself is ill-conditioned (division by values below 1e-6, branch cuts of non-integer powers, overflow) are not compared"]
DTYPES = ("float32", "float64")
SHARDS = 4

R = ["HG", 0.5, -0.25, 1.5, 2.0, 0, 0]
R2 = ["HG", -1.0, 0.5, 0.75, 3.0, 1, 2]
C = ["LG", -0.5, 0.25, 1.25, 2.0, 1, 0]
C2 = ["LG", 0.0, 0.0, 0.5, 3.0, -2, 1]
S = ["SG", 0.25, 0.0, 2.0, 2.5, 1.5]
Z = ["Z", 1.5, 4.0, 3, -1, True, True]
K = ["K", ["f", 1.5]]
KC = ["K", ["c", 0.5, -2.0]]
W = ["WR", 0.25, 0.5, 3.0, 2.0]
N1 = [["i", 2], ["i", -3], ["f", 0.5], ["f", -1.25], ["c", 1.0, 2.0], ["c", 0.0, 1.0], ["nf", 0.75], ["nc", 0.5, 0.25]]
FAST_TRACE = True


def combine(left, profs, nums, both=True):
    """All ways to put one more operator on top of expression `left`."""
    out = []
    for p in profs:
        for op in "+ - * / **".split():
            out.append([op, left, p])
            if both:
                out.append([op, p, left])
    for n in nums:
        for op in "+ - * / **".split():
            out.append([op, left, n])
        for op in "+ *".split():
            out.append([op, n, left])
    out.append(["neg", left])
    return out


def trees(depth, profs, nums):
    level = list(profs)
    for _ in range(depth):
        nxt = []
        for e in level:
            nxt += combine(e, profs, nums, both=(_ > 0))
        level = nxt
    return level


def cases(env):
    # every pair of kinds under every operator, on every sampling shape (graph mode traces anew for each shape)
    for e in trees(1, [R, C, K], [["i", 2]]):
        yield {"mode": "graph", "e": e, "g": 4}
    for e in trees(1, [R, C, K, KC, W], [["i", -3], ["f", 0.5], ["c", 1.0, 2.0], ["nf", 0.75]]):
        yield {"mode": "graph", "e": e, "g": 1}
    for e in trees(1, [R, R2, C, C2, S, Z, K, KC, W], N1):
        yield {"mode": "eager", "e": e, "g": 4}
    # special scalars
    for p in (R, C, K):
        for n in ([["i", 0], ["i", 1], ["f", 0.0], ["c", 0.0, 0.0], ["i", -1], ["f", 2.0], ["i", 3], ["i", 4], ["f", 1.0]]):
            for op in "+ - * **".split():
                yield {"mode": "eager", "e": [op, p, n], "g": 4}
            for op in "+ *".split():
                yield {"mode": "eager", "e": [op, n, p], "g": 4}
    # equal numbers of different types on the same profile, in both orders (an operand must not be remembered by value)
    for p in (R, C):
        for a, b in ((["i", 2], ["c", 2.0, 0.0]), (["c", -1.0, 0.0], ["i", -1]), (["f", 3.0], ["c", 3.0, 0.0]), (["c", 5.0, 0.0], ["f", 5.0]), (["i", 1], ["c", 1.0, 0.0]), (["c", 0.0, 0.0], ["f", 0.0])):
            for op in "+ - * / **".split():
                for n in (a, b):
                    if not (op == "/" and n[1] == 0):
                        yield {"mode": "eager", "e": [op, p, n], "g": 1}
    # nested expressions
    for e in trees(2, [R, C, KC], [["c", 1.0, 2.0]]):
        yield {"mode": "eager", "e": e, "g": 1}
    for e in trees(1, [R, C], [["f", 0.5]]):
        for op in "+ - * / **".split() if env.f64 == env.thorough else "-*":
            yield {"mode": "graph", "e": [op, e, C], "g": 1}
            yield {"mode": "graph", "e": [op, R, e], "g": 1}
    # chains of one repeated operator and alternations (sums of many beams)
    for ops in ["++++", "----", "****", "+-*/", "*+*+", "/-/-"]:
        e = R
        for i, o in enumerate(ops):
            e = [o, e, [C, S, R2, KC][i]]
        yield {"mode": "graph", "e": e, "g": 4}
    if env.thorough:
        for e in trees(1, [R, R2, C, C2, S, Z, K, KC, W], N1):
            yield {"mode": "graph", "e": e, "g": 4}
        for e in trees(2, [R, C, K], [["i", 2], ["f", 0.5], ["c", 0.0, 1.0]]):
            yield {"mode": "graph", "e": e, "g": 1}
        for e in trees(2, [R, C, K, KC, S], [["i", 2], ["f", -0.5], ["c", 1.0, 2.0], ["i", -1], ["nf", 0.75]]):
            yield {"mode": "eager", "e": e, "g": 4}
        for e in trees(3, [R, C], [["i", 2], ["c", 0.0, 1.0]]):
            yield {"mode": "eager", "e": e, "g": 2}


def run_case(env, case):
    import exprcase
    exprcase.run(env, case)
