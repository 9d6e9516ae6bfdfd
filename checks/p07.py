from _ops import *
RULE = ('slice/fiber broadcasts, products, sums, norms, sum-and-norm pairs, normalisation and Euclidean norms, every axis, batch count 0-2, reduction option on or off; each case is one call on random shape, tiling, precision, parameters, blocking or asynchronous form, scheduler, worker count and task delays; every element of every operand compared with an extended-precision reference, inputs bit for bit; dyadic data are compared exactly where the operation only adds and multiplies. Non-trivial: more than one tile; distinct by operation, shapes, tiles and parameters')
ASSUME = ["reference formulas in lib/catalog.py (extended precision)", "tolerances count rounding errors: factor*eps*(sum of term magnitudes)"]
NAMES = GROUPS["slice"] + GROUPS["fiber"]
REQUIRE = {"evaluations": 400, "distinct": 150, "elements_compared": 10000, "executed": 500}


def jobs(tier):
    return op_jobs(tier, len(NAMES) * 80, len(NAMES) * 500)


def setup(job, cfg):
    return op_setup(job, cfg)


def case(ctx, rng, i):
    return numeric_case(ctx, rng, i, NAMES)
