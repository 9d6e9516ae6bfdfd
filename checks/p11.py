from _ops import *
RULE = ('embedding and its gradient, every axis, repeated indices, tile of the embedding dimension a multiple of the vocabulary tile; each case is one call on random shape, tiling, precision, parameters, blocking or asynchronous form, scheduler, worker count and task delays; every element of every operand compared with an extended-precision reference, inputs bit for bit; dyadic data are compared exactly where the operation only adds and multiplies. Non-trivial: more than one tile; distinct by operation, shapes, tiles and parameters')
ASSUME = ["reference formulas in lib/catalog.py (extended precision)", "tolerances count rounding errors: factor*eps*(sum of term magnitudes)"]
NAMES = GROUPS["emb"]
REQUIRE = {"evaluations": 200, "distinct": 100, "elements_compared": 5000, "executed": 300}


def jobs(tier):
    return op_jobs(tier, len(NAMES) * 450, len(NAMES) * 2000)


def setup(job, cfg):
    return op_setup(job, cfg)


def case(ctx, rng, i):
    return numeric_case(ctx, rng, i, NAMES)
