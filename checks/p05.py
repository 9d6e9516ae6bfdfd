from _ops import *
RULE = ("each case is one call of an element-wise operation on random shape (0-4 dims, 1-33 per dim), random tiling, "
        "precision, scalar factors (0, +-1, 0.5, -2, 3, random), blocking or asynchronous form, random scheduler, worker "
        "count and task delays; data normal, dyadic (exact compare) or with inf/nan/signed zero/denormals; every element "
        "of every operand is compared with an extended-precision reference. Non-trivial: more than one tile; distinct by "
        "operation, shapes, tiles and parameters")
ASSUME = ["reference formulas in lib/catalog.py", "overflow of intermediate terms leaves an element unspecified"]
NAMES = GROUPS["ew"] + ["axpy_tensor"] if "axpy_tensor" in CAT else GROUPS["ew"]
REQUIRE = {"evaluations": 400, "distinct": 150, "elements_compared": 10000, "executed": 500}


def jobs(tier):
    return op_jobs(tier, 17 * 60, 17 * 300)


def setup(job, cfg):
    return op_setup(job, cfg)


def case(ctx, rng, i):
    return numeric_case(ctx, rng, i, NAMES)
