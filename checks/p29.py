from _ops import *
import p17
RULE = ("every operation offered on single tiles, on random shapes (0-5 dims), parameters, precision and data (dyadic, IEEE special values, "
        "beta=0 over NaN), blocking and asynchronous: every element compared with the extended-precision reference, inputs bit-identical; the "
        "same call broken in one condition must raise, start nothing and change nothing. distinct: (operation, shapes, parameters), (operation, kind of violation)")
ASSUME = ["reference formulas in lib/catalog.py"]
NAMES = [n for n in CAT if CAT[n].tile_ok]
REQUIRE = {"evaluations": 3000, "distinct": 1000, "elements_compared": 100000, "rejected": 2000, "executed": 3000}


def jobs(tier):
    return op_jobs(tier, len(NAMES) * 35, len(NAMES) * 500, group="tile")


def setup(job, cfg):
    return op_setup(job, cfg)


def case(ctx, rng, i):
    j = i // len(NAMES)
    if j % 6 == 4:
        return p17.run(ctx, rng, i, True)
    return numeric_case(ctx, rng, i, NAMES, True)
