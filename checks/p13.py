"""The same data under different tilings."""
import numpy as np
from _ops import *
from core import NP
import oprun, program
from p03 import diff
RULE = ("a random call (same sizes, data, factors) is executed under 3-6 tilings, always including one tile per tensor, the finest tiling "
        "allowed and random uneven ones; data-movement, element-wise and indexed operations must give the same bits under all of them, "
        "the others are each judged against the extended-precision reference, and pairwise with dyadic data bit for bit. Random programs of "
        "such operations are executed asynchronously under 3 tilings and must end bit-identical. distinct: (call, tiling) pairs with more than one tile")
ASSUME = ["operations with accumulations may differ by rounding between tilings; those are compared with a reference instead"]
NAMES = [n for n in CAT]
BITW = [n for n in program.prog_ops() if CAT[n].bitwise]
REQUIRE = {"evaluations": 1200, "distinct": 2000, "elements_compared": 100000, "partial_tiles": 500, "tilings_compared_bitwise": 1500, "programs": 40,
           "executed": 20000}


def jobs(tier):
    return op_jobs(tier, 300, 8000)


def setup(job, cfg):
    return op_setup(job, cfg)


def finest(p, rng):
    q = p.retile(rng)
    for l in q.tile:
        if l not in q.full:
            q.tile[l] = 1 if q.size[l] <= 6 else -(-q.size[l] // 6)
    q.op.fix_tiles(q, rng, False)
    return q


def case(ctx, rng, i):
    return prog_case(ctx, rng, i) if i % 12 == 5 else op_case(ctx, rng, i)


def op_case(ctx, rng, i):
    core = ctx.core
    op = CAT[NAMES[(i + ctx.job["shard"] * 7) % len(NAMES)]]
    note(ctx, op.name)
    p = op.make(rng, **profile(int(rng.integers(6))))
    D = op.data(p, rng)
    T = [p, p.retile(rng, whole=True), finest(p, rng)] + [p.retile(rng) for _ in range(int(rng.integers(1, 4)))]
    first = None
    keys, n, part, bitw = [], 0, 0, 0
    exact = op.bitwise or (op.exact and p.par.get("_dyad"))
    for q in T:
        if q.ntiles() > 300 or any(q.shape(s)[0] != D[s.name].shape for s in q.specs):
            continue
        got = oprun.run_problem(core, q, D, bool(rng.random() < 0.3))
        n += oprun.judge(q, D, got)
        core.raise_monitor(op.name + ":")
        if q.multi():
            keys.append(describe(q))
        part += q.partial()
        if first is None:
            first, fq = got, q
        elif exact:
            for s in p.specs:
                if s.role != "tmp" and first[s.name].shape == got[s.name].shape:
                    bitw += 1
                    if not same_bits(first[s.name], got[s.name]) and not same(first[s.name], got[s.name], op.bitwise):
                        diff(got[s.name], first[s.name], op.name + ":tilings-differ", "%s against %s" % (describe(q), describe(fq)))
    return dict(n=len(T), count={"elements_compared": n, "partial_tiles": part, "tilings_compared_bitwise": bitw}, keys=keys,
                sample=describe(p))


def same(a, b, sign):
    """Equal values; NaN equals NaN whatever its payload; the sign of zero counts unless the order of a sum may differ."""
    if a.dtype.kind != "f":
        return False
    eq = a == b
    if sign:
        eq &= np.signbit(a) == np.signbit(b)
    return bool((eq | (np.isnan(a) & np.isnan(b))).all())


def prog_case(ctx, rng, i):
    core = ctx.core
    note(ctx, "program")
    prog = program.grow(core, rng, int(rng.integers(6, 25)), ops=BITW)
    if len(prog.steps) < 3:
        return dict(n=0)
    keys = []
    for k in range(3):
        tiles = prog.u.tiling(rng, whole=k == 0)
        if k == 1:
            tiles = {s: (t if s == prog.u.fullsize else 1 if s < 6 else 2) for s, t in tiles.items()}
        T = program.replay(core, prog, tiles)
        for n, t in enumerate(T):
            g = t.get()
            if not same_bits(g, prog.final[n]) and not same(g, prog.final[n], True):
                diff(g, prog.final[n], "program:tilings-differ", "t%d tiles %s against %s: %s" % (n, tiles, prog.u.tiles, prog.describe()[:1500]))
        core.wait()
        for t in T:
            t.free()
        keys.append("%s %s" % (tiles, prog.describe()))
    core.raise_monitor("program:")
    return dict(n=3, count=dict(programs=1, steps=len(prog.steps)), keys=keys, sample=prog.describe())
