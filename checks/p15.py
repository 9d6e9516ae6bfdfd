"""Stale contents of overwritten and temporary buffers, untouched inputs."""
import numpy as np
from _ops import *
from core import NP
import oprun, program
from p03 import diff
from p13 import same
RULE = ("a random call is executed 4 times with the buffers it announces as overwritten or temporary holding zeros, NaN, huge values and random "
        "bits beforehand, with and without the monitor poisoning write-only and scratch buffers right before each task; all runs must give the same bits and the "
        "reference result, all inputs stay bit-identical, and no task may change a buffer it declared as read (hashed before and after each task). Random programs are "
        "replayed with poisoned first contents of tensors that the program overwrites first. distinct: (call, contents)")
ASSUME = ["scaled by zero: beta = 0; a factor alpha = 0 is not a licence for NaN in the source"]
NAMES = [n for n in CAT]
REQUIRE = {"evaluations": 2000, "distinct": 500, "elements_compared": 100000, "stale_pairs": 1500, "hashed_buffers": 20000, "poisoned_buffers": 4000,
           "programs": 30, "program_stale_tensors": 30}


def jobs(tier):
    return op_jobs(tier, 330, 7000)


def setup(job, cfg):
    return op_setup(job, cfg)


def stale(rng, k, d):
    if d.dtype.kind == "f":
        if k == 0:
            return np.zeros_like(d)
        if k == 1:
            return np.full_like(d, np.nan)
        if k == 2:
            return np.full_like(d, np.finfo(d.dtype).max * (1 if rng.random() < 0.5 else -1))
        if k == 3:
            return np.full_like(d, [np.inf, -np.inf, 1.0, -0.0][int(rng.integers(4))])
    n = max(d.nbytes, 1)
    if d.dtype == np.bool_:
        return rng.random(d.shape) < 0.5
    return np.frombuffer(rng.integers(0, 256, n, dtype=np.uint8).tobytes()[:d.nbytes], d.dtype).reshape(d.shape).copy()


def case(ctx, rng, i):
    return prog_case(ctx, rng, i) if i % 14 == 9 else op_case(ctx, rng, i)


def op_case(ctx, rng, i):
    core = ctx.core
    op = CAT[NAMES[(i + 5 * ctx.job["shard"]) % len(NAMES)]]
    note(ctx, op.name)
    tile = op.tile_ok and rng.random() < 0.15
    for _ in range(60):
        p = op.make(rng, **profile(int(rng.integers(6))))
        st = [s for s in p.specs if s.role in ("out", "tmp")]
        if (st or rng.random() < 0.1) and not (tile and hasattr(op, "tile_legal") and not op.tile_legal(p)):
            break
    tile = tile and (not hasattr(op, "tile_legal") or op.tile_legal(p))
    if tile:
        p = p.retile(rng, whole=True)
    p.par["redux"] = p.par.get("redux", 0)
    D = op.data(p, rng)
    if tile:
        D = {s.name: D[s.name] if D[s.name].shape == p.shape(s)[0] else np.zeros(p.shape(s)[0], D[s.name].dtype) for s in p.specs}
        if hasattr(op, "tile_prior"):
            st = []
            D = op.tile_prior(p, D, rng)
    first, n, keys, pairs = None, 0, [], 0
    # a parallel reduction may combine its parts in any order
    redux = bool(p.par["redux"]) and not (op.exact and p.par.get("_dyad"))
    start = int(rng.integers(5))
    for k in range(4):
        for s in st:
            D[s.name] = stale(rng, (start + k) % 5, D[s.name])
        fl = ctx.job.get("flags", F_ALL) | (F_DELAY if ctx.job.get("delay") else 0)
        if k % 2:
            fl &= ~6
        core.monitor(fl, int(rng.integers(1 << 40)), ctx.job.get("delay", 0), 64)
        got = oprun.run_problem(core, p, D, bool(rng.random() < 0.4), tile)
        n += oprun.judge(p, D, got, tile=tile)
        core.raise_monitor(op.name + ":")
        if first is None:
            first = got
            continue
        for s in p.specs:
            if s.role in ("out", "inout"):
                pairs += bool(st)
                if not same_bits(got[s.name], first[s.name]) and not redux and not same(got[s.name], first[s.name], True):
                    diff(got[s.name], first[s.name], op.name + ":depends-on-stale-contents", "%s of %s (contents %d)" % (s.name, describe(p), k))
    if st:
        keys.append((describe(p), start))
    return dict(n=4, count=dict(elements_compared=n, stale_pairs=pairs, single_tile=int(tile)), keys=keys, sample=describe(p))


def prog_case(ctx, rng, i):
    core = ctx.core
    note(ctx, "program")
    prog = program.grow(core, rng, int(rng.integers(6, 25)))
    if len(prog.steps) < 3:
        return dict(n=0)
    first = {}
    for st in prog.steps:
        for s in st.p.specs:
            first.setdefault(st.bind[s.name], s.role)
    over = [t for t, r in first.items() if r in ("out", "tmp")]
    tmp = {st.bind[s.name] for st in prog.steps for s in st.p.specs if s.role == "tmp"}
    for k in range(2):
        init = list(prog.init)
        for t in over:
            prog.init[t] = stale(rng, int(rng.integers(5)), init[t])
        T = program.replay(core, prog)
        for n, t in enumerate(T):
            g = t.get()
            if n not in tmp and not same_bits(g, prog.final[n]) and not same(g, prog.final[n], True):
                diff(g, prog.final[n], "program:depends-on-stale-contents", "t%d: %s" % (n, prog.describe()[:1500]))
        core.wait()
        for t in T:
            t.free()
        prog.init = init
    core.raise_monitor("program:")
    return dict(n=2, count=dict(programs=1, steps=len(prog.steps), program_stale_tensors=len(over)), keys=[prog.describe()], sample=prog.describe())
