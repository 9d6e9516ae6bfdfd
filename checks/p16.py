"""Parallel reduction on and off."""
import numpy as np
from _ops import *
from core import NP
import oprun, program
from p03 import diff
from p13 import same
RULE = ("every operation with a parallel-reduction option is executed with the option off and on (each twice, different delays) on the same data, factors and "
        "prior contents, with several tiles along the accumulated dimension: each result is judged against the extended-precision reference and, "
        "with dyadic data (sums exact in any order), all runs must agree bit for bit. Random programs of accumulations onto shared tensors mixed with "
        "overwriting, scaling, copying and element-wise operations on exact data are submitted asynchronously with the option off, on and mixed, without "
        "waiting, repeatedly on the same tensors, and must end with the exact sequential contents. distinct: calls and programs")
ASSUME = ["the option is used as the library's own layers do: the accumulated tensor announces its reduction method first"]
NAMES = [n for n in CAT if CAT[n].redux or n.startswith("flash")]
POPS = ["sum_slice", "sumprod_slice", "sum_fiber", "sumprod_fiber", "gemm"] * 3 + ["copy", "add", "scal", "scal_inplace", "fill", "clear", "add_slice", "prod", "axpy", "maximum"]
REQUIRE = {"evaluations": 2000, "distinct": 400, "elements_compared": 30000, "redux_tasks": 1500, "programs": 80, "program_replays": 240,
           "bitwise_pairs": 200}


def jobs(tier):
    return op_jobs(tier, 170, 4000)


def setup(job, cfg):
    return op_setup(job, cfg)


def case(ctx, rng, i):
    return prog_case(ctx, rng, i) if i % 6 == 3 else op_case(ctx, rng, i)


def flags(ctx, rng):
    ctx.core.monitor(ctx.job.get("flags", F_ALL) | F_DELAY, int(rng.integers(1 << 40)), 50 + ctx.job.get("delay", 0), 64)


def op_case(ctx, rng, i):
    core = ctx.core
    op = CAT[NAMES[(i + ctx.job["shard"]) % len(NAMES)]]
    note(ctx, op.name)
    p = op.make(rng, **profile(int(rng.integers(6))))
    for _ in range(60):
        if p.multi():
            break
        p = op.make(rng, **profile(int(rng.integers(6))))
    D = op.data(p, rng)
    exact = op.exact and p.par.get("_dyad")
    n, bitw, runs, first = 0, 0, 0, None
    for r in (0, 1, 1, 0):
        q = program.with_redux(p, r)
        flags(ctx, rng)
        s0 = core.stats()["redux_inits"]
        got = oprun.run_problem(core, q, D, bool(rng.random() < 0.3))
        if r:
            runs += core.stats()["redux_inits"] - s0
        n += oprun.judge(q, D, got, ":redux%d" % r)
        core.raise_monitor(op.name + ":")
        if first is None:
            first = got
        elif exact:
            for s in p.specs:
                if s.role in ("out", "inout"):
                    bitw += 1
                    if not same_bits(got[s.name], first[s.name]) and not same(got[s.name], first[s.name], False):
                        diff(got[s.name], first[s.name], op.name + ":redux-differs", describe(q))
    return dict(n=4, count=dict(elements_compared=n, bitwise_pairs=bitw, redux_tasks=runs), keys=[describe(p)], sample=describe(p))


def prog_case(ctx, rng, i):
    core = ctx.core
    note(ctx, "program")
    kind = ["fp64", "fp32"][int(rng.random() < 0.3)]
    core.monitor(F_ALL, 0, 0, 0)
    prog = program.grow(core, rng, int(rng.integers(6, 30)), kind=kind, ops=POPS, small=bool(rng.random() < 0.6),
                        dyad=(1000.0, 2.0 ** -8) if kind == "fp64" else (32.0, 0.25))
    if len(prog.steps) < 3:
        return dict(n=0)
    s0 = core.stats()["redux_inits"]
    for r in (0, 1, 2):
        flags(ctx, rng)
        T = program.make_tensors(core, prog, prog.u.tiles)
        for t in T:
            if t.kind in ("fp32", "fp64"):
                t.x.set_reduction_add()
        for rep in range(2):
            if rep:
                for t, d in zip(T, prog.init):
                    t.put(d)
            for st in prog.steps:
                q = program.with_redux(st.p, r if r < 2 else int(rng.integers(2)))
                q.op.run(core, q, {n: T[t] for n, t in st.bind.items()}, bool(rng.random() < 0.04))
            for n, t in enumerate(T):
                g = t.get()
                if not same_bits(g, prog.final[n]) and not same(g, prog.final[n], False):
                    diff(g, prog.final[n], "program:redux-differs", "t%d redux=%d rep=%d: %s" % (n, r, rep, prog.describe()[:1500]))
        core.wait()
        for t in T:
            t.free()
    core.raise_monitor("program:")
    return dict(n=6, count=dict(programs=1, program_replays=6, steps=len(prog.steps), redux_tasks=core.stats()["redux_inits"] - s0),
                keys=[prog.describe()], sample=prog.describe())
