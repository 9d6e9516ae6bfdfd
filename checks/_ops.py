"""Shared machinery of the checks that drive catalogued operations one at a time."""
import numpy as np
from core import Core, Violation, F_ALL, F_DELAY, F_LOG, same_bits
from catalog import CAT, GROUPS
import oprun

SCHEDS = ["lws", "eager", "dmda", "ws", "prio", "random", "dmdas", "modular-eager"]


def op_jobs(tier, n_quick, n_thorough, flavour="plain", group="ops", shards=8, **kw):
    n = n_quick if tier == "quick" else n_thorough
    r = []
    for s in range(shards):
        r.append(dict(flavour=flavour, group=group, shard=s, n=n, ncpu=[4, 1, 2, 3][s % 4],
                      sched=SCHEDS[s % len(SCHEDS)], delay=[0, 0, 200, 0, 400, 0, 0, 100][s % 8], **kw))
    return r


class Ctx:
    pass


def op_setup(job, cfg, package=None):
    c = Ctx()
    c.core = Core(cfg["dir"], job.get("flavour", "plain") == "plain" if package is None else package)
    c.job, c.cfg = job, cfg
    c.core.start(job.get("ncpu", 2), job.get("sched"))
    fl = job.get("flags", F_ALL) | (F_DELAY if job.get("delay") else 0)
    c.core.monitor(fl, cfg["seed"] * 1009 + job["shard"], job.get("delay", 0), 64 if job.get("delay") else 0)
    c.what = ""
    return c


def profile(i):
    return [dict(), dict(dyad=True), dict(special=True), dict(), dict(dyad=True), dict()][i % 6]


def describe(p):
    return p.describe()


def note(ctx, name):
    """Leave a trace of the current case for crash reports."""
    import sys
    ctx.what = name
    print("@@case %s" % name, flush=True)


def numeric_case(ctx, rng, i, names, tile=False):
    """One call of one operation: reference result, untouched inputs, monitor silent."""
    core = ctx.core
    op = CAT[names[i % len(names)]]
    note(ctx, op.name)
    j = i // len(names)
    for _ in range(50):
        p = op.make(rng, **profile(j))
        if not tile or not hasattr(op, "tile_legal") or op.tile_legal(p):
            break
    if tile:
        p = p.retile(rng, whole=True)
    if not tile and hasattr(core, "nntile") and rng.random() < 0.35:
        p.par["_py"] = True
    shared = op.name in oprun.SHARED and rng.random() < 0.12 and oprun.share(p)
    D = op.data(p, rng)
    if shared:
        D[p.par["_shared"][1]] = D[p.par["_shared"][0]]
    if tile:
        D = {s.name: D[s.name] if D[s.name].shape == p.shape(s)[0] else np.zeros(p.shape(s)[0], D[s.name].dtype)
             for s in p.specs}
        if hasattr(op, "tile_prior"):
            D = op.tile_prior(p, D, rng)
    blocking = bool(rng.random() < 0.5)
    got = oprun.run_problem(core, p, D, blocking, tile)
    n = oprun.judge(p, D, got, tile=tile)
    core.raise_monitor(op.name + ":")
    d = describe(p)
    big = any(np.prod(p.shape(s)[0]) > 1 for s in p.specs)
    return dict(n=1, count={"elements_compared": n, "multi_tile": int(p.multi()), "partial_tiles": int(p.partial()), "shared_operand": int(shared),
                            "op:" + op.name: 1},
                keys=[d] if big and (p.multi() or tile) else [], sample=d)
