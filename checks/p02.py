"""Block-cyclic distribution, and which distributions a tensor accepts."""
import itertools, math
import numpy as np
from core import Core, Violation
from p01 import Ctx, must_raise, need
RULE = ("random tile grids (0-5 dimensions), process grids, start ranks and rank counts: every entry of the distribution is "
        "compared with the definition, its periodicity along each dimension and range are checked, and a tensor is "
        "constructed from the list (accepted iff it has one entry per tile); non-positive process grids, start ranks outside the rank "
        "window and mismatching dimensionalities must raise. distinct: (grid, process grid, start, ranks)")
ASSUME = ["one process: the tensor constructor is exercised with rank 0 entries where data is touched"]
REQUIRE = {"evaluations": 4000, "distinct": 3000, "entries": 100000, "rejected": 8000, "tensors": 1000}


def jobs(tier):
    return [dict(flavour="plain", group="distr", shard=s, n=700 if tier == "quick" else 20000, ncpu=1) for s in range(8)]


def setup(job, cfg):
    c = Ctx()
    c.k = c.core = Core(cfg["dir"])
    c.k.start(1, None)
    c.cfg, c.what = cfg, "block_cyclic"
    return c


def case(ctx, rng, i):
    k = ctx.k
    f = k.t.distributions.block_cyclic
    nd = int(rng.integers(0, 6)) if rng.random() < 0.97 else 0
    while True:
        grid = [1 if rng.random() < 0.2 else int(rng.integers(1, 13)) for _ in range(nd)]
        if math.prod(grid) <= 3000:
            break
    pg = [int(rng.integers(1, 6)) for _ in range(nd)]
    mx = int(rng.integers(1, max(2, 2 * math.prod(pg) + 2)))
    st = int(rng.integers(0, mx))
    got = list(f(grid, pg, st, mx))
    n = math.prod(grid)
    need(len(got) == n, "block_cyclic:length", "%s: %d entries" % (grid, len(got)))
    for l, idx in enumerate(itertools.product(*[range(g) for g in reversed(grid)])):
        idx = idx[::-1]
        r, m = 0, 1
        for x, p in zip(idx, pg):
            r += (x % p) * m
            m *= p
        want = (r + st) % mx
        need(got[l] == want, "block_cyclic:owner", "grid %s process grid %s start %d ranks %d: tile %s -> %d, expected %d" % (
            grid, pg, st, mx, idx, got[l], want))
        need(0 <= got[l] < mx, "block_cyclic:range", "%d" % got[l])
    rej = 0
    for s, m in ((-1, mx), (mx, mx), (mx + 3, mx), (0, 0), (0, -2)):
        rej += must_raise(f, grid, pg, s, m, what="block_cyclic:ranks")
    rej += must_raise(f, grid + [1], pg, st, mx, what="block_cyclic:dimensions")
    rej += must_raise(f, grid, pg + [1], st, mx, what="block_cyclic:dimensions")
    if nd:
        j = int(rng.integers(nd))
        for b in (0, -1, -3):
            x = list(grid)
            x[j] = b
            rej += must_raise(f, x, pg, st, mx, what="block_cyclic:grid")
            x = list(pg)
            x[j] = b
            rej += must_raise(f, grid, x, st, mx, what="block_cyclic:process-grid")
    tens = 0
    if n <= 60:
        tile = [int(rng.integers(1, 5)) for _ in grid]
        shape = [(g - 1) * b + int(rng.integers(1, b + 1)) for g, b in zip(grid, tile)]
        tr = k.t.TensorTraits(shape, tile)
        C = [k.t.Tensor_fp32, k.t.Tensor_fp64, k.t.Tensor_int64, k.t.Tensor_bool, k.t.Tensor_fp16][int(rng.integers(5))]
        one = list(f(grid, pg, 0, 1))
        need(one == [0] * n, "block_cyclic:owner", "one rank: %s" % one)
        x = C(tr, one, 0)
        need(list(x.distribution) == one, "Tensor:distribution", "%s" % list(x.distribution))
        x.unregister()
        for bad in ([0] * (n + 1), [0] * (n - 1)) if n > 0 else ():
            before = k.stats()
            rej += must_raise(C, tr, bad, 0, what="Tensor:distribution-length")
        tens = 1
    return dict(n=1, count=dict(entries=n, rejected=rej, tensors=tens), keys=[(grid, pg, st, mx)] if n > 1 else [],
                sample="grid %s processes %s start %d of %d" % (grid, pg, st, mx))
