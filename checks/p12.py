"""Random fills: one value per underlying position, whatever the tiling, window, schedule."""
import math
import numpy as np
from _ops import *
from core import NP, EPS, Tile_
from p03 import diff, reject
import layers as ly
RULE = ("for random seeds (0, small, 64-bit), underlying shapes (up to 2^40 per dimension and 2^56 elements, 1-5 dimensions, also scalars), means and "
        "deviations, a base window is filled as one tile and then sub-windows of it are filled under random tilings, as single tiles, "
        "asynchronously, from Python and repeatedly while other work runs; every sub-window must equal the corresponding part of the base "
        "window bit for bit, values must equal mean + deviation * standard value, differ between seeds and positions, be finite, and large "
        "samples must pass moment, range and Kolmogorov-Smirnov tests against N(0,1); windows leaving the underlying array or of other "
        "dimensionality must raise and start nothing. Group 'init': init_randn_async of layers and models fills every parameter, the same "
        "bits under any tiling and on repetition, zero mean and variance 1/elements, gradients untouched. distinct: (type, underlying shape, window, tiling)")
ASSUME = ["distribution tests use a false-alarm probability below 1e-9 per sample and fixed seeds derived from VERIF_SEED"]
REQUIRE = {"evaluations": 1000, "distinct": 700, "elements_compared": 100000, "multi_tile": 500, "samples": 16, "rejected": 500,
           "tiles": 200, "executed": 3000, "inits": 200, "init_multi_tile": 100}


def jobs(tier):
    return op_jobs(tier, 220, 5000, group="randn") + op_jobs(tier, 12, 200, group="init")


def setup(job, cfg):
    return op_setup(job, cfg)


def whole(f, on):
    """Build with every choice of a tile replaced by the whole dimension; the other random choices stay the same."""
    real = ly.pick_tile
    if on:
        ly.pick_tile = lambda r, k: (real(r, k), k)[1]
    try:
        return f()
    finally:
        ly.pick_tile = real


def init_case(ctx, rng, i):
    """Random initialisation of the parameters of layers and models."""
    core = ctx.core
    n = core.nntile
    kind = ["fp32", "fp64"][int(rng.integers(2))]
    seed = int(rng.integers(1 << 40))
    name = ["linear", "attention", "embedding", "flash_attention", "mixer_mlp", "layer_norm", "deep_relu", "deep_linear", "gpt2_mlp"][(i + 3 * ctx.job["shard"]) % 9]
    note(ctx, "init." + name)

    def layer(r):
        nd = ly.make(core, r, name, kind)
        return nd.layer, nd.params, lambda: ly.free(nd)

    def model(r):
        sh = ly.dims(r, 2, 2, 20)
        x = ly.moments(core, kind, sh, ly.tiles(r, sh))
        h, o = ly.dims(r, 2, 2, 30)
        side = "LR"[int(r.integers(2))]
        if name == "deep_relu":
            from nntile.model.deep_relu import DeepReLU
            m = DeepReLU(x, side, 1, h, ly.pick_tile(r, h), int(r.integers(2, 5)), o, 0, bool(r.integers(2)))
        elif name == "deep_linear":
            from nntile.model.deep_linear import DeepLinear
            m = DeepLinear(x, side, 1, h, ly.pick_tile(r, h), int(r.integers(2, 5)), 0)
        else:
            from nntile.model.gpt2 import GPT2MLP
            m = GPT2MLP(x, dict(embed_dim=sh[0], embed_dim_tile=x.value.basetile_shape[0], inner_dim=h, inner_dim_tile=ly.pick_tile(r, h),
                                activation_function="gelu", redux=False), 0)
        return m, m.parameters, m.unregister
    make = model if name in ("deep_relu", "deep_linear", "gpt2_mlp") else layer
    first, cnt, multi, desc = None, 0, 0, ""
    for rep in range(3):
        r = np.random.default_rng(seed)
        obj, P, free = whole(lambda: make(r), rep == 0)
        G = []
        for p in P:
            ly.put(p.value, np.full(p.value.shape, np.nan, NP[kind]))
            g = ly.values(rng, p.value.shape, kind)
            G.append(g)
            if p.grad is not None:
                ly.put(p.grad, g)
        obj.init_randn_async()
        if rep == 2:
            core.wait()
            obj.init_randn_async()
        V = [ly.get(p.value, kind) for p in P]
        desc = "init %s %s %s" % (name, kind, [(list(p.value.shape), list(p.value.basetile_shape)) for p in P])
        for j, (p, v, g) in enumerate(zip(P, V, G)):
            what = "parameter %d of %s" % (j, desc)
            if not np.isfinite(v).all():
                raise Violation("init:not-filled", "%s: %r" % (what, v.reshape(-1)[:5]))
            if p.grad is not None:
                diff(ly.get(p.grad, kind), g, "init:gradient-modified", what)
            m = v.size
            z = v.astype(np.float64) * math.sqrt(m)
            # zero mean, variance 1 / elements; the generator's first state is the seed, so one element may lie 9 deviations out
            if abs(z.mean()) > 8 / math.sqrt(m) + 9 / m or abs(z).max() > 12 or (m >= 64 and abs((z ** 2).mean() - 1) > 8 * math.sqrt(2 / m) + 81 / m):
                raise Violation("init:distribution", "%s: mean %g mean square %g times 1/sqrt(%d)" % (what, z.mean(), (z ** 2).mean(), m))
            multi += int(list(p.value.shape) != list(p.value.basetile_shape))
            cnt += m
        if first is None:
            first = V
        elif [v.shape for v in V] == [v.shape for v in first]:
            for j, (v, w) in enumerate(zip(V, first)):
                diff(v, w, "init:depends-on-tiling", "parameter %d of %s" % (j, desc))
        free()
    core.raise_monitor("init." + name + ":")
    return dict(n=3, count=dict(elements_compared=cnt, init_multi_tile=multi, inits=3), keys=[desc] if multi else [], sample=desc)


def pick_seed(rng):
    k = rng.integers(4)
    return [0, int(rng.integers(1, 100)), int(rng.integers(1, 1 << 63)), int(rng.integers(1 << 62, 1 << 63)) * 2 + 1][int(k)]


def fill(core, rng, kind, sh, ti, start, under, seed, mean, dev, tile=False):
    if tile:
        t = Tile_(core, kind, sh, np.full(sh, np.nan, NP[kind]))
        f = getattr(core.v.tile, "randn_%s%s" % ("async_" if rng.random() < 0.5 else "", kind))
        try:
            f(t.x, start, under, seed, mean, dev)
            return t.get()
        finally:
            core.wait()
            t.free()
    t = core.tensor(kind, sh, ti, np.full(sh, np.nan, NP[kind]) if rng.random() < 0.7 else None)
    try:
        if hasattr(core, "nntile") and rng.random() < 0.3:
            core.nntile.tensor.randn_async(t.x, start, under, seed, mean, dev)
        else:
            core.op("randn", kind, rng.random() < 0.5)(t.x, start, under, seed, mean, dev)
        return t.get()
    finally:
        core.wait()
        t.free()


def tiling(rng, sh):
    return [s if rng.random() < 0.15 else int(rng.integers(max(1, s // 4), s + 1)) for s in sh]


def sample(ctx, rng, kind):
    """One large sample: distribution."""
    core = ctx.core
    nd = int(rng.integers(1, 4))
    sh = [[40000], [200, 200], [40, 50, 20]][nd - 1]
    sh = [sh[i] for i in rng.permutation(nd)]
    seed = int(rng.integers(1 << 40, 1 << 63))
    x = fill(core, rng, kind, sh, tiling(rng, sh), [0] * nd, sh, seed, 0.0, 1.0).astype(np.float64).reshape(-1)
    n = x.size
    desc = "sample %s %s seed=%d" % (kind, sh, seed)
    if not np.isfinite(x).all():
        raise Violation("not-finite", desc)
    bad = []
    if abs(x.mean()) > 7 / math.sqrt(n):
        bad.append("mean %.4g" % x.mean())
    if abs(x.var() - 1) > 7 * math.sqrt(2 / n):
        bad.append("variance %.5g" % x.var())
    if abs((x ** 3).mean()) > 7 * math.sqrt(15 / n):
        bad.append("third moment %.4g" % (x ** 3).mean())
    if abs((x ** 4).mean() - 3) > 8 * math.sqrt(96 / n):
        bad.append("fourth moment %.4g" % (x ** 4).mean())
    s = np.sort(x)
    F = 0.5 * (1 + np.vectorize(math.erf)(s / math.sqrt(2)))
    ks = max((np.arange(1, n + 1) / n - F).max(), (F - np.arange(n) / n).max())
    if ks * math.sqrt(n) > 3.4:
        bad.append("Kolmogorov-Smirnov %.4g" % (ks * math.sqrt(n)))
    r = float((x[1:] * x[:-1]).mean())
    if abs(r) > 7 / math.sqrt(n):
        bad.append("neighbour correlation %.4g" % r)
    if bad:
        raise Violation("distribution", "%s: %s" % (", ".join(bad), desc))
    u = np.unique(x).size
    if u < n * (0.9 if kind == "fp32" else 0.9999):
        raise Violation("repeated-values", "%d distinct of %d: %s" % (u, n, desc))
    return dict(n=1, count=dict(samples=1, elements_compared=n), keys=[], sample=desc)


def case(ctx, rng, i):
    core = ctx.core
    if ctx.job["group"] == "init":
        return init_case(ctx, rng, i)
    kind = ["fp32", "fp64"][int(rng.integers(2))]
    note(ctx, "randn")
    if i % 20 == 7:
        r = sample(ctx, rng, kind)
        core.raise_monitor("randn:")
        return r
    k = NP[kind]
    nd = int(rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5]))
    cap = [0, 300, 30, 12, 7, 5][nd]
    sh = [1 if rng.random() < 0.1 else int(rng.integers(1, cap + 1)) for _ in range(nd)]
    under, start = [], []
    for s in sh:
        r = rng.random()
        extra = 0 if r < 0.25 else int(rng.integers(0, 9)) if r < 0.8 else int(rng.integers(0, 1 << (40 if nd < 2 else 28 if nd < 3 else 18 if nd < 4 else 11)))
        under.append(s + extra)
        start.append(int(rng.integers(0, extra + 1)))
    seed = pick_seed(rng)
    desc = "%s window %s at %s of %s seed=%d" % (kind, sh, start, under, seed)
    n = cnt_tile = multi = rej = 0
    keys = []
    base = fill(core, rng, kind, sh, sh, start, under, seed, 0.0, 1.0)
    if not np.isfinite(base).all():
        raise Violation("not-finite", "%s: %r" % (desc, base.reshape(-1)[:4].tolist()))
    if abs(base).max() > 12:
        raise Violation("range", desc)
    if base.size > 8:
        u = np.unique(base).size
        if u < base.size * (0.9 if kind == "fp32" else 0.999):
            raise Violation("repeated-values", "%d distinct of %d: %s" % (u, base.size, desc))
        other = fill(core, rng, kind, sh, tiling(rng, sh), start, under, seed ^ (1 << int(rng.integers(0, 40))), 0.0, 1.0)
        if (other == base).mean() > 0.2:
            raise Violation("seed-ignored", desc)
    for rep in range(3):
        # a sub-window under another tiling
        a = [int(rng.integers(0, s)) if rng.random() < 0.6 else 0 for s in sh]
        b = [int(rng.integers(1, s - o + 1)) if rng.random() < 0.6 else s - o for s, o in zip(sh, a)]
        ti = tiling(rng, b)
        tile = rng.random() < 0.3
        g = fill(core, rng, kind, b, ti, [x + y for x, y in zip(start, a)], under, seed, 0.0, 1.0, tile)
        want = base[tuple(slice(x, x + y) for x, y in zip(a, b))]
        d = "%s sub %s+%s/%s%s" % (desc, a, b, ti, " tile" if tile else "")
        diff(g, np.asfortranarray(want) if nd else want, "window-differs", d)
        n += g.size
        cnt_tile += tile
        if not tile and any(x > y for x, y in zip(b, ti)):
            multi += 1
            keys.append(d)
    # affine
    mean, dev = float(k(rng.choice([0, 1, -2.5, 100, rng.normal()]))), float(k(rng.choice([0, 1, -1, 0.02, 3, abs(rng.normal())])))
    g = fill(core, rng, kind, sh, tiling(rng, sh), start, under, seed, mean, dev, rng.random() < 0.2)
    want = np.longdouble(mean) + np.longdouble(dev) * base.astype(np.longdouble)
    tol = 2 * EPS[kind] * (abs(mean) + abs(dev * base.astype(np.longdouble))) + 1e-40
    if not (abs(g - want) <= tol).all():
        raise Violation("affine", "mean=%r dev=%r %s" % (mean, dev, desc))
    n += g.size
    # a window outside
    t = core.tensor(kind, sh, tiling(rng, sh), base)
    try:
        f = core.op("randn", kind, False)
        bad = [(start + [0], under), (start, under + [5])]
        if nd:
            j = int(rng.integers(nd))
            up = lambda v, d: [x + (d if q == j else 0) for q, x in enumerate(v)]
            bad += [(up(start, -start[j] - 1), under), (up(start, under[j] - sh[j] - start[j] + 1), under),
                    (start, up(under, start[j] + sh[j] - 1 - under[j])), (start[:-1], under), (start, under[:-1])]
        for s, u in bad:
            n0 = core.stats()["submitted"]
            if not reject(f, t.x, s, u, seed, 0.0, 1.0):
                raise Violation("outside-accepted", "start=%s underlying=%s shape=%s" % (s, u, sh))
            if core.stats()["submitted"] != n0:
                raise Violation("outside:work-started", "start=%s underlying=%s shape=%s" % (s, u, sh))
            rej += 1
        core.wait()
        diff(t.get(), base, "outside:modified", desc)
    finally:
        core.wait()
        t.free()
    core.raise_monitor("randn:")
    return dict(n=1, count=dict(elements_compared=n, multi_tile=multi, tiles=cnt_tile, rejected=rej), keys=keys, sample=desc)
