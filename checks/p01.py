"""Shapes, strides, index conversions and tile grids."""
import itertools, math
import numpy as np
from core import Core, Violation
RULE = ("random tile/tensor traits (0-6 dimensions, extents 1-40 and a few up to 2^40 elements, base tiles smaller, equal and "
        "larger than the tensor, up to the largest integer): every linear index of small shapes is converted both ways (sampled for large ones) and compared "
        "with a column-major model; strides, counts, partial products, grids, leftovers and tile shapes are compared; the tiles "
        "are laid out and every element counted exactly once; arguments outside the domain must raise. distinct: (shape, tile)")
ASSUME = []
REQUIRE = {"evaluations": 4000, "distinct": 2500, "indices": 100000, "rejected": 20000, "tiles": 20000}


class Ctx:
    pass


def jobs(tier):
    return [dict(flavour="plain", group="traits", shard=s, n=700 if tier == "quick" else 20000, monitor=False) for s in range(8)]


def setup(job, cfg):
    c = Ctx()
    c.core = None
    c.k = Core(cfg["dir"])
    c.cfg = cfg
    c.what = "traits"
    return c


def must_raise(f, *a, what):
    try:
        f(*a)
    except (RuntimeError, ValueError, IndexError, OverflowError, MemoryError):
        return 1
    raise Violation(what + ":accepted", "%s%r was accepted" % (what, a))


def need(ok, what, msg):
    if not ok:
        raise Violation(what, msg)


def model(shape):
    st, n = [], 1
    for s in shape:
        st.append(n)
        n *= s
    ms = [(math.prod(shape[:i]), math.prod(shape[i:])) for i in range(len(shape) + 1)]
    return st, n, ms


def check_traits(k, t, shape, rng, name):
    """t: TileTraits-like object of the given shape; returns (indices converted, calls rejected)."""
    st, n, ms = model(shape)
    nd = len(shape)
    v = k.v.tile.traits(t)
    need((v[0], list(v[1]), list(v[2]), v[3], [tuple(x) for x in v[4]]) == (nd, list(shape), st, n, ms),
         name + ":attributes", "shape %s: got %s expected %s" % (shape, v, (nd, shape, st, n, ms)))
    need((t.ndim, list(t.shape), list(t.stride), t.nelems) == (nd, list(shape), st, n), name + ":attributes", "%s" % (shape,))
    if n <= 400:
        lin = range(n)
    else:
        lin = sorted({0, n - 1, n // 2} | {int(x) for x in rng.integers(0, n, 60)})
    seen = set()
    for l in lin:
        want, r = [], l
        for s in shape:
            want.append(r % s)
            r //= s
        got = list(t.linear_to_index(l))
        need(got == want, name + ":linear_to_index", "shape %s linear %d: %s, expected %s" % (shape, l, got, want))
        need(t.index_to_linear(want) == l, name + ":index_to_linear", "shape %s index %s: %d, expected %d" % (
            shape, want, t.index_to_linear(want), l))
        need(k.v.tile.contains(t, want), name + ":contains", "%s in %s" % (want, shape))
        seen.add(tuple(got))
    need(len(seen) == len(lin), name + ":not-injective", "%s" % (shape,))
    rej = 0
    for l in (-1, n, n + 1, -n, 2 ** 40 + n, -2 ** 62):
        rej += must_raise(t.linear_to_index, l, what=name + ".linear_to_index")
    for j in range(nd):
        for b in (-1, shape[j], shape[j] + int(rng.integers(1, 50)), -shape[j] - 1):
            i = [int(rng.integers(0, s)) for s in shape]
            i[j] = b
            rej += must_raise(t.index_to_linear, i, what=name + ".index_to_linear")
            need(not k.v.tile.contains(t, i), name + ":contains", "%s in %s" % (i, shape))
    i = [0] * (nd + 1)
    rej += must_raise(t.index_to_linear, i, what=name + ".index_to_linear")
    if nd:
        rej += must_raise(t.index_to_linear, i[:nd - 1], what=name + ".index_to_linear")
        rej += must_raise(k.v.tile.contains, t, i[:nd - 1], what=name + ".contains_index")
    return len(lin), rej


def case(ctx, rng, i):
    k = ctx.k
    big = rng.random() < 0.1
    nd = int(rng.integers(0, 7))
    while True:
        hi = 2 ** int(rng.integers(1, 20)) if big else int(rng.choice([3, 5, 9, 40]))
        shape = [1 if rng.random() < 0.15 else int(rng.integers(1, hi + 1)) for _ in range(nd)]
        if math.prod(shape) < (2 ** 55 if big else 30000):
            break
    tile = []
    for s in shape:
        u = rng.random()
        tile.append(s if u < 0.15 else s + int(rng.integers(1, 9)) if u < 0.25 else 1 if u < 0.3 and s < 50 else
                    int(rng.integers(max(1, s // 6), s + 1)))
    if nd and rng.random() < 0.15:
        # "do not tile this dimension": a base tile near the largest integer
        tile[int(rng.integers(nd))] = 2 ** 63 - 1 - int(rng.choice([0, 1, rng.integers(0, 100)])) if rng.random() < 0.7 else 2 ** int(rng.integers(31, 63))
    T = k.t.TensorTraits(shape, tile)
    n1, r1 = check_traits(k, k.m.tile.TileTraits(shape), shape, rng, "TileTraits")
    n2, r2 = check_traits(k, T, shape, rng, "TensorTraits")
    grid = [-(-s // b) for s, b in zip(shape, tile)]
    n3, r3 = check_traits(k, T.grid, grid, rng, "grid")
    need(list(T.get_grid_shape()) == grid and list(T.basetile_shape) == tile, "TensorTraits:grid",
         "%s/%s: %s" % (shape, tile, T.get_grid_shape()))
    left = [s - (g - 1) * b for s, b, g in zip(shape, tile, grid)]
    need(list(k.v.tile.leftover(T)) == left, "TensorTraits:leftover", "%s/%s: %s" % (shape, tile, k.v.tile.leftover(T)))
    ng = math.prod(grid)
    rej, tiles = r1 + r2 + r3, 0
    cover = np.zeros(shape, np.int32) if math.prod(shape) <= 30000 else None
    it = range(ng) if ng <= 300 else sorted({0, ng - 1} | {int(x) for x in rng.integers(0, ng, 40)})
    total = 0
    for l in it:
        idx = list(T.grid.linear_to_index(l))
        sh = list(T.get_tile_shape(idx))
        want = [b if x < g - 1 else e for x, g, b, e in zip(idx, grid, tile, left)]
        need(sh == want, "TensorTraits:get_tile_shape", "%s/%s tile %s: %s, expected %s" % (shape, tile, idx, sh, want))
        if cover is not None:
            cover[tuple(slice(x * b, x * b + s) for x, b, s in zip(idx, tile, sh))] += 1
        total += math.prod(sh)
        tiles += 1
    if ng <= 300:
        need(total == math.prod(shape) and (cover is None or (cover == 1).all()), "TensorTraits:partition",
             "%s/%s: tiles hold %d elements" % (shape, tile, total))
    for j in range(nd):
        for b in (-1, grid[j], grid[j] + 3):
            x = [int(rng.integers(0, g)) for g in grid]
            x[j] = b
            rej += must_raise(T.get_tile_shape, x, what="TensorTraits.get_tile_shape")
    rej += must_raise(T.get_tile_shape, [0] * (nd + 1), what="TensorTraits.get_tile_shape")
    if nd:
        rej += must_raise(T.get_tile_shape, [0] * (nd - 1), what="TensorTraits.get_tile_shape")
        j = int(rng.integers(nd))
        for b in (0, -1, -tile[j]):
            x = list(shape)
            x[j] = b
            rej += must_raise(k.m.tile.TileTraits, x, what="TileTraits")
            rej += must_raise(k.t.TensorTraits, x, tile, what="TensorTraits")
            x = list(tile)
            x[j] = b
            rej += must_raise(k.t.TensorTraits, shape, x, what="TensorTraits")
        rej += must_raise(k.t.TensorTraits, shape, tile[1:], what="TensorTraits")
    rej += must_raise(k.t.TensorTraits, shape, tile + [1], what="TensorTraits")
    return dict(n=1, count=dict(indices=2 * (n1 + n2 + n3), rejected=rej, tiles=tiles), keys=[(shape, tile)] if nd else [],
                sample="shape %s tile %s grid %s" % (shape, tile, grid))
