"""Host arrays, scatter, gather and copy: bit for bit."""
import math
import numpy as np
from _ops import *
from core import NP, Tile_, bits
RULE = ("random tensors (all element types, 0-5 dimensions, random tilings) receive random bit patterns (NaN payloads, "
        "infinities, denormals, all bit values) from host arrays in many layouts (row-major, column-major, strided, reversed, "
        "transposed views, byte-swapped, read-only, other dtype), are read back, scattered, gathered and copied (extension module, "
        "Python functions, single tiles, asynchronous chains, host transfers of one tile alone or of a tensor) and every destination and source is compared bit for bit; wrong shapes and "
        "tilings must raise and change nothing. distinct: (type, shape, tiling, layout, route)")
ASSUME = ["a value of another dtype is converted as numpy converts it"]
REQUIRE = {"evaluations": 3500, "distinct": 2000, "multi_tile": 600, "rejected": 1000, "tile_transfers": 150, "host_reused": 400, "bytes": 500000}
KINDS = ["fp32", "fp64", "int64", "bool", "fp16"]


def jobs(tier):
    return op_jobs(tier, 500, 12000, group="host")


def setup(job, cfg):
    return op_setup(job, cfg)


def pattern(rng, kind, shape):
    n = math.prod(shape)
    if kind == "bool":
        return (rng.random(n) < 0.5).reshape(shape)
    dt = np.dtype(NP[kind])
    raw = rng.integers(0, 256, n * dt.itemsize, dtype=np.uint8)
    a = raw.view(dt).copy()
    if kind in ("fp32", "fp64") and n:
        sp = np.array([0.0, -0.0, np.inf, -np.inf, np.nan, np.finfo(dt).tiny / 8, np.finfo(dt).max, 1.0], dt)
        m = rng.random(n) < 0.4
        a[m] = sp[rng.integers(0, len(sp), m.sum())]
    return a.reshape(shape)


LAYOUTS = ["F", "C", "strided", "reversed", "transposed", "swapped", "readonly", "padded"]


def layout(rng, a, how):
    """A host array with the same contents in another memory layout."""
    if how == "F":
        return np.array(a, order="F")
    if how == "C":
        return np.array(a, order="C")
    if how == "strided":
        big = np.zeros([2 * s for s in a.shape], a.dtype)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if how == "reversed":
        sl = tuple(slice(None, None, -1) for _ in a.shape)
        return np.array(a[sl], order="C")[sl]
    if how == "transposed":
        perm = list(rng.permutation(a.ndim))
        b = np.array(a.transpose(perm), order="C")
        return b.transpose(np.argsort(perm))
    if how == "swapped":
        b = np.empty(a.shape, a.dtype.newbyteorder("S"))
        b[...] = a.byteswap().view(b.dtype)
        return b
    if how == "readonly":
        b = np.asfortranarray(a.copy())
        b.setflags(write=False)
        return b
    big = np.zeros([s + 3 for s in a.shape], a.dtype, order="F")
    v = big[tuple(slice(1, 1 + s) for s in a.shape)]
    v[...] = a
    return v


def rnd_shape(rng):
    nd = int(rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5]))
    while True:
        sh = [1 if rng.random() < 0.12 else int(rng.integers(2, [0, 60, 20, 10, 6, 5][nd] + 1)) for _ in range(nd)]
        if math.prod(sh) <= 4000:
            break
    many = 20 if nd < 3 and rng.random() < 0.08 else 5
    ti = [s if rng.random() < 0.15 else int(rng.integers(max(1, s // many), s + 1)) for s in sh]
    return sh, ti


def retile(rng, sh):
    return [s if rng.random() < 0.2 else int(rng.integers(max(1, s // 4), s + 1)) for s in sh]


def garble(rng, h, tally):
    """After the transfer the host array is the caller's again: whatever it holds then must not reach the tensor."""
    if h.flags.writeable and rng.random() < 0.7:
        h[...] = 1
        tally.append(1)


def diff(got, want, what, desc):
    if not same_bits(np.asfortranarray(got), np.asfortranarray(want)):
        a, b = bits(got), bits(want)
        i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), -1)
        raise Violation(what, "bytes differ first at byte %d of %d: %s" % (i, len(b), desc))


def raw_put(core, x, a):
    """Byte-wise write of a single-tile tensor (for half precision)."""
    core.v.tile.set_bytes(core.v.tile.get_tile(x, 0), np.asfortranarray(a).tobytes(order="F"))


def raw_get(core, x, kind, shape):
    b = core.v.tile.bytes(core.v.tile.get_tile(x, 0))
    return np.frombuffer(b, dtype=NP[kind]).reshape(shape, order="F")


def assemble(core, T, kind, sh, ti):
    """Contents of a tensor read tile by tile, independent of gather."""
    out = np.zeros(sh, NP[kind], order="F")
    grid = [-(-s // b) for s, b in zip(sh, ti)]
    for l in range(math.prod(grid)):
        idx, r = [], l
        for g in grid:
            idx.append(r % g)
            r //= g
        ext = [min(b, s - i * b) for i, b, s in zip(idx, ti, sh)]
        raw = core.v.tile.bytes(core.v.tile.get_tile(T, l))
        blk = np.frombuffer(raw, dtype=NP[kind]).reshape(ext, order="F")
        out[tuple(slice(i * b, i * b + e) for i, b, e in zip(idx, ti, ext))] = blk
    return out


def reject(f, *a):
    try:
        f(*a)
    except (RuntimeError, TypeError):
        return True
    return False


def tile_case(ctx, rng, kind, sh, ti, how, desc, objs, reused):
    """Host transfers of one tile: on its own, or a tile of a tensor (whose other tiles must stay)."""
    core = ctx.core
    m = core.m.tile
    rej = 0
    own = rng.random() < 0.5
    if own:
        x = getattr(m, "Tile_" + kind)(m.TileTraits(sh))
        ext, sl = list(sh), tuple(slice(0, s) for s in sh)
        T = whole = None
    else:
        T = core.tensor(kind, sh, ti)
        objs.append(T)
        whole = np.asfortranarray(pattern(rng, kind, sh))
        T.put(whole)
        grid = [-(-s // b) for s, b in zip(sh, ti)]
        idx = [int(rng.integers(g)) for g in grid]
        l = sum(i * math.prod(grid[:d]) for d, i in enumerate(idx))
        x = T.x.get_tile(l)
        ext = [min(b, s - i * b) for i, b, s in zip(idx, ti, sh)]
        sl = tuple(slice(i * b, i * b + e) for i, b, e in zip(idx, ti, ext))
    try:
        if list(x.shape) != ext:
            raise Violation("get_tile:shape", "tile of shape %s, expected %s: %s" % (list(x.shape), ext, desc))
        put = m.tile_from_array if rng.random() < 0.4 else type(x).from_array
        get = m.tile_to_array if rng.random() < 0.4 else type(x).to_array

        def read():
            o = np.asfortranarray(pattern(rng, kind, ext or [1]))
            get(x, o)
            return o.reshape(ext)
        if not own:
            diff(read(), np.asfortranarray(whole[sl]), "tile.to_array:wrong-contents", desc)
        a = pattern(rng, kind, ext)
        h = layout(rng, a, how) if ext else a.reshape(1).copy()
        keep = h.copy()
        put(x, h)
        diff(h, keep, "tile.from_array:host-array-modified", desc)
        garble(rng, h, reused)
        diff(read(), a, "tile.from_array:wrong-contents", desc)
        if not own:
            whole[sl] = a
            diff(assemble(core, T.x, kind, sh, ti), whole, "tile.from_array:tensor-contents", desc)
        if ext:
            o = layout(rng, pattern(rng, kind, ext), ["C", "strided", "reversed", "transposed", "swapped"][int(rng.integers(5))])
            before = o.copy()
            if reject(get, x, o):
                diff(o, before, "tile.to_array:rejected-but-modified", desc)
                rej += 1
            else:
                diff(np.asarray(o, dtype=NP[kind]), a, "tile.to_array:destination-layout-ignored", desc)
        for bad in ([s + (j == 0) for j, s in enumerate(ext)], ext + [1], ext[1:], [max(1, s - (j == len(ext) - 1)) for j, s in enumerate(ext)],
                    ext[::-1], [math.prod(ext)]):
            if bad == ext or (not ext and bad == [1]):
                continue
            b = np.array(pattern(rng, kind, bad), order="F")
            keep = b.copy()
            if not reject(put, x, b):
                raise Violation("tile.from_array:shape-accepted", "array of shape %s accepted by tile %s of %s" % (bad, ext, desc))
            if not reject(get, x, b):
                raise Violation("tile.to_array:shape-accepted", "array of shape %s accepted by tile %s of %s" % (bad, ext, desc))
            diff(b, keep, "tile.to_array:rejected-but-modified", desc)
            rej += 2
        diff(read(), a, "tile.from_array:rejected-but-modified", desc)
    finally:
        core.wait()
        if own:
            x.unregister()
    return rej


def case(ctx, rng, i):
    core = ctx.core
    kind = KINDS[int(rng.choice([0, 0, 1, 1, 2, 3, 4]))]
    sh, ti = rnd_shape(rng)
    a = pattern(rng, kind, sh)
    ten = lambda s, t: core.tensor(kind, s, t)
    route = ["host", "scatter", "gather", "copy", "chain", "tile"][int(rng.integers(6))]
    if kind == "fp16":
        route = "fp16" if rng.random() < 0.6 else "host"
    if kind == "bool" and route in ("copy", "chain"):
        route = "scatter"
    if route == "tile" and kind not in ("fp32", "fp64"):
        route = "host"
    how = LAYOUTS[int(rng.integers(len(LAYOUTS)))] if sh else "F"
    desc = "%s %s/%s %s %s" % (kind, sh, ti, how, route)
    note(ctx, route)
    rej = 0
    reused = []
    py = hasattr(core, "nntile") and rng.random() < 0.4
    call = lambda n, *x: (getattr(core.nntile.tensor, n + "_async")(*x), core.wait()) if py else \
        getattr(core.t, "%s%s_%s" % (n, ["", "_async"][int(rng.random() < 0.5)], kind))(*x)
    objs = []
    try:
        if route == "host":
            x = ten(sh, ti)
            objs.append(x)
            if rng.random() < 0.5:
                x.put(pattern(rng, kind, sh))
            h = layout(rng, a, how)
            keep = h.copy()
            src = h if sh else h.reshape(1).copy()
            (core.t.tensor_from_array if rng.random() < 0.3 else type(x.x).from_array)(x.x, src)
            diff(h, keep, "from_array:host-array-modified", desc)
            garble(rng, src, reused)
            diff(assemble(core, x.x, kind, sh, ti), a, "from_array:wrong-contents", desc)
            o = np.asfortranarray(pattern(rng, kind, sh or [1]))
            (core.t.tensor_to_array if rng.random() < 0.3 else type(x.x).to_array)(x.x, o)
            diff(o.reshape(sh), a, "to_array:wrong-contents", desc)
            # a destination the library cannot fill in place: filled or refused, never silently left alone
            if sh:
                o = layout(rng, pattern(rng, kind, sh), ["C", "strided", "reversed", "transposed", "swapped"][int(rng.integers(5))])
                before = o.copy()
                if reject(x.x.to_array, o):
                    diff(o, before, "to_array:rejected-but-modified", desc)
                    rej += 1
                else:
                    diff(np.asarray(o, dtype=NP[kind]), a, "to_array:destination-layout-ignored", desc)
            # other shapes
            for bad in ([s + (j == 0) for j, s in enumerate(sh)], list(sh) + [1], list(sh[1:]), [max(1, s - (j == len(sh) - 1)) for j, s in enumerate(sh)]):
                if bad == list(sh) or (not sh and bad == [1]):
                    continue
                b = np.array(pattern(rng, kind, bad), order="F")
                keep = b.copy()
                if not reject(x.x.from_array, b):
                    raise Violation("from_array:shape-accepted", "array of shape %s accepted by %s" % (bad, desc))
                if not reject(x.x.to_array, b):
                    raise Violation("to_array:shape-accepted", "array of shape %s accepted by %s" % (bad, desc))
                diff(b, keep, "to_array:rejected-but-modified", desc)
                rej += 2
            diff(assemble(core, x.x, kind, sh, ti), a, "from_array:rejected-but-modified", desc)
            if kind in ("fp32", "fp64") and sh:
                other = (rng.standard_normal(sh) * 100).astype(np.float64 if kind == "fp32" else np.float32)
                x.x.from_array(other)
                diff(assemble(core, x.x, kind, sh, ti), other.astype(NP[kind]), "from_array:conversion", desc)
        elif route == "tile":
            rej += tile_case(ctx, rng, kind, sh, ti, how, desc, objs, reused)
        elif route == "fp16":
            x, y, z = ten(sh, sh), ten(sh, ti), ten(sh, sh)
            objs += [x, y, z]
            raw_put(core, x.x, a)
            core.v.tile.scatter_fp16(x.x, y.x)
            diff(assemble(core, y.x, kind, sh, ti), a, "scatter:wrong-contents", desc)
            core.v.tile.gather_fp16(y.x, z.x)
            diff(raw_get(core, z.x, kind, sh), a, "gather:wrong-contents", desc)
            diff(raw_get(core, x.x, kind, sh), a, "scatter:source-modified", desc)
        elif route in ("scatter", "gather"):
            one, many = ten(sh, sh), ten(sh, ti)
            objs += [one, many]
            b = pattern(rng, kind, sh)
            src, dst = (one, many) if route == "scatter" else (many, one)
            src.put(a)
            if rng.random() < 0.6:
                dst.put(b)
            call(route, src.x, dst.x)
            core.wait()
            diff(assemble(core, dst.x, kind, sh, dst.tile), a, route + ":wrong-contents", desc)
            diff(assemble(core, src.x, kind, sh, src.tile), a, route + ":source-modified", desc)
            if sh:
                # wrong shapes, and a several-tile tensor where a single-tile one is needed
                j = int(rng.integers(len(sh)))
                s2 = [s + (k == j) for k, s in enumerate(sh)]
                x = ten(s2, s2)
                objs.append(x)
                x.put(pattern(rng, kind, s2))
                y = ten(s2, [max(1, s // 2) for s in s2])
                objs.append(y)
                y.put(pattern(rng, kind, s2))
                b = y.get() if route == "scatter" else x.get()
                tgt = y if route == "scatter" else x
                for p, q in ((src, tgt), (y, y) if route == "scatter" else (src, y)):
                    if route == "gather" and q is y and math.prod(-(-u // v) for u, v in zip(s2, y.tile)) == 1:
                        continue
                    if route == "scatter" and p is y and math.prod(-(-u // v) for u, v in zip(s2, y.tile)) == 1:
                        continue
                    n0 = core.stats()["submitted"]
                    if not reject(getattr(core.t, "%s_%s" % (route, kind)), p.x, q.x):
                        raise Violation(route + ":accepted", "wrong shapes accepted: %s" % desc)
                    if core.stats()["submitted"] != n0:
                        raise Violation(route + ":work-started", "rejected call submitted tasks: %s" % desc)
                    rej += 1
                core.wait()
                diff(tgt.get(), b, route + ":rejected-but-modified", desc)
        elif route == "copy":
            x, y = ten(sh, ti), ten(sh, ti)
            objs += [x, y]
            x.put(a)
            if rng.random() < 0.6:
                y.put(pattern(rng, kind, sh))
            call("copy", x.x, y.x)
            core.wait()
            diff(assemble(core, y.x, kind, sh, ti), a, "copy:wrong-contents", desc)
            diff(assemble(core, x.x, kind, sh, ti), a, "copy:source-modified", desc)
            p, q = Tile_(core, kind, sh, a), Tile_(core, kind, sh)
            getattr(core.v.tile, "copy_" + kind)(p.x, q.x)
            diff(q.get(), a, "tile.copy:wrong-contents", desc)
            diff(p.get(), a, "tile.copy:source-modified", desc)
            p.free()
            q.free()
        else:
            # asynchronous chain through several tilings
            x = ten(sh, sh)
            objs.append(x)
            x.put(a)
            cur = x
            hops = []
            for _ in range(int(rng.integers(2, 5))):
                if list(cur.tile) == list(sh) and rng.random() < 0.7:
                    n, t = "scatter", retile(rng, sh)
                elif rng.random() < 0.5:
                    n, t = "copy", cur.tile
                else:
                    n, t = "gather", sh
                y = ten(sh, t)
                objs.append(y)
                getattr(core.t, "%s_async_%s" % (n, kind))(cur.x, y.x)
                hops.append("%s->%s" % (n, list(t)))
                cur = y
            g = cur.get()
            diff(g, a, "chain:wrong-contents", desc + " " + " ".join(hops))
            for y in objs:
                diff(y.get(), a, "chain:wrong-contents", desc + " " + " ".join(hops))
    finally:
        core.wait()
        for x in objs:
            x.free()
    core.raise_monitor(route + ":")
    multi = any(s > b for s, b in zip(sh, ti))
    return dict(n=1, count=dict(bytes=a.nbytes, rejected=rej, host_reused=len(reused), tile_transfers=int(route == "tile"), multi_tile=int(multi)),
                keys=[desc] if math.prod(sh) > 1 else [], sample=desc)
