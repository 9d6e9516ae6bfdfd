"""Softmax, log-sum-exp and cross-entropy pieces: single calls and whole chains."""
import numpy as np
from _ops import *
from catalog import LD, ex, mse_ref, smag, pick_tile, scalar
from core import NP, EPS, close
RULE = ("two kinds of cases: (a) one call of maxsumexp, softmax, softmax_inplace, logsumexp, total_sum_accum or "
        "subtract_indexed_outputs against an extended-precision reference; (b) the chain clear, one to three maxsumexp accumulations "
        "(each over a differently filled tensor), softmax of every part, logsumexp, and the masked variant through mask_scalar, on random "
        "shapes, axes, tilings (also of the reduced axis) and with the reduction option on and off, against the softmax of the concatenated data; "
        "magnitudes from 0.1 up to the overflow limit, scattered minus-infinity masks, fully masked slices and tiles. Fully masked slices "
        "must give zero probabilities and an untouched accumulator. distinct: chains by shapes, tilings, mask and magnitude class")
ASSUME = ["tolerances count rounding errors: an exponent difference d costs eps*(1+d)*exp(-d)"]
NAMES = GROUPS["softmax"]
REQUIRE = {"evaluations": 900, "distinct": 500, "elements_compared": 40000, "chains": 350, "masked_slices": 500,
           "masked_entries": 5000, "huge": 60}


def jobs(tier):
    return op_jobs(tier, 700, 8000, group="softmax")


def setup(job, cfg):
    return op_setup(job, cfg)


def case(ctx, rng, i):
    return chain(ctx, rng) if i % 2 else numeric_case(ctx, rng, i // 2, NAMES)


def chain(ctx, rng):
    core = ctx.core
    kind = ["fp32", "fp64"][int(rng.integers(2))]
    k = NP[kind]
    nd = int(rng.integers(1, 5))
    sh = [int(rng.integers(1, [0, 60, 16, 9, 6][nd] + 1)) for _ in range(nd)]
    ti = [pick_tile(rng, s) for s in sh]
    ax = int(rng.integers(nd))
    mag = smag(rng, kind)
    mode = ["none", "scatter", "slices", "tiles", "op", "all"][int(rng.integers(6))]
    red = int(rng.integers(2))
    parts = int(rng.integers(1, 4))
    alpha = scalar(rng, False)
    desc = "chain %s %s/%s axis=%d mask=%s mag=%.3g redux=%d parts=%d" % (kind, sh, ti, ax, mode, mag, red, parts)
    note(ctx, desc)
    sl = sh[:ax] + sh[ax + 1:]
    slt = ti[:ax] + ti[ax + 1:]
    dead = rng.random(sl) < 0.35
    X = []
    mask = None
    for _ in range(parts):
        x = rng.standard_normal(sh) * mag + (rng.standard_normal() * mag if rng.random() < 0.5 else 0)
        if mode in ("scatter", "slices"):
            x[rng.random(sh) < rng.choice([0.1, 0.5, 0.9])] = -np.inf
        if mode == "slices":
            x = np.where(ex(dead, ax), -np.inf, x)
        if mode == "all":
            x = np.full(sh, -np.inf)
        if mode == "tiles":
            # whole blocks of the reduced axis
            idx = np.arange(sh[ax]) // ti[ax]
            blk = rng.random(int(idx.max()) + 1) < 0.5
            m = blk[idx].reshape([-1 if d == ax else 1 for d in range(nd)])
            x = np.where(m, -np.inf, x)
        X.append(x.astype(k))
    objs = []
    ten = lambda kd, s, t, d=None: objs.append(core.tensor(kd, s, t, d)) or objs[-1]
    blocking = rng.random() < 0.3
    py = hasattr(core, "nntile") and rng.random() < 0.35
    nt = core.nntile.tensor if py else None
    n = 0
    try:
        T = [ten(kind, sh, ti, x) for x in X]
        if mode == "op":
            # mask shared by all slices over the last dimensions (batch), applied by the library
            nb = int(rng.integers(0, nd))
            msh, mti = sh[:nd - nb], ti[:nd - nb]
            mask = rng.random(msh) < rng.choice([0.2, 0.6, 0.95])
            M = ten("bool", msh, mti, mask)
            for t in T:
                core.op("mask_scalar", kind, False)(M.x, -np.inf, t.x, nb)
            full = mask.reshape(list(msh) + [1] * nb)
            X = [np.where(full, x, k(-np.inf)).astype(k) for x in X]
        A = ten(kind, [2] + sl, [2] + slt, rng.standard_normal([2] + sl).astype(k))
        if red:
            A.x.set_reduction_maxsumexp()
        core.op("clear", kind, False)(A.x)
        for t in T:
            if py:
                nt.maxsumexp_async(t.x, A.x, ax, red)
            else:
                core.op("maxsumexp", kind, blocking)(t.x, A.x, ax, red)
        L = ten(kind, sl, slt)
        (nt.logsumexp_async if py else core.op("logsumexp", kind, blocking))(A.x, L.x)
        S = []
        for j, t in enumerate(T):
            if rng.random() < 0.5:
                o = ten(kind, sh, ti, np.full(sh, np.nan, k))
                (nt.softmax_async if py else core.op("softmax", kind, blocking))(A.x, t.x, alpha, o.x, ax)
                S.append((o, t))
            else:
                (nt.softmax_inplace_async if py else core.op("softmax_inplace", kind, blocking))(A.x, alpha, t.x, ax)
                S.append((t, None))
        core.wait()
        # reference
        Z = np.concatenate(X, axis=ax).astype(LD)
        mx, se = mse_ref(Z, ax)
        empty = ~np.isfinite(mx)
        nterm = parts * sh[ax]
        got = A.get()
        a, b = got[0], got[1]
        wm, ws = np.where(empty, 0, mx), np.where(empty, 0, se)

        def judge(what, g, w, sc, f):
            nonlocal n
            n += g.size
            bad = close(g, w, sc, kind, f)
            if bad is not None:
                raise Violation("chain:" + what, "%s: got %r, expected %s at %s: %s" % (
                    what, float(g[bad]), float(np.broadcast_to(w, g.shape)[bad]), bad, desc))
        judge("maximum", a, wm, 0 * wm, 1)
        judge("sum", b, ws, ws, 16 + 3 * nterm)
        with np.errstate(all="ignore"):
            lw = wm + np.log(ws)
        judge("logsumexp", L.get(), lw, abs(wm) + np.where(empty, 0, abs(np.log(np.where(empty, 1, ws)))) + 1, 8 + 3 * nterm)
        for j, (o, src) in enumerate(S):
            x = X[j].astype(LD)
            fin = np.isfinite(x)
            d = np.where(fin, x - ex(wm, ax), 0)
            w = np.where(fin, LD(alpha) * np.exp(d) / np.where(ex(empty, ax), 1, ex(ws, ax)), 0)
            judge("softmax", o.get(), w, abs(w) * (1 + abs(d)), 24 + 3 * nterm)
            z = np.asarray(o.get())[~fin]
            if z.size and (z != 0).any():
                raise Violation("chain:masked-nonzero", desc)
            if src is not None and not same_bits(src.get(), X[j]):
                raise Violation("chain:input-modified", desc)
    finally:
        core.wait()
        for t in objs:
            t.free()
    core.raise_monitor("chain:")
    multi = any(s > t for s, t in zip(sh, ti))
    return dict(n=1, count=dict(elements_compared=n, chains=1, masked_slices=int(empty.sum()), huge=int(mag > 1e4),
                                masked_entries=int(sum((~np.isfinite(x)).sum() for x in X)), multi_tile=int(multi)),
                keys=[desc] if multi else [], sample=desc)
