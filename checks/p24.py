"""Losses and their gradients."""
from _ops import *
import layers as ly
RULE = ("random class counts (up to that of a real vocabulary), position shapes, tilings, scales, logits of magnitude up to 1e4 with offsets, labels (random, all equal, extremes), "
        "wanted or unwanted gradient, reduction option; several evaluations accumulate onto a value holding anything; value and gradient compared with extended precision. "
        "Quadratic loss likewise, stale NaN in everything it overwrites. distinct: (shape, tiling, scale, options)")
ASSUME = ["the gradient of the cross-entropy loss is written, its value is accumulated (as the training pipeline relies on)",
          "the quadratic loss writes both its value and the gradient"]
REQUIRE = {"evaluations": 800, "distinct": 400, "elements_compared": 10000, "xent": 300, "frob": 100, "unwanted": 30, "redux": 50, "large": 80, "vocabulary": 10}
LD = np.longdouble


def jobs(tier):
    return op_jobs(tier, 240, 4000, group="loss")


def setup(job, cfg):
    return op_setup(job, cfg, package=True)


def case(ctx, rng, i):
    note(ctx, "loss")
    return frob(ctx, rng) if i % 4 == 3 else xent(ctx, rng)


def logits(rng, sh, kind):
    a = rng.standard_normal(sh)
    r = rng.random()
    big = 0
    if r < 0.3:
        a *= float(rng.choice([30, 1000, 1e4]))
        big = 1
    if r > 0.8:
        a += float(rng.choice([-1e4, 100, 1e3]))
        big = 1
    if rng.random() < 0.2:
        a = np.round(a)          # ties
    return np.asfortranarray(a.astype(ly.NP[kind])), big


def xent(ctx, rng):
    core = ctx.core
    n = core.nntile
    kind = "fp64" if rng.random() < 0.5 else "fp32"
    wide = rng.random() < 0.06
    C = int(rng.integers(30, 300)) if wide else int(rng.integers(1, 9))
    sh = [C] + ly.dims(rng, int(rng.integers(1, 4)), 1, 3 if wide else 6)
    if rng.random() < 0.02:
        # as many classes as a real vocabulary has
        C = int(rng.choice([33000, 50257, 66000, 70000]))
        sh = [C] + [min(x, 2) for x in sh[1:]]
    ti = [C] + ly.tiles(rng, sh[1:])    # the tensor operations need all classes in one tile
    scale = float(np.float32(rng.choice([1.0, 0.5, 0.125, 2.0, 1 / 3, 0.01])))
    redux = bool(rng.random() < 0.3)
    gm = "yes" if rng.random() < 0.8 else "none" if rng.random() < 0.5 else "off"
    x = ly.make_input(core, rng, kind, sh, ti, gm)
    loss, _ = n.loss.CrossEntropy.generate_simple(x, 0, redux=redux, scale=scale)
    for t in (loss.maxsumexp, loss.logsumexp):
        ly.nan_fill(t, kind)
    acc = LD(rng.standard_normal())
    acc = LD(np.asarray(acc, ly.NP[kind]))
    ly.put(loss.val, np.asarray(acc, ly.NP[kind]))
    tol = abs(acc) * 4
    g0 = None
    if gm != "none":
        g0 = np.full(sh, np.nan, ly.NP[kind]) if gm == "yes" else ly.values(rng, sh, kind)
        ly.put(x.grad, g0)
    d = "xent %s/%s scale %g %s redux=%s grad=%s" % (sh, ti, scale, kind, redux, gm)
    cnt = bg = vocab = 0
    reps = int(rng.integers(1, 4))
    e = ly.EPS[kind]
    npos = int(np.prod(sh[1:]))
    for r in range(reps):
        a, big = logits(rng, sh, kind)
        bg += big
        q = rng.random()
        vocab += int(C > 32767)
        lab = np.full(sh[1:], int(rng.integers(C))) if q < 0.2 else rng.integers(0, C, sh[1:]) if q < 0.8 else rng.choice([0, C - 1], sh[1:])
        ly.put(x.value, a)
        ly.put(loss.y, lab.astype(np.int64))
        loss.calc_async()
        L = a.astype(LD)
        mx = L.max(0)
        ex = np.exp(L - mx)
        s = ex.sum(0)
        lse = mx + np.log(s)
        t = np.take_along_axis(L, lab[None], 0)[0]
        acc += LD(scale) * (lse - t).sum()
        # one rounding per term and partial sum; a row maximum of 1e4 carries an absolute error of eps*1e4
        tol += scale * (np.abs(lse).sum() + np.abs(t).sum()) * (8 + npos) + abs(acc) * 8 + (scale * npos * C if C > 1000 else 0)
        ly.check_same(ly.get(x.value, kind), a, "xent:logits-changed", d)
        ly.check_same(ly.get(loss.y, "int64"), lab.astype(np.int64), "xent:labels-changed", d)
        if gm == "yes":
            want = ex / s
            w2 = want.copy()
            np.put_along_axis(w2, lab[None], np.take_along_axis(want, lab[None], 0) - 1, 0)
            rngx = float(np.max(np.abs(L - mx))) if L.size else 0.0
            tg = e * scale * (want * (64 + 4 * np.abs(L - mx)) + 4 + 2 * C)
            g = ly.get(x.grad, kind).astype(LD)
            bad = ~(np.abs(g - LD(scale) * w2) <= tg)
            if bad.any():
                k = np.unravel_index(int(np.argmax(bad)), bad.shape)
                raise Violation("xent:gradient", "%s: element %s is %r, expected %r" % (d, tuple(map(int, k)), float(g[k]), float(LD(scale) * w2[k])))
            cnt += g.size
        elif gm == "off":
            ly.check_same(ly.get(x.grad, kind), g0, "xent:unwanted-gradient-touched", d)
        if rng.random() < 0.6 or r == reps - 1:
            v = LD(ly.get(loss.val, kind)[()])
            if not abs(v - acc) <= tol * e:
                raise Violation("xent:value", "%s after %d evaluations: %r, expected %r (tolerance %.3g)" % (d, r + 1, float(v), float(acc), float(tol * e)))
            if hasattr(loss, "get_val"):
                o = np.zeros(1, ly.NP[kind], order="F")
                loss.get_val(o)
                if not o[0] == v:
                    raise Violation("xent:get_val", "%s: %r, value is %r" % (d, o[0], float(v)))
            if gm == "yes" and hasattr(loss, "get_grad"):
                o = np.zeros(sh, ly.NP[kind], order="F")
                loss.get_grad(o)
                if not same_bits(o, ly.get(x.grad, kind)):
                    raise Violation("xent:get_grad", d)
    core.wait()
    core.raise_monitor("xent:")
    loss.unregister()
    x.unregister()
    return dict(n=reps, count={"elements_compared": cnt + reps, "xent": 1, "unwanted": int(gm != "yes"), "redux": int(redux), "large": bg, "vocabulary": vocab},
                keys=[d], sample=d)


def frob(ctx, rng):
    core = ctx.core
    n = core.nntile
    kind = "fp64" if rng.random() < 0.5 else "fp32"
    sh = ly.dims(rng, int(rng.integers(1, 5)), 1, 7)
    ti = ly.tiles(rng, sh)
    x = ly.moments(core, kind, sh, ti)
    loss, _ = n.loss.Frob.generate_simple(x, 0)
    for t in (x.grad, loss.val, loss.val_sqrt, loss.tmp):
        ly.nan_fill(t, kind)
    d = "frob %s/%s %s" % (sh, ti, kind)
    e = ly.EPS[kind]
    reps = int(rng.integers(1, 4))
    cnt = 0
    for r in range(reps):
        sc = float(rng.choice([1.0, 1e-6, 1e6, 1e15]))
        a = ly.values(rng, sh, kind, sc)
        b = a.copy(order="F") if rng.random() < 0.1 else ly.values(rng, sh, kind, sc)
        ly.put(x.value, a)
        ly.put(loss.y, b)
        loss.calc_async()
        D = a.astype(LD) - b.astype(LD)
        w = (D ** 2).sum() / 2
        v = LD(ly.get(loss.val, kind)[()])
        lim = e * (64 + 4 * a.size) * ((np.abs(a.astype(LD)) + np.abs(b.astype(LD))) ** 2).sum()
        if not abs(v - w) <= lim:
            raise Violation("frob:value", "%s: %r, expected %r" % (d, float(v), float(w)))
        o, og = np.zeros(1, ly.NP[kind], order="F"), np.zeros(sh, ly.NP[kind], order="F")
        loss.get_val(o)
        loss.get_grad(og)
        if not o[0] == v:
            raise Violation("frob:get_val", "%s: %r, value is %r" % (d, o[0], float(v)))
        if not same_bits(og, ly.get(x.grad, kind)):
            raise Violation("frob:get_grad", d)
        g = ly.get(x.grad, kind).astype(LD)
        bad = ~(np.abs(g - D) <= 4 * e * (np.abs(a.astype(LD)) + np.abs(b.astype(LD))))
        if bad.any():
            k = np.unravel_index(int(np.argmax(bad)), bad.shape)
            raise Violation("frob:gradient", "%s: element %s is %r, expected %r" % (d, tuple(map(int, k)), float(g[k]), float(D[k])))
        ly.check_same(ly.get(x.value, kind), a, "frob:input-changed", d)
        ly.check_same(ly.get(loss.y, kind), b, "frob:target-changed", d)
        cnt += g.size + 1
    core.wait()
    core.raise_monitor("frob:")
    loss.unregister()
    x.unregister()
    return dict(n=reps, count={"elements_compared": cnt, "frob": 1}, keys=[d], sample=d)
