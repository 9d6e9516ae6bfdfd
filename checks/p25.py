"""Optimizers against their published recurrences over whole histories."""
from _ops import *
import layers as ly, optim
RULE = ("random optimizer (SGD, Adam, FusedAdam, FusedAdamW), random hyper-parameters, 1-4 parameters of random shapes and tilings, 1-12 (some 40-150, rarely up to 1200) steps, sometimes with a changing learning rate, with random "
        "gradients (including zeros, repeated ones, very small and large ones, vanishing histories); after every step (or only at the end) every parameter is compared "
        "with the recurrence in extended precision; errors of rounding accumulate linearly in the tolerance; every sixth case is one fused update called directly with any step number up to 10^7. distinct: (optimizer, options, steps, tilings)")
ASSUME = ["the published rules are those documented for PyTorch's SGD, Adam and AdamW, with linear warm-up of the learning rate for the fused ones"]
REQUIRE = {"evaluations": 1500, "distinct": 300, "elements_compared": 10000, "opt:sgd": 60, "opt:adam": 60, "opt:fadam": 60, "opt:adamw": 60,
           "amsgrad": 15, "warmup": 20, "nesterov": 15, "multi_tile": 100, "lr_changes": 50, "long": 10, "very_long": 4, "op:adam_step": 60, "op:adamw_step": 60}


def jobs(tier):
    return op_jobs(tier, 180, 2500, group="opt")


def setup(job, cfg):
    return op_setup(job, cfg, package=True)


def gradient(rng, shape, kind, prev):
    r = rng.random()
    if r < 0.1:
        return np.zeros(shape, NP_[kind], order="F")
    if r < 0.2 and prev is not None:
        return prev
    g = ly.values(rng, shape, kind, float(rng.choice([1.0, 1e-3, 50.0])))
    if r < 0.5:
        g *= (rng.random(shape) < 0.6)
    return np.asfortranarray(g)


NP_ = ly.NP


def case(ctx, rng, i):
    core = ctx.core
    if i % 6 == 5:
        return numeric_case(ctx, rng, i // 6, ["adam_step", "adamw_step"])
    n = core.nntile
    ok = optim.KINDS[(i + ctx.job["shard"]) % 4]
    note(ctx, "optimizer." + ok)
    kind = "fp64" if rng.random() < 0.5 else "fp32"
    dt = NP_[kind]
    hp = optim.hyper(rng, ok, dt)
    P, D, desc, multi = [], [], [], 0
    vlong = i % 90 == 7
    for _ in range(1 if vlong else ly.size(rng, 1, 5, 16)):
        sh = [int(rng.integers(1, 5))] if vlong else ly.dims(rng, int(rng.integers(1, 4)))
        if rng.random() < 0.04:
            sh[int(rng.integers(len(sh)))] = int(rng.integers(60, 300))
        ti = ly.tiles(rng, sh)
        if np.prod(-(-np.array(sh) // np.array(ti))) > 60:
            ti = sh
        m = ly.moments(core, kind, sh, ti)
        a = ly.values(rng, sh, kind)
        ly.put(m.value, a)
        P.append(m)
        D.append(a)
        desc.append("%s/%s" % (sh, ti))
        multi += sh != ti
    opt = optim.make(n, ok, hp, P, dt)
    ref = optim.Ref(ok, hp, D)
    # stale contents of the state must not matter
    for lst in ("first_moments", "second_moments", "max_second_moments", "states"):
        for t in getattr(opt, lst, []):
            ly.nan_fill(t, kind)
    steps = int(rng.integers(1, 13)) if rng.random() < 0.95 else int(rng.integers(40, 150))
    if vlong:
        steps = int(rng.integers(300, 1200))
    # a schedule of the user: the learning rate is an attribute
    resched = 0.3 if rng.random() < 0.25 else 0
    changes = 0
    each = rng.random() < 0.6
    G = [None] * len(P)
    cnt = 0
    cond = [np.zeros(a.shape, np.longdouble) for a in D]
    e = ly.EPS[kind]
    for s in range(steps):
        G = [gradient(rng, a.shape, kind, g) for a, g in zip(D, G)]
        for m, g in zip(P, G):
            ly.put(m.grad, g)
        old = [x.copy() for x in ref.p]
        if rng.random() < resched:
            ref.hp["lr"] = float(dt(rng.choice([0.2, 0.05, 0.003])))
            opt.lr = dt(ref.hp["lr"]) if rng.random() < 0.5 else ref.hp["lr"]
            changes += 1
        opt.step()
        ref.step(G)
        for j in range(len(P)):
            cond[j] = grow(cond[j], ok, ref, j, old[j], e)
        if each or s == steps - 1:
            for j, m in enumerate(P):
                got = ly.get(m.value, kind).astype(np.longdouble)
                with np.errstate(all="ignore"):
                    bad = ~(np.abs(got - ref.p[j]) <= cond[j] * e)
                if bad.any():
                    k = np.unravel_index(int(np.argmax(bad)), bad.shape)
                    raise Violation("%s:update" % ok, "%s %s %s: parameter %d %s element %s after step %d is %r, expected %r (tolerance %.3g)" % (
                        ok, kind, hp, j, desc[j], tuple(map(int, k)), s + 1, float(got[k]), float(ref.p[j][k]), float(cond[j][k] * e)))
                cnt += got.size
            core.raise_monitor("optimizer." + ok + ":")
    core.wait()
    core.raise_monitor("optimizer." + ok + ":")
    opt.unregister()
    for m in P:
        m.unregister()
    d = "%s %s %s x%d" % (ok, sorted(hp.items()), desc, steps)
    return dict(n=steps, count={"elements_compared": cnt, "opt:" + ok: 1, "amsgrad": int(bool(hp.get("amsgrad"))), "warmup": int("start_lr" in hp),
                                "nesterov": int(bool(hp.get("nesterov"))), "multi_tile": int(multi > 0), "lr_changes": changes, "long": int(steps > 12), "very_long": int(steps >= 300), kind: 1}, keys=[d], sample=d)


def grow(c, ok, ref, j, old, e):
    """Rounding allowance, in units of the rounding error, for the parameter after this step.

    SGD is linear: every step adds a few rounding errors of the terms involved (decay and momentum may carry
    earlier errors on, by a factor bounded by the options).  Adam divides by a quantity computed from the
    gradients: the update of one step is bounded by lr, with relative errors of a few dozen units growing
    with the length of the history, plus the sensitivity to the error carried by the parameter itself when
    weight decay feeds it back."""
    h = ref.hp
    new = ref.p[j]
    base = 4 * (np.abs(old) + np.abs(new))
    t = ref.t
    lr = abs(float(ref.lr()))
    wd = h.get("weight_decay", 0)
    if ok == "sgd":
        mu = h.get("momentum", 0)
        k = 1 / (1 - mu) if mu < 1 else t
        amp = 1 + lr * wd * k * (2 if h.get("nesterov") else 1)
        g = np.abs(new - old)
        mm = np.abs(ref.m[j]) if mu > 0 else 0
        hist = getattr(ref, "_gh", None)
        if hist is None:
            hist = ref._gh = [np.zeros(x.shape, np.longdouble) for x in ref.p]
        hist[j] = hist[j] * max(mu, 0) + np.abs(mm) + g / max(lr, 1e-30) + wd * np.abs(old)
        return c * amp + base + 8 * lr * k * (hist[j] + wd * c * 0) + 8 * g
    # Adam: |m|/denominator
    b2 = h["beta2"]
    with np.errstate(all="ignore"):
        v = ref.vmax[j] if h.get("amsgrad") else ref.v[j]
        den = np.sqrt(v) / np.sqrt(1 - np.longdouble(b2) ** t) + h["eps"]
        # magnitude of the terms of the first moment (cancellation): bounded by a running sum of absolute values
    hist = getattr(ref, "_gh", None)
    if hist is None:
        hist = ref._gh = [np.zeros(x.shape, np.longdouble) for x in ref.p]
        ref._pm = [np.zeros(x.shape, np.longdouble) for x in ref.p]
    b1 = h["beta1"]
    gterm = np.abs(ref.m[j] - b1 * ref._pm[j])          # (1-b1)*|g| as the rule sees it
    ref._pm[j] = ref.m[j].copy()
    hist[j] = b1 * hist[j] + gterm + (1 - b1) * (wd if ok != "adamw" else 0) * (np.abs(old) * 2)
    upd = lr / (1 - b1 ** t) * hist[j] / den
    carry = 1 + lr * wd + (lr / (1 - b1 ** t) * wd * 4 / den if ok != "adamw" else 0)
    # bias correction terms lose accuracy for small t
    bc = 1 / (1 - b2 ** t) + 1 / (1 - b1 ** t)
    return c * carry + base + (64 + 8 * t + 8 * bc) * upd


