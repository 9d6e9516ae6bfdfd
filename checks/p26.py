"""Saved optimizer state restores an identical continuation."""
import os
from _ops import *
import layers as ly, optim
RULE = ("random optimizer with save_state/load_state (Adam, FusedAdam, FusedAdamW), options, 1-5 parameters of different shapes; k steps, save, then the original continues while "
        "a new optimizer, built with other numeric hyper-parameters over new tensors holding the same parameter values, (or one that has already made steps) loads the state and makes the same steps: all parameters bit-identical after every step. "
        "The restored optimizer is saved and restored again (into a new one, or into the original rolled back); learning rates change on the way. Half-precision storage options: the restored moments equal the rounded ones. Also whole models: parameters exported and re-imported plus optimizer state, then training continues bit-identically. "
        "distinct: (optimizer, options, shapes, step counts)")
ASSUME = ["structural options (amsgrad, element type) are given to the new instance, numeric ones come from the file", "half-precision storage loses precision by design"]
REQUIRE = {"evaluations": 500, "distinct": 250, "elements_compared": 10000, "opt:adam": 80, "opt:fadam": 80, "opt:adamw": 80, "amsgrad": 25, "fp64": 100, "half": 30, "saved_at_start": 10, "models": 15, "rolled_back": 20, "saved_again": 100, "lr_changed": 100}


def jobs(tier):
    return op_jobs(tier, 120, 2000, group="save")


def setup(job, cfg):
    c = op_setup(job, cfg, package=True)
    c.home = os.getcwd()
    return c


def params(core, rng, kind, shapes, D):
    P = []
    for (sh, ti), a in zip(shapes, D):
        m = ly.moments(core, kind, sh, ti)
        ly.put(m.value, a)
        P.append(m)
    return P


def case(ctx, rng, i):
    if i % 10 == 7:
        return model_case(ctx, rng)
    core = ctx.core
    n = core.nntile
    ok = ["adam", "fadam", "adamw"][i % 3]
    note(ctx, "save." + ok)
    kind = "fp64" if rng.random() < 0.5 else "fp32"
    dt = ly.NP[kind]
    hp = optim.hyper(rng, ok, dt)
    shapes = []
    for _ in range(ly.size(rng, 1, 6, 24)):
        sh = ly.dims(rng, int(rng.integers(1, 4)))
        shapes.append((sh, ly.tiles(rng, sh)))
    D = [ly.values(rng, sh, kind) for sh, _ in shapes]
    A = params(core, rng, kind, shapes, D)
    oa = optim.make(n, ok, hp, A, dt)
    k, j = ly.size(rng, 0, 7, 60), int(rng.integers(1, 5))
    if i % 10 and i % 10 != 5:
        k = max(k, 1)
    else:
        k = 0
    grad = lambda: [ly.values(rng, sh, kind) for sh, _ in shapes]

    def step(P, o, G):
        for m, g in zip(P, G):
            ly.put(m.grad, g)
        o.step()
    relr = 0
    for _ in range(k):
        step(A, oa, grad())
        if rng.random() < 0.15:
            oa.lr = float(dt(10.0 ** rng.uniform(-4, 0)))
            relr = 1
    if k == 0:
        # nothing has been stored yet: the state is what the first step overwrites
        for l in ("first_moments", "second_moments", "max_second_moments"):
            for t in getattr(oa, l, []):
                ly.put(t, np.zeros(t.shape, dt))
    path = os.path.join(ctx.home, "state.pkl")
    half = ok != "adam" and kind == "fp32" and rng.random() < 0.4
    st = str(rng.choice(["fp16", "bf16"])) if half else "fp32"
    if ok == "adam":
        oa.save_state(path)
    elif half or rng.random() < 0.5:
        oa.save_state(path, dtype=st)
    else:
        oa.save_state(path)
    now = [ly.get(m.value, kind) for m in A]
    B = params(core, rng, kind, [(sh, ly.tiles(rng, sh)) for sh, _ in shapes] if rng.random() < 0.3 else shapes, now)
    hb = dict(optim.hyper(rng, ok, dt))
    hb.pop("amsgrad", None)
    if hp.get("amsgrad"):
        hb["amsgrad"] = True
    ob = optim.make(n, ok, hb, B, dt)
    for l in ("first_moments", "second_moments", "max_second_moments"):
        for t in getattr(ob, l, []):
            ly.nan_fill(t, kind)
    # loading rolls back: the optimizer may already have been used, for fewer or for more steps than were saved
    used = int(rng.integers(1, 10)) if rng.random() < 0.4 else 0
    for _ in range(used):
        step(B, ob, grad())
    if used:
        for m, a in zip(B, now):
            ly.put(m.value, a)
    ob.load_state(path)
    d = "%s %s %s %s steps %d+%d storage %s, loaded after %d own steps" % (ok, kind, sorted(hp.items()), shapes, k, j, st, used)
    cnt = 0
    if half:
        import torch
        ht = torch.float16 if st == "fp16" else torch.bfloat16
        for l in ("first_moments", "second_moments"):
            for a, b in zip(getattr(oa, l), getattr(ob, l)):
                w = torch.from_numpy(ly.get(a, kind).copy()).to(ht).to(torch.float32).numpy()
                ly.check_same(ly.get(b, kind), np.asfortranarray(w), ok + ":half-precision-state", "%s of %s" % (l, d))
                cnt += w.size
    for s in range(0 if half else j):
        G = grad()
        step(A, oa, G)
        step(B, ob, G)
        for q, (a, b) in enumerate(zip(A, B)):
            ga = ly.get(a.value, kind)
            ly.check_same(ly.get(b.value, kind), ga, ok + ":continuation-differs", "parameter %d of %s at step %d after loading: continuation" % (q, d, s + 1))
            cnt += ga.size
    # another generation: what was restored is saved and restored again, into a new optimizer or into the original
    again = 0
    if not half and rng.random() < 0.4:
        again = 1
        if rng.random() < 0.2:
            ob.lr = oa.lr = float(dt(10.0 ** rng.uniform(-4, 0)))
        (ob.save_state if ok == "adam" or rng.random() < 0.5 else lambda f: ob.save_state(f, dtype="fp32"))(path)
        now = [ly.get(m.value, kind) for m in B]
        E = params(core, rng, kind, shapes, now)
        back = rng.random() < 0.5
        if back:
            # the original goes ahead first and is then taken back
            for _ in range(int(rng.integers(1, 4))):
                step(A, oa, grad())
            for m, a in zip(A, now):
                ly.put(m.value, a)
            oe, E2 = oa, A
        else:
            oe, E2 = optim.make(n, ok, hb, E, dt), E
        oe.load_state(path)
        for s in range(int(rng.integers(1, 4))):
            G = grad()
            step(B, ob, G)
            step(E2, oe, G)
            for q, (a, b) in enumerate(zip(B, E2)):
                ga = ly.get(a.value, kind)
                ly.check_same(ly.get(b.value, kind), ga, ok + ":second-continuation-differs", "parameter %d of %s at step %d after loading again (%s)" % (
                    q, d, s + 1, "rolled back" if back else "new optimizer"))
                cnt += ga.size
        if oe is not oa:
            oe.unregister()
        for m in E:
            m.unregister()
    core.wait()
    core.raise_monitor("save.")
    oa.unregister()
    ob.unregister()
    for m in A + B:
        m.unregister()
    os.unlink(path)
    return dict(n=1 + (0 if half else j), count={"elements_compared": cnt, "opt:" + ok: 1, "amsgrad": int(bool(hp.get("amsgrad"))), kind: 1, "half": int(half),
                                                 "saved_at_start": int(k == 0), "saved_again": again, "lr_changed": relr, "rolled_back": int(used > k)}, keys=[d], sample=d)


def model_case(ctx, rng):
    """Train, export parameters and optimizer state, rebuild everything, import, continue."""
    core = ctx.core
    n = core.nntile
    note(ctx, "save.model")
    import models
    ok = ["adam", "fadam", "adamw"][int(rng.integers(3))]
    hp = optim.hyper(rng, ok, np.float32, mild=True)
    # one tile per tensor and no shared activations: the order of every summation is fixed
    spec = models.random_spec(rng, "fp32", chain=True, whole=True)
    m1 = models.build(core, rng, spec)
    o1 = optim.make(n, ok, hp, m1.params, np.float32)
    k, j = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    for _ in range(k):
        m1.train_step(o1, m1.batch(rng))
    path = os.path.join(ctx.home, "model.pkl")
    o1.save_state(path)
    vals = [ly.get(p.value, "fp32") for p in m1.params]
    m2 = models.build(core, rng, spec)
    for p, a in zip(m2.params, vals):
        ly.put(p.value, a)
    h2 = optim.hyper(rng, ok, np.float32)
    h2.pop("amsgrad", None)
    if hp.get("amsgrad"):
        h2["amsgrad"] = True
    o2 = optim.make(n, ok, h2, m2.params, np.float32)
    o2.load_state(path)
    d = "%s with %s %s steps %d+%d" % (spec, ok, sorted(hp.items()), k, j)
    cnt = 0
    for s in range(j):
        b = m1.batch(rng)
        m1.train_step(o1, b)
        m2.train_step(o2, m2.rebind(b))
        for q, (x, y) in enumerate(zip(m1.params, m2.params)):
            g = ly.get(x.value, "fp32")
            ly.check_same(ly.get(y.value, "fp32"), g, "model:continuation-differs", "parameter %d of %s at step %d after loading" % (q, d, s + 1))
            cnt += g.size
    core.wait()
    core.raise_monitor("save.")
    o1.unregister()
    o2.unregister()
    m1.free()
    m2.free()
    return dict(n=1, count={"elements_compared": cnt, "models": 1}, keys=[d], sample=d)
