"""Models over several training iterations against a fresh reference at every iteration."""
from _ops import *
import layers as ly, optim, models
from p22 import check_cleared
RULE = ("random directed acyclic graphs of 1-6 layers (shared activations, several inputs, residual additions, index inputs) assembled with the package's BaseModel, cross-entropy, quadratic or no loss; "
        "2-5 iterations of clear, load, forward, loss, backward (1-3 minibatches), optimizer step, with extra forward passes, wont_use of everything in between and new data every time, "
        "either reading results at once or fully asynchronously with in-stream snapshots; at every iteration loss, all parameter gradients, wanted input gradients and parameter updates are compared with "
        "autograd at the parameters of that moment; some iterations are repeated by a freshly built model (bitwise where the order of summation is fixed). distinct: (graph, shapes, mode)")
ASSUME = ["iterations where a ReLU argument is within rounding of its kink, or the problem is ill-conditioned, are not judged (counted)",
          "gradients of a mixer's internal tensors are cleared at every minibatch, as MlpMixer does"]
REQUIRE = {"evaluations": 500, "distinct": 150, "elements_compared": 20000, "async": 50, "shared": 40, "fresh": 30, "minibatches": 600, "judged": 400,
           "has:linear": 60, "has:layer_norm": 30, "has:attention": 8, "has:flash_attention": 6, "has:mixer": 3, "has:embedding": 20}


def jobs(tier):
    return op_jobs(tier, 60, 1500, group="models")


def setup(job, cfg):
    return op_setup(job, cfg, package=True)


def case(ctx, rng, i):
    core = ctx.core
    n = core.nntile
    note(ctx, "model")
    kind = "fp64" if rng.random() < 0.7 else "fp32"
    fresh = rng.random() < 0.2
    spec = models.random_spec(rng, kind, chain=fresh, whole=fresh, redux=not fresh and rng.random() < 0.25)
    M = models.build(core, rng, spec)
    ctx.what = "model"
    print("@@model", M.desc, flush=True)
    dt = ly.NP[kind]
    ok = ["sgd", "sgd", "adam", "fadam", "adamw"][int(rng.integers(5))]
    hp = optim.hyper(rng, ok, dt, mild=True)
    hp["lr"] = float(dt(0.01))
    frozen = [p for p in M.params if rng.random() < 0.1] if not fresh else []
    for p in frozen:
        p.grad_required = False
        ly.put(p.grad, np.zeros(p.grad.shape, dt))
    live = [j for j, p in enumerate(M.params) if p.grad_required]
    opt = optim.make(n, ok, hp, [M.params[j] for j in live], dt)
    asy = bool(rng.random() < 0.6)
    K = ly.size(rng, 2, 6, 25)
    names = {x.name for x in M.nodes}
    p0 = [ly.get(p.value, kind) for p in M.params]
    snaps = []       # per iteration: parameters before are the snapshot of the iteration before
    keep = []
    wanted = [m for m in M.inputs if m.grad is not None and m.grad_required]

    def snap(t):
        if not asy:
            return ly.get(t, kind)
        s = M.like(t, kind)
        n.tensor.copy_async(t, s)
        keep.append(s)
        return s

    def load(b):
        if not asy:
            return M.load(b)
        for t, a, k in b:
            s = feed[id(a)]
            n.tensor.copy_async(s, t)
    feed = {}
    batches = []
    for it in range(K):
        B = [M.batch(rng) for _ in range(int(rng.choice([1, 1, 2, 3])))]
        batches.append(B)
        if asy:
            for b in B:
                for t, a, k in b:
                    s = M.like(t, k)
                    ly.put(s, a)
                    feed[id(a)] = s
                    keep.append(s)
    hostile = [float(x) for x in rng.random(8)]
    for it in range(K):
        M.model.clear_gradients() if (spec["seed"] + it) % 3 == 0 else M.model.clear_parameters_grads()
        if M.loss:
            n.tensor.clear_async(M.loss.val)
        gin = []
        for b in batches[it]:
            if rng.random() < 0.2:
                # evaluation only: no backward pass
                M.load(b) if not asy else load(b if M.loss else b[:-1])
                M.model.forward_async()
            M.minibatch(b, load)
            gin.append([snap(m.grad) for m in wanted])
        rec = dict(gin=gin, gp=[snap(p.grad) for p in M.params], loss=snap(M.loss.val) if M.loss else None, out=snap(M.out.value))
        opt.step()
        rec["p"] = [snap(p.value) for p in M.params]
        snaps.append(rec)
        if hostile[0] < 0.5:
            for p in M.params:
                p.value.wont_use()
        if hostile[1] < 0.5:
            for t in M.model.activations:
                t.value.wont_use()
                if t.grad is not None and t.grad_required:
                    t.grad.wont_use()
        if hostile[2] < 0.3:
            # the next iteration overwrites all of this
            for x in M.nodes:
                x.out.value.invalidate_submit()
    rd = lambda t: ly.get(t, kind) if ly.is_tensor(t) else t
    ref = optim.Ref(ok, hp, [p0[j] for j in live])
    before = p0
    cnt = judged = skipped = mb = fr = 0
    e = ly.EPS[kind]
    gsum = [0.0] * len(p0)
    diverged = False
    for it in range(K):
        rec = snaps[it]
        what = "%s iteration %d of %d (%s, %s)" % (M.desc, it + 1, K, "asynchronous" if asy else "reading", ok)
        acc = [0.0] * len(p0)
        tol = [0.0] * len(p0)
        lv, lt, good = 0.0, 0.0, True
        for q, b in enumerate(batches[it]):
            mb += 1
            ly.KINKS = [0, np.inf]
            try:
                ins = M.arrays(b)
                y, gi, gp, ty, ti, tp = ly.reference_tol(rng, M.function(b), ins, before, M.gy(b), kind)
            finally:
                kink, ly.KINKS = ly.KINKS[1], None
            huge = [ly.amax(v) for v in [y] + [w for w in list(gi.values()) + list(gp) if w is not None]]
            if not max(huge) < (1e9 if kind == "fp32" else 1e40):
                diverged = True
                break
            if kink < (3e-4 if kind == "fp32" else 1e-5):
                good = False
            if any(tp[j] > 0.02 * ly.amax(gp[j]) + 1e-30 for j in range(len(gp)) if gp[j] is not None):
                good = False
            lv = lv + float(np.sum(y)) if spec["loss"] == "xent" else y
            lt += ty
            if good:
                for m, s in zip(wanted, rec["gin"][q]):
                    a = ins[M.inputs.index(m)]
                    w = gi[id(a)]
                    cnt += ly.check_close(rd(s), 0.0 if w is None else w, ti[id(a)], "model:input-gradient", "minibatch %d of %s" % (q + 1, what))
            for j in range(len(p0)):
                if gp[j] is not None:
                    acc[j] = acc[j] + gp[j]
                    tol[j] += tp[j]
        if diverged:
            # training ran away: nothing can be compared from here on
            break
        if good:
            judged += 1
            if spec["loss"] == "none":
                cnt += ly.check_close(rd(rec["out"]), lv, lt, "model:output", what)
            else:
                cnt += ly.check_close(rd(rec["loss"]), lv, lt * 4 + 64 * e * abs(float(lv)), "model:loss", what)
            for j, p in enumerate(M.params):
                g = rd(rec["gp"][j])
                if not p.grad_required:
                    ly.check_same(g, np.zeros(g.shape, dt), "model:unwanted-gradient-touched", what)
                else:
                    cnt += ly.check_close(g, acc[j], tol[j] * 2 + 64 * e * ly.amax(acc[j]), "model:parameter-gradient", "parameter %d of %s" % (j, what))
        else:
            skipped += 1
        # the update, from the gradients actually used
        G = [rd(s) for s in rec["gp"]]
        ref.step([G[j] for j in live])
        now = [rd(s) for s in rec["p"]]
        for j in range(len(p0)):
            gsum[j] = gsum[j] + np.abs(G[j].astype(np.longdouble)) + np.abs(now[j])
            w = ref.p[live.index(j)] if j in live else p0[j].astype(np.longdouble)
            lim = 1024 * e * (it + 1) * (np.abs(w) + 0.01 * 64 * gsum[j] + ly.amax(p0[j]))
            bad = ~(np.abs(now[j].astype(np.longdouble) - w) <= lim)
            if bad.any():
                k = np.unravel_index(int(np.argmax(bad)), bad.shape)
                raise Violation("model:update", "parameter %d of %s: element %s is %r, expected %r" % (j, what, tuple(map(int, k)), float(now[j][k]), float(w[k])))
            cnt += w.size
        if fresh and rng.random() < 0.7:
            fr += 1
            cnt += fresh_model(core, rng, spec, before, batches[it], rec, rd, M, what)
        before = now
    if rng.random() < 0.5:
        ms = M.inputs + [x.out for x in M.nodes] + [p for x in M.nodes for p in x.params]
        if M.model.get_parameters() != [p for x in M.nodes for p in x.params]:
            raise Violation("model:parameters", "get_parameters differs from the parameters of the layers: " + M.desc)
        cl = [M.model.clear_gradients, (lambda: (M.model.clear_activations_grads(), M.model.clear_parameters_grads()))][int(rng.integers(2))]
        check_cleared(core, rng, cl, ms, kind, "model:clear", M.desc)
    core.wait()
    core.raise_monitor("model:")
    opt.unregister()
    shared = len({id(i) for x in M.nodes for i in x.ins}) < sum(len(x.ins) for x in M.nodes)
    d = "%s async=%s K=%d %s" % (M.desc, asy, K, [list(x.out.value.basetile_shape) for x in M.nodes])
    for s in keep:
        s.unregister()
    M.free()
    c = {"elements_compared": cnt, "async": int(asy), "shared": int(shared), "fresh": fr, "minibatches": mb, "judged": judged, "not_judged": skipped, "diverged": int(diverged), kind: 1}
    c.update({"has:" + x: 1 for x in names})
    return dict(n=K, count=c, keys=[d], sample=d)


def fresh_model(core, rng, spec, before, B, rec, rd, M, what):
    """One iteration by a model that has no history."""
    kind = spec["kind"]
    F = models.build(core, rng, spec)
    for p, a in zip(F.params, before):
        ly.put(p.value, a)
    F.model.clear_parameters_grads()
    if F.loss:
        core.nntile.tensor.clear_async(F.loss.val)
    for b in B:
        F.minibatch(F.rebind(b))
    n = 0
    ly.check_same(rd(rec["out"]), ly.get(F.out.value, kind), "model:differs-from-fresh:output", what + ": fresh value")
    if F.loss:
        ly.check_same(rd(rec["loss"]), ly.get(F.loss.val, kind), "model:differs-from-fresh:loss", what + ": fresh value")
    for j, p in enumerate(F.params):
        g = ly.get(p.grad, kind)
        ly.check_same(rd(rec["gp"][j]), g, "model:differs-from-fresh:gradient", "parameter %d of %s: fresh value" % (j, what))
        n += g.size
    F.free()
    return n
