"""The training pipeline against a plain loop."""
from _ops import *
import contextlib, io
import layers as ly, optim, models
import torch
RULE = ("random models (graphs of layers with one data input, index inputs, and the package's deep ReLU, deep linear and MLP-mixer models), cross-entropy or quadratic loss, SGD/Adam/FusedAdam/FusedAdamW with random options, "
        "0-3 epochs of 1-3 batches of 1-3 micro-batches of random data, training continued by a second call; final parameters and the loss history compared with a reference loop in double precision "
        "(autograd, published update rules) that shares nothing with the package; data tensors keep their bits. distinct: (model, optimizer, counts)")
ASSUME = ["the quadratic loss holds the value of the last micro-batch (it does not accumulate); the cross-entropy loss the sum over the batch",
          "runs in which a ReLU argument comes within rounding of its kink are not judged"]
REQUIRE = {"evaluations": 600, "distinct": 150, "elements_compared": 5000, "updates": 500, "micro": 900, "judged": 130, "m:random": 60, "m:deep_relu": 15, "m:deep_linear": 15, "m:mixer": 15,
           "opt:sgd": 30, "opt:adam": 30, "opt:fadam": 30, "opt:adamw": 30, "frob": 30, "xent": 40, "fp64": 60}


def jobs(tier):
    return op_jobs(tier, 34, 1500, group="pipeline")


def setup(job, cfg):
    return op_setup(job, cfg, package=True)


class Fixed:
    """One of the package's models, with a reference written down here."""
    def __init__(self, ctx, rng, which):
        core = ctx.core
        self.core, self.n = core, core.nntile
        L, h, o, nb = ly.size(rng, 2, 5, 12), int(rng.integers(1, 7)), int(rng.integers(1, 6)), int(rng.integers(1, 5))
        self.kind = kind = "fp32" if rng.random() < 0.4 else "fp64"
        if which == "mixer":
            sh = [int(v) for v in rng.integers(1, 5, 3)]
            x = ly.moments(core, kind, sh, sh, False, False)
            from nntile.model.mlp_mixer import MlpMixer
            emb, nl = int(rng.integers(1, 5)), ly.size(rng, 1, 3, 6)
            self.model = MlpMixer(x, emb, nl, o, 0)

            def f(x, p):
                v = ly.ref_linear("L", False, 1, x, p[0], None)
                for k in range(nl):
                    v = ly.ref_mixer(v, p[1 + 8 * k:9 + 8 * k])
                return ly.ref_linear("R", False, 1, ly.ref_gap(v), p[-1], None)
            self.desc = "MlpMixer %s emb %d layers %d classes %d %s" % (sh, emb, nl, o, kind)
        else:
            i = int(rng.integers(1, 7))
            sh, ti = [i, nb], ly.tiles(rng, [i, nb])
            x = ly.make_input(core, rng, kind, sh, ti, ly.gmode(rng))
            ht = ly.pick_tile(rng, h)
            if which == "deep_relu":
                from nntile.model.deep_relu import DeepReLU
                bias = bool(rng.random() < 0.5)
                self.model = DeepReLU(x, "R", 1, h, ht, L, o, 0, bias=bias)
            else:
                from nntile.model.deep_linear import DeepLinear
                bias = True
                self.model = DeepLinear(x, "R", 1, h, ht, L, 0)
                bias = len(self.model.parameters) == 2 * L

            def f(x, p):
                st = 2 if bias else 1
                for k in range(L):
                    x = ly.ref_linear("R", False, 1, x, p[st * k], p[st * k + 1] if bias else None)
                    if which == "deep_relu" and k < L - 1:
                        x = ly.relu(x)
                return x
            self.desc = "%s %s/%s hidden %d/%d layers %d out %d bias=%s %s" % (which, sh, ti, h, ht, L, o, bias, kind)
        self.f, self.sh = f, sh
        self.out = self.model.activations[-1]
        self.params = self.model.parameters
        lk = "xent" if self.out.value.shape[0] == self.out.value.basetile_shape[0] and rng.random() < 0.6 else "frob"
        self.lk = lk
        self.loss = (self.n.loss.CrossEntropy.generate_simple(self.out, 0, scale=0.25) if lk == "xent" else self.n.loss.Frob.generate_simple(self.out, 0))[0]
        self.desc += " " + lk
        for p in self.params:
            a = rng.standard_normal(p.value.shape)
            ly.put(p.value, (a / max(1.0, np.sqrt(a.size / max(a.shape)))).astype(ly.NP[kind]))

    def batch(self, rng):
        os_ = list(self.out.value.shape)
        y = (self.loss.y, rng.integers(0, os_[0], os_[1:]).astype(np.int64), "int64") if self.lk == "xent" else (self.loss.y, ly.values(rng, os_, self.kind), self.kind)
        return [(self.model.activations[0].value, ly.values(rng, self.sh, self.kind), self.kind), y]

    like = models.Model.like

    def arrays(self, b):
        return [b[0][1]]

    def function(self, b):
        def f(ins, par):
            y = self.f(ins[0], par)
            if self.lk == "xent":
                lab = torch.from_numpy(np.ascontiguousarray(b[-1][1]))
                return 0.25 * (torch.logsumexp(y, 0) - torch.gather(y, 0, lab[None])[0]).sum()
            return 0.5 * ((y - torch.tensor(np.array(b[-1][1]), dtype=ly.T64)) ** 2).sum()
        return f

    def free(self):
        self.loss.unregister()
        self.model.unregister()


def case(ctx, rng, i):
    core = ctx.core
    n = core.nntile
    note(ctx, "pipeline")
    which = ["random", "deep_relu", "random", "deep_linear", "random", "mixer"][(i + ctx.job["shard"]) % 6]
    if which == "random":
        kind = "fp64" if rng.random() < 0.75 else "fp32"
        while True:
            spec = models.random_spec(rng, kind, redux=rng.random() < 0.2)
            spec["loss"] = "xent" if rng.random() < 0.5 else "frob"
            M = models.build(core, rng, spec)
            lk = spec["loss"]
            if M.params:
                break
            M.free()
    else:
        M = Fixed(ctx, rng, which)
        kind, lk = M.kind, M.lk
    print("@@pipeline", M.desc, flush=True)
    dt = ly.NP[kind]
    ok = optim.KINDS[int(rng.integers(4))]
    hp = optim.hyper(rng, ok, dt, mild=True)
    hp["lr"] = float(dt(rng.choice([0.05, 0.01])))
    if hp.get("start_lr") is not None:
        hp["start_lr"] = float(dt(0.001))
    opt = optim.make(n, ok, hp, M.params, dt)
    nb, epochs = ly.size(rng, 1, 4, 10), int(rng.choice([0, 1, 1, 2, 3])) if rng.random() < 0.95 else int(rng.integers(4, 9))
    keep, X, Y, B = [], [], [], []

    def host(t, a, k):
        s = M.like(t, k)
        ly.put(s, a)
        keep.append((s, a, k))
        return s
    # further inputs (second operands of slice additions) stay constant
    proto = M.batch(rng)
    for t, a, k in proto[1:-1]:
        ly.put(t, a)
    for _ in range(nb):
        mb = []
        for _ in range(ly.size(rng, 1, 4, 9)):
            b = M.batch(rng)
            b = [b[0]] + proto[1:-1] + [b[-1]]
            mb.append(b)
        B.append(mb)
        X.append([host(*b[0]) for b in mb])
        Y.append([host(*b[-1]) for b in mb])
    p0 = [ly.get(p.value, kind) for p in M.params]
    for p in M.params:
        if p.grad is not None:
            ly.nan_fill(p.grad, kind)      # cleared by the pipeline
    pipe = n.pipeline.Pipeline(X, Y, M.model, opt, M.loss, epochs)
    again = rng.random() < 0.3
    with contextlib.redirect_stdout(io.StringIO()):
        pipe.train_async()
        if again:
            pipe.train_async()
    # reference, and the same perturbed wherever the real computation rounds
    micro = sum(len(mb) for mb in B) * epochs * (2 if again else 1)

    def trajectory(noise=None):
        def shake(a):
            a = np.asarray(a, np.float64)
            return a if noise is None else a * (1 + noise[0] * noise[1].choice([-1.0, 1.0], a.shape))
        ref = optim.Ref(ok, hp, p0)
        hist = []
        for _ in range(epochs * (2 if again else 1)):
            for mb in B:
                acc = [0.0] * len(p0)
                lv = 0.0
                for b in mb:
                    m = {id(a): (shake(a) if a.dtype.kind == "f" else a) for a in M.arrays(b)}
                    ly.NOISE = noise
                    try:
                        y, _, gp = ly.reference(M.function(b), [m[id(a)] for a in M.arrays(b)], [shake(q) for q in ref.p], np.float64(1), None)
                    finally:
                        ly.NOISE = None
                    lv = lv + float(y) if lk == "xent" else float(y)
                    acc = [a if g is None else a + g for a, g in zip(acc, gp)]
                ref.step([np.broadcast_to(shake(a), q.shape) for a, q in zip(acc, p0)])
                if noise is not None:
                    ref.p = [shake(q).astype(q.dtype) for q in ref.p]
                hist.append(lv)
        return hist, [np.asarray(q, np.float64) for q in ref.p]
    ly.KINKS = [0, np.inf]
    try:
        hist, par = trajectory()
    finally:
        kink, ly.KINKS = ly.KINKS[1], None
    nd = 1e-6 if kind == "fp32" else 1e-9
    hd, pd = np.zeros(len(hist)), [0.0] * len(p0)
    for _ in range(2):
        h2, p2 = trajectory((nd, rng))
        hd = np.maximum(hd, np.abs(np.array(h2) - np.array(hist)))
        pd = [max(x, ly.amax(u - v)) for x, u, v in zip(pd, p2, par)]
    k = 128 * ly.EPS[kind]
    htol = [k * (x / nd + abs(v)) for x, v in zip(hd, hist)]
    ptol = [k * (x / nd + 1 + ly.amax(v)) for x, v in zip(pd, par)]
    good = kink > (1e-3 if kind == "fp32" else 1e-7)
    d = "%s %s %s %s epochs %d%s" % (M.desc, ok, sorted(hp.items()), [len(m) for m in B], epochs, " twice" if again else "")
    if len(pipe.loss_hist) != len(hist):
        raise Violation("pipeline:history-length", "%s: %d losses reported, %d batches processed" % (d, len(pipe.loss_hist), len(hist)))
    cnt = 0
    got = [ly.get(p.value, kind) for p in M.params]
    if any(not np.all(np.abs(q) < 1e6) for q in par) or any(not abs(v) < 1e8 for v in hist):
        good = False
    if not all(t <= 0.02 * (1 + abs(v)) for t, v in zip(htol, hist)) or not all(t <= 0.02 * (1 + ly.amax(v)) for t, v in zip(ptol, par)):
        # too sensitive for a meaningful comparison
        good = False
    if good:
        for s, (a, b) in enumerate(zip(pipe.loss_hist, hist)):
            if not abs(float(a) - b) <= htol[s] + 64 * ly.EPS[kind] * (s + 1):
                raise Violation("pipeline:loss", "%s: loss of batch %d is %r, expected %r (tolerance %.3g)" % (d, s, float(a), b, htol[s]))
            cnt += 1
        for j, (a, w) in enumerate(zip(got, par)):
            cnt += ly.check_close(a, w, ptol[j], "pipeline:parameters", "parameter %d of %s" % (j, d))
    if not epochs:
        for j, (a, w) in enumerate(zip(got, p0)):
            ly.check_same(a, w, "pipeline:no-epochs", d)
    for s, a, k in keep:
        ly.check_same(ly.get(s, k), a, "pipeline:data-changed", d)
    core.wait()
    core.raise_monitor("pipeline:")
    opt.unregister()
    for s, _, _ in keep:
        s.unregister()
    M.free()
    return dict(n=1 + len(hist), count={"elements_compared": cnt, "updates": len(hist), "micro": micro, "judged": int(good), "m:" + which: 1, "opt:" + ok: 1, lk: 1, kind: 1,
                                        "continued": int(again)}, keys=[d], sample=d)
