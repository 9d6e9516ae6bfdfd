"""Models imported from PyTorch."""
from _ops import *
import copy
import layers as ly
import torch
from torch import nn
RULE = ("random architectures (GPT-2 with 0-3 blocks, 1-4 heads, plain or fused attention, three activations, tilings of batch, sequence, embedding, inner and head dimensions, reduction option; "
        "GPT-2 feed-forward blocks; MLP mixers including square dimensions; deep ReLU and deep linear networks, both sides, with and without bias) with random weights, imported with from_torch; "
        "output and every parameter gradient of 1-2 passes compared with the original evaluated in double precision; parameters exported to another instance bit-identical; "
        "weights changed on the NNTile side and exported make the original agree again. distinct: (architecture, tilings, options)")
ASSUME = ["the reference is PyTorch / HuggingFace Transformers in double precision with the same single-precision weights",
          "GPT-2's output layer is untied from the embedding before importing, as the package's examples do", "cases where a ReLU argument is within rounding of zero are redrawn"]
REQUIRE = {"evaluations": 300, "distinct": 150, "elements_compared": 30000, "m:gpt2": 50, "m:gpt2mlp": 20, "m:mixer": 25, "m:deep_relu": 25, "m:deep_linear": 10, "flash": 15, "exported": 60, "square": 5}
T = torch.float64


def jobs(tier):
    return op_jobs(tier, 40, 1600, group="torch")


def setup(job, cfg):
    c = op_setup(job, cfg, package=True)
    import transformers
    c.tf = transformers
    return c


def case(ctx, rng, i):
    k = ["gpt2", "mixer", "gpt2mlp", "deep_relu", "gpt2", "deep_linear", "mixer", "deep_relu"][(i + ctx.job["shard"]) % 8]
    note(ctx, "torch." + k)
    torch.manual_seed(int(rng.integers(1 << 31)))
    return globals()[k](ctx, rng)


def randomize(m, rng, scale=0.5):
    with torch.no_grad():
        for name, p in m.named_parameters():
            s = scale if p.ndim > 1 else 0.3
            a = rng.standard_normal(tuple(p.shape)) * s
            if "ln_" in name or "norm" in name:
                a = a + (1 if name.endswith("weight") else 0)
            p.copy_(torch.from_numpy(a.astype(np.float32)))


class Kinks:
    """Smallest relative distance of a ReLU argument from zero."""
    def __init__(self, m):
        self.v = np.inf
        self.h = [x.register_forward_hook(self.see) for x in m.modules() if isinstance(x, nn.ReLU)]

    def see(self, mod, inp, out):
        a = inp[0].detach().abs()
        self.v = min(self.v, float(a.min()) / max(float(a.max()), 1e-300))

    def done(self):
        for h in self.h:
            h.remove()
        return self.v


D = 1e-6


def noisy_norm(z, v, nz):
    """A layer normalization that is perturbed wherever its computation rounds."""
    c = nz(v - nz(v.mean(-1, keepdim=True)))
    isd = nz(1 / torch.sqrt(nz((c ** 2).mean(-1, keepdim=True)) + z.eps))
    return nz(nz(nz(c * isd) * z.weight) + z.bias)


def noisy_softmax(a, dim, nz):
    e = nz(torch.exp(a - a.detach().amax(dim, keepdim=True)))
    return e / nz(e.sum(dim, keepdim=True))


def run_torch(model, x, gy, dtype, noise=None):
    """noise: parameters, gradients and everything computed on the way are perturbed by this relative amount."""
    m = copy.deepcopy(model).to(dtype)
    m.eval()
    if noise is not None:
        def nz(t):
            return ly.Noise.apply(t, D, noise)
        with torch.no_grad():
            for p in m.parameters():
                p.copy_(nz(p))
        for z in m.modules():
            if isinstance(z, nn.LayerNorm):
                z.forward = (lambda z: lambda v: noisy_norm(z, v, nz))(z)
            elif not list(z.children()):
                z.register_forward_hook(lambda mod, inp, out: nz(out) if torch.is_tensor(out) else None)
        gy = nz(gy.to(dtype))
        if x.is_floating_point():
            x = nz(x.to(dtype))
    k = Kinks(m)
    plain = torch.nn.functional.softmax
    if noise is not None:
        torch.nn.functional.softmax = lambda a, dim: noisy_softmax(a, dim, nz)
    try:
        y = m(x.to(dtype) if x.is_floating_point() else x)
        y = getattr(y, "logits", y)
        y.backward(gy.to(dtype))
    finally:
        torch.nn.functional.softmax = plain
    return y.detach().double().numpy(), {n: p.grad.double().numpy() for n, p in m.named_parameters()}, k.done()


def judge(what, key, got, w64, w32, dev):
    """Allowance: a multiple of the error PyTorch itself makes in single precision and of what
    perturbations of that order change."""
    tol = 64 * ly.amax(w32 - w64) + 128 * ly.EPS["fp32"] * (dev / D + ly.amax(w64))
    return ly.check_close(got, w64, tol, key, what)


def stale(m):
    for l in m.layers:
        node = type("N", (), dict(layer=l, clear=[], out=l.activations_output[0], kind="fp32"))
        if type(l).__name__ not in ("Mixer", "MixerMlp"):
            ly.stale_temporaries(node)


def grads(m):
    return [ly.get(p.grad, "fp32") for p in m.parameters]


def case_loop(ctx, rng, key, d, tm, nm, make_x, to_nn, from_nn, param_map, out_shape, set_x, clear):
    """Forward and backward of both; param_map(list of arrays) -> dict by torch name."""
    cnt = 0
    reps = int(rng.integers(1, 3))
    acc64, acc32, dev = {}, {}, {}
    if rng.random() < 0.6:
        for p in nm.parameters:
            if p.grad is not None:
                ly.put(p.grad, ly.values(rng, p.grad.shape, "fp32"))
    if rng.random() < 0.5:
        nm.clear_gradients()
    else:
        clear(nm)
        nm.clear_parameters_grads()
    for r in range(reps):
        for _ in range(20):
            x = make_x()
            gy = torch.from_numpy(rng.standard_normal(out_shape).astype(np.float32))
            y64, g64, kink = run_torch(tm, x, gy, T)
            if kink > 1e-4:
                break
        else:
            return 0
        y32, g32, _ = run_torch(tm, x, gy, torch.float32)
        ydev, gdev = 0.0, {n: 0.0 for n in g64}
        for _ in range(2):
            yn, gn, _ = run_torch(tm, x, gy, T, rng)
            ydev = max(ydev, ly.amax(yn - y64))
            for n in g64:
                gdev[n] = max(gdev[n], ly.amax(gn[n] - g64[n]))
        if r:
            clear(nm)
        set_x(x)
        nm.forward_async()
        if rng.random() < 0.5:
            nm.forward_async()
        ly.put(nm.activations[-1].grad, to_nn(gy.numpy()))
        nm.backward_async()
        cnt += judge(d, key + ":output", from_nn(ly.get(nm.activations[-1].value, "fp32")), y64, y32, ydev)
        for n in g64:
            acc64[n] = acc64.get(n, 0) + g64[n]
            dev[n] = dev.get(n, 0) + gdev[n]
            acc32[n] = acc32.get(n, 0) + g32[n]
    got = param_map(grads(nm))
    if set(got) != set(acc64):
        raise Violation(key + ":parameters-lost", "gradients of %s instead of %s for %s" % (sorted(got), sorted(acc64), d))
    for n in acc64:
        cnt += judge("%s of %s" % (n, d), key + ":gradient", got[n], acc64[n], acc32[n], dev[n])
    return cnt


def done(ctx, nm, key, d, cnt, **kw):
    ctx.core.wait()
    ctx.core.raise_monitor("torch." + key + ":")
    nm.unregister()
    c = {"elements_compared": cnt, "m:" + key: 1}
    c.update(kw)
    return dict(n=1 + kw.get("exported", 0), count=c, keys=[d], sample=d)


def same_params(tm, want, key, d):
    for n, p in tm.named_parameters():
        a = p.detach().numpy()
        if a.shape != want[n].shape or not np.array_equal(a, want[n]):
            raise Violation(key, "%s of %s: exported %s, expected %s" % (n, d, a.reshape(-1)[:4], want[n].reshape(-1)[:4]))


def gpt2(ctx, rng):
    n = ctx.core.nntile
    from nntile.model.gpt2 import GPT2Config, GPT2Model
    nh, hs = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    emb = nh * hs
    L = int(rng.integers(0, 4)) if rng.random() < 0.3 else int(rng.integers(1, 3))
    if rng.random() < 0.05:
        L = int(rng.integers(10, 14))
    voc, seq, nb = ly.size(rng, 1, 12, 200), ly.size(rng, 1, 9, 9 if L > 3 else 40), int(rng.integers(1, 4))
    inner, maxp = int(rng.integers(1, 14)), seq + int(rng.integers(0, 3))
    act = str(rng.choice(["gelu", "gelutanh", "relu"]))
    eps = float(rng.choice([1e-5, 1e-3]))
    flash, redux = bool(rng.random() < 0.5), bool(rng.random() < 0.25)
    div = lambda k: int(rng.choice([q for q in range(1, k + 1) if k % q == 0]))
    seqt = div(seq) if flash else ly.pick_tile(rng, seq)
    nht = div(nh) if flash else ly.pick_tile(rng, nh)
    embt = ly.pick_tile(rng, emb)
    vet = div(embt)
    nbt, int_ = ly.pick_tile(rng, nb), ly.pick_tile(rng, inner)
    d = "gpt2 layers %d heads %d/%d emb %d/%d/%d vocab %d seq %d/%d of %d batch %d/%d inner %d/%d %s eps %g flash=%s redux=%s" % (
        L, nh, nht, emb, embt, vet, voc, seq, seqt, maxp, nb, nbt, inner, int_, act, eps, flash, redux)
    hc = ctx.tf.GPT2Config(vocab_size=voc, n_embd=emb, n_positions=maxp, n_layer=L, n_head=nh, n_inner=inner, layer_norm_epsilon=eps,
                           activation_function=dict(gelu="gelu", gelutanh="gelu_pytorch_tanh", relu="relu")[act],
                           resid_pdrop=0.0, embd_pdrop=0.0, attn_pdrop=0.0, tie_word_embeddings=True, use_cache=False, bos_token_id=0, eos_token_id=0)
    tm = ctx.tf.GPT2LMHeadModel(hc)
    tm.lm_head.weight = nn.Parameter(tm.lm_head.weight.detach().clone())
    randomize(tm, rng)
    cfg = GPT2Config(voc, vet, emb, embt, maxp, inner, int_, eps, L, nh, nht, act, flashattention=flash, use_redux=redux)
    nm, _ = GPT2Model.from_torch(tm, nb, nbt, seq, seqt, cfg, 0)
    stale(nm)

    def pmap(a):
        r, q = {}, iter(a)
        for name, p in tm.named_parameters():
            if ".c_attn." in name:
                t = [next(q) for _ in range(3)]
                r[name] = (np.concatenate([z.reshape(emb, emb) for z in t]).T if name.endswith("weight") else
                           np.concatenate([z.T.reshape(-1) for z in t]))
            elif ".attn.c_proj.weight" in name:
                r[name] = next(q).reshape(emb, emb).T
            elif "lm_head" in name:
                r[name] = next(q)
            else:
                r[name] = next(q).T
        return r
    W = pmap([ly.get(p.value, "fp32") for p in nm.parameters])
    same_params(tm, W, "gpt2:imported-parameters", d)
    cnt = case_loop(ctx, rng, "gpt2", d, tm, nm, lambda: torch.from_numpy(rng.integers(0, voc, (nb, seq))),
                    lambda g: g.T, lambda y: y.T, pmap, (nb, seq, voc), lambda x: ly.put(nm.activations[0].value, x.numpy().T.astype(np.int64)),
                    lambda m: m.clear_activations_grads())
    exp = 0
    if rng.random() < 0.6:
        t2 = ctx.tf.GPT2LMHeadModel(hc)
        t2.lm_head.weight = nn.Parameter(t2.lm_head.weight.detach().clone())
        randomize(t2, rng)
        if rng.random() < 0.5:
            for p in nm.parameters:
                ly.put(p.value, ly.values(rng, p.value.shape, "fp32"))
        W = pmap([ly.get(p.value, "fp32") for p in nm.parameters])
        nm.to_torch(t2)
        same_params(t2, W, "gpt2:exported-parameters", d)
        exp = 1
        cnt += case_loop(ctx, rng, "gpt2", d + " after export", t2, nm, lambda: torch.from_numpy(rng.integers(0, voc, (nb, seq))),
                         lambda g: g.T, lambda y: y.T, pmap, (nb, seq, voc), lambda x: ly.put(nm.activations[0].value, x.numpy().T.astype(np.int64)),
                         lambda m: m.clear_activations_grads())
    return done(ctx, nm, "gpt2", d, cnt, exported=exp, flash=int(flash))


class Conv1D(nn.Module):
    def __init__(self, nf, nx):
        super().__init__()
        self.weight = nn.Parameter(torch.empty(nx, nf))
        self.bias = nn.Parameter(torch.empty(nf))

    def forward(self, x):
        return x @ self.weight + self.bias


def gpt2mlp(ctx, rng):
    n = ctx.core.nntile
    from nntile.model.gpt2 import GPT2Config, GPT2MLP
    emb, inner, nb, seq = (int(v) for v in rng.integers(1, 10, 4))
    sh = [emb, nb] if rng.random() < 0.5 else [emb, seq, nb]
    ti = ly.tiles(rng, sh)
    int_, act = ly.pick_tile(rng, inner), str(rng.choice(["gelu", "gelutanh", "relu"]))
    embt = ly.pick_tile(rng, emb)
    redux = bool(rng.random() < 0.25)
    d = "gpt2mlp %s/%s inner %d/%d %d %s redux=%s" % (sh, ti, inner, int_, embt, act, redux)
    tm = nn.Sequential(Conv1D(inner, emb), dict(gelu=nn.GELU(), gelutanh=nn.GELU(approximate="tanh"), relu=nn.ReLU())[act], Conv1D(emb, inner))
    randomize(tm, rng)
    x = ly.moments(ctx.core, "fp32", sh, ti)
    cfg = GPT2Config(1, 1, emb, embt, 1, inner, int_, 1e-5, 1, 1, 1, act, use_redux=redux)
    nm, _ = GPT2MLP.from_torch(tm, x, cfg, 0)
    stale(nm)
    pmap = lambda a: {k: v.T for (k, _), v in zip(tm.named_parameters(), a)}
    same_params(tm, pmap([ly.get(p.value, "fp32") for p in nm.parameters]), "gpt2mlp:imported-parameters", d)
    cnt = case_loop(ctx, rng, "gpt2mlp", d, tm, nm, lambda: torch.from_numpy(rng.standard_normal(sh[::-1]).astype(np.float32)),
                    lambda g: g.T, lambda y: y.T, pmap, sh[::-1], lambda v: ly.put(x.value, v.numpy().T), lambda m: m.clear_activations_grads())
    return done(ctx, nm, "gpt2mlp", d, cnt)


def mixer(ctx, rng):
    from nntile.model.mlp_mixer import MlpMixer
    from nntile.torch_models.mlp_mixer import MlpMixer as TM
    ch, pix, emb, nb, L, C = int(rng.integers(1, 6)), int(rng.integers(1, 9)), int(rng.integers(1, 7)), int(rng.integers(1, 5)), ly.size(rng, 1, 3, 12), int(rng.integers(1, 6))
    if rng.random() < 0.3:
        emb = pix
    d = "mixer channels %d pixels %d emb %d layers %d classes %d batch %d" % (ch, pix, emb, L, C, nb)
    tm = TM(ch, pix, emb, L, C)
    randomize(tm, rng)
    nm, _ = MlpMixer.from_torch(tm, nb, C, 0)
    stale(nm)
    first = dict(tm.named_parameters())
    left = lambda k: ".mlp_2." in k or k == next(iter(first))
    pmap = lambda a: {k: (v.T if left(k) else v) for k, v in zip(first, a)}
    same_params(tm, pmap([ly.get(p.value, "fp32") for p in nm.parameters]), "mixer:imported-parameters", d)
    loop = lambda t, d: case_loop(ctx, rng, "mixer", d, t, nm, lambda: torch.from_numpy(rng.standard_normal([ch, nb, pix]).astype(np.float32)),
                                  lambda g: g.T, lambda y: y.T, pmap, [nb, C], lambda v: ly.put(nm.activations[0].value, v.numpy()), lambda m: m.clear_activations_grads())
    cnt = loop(tm, d)
    exp = 0
    if rng.random() < 0.6:
        t2 = TM(ch, pix, emb, L, C)
        if rng.random() < 0.5:
            for p in nm.parameters:
                ly.put(p.value, ly.values(rng, p.value.shape, "fp32", 0.5))
        W = pmap([ly.get(p.value, "fp32") for p in nm.parameters])
        nm.to_torch(t2)
        same_params(t2, W, "mixer:exported-parameters", d)
        cnt += loop(t2, d + " after export")
        exp = 1
    return done(ctx, nm, "mixer", d, cnt, exported=exp, square=int(pix == emb))


class MLP(nn.Module):
    def __init__(self, i, h, L, o, bias):
        super().__init__()
        self.layers = nn.ModuleList([nn.Linear(i, h, bias=bias)] + [nn.Linear(h, h, bias=bias) for _ in range(L - 2)] + [nn.Linear(h, o, bias=bias)])
        self.relu = nn.ReLU()

    def forward(self, x):
        for l in self.layers[:-1]:
            x = self.relu(l(x))
        return self.layers[-1](x)


def deep_relu(ctx, rng):
    from nntile.model.deep_relu import DeepReLU
    i, h, o, nb, L = int(rng.integers(1, 9)), int(rng.integers(1, 8)), int(rng.integers(1, 6)), int(rng.integers(1, 5)), ly.size(rng, 2, 5, 13)
    bias = bool(rng.random() < 0.5)
    tm = MLP(i, h, L, o, bias)
    randomize(tm, rng, 0.7)
    imported = rng.random() < 0.5
    if imported:
        d = "deep_relu in %d hidden %d out %d layers %d batch %d bias=%s" % (i, h, o, L, nb, bias)
        nm, _ = DeepReLU.from_torch(tm, nb, o, "relu", 0)
        side, xs = "R", [i]
    else:
        side = "LR"[int(rng.integers(2))]
        xs = [i] if rng.random() < 0.5 else [int(rng.integers(1, 4)), int(rng.integers(1, 4))]
        tm = MLP(int(np.prod(xs)), h, L, o, bias)
        randomize(tm, rng, 0.7)
        sh = xs + [nb] if side == "R" else [nb] + xs
        ti = ly.tiles(rng, sh)
        ht = ly.pick_tile(rng, h)
        d = "deep_relu %s %s/%s hidden %d/%d out %d layers %d bias=%s" % (side, sh, ti, h, ht, o, L, bias)
        x = ly.make_input(ctx.core, rng, "fp32", sh, ti, ly.gmode(rng))
        nm = DeepReLU(x, side, len(xs), h, ht, L, o, 0, bias=bias)
        for p, t in zip(nm.parameters, tm.parameters()):
            a = t.detach().numpy()
            # host arrays are column-major in NNTile: flattened features are in row-major order in PyTorch
            ly.put(p.value, a if a.ndim == 1 else np.ascontiguousarray(a if side == "R" else a.T).reshape(list(p.value.shape)))
    stale(nm)

    def pmap(a):
        r = {}
        for (k, p), v in zip(tm.named_parameters(), a):
            if v.ndim > 1:
                v = v.reshape(v.shape[0], -1) if side == "R" else np.ascontiguousarray(v).reshape(-1, v.shape[-1]).T
            r[k] = v
        return r
    same_params(tm, pmap([ly.get(p.value, "fp32") for p in nm.parameters]), "deep_relu:imported-parameters", d)
    nf = int(np.prod(xs))

    def set_x(v):
        a = v.numpy()
        b = np.ascontiguousarray(a.T).reshape(xs + [nb]) if side == "R" else a.reshape([nb] + xs)
        ly.put(nm.activations[0].value, b)
    tr = (lambda z: z.T) if side == "R" else (lambda z: z)
    cnt = case_loop(ctx, rng, "deep_relu", d, tm, nm, lambda: torch.from_numpy(rng.standard_normal([nb, nf]).astype(np.float32)),
                    tr, tr, pmap, [nb, o], set_x, lambda m: m.clear_activations_grads())
    return done(ctx, nm, "deep_relu", d, cnt)


def deep_linear(ctx, rng):
    from nntile.model.deep_linear import DeepLinear
    side = "LR"[int(rng.integers(2))]
    h, nb, L = int(rng.integers(1, 8)), int(rng.integers(1, 5)), ly.size(rng, 2, 5, 13)
    xs = [int(rng.integers(1, 9))] if rng.random() < 0.7 else [int(rng.integers(1, 4)), int(rng.integers(1, 4))]
    sh = xs + [nb] if side == "R" else [nb] + xs
    ti = ly.tiles(rng, sh)
    ht = ly.pick_tile(rng, h)
    d = "deep_linear %s %s/%s hidden %d/%d layers %d" % (side, sh, ti, h, ht, L)
    nf = int(np.prod(xs))
    x = ly.make_input(ctx.core, rng, "fp32", sh, ti, ly.gmode(rng))
    # a bias is offered for one output dimension only
    if len(xs) > 1:
        try:
            DeepLinear(x, side, len(xs), h, ht, L, 0)
        except ValueError:
            x.unregister()
            return dict(n=1, count={"rejected": 1}, keys=[d], sample=d)
    nm = DeepLinear(x, side, len(xs), h, ht, L, 0)
    bias = len(nm.parameters) == 2 * L
    tm = nn.Sequential(*[nn.Linear(a, b, bias=bias) for a, b in zip([nf] + [h] * (L - 1), [h] * (L - 1) + [nf])])
    randomize(tm, rng, 0.7)
    for p, t in zip(nm.parameters, tm.parameters()):
        a = t.detach().numpy()
        ly.put(p.value, a if a.ndim == 1 else np.ascontiguousarray(a if side == "R" else a.T).reshape(list(p.value.shape)))
    stale(nm)
    pmap = lambda a: {k: (v if v.ndim == 1 else v.reshape(p.shape) if side == "R" else np.ascontiguousarray(v).reshape(tuple(p.shape)[::-1]).T)
                      for (k, p), v in zip(tm.named_parameters(), a)}
    full = (lambda a: np.ascontiguousarray(a.T).reshape(xs + [nb])) if side == "R" else (lambda a: a.reshape([nb] + xs))
    back = (lambda y: np.ascontiguousarray(y).reshape(nf, nb).T) if side == "R" else (lambda y: np.ascontiguousarray(y).reshape(nb, nf))
    cnt = case_loop(ctx, rng, "deep_linear", d, tm, nm, lambda: torch.from_numpy(rng.standard_normal([nb, nf]).astype(np.float32)),
                    full, back, pmap, [nb, nf], lambda v: ly.put(nm.activations[0].value, full(v.numpy())), lambda m: m.clear_activations_grads())
    return done(ctx, nm, "deep_linear", d, cnt)
