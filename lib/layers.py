"""Layers of the Python package with reference definitions in PyTorch (double precision, autograd).

A Node is one layer in a small graph: inputs, parameters, options, the real layer object and a
function giving the same forward value with torch tensors.  Gradients come from autograd."""
import numpy as np
import torch
from core import NP, EPS, Violation, bits

torch.set_num_threads(1)
T64 = torch.float64


def pick_tile(rng, n):
    r = rng.random()
    if r < 0.25:
        return n
    if r < 0.35:
        return 1
    return int(rng.integers(1, n + 1))


def dims(rng, k, lo=1, hi=7):
    r = [int(rng.integers(lo, hi)) for _ in range(k)]
    if k and rng.random() < 0.07:
        # rarely one long dimension, the others short
        r = [min(v, 3) for v in r]
        r[int(rng.integers(k))] = int(rng.integers(8, 41))
    return r


def size(rng, lo, hi, top):
    """Usually below hi, rarely up to top."""
    return int(rng.integers(hi, top + 1)) if rng.random() < 0.07 else int(rng.integers(lo, hi))


def tiles(rng, shape):
    return [pick_tile(rng, s) for s in shape]


def values(rng, shape, kind, scale=1.0):
    a = rng.standard_normal(shape) * scale
    return np.asfortranarray(a.astype(NP[kind]))


def put(t, a):
    a = np.asarray(a)
    t.from_array(np.asfortranarray(a.reshape(1) if a.ndim == 0 else a))


def get(t, kind):
    sh = list(t.shape)
    o = np.zeros(sh if sh else [1], dtype=NP[kind], order="F")
    t.to_array(o)
    return o.reshape(sh)


def raw(core, kind, shape, tile):
    return core.tensor(kind, shape, tile).x


def moments(core, kind, shape, tile, grad=True, req=True):
    n = core.nntile
    v = raw(core, kind, shape, tile)
    g = raw(core, kind, shape, tile) if grad else None
    return n.tensor.TensorMoments(v, g, req)


def nan_fill(t, kind):
    put(t, np.full(list(t.shape), np.nan, dtype=NP[kind]))


def is_tensor(x):
    return hasattr(x, "from_array")


# -- reference functions ------------------------------------------------------------------------
NOISE = None    # while measuring sensitivity: (relative size, generator)


class Noise(torch.autograd.Function):
    """Forward and backward values are rounded on their own, so they are perturbed on their own."""
    @staticmethod
    def forward(ctx, t, d, rng):
        ctx.k = d, rng
        return t * torch.from_numpy(1 + d * rng.choice([-1.0, 1.0], tuple(t.shape)))

    @staticmethod
    def backward(ctx, g):
        d, rng = ctx.k
        return g * torch.from_numpy(1 + d * rng.choice([-1.0, 1.0], tuple(g.shape))), None, None


def nz(t):
    """A point where the computation rounds: perturbed while the sensitivity is being measured."""
    if NOISE is None:
        return t
    return Noise.apply(t, *NOISE)


KINKS = None    # while looking for them: [threshold, smallest value met at a kink]


def relu(v):
    if KINKS is not None:
        a = v.detach().abs()
        a = a[a > 0]
        if a.numel():
            KINKS[1] = min(KINKS[1], float(a.min()) / max(1e-300, float(a.max())))
    return torch.relu(v)


def gelu(v):
    return 0.5 * v * (1 + nz(torch.erf(v * 0.5 ** 0.5)))


def gelutanh(v):
    return 0.5 * v * (1 + nz(torch.tanh((2 / np.pi) ** 0.5 * (v + 0.044715 * v ** 3))))


def ref_linear(side, trans_x, nd, x, w, b):
    if side == "L":
        y = torch.tensordot(x, w, (list(range(x.ndim - nd, x.ndim)) if not trans_x else list(range(nd)), list(range(nd))))
        return nz(y) + b if b is not None else y
    wa = list(range(w.ndim - nd, w.ndim))
    y = torch.tensordot(w, x, (wa, list(range(nd)) if not trans_x else list(range(x.ndim - nd, x.ndim))))
    if b is not None:
        y = nz(y) + b.reshape([-1] + [1] * (y.ndim - 1))
    return y


def ref_ln(x, gamma, beta, axis, eps):
    mu = nz(x.mean(axis, keepdim=True))
    c = nz(x - mu)
    isd = nz(1 / torch.sqrt(nz((c ** 2).mean(axis, keepdim=True)) + eps))
    sh = [1] * x.ndim
    sh[axis] = -1
    return nz(nz(c * isd) * gamma.reshape(sh)) + beta.reshape(sh)


def softmax(a):
    """Over axis 1, as the real computation rounds: the sum on its own."""
    e = nz(torch.exp(a - a.detach().amax(1, keepdim=True)))
    return e / nz(e.sum(1, keepdim=True))


def ref_attention(xq, xk, xv, wq, wk, wv, w, bq, bk, bv, bo, mask):
    """x: (emb, seq, batch), w_*: (head, size, emb), w: (emb, head, size), biases: (size, head)."""
    q = torch.einsum("hse,enb->hsnb", wq, xq)
    k = torch.einsum("hse,enb->hsnb", wk, xk)
    v = torch.einsum("hse,enb->hsnb", wv, xv)
    if bq is not None:
        q = q + bq.T[:, :, None, None]
        k = k + bk.T[:, :, None, None]
        v = v + bv.T[:, :, None, None]
    a = nz(torch.einsum("hskb,hsqb->hkqb", nz(k), nz(q))) / wq.shape[1] ** 0.5
    if mask is not None:
        a = a.masked_fill(~mask[None, :, :, None], float("-inf"))
    a = nz(softmax(a))
    o = nz(torch.einsum("hskb,hkqb->hsqb", nz(v), a))
    y = torch.einsum("ehs,hsqb->eqb", w, o)
    if bo is not None:
        y = y + bo[:, None, None]
    return y


def ref_gap(x):
    return x.mean(0).permute(*range(x.ndim - 2, -1, -1))


def ref_mixer_mlp(side, x, w1, w2):
    h = gelu(ref_linear(side, False, 1, x, w1, None))
    return ref_linear(side, False, 1, h, w2, None)


def ref_mixer(x, p):
    g1, b1, w1, w2, g2, b2, w3, w4 = p
    a = ref_mixer_mlp("R", ref_ln(x, g1, b1, 2, 1e-5), w1, w2) + x
    return ref_mixer_mlp("L", ref_ln(a, g2, b2, 2, 1e-5), w3, w4) + a


class Node:
    """layer: the object under test; f(inputs, params) -> torch value of the output."""
    def __init__(self, name, layer, ins, f, kind, desc, clear=()):
        self.name, self.layer, self.ins, self.f, self.kind, self.desc = name, layer, ins, f, kind, desc
        self.params = layer.parameters
        self.out = layer.activations_output[0]
        self.clear = list(clear)   # temporaries whose gradient the user clears


def ok_mask(rng, n):
    r = rng.random()
    if r < 0.4:
        return np.triu(np.ones((n, n), dtype=bool))
    m = rng.random((n, n)) < rng.uniform(0.2, 0.9)
    m[rng.integers(0, n, n), np.arange(n)] = True
    return m


LAYERS = ["relu", "gelu", "gelutanh", "linear", "linear", "linear", "add", "add_slice", "layer_norm", "embedding", "gap",
          "mixer_mlp", "mixer", "attention", "flash_attention"]


def make_input(core, rng, kind, shape, tile, gmode):
    """gmode: 'yes' gradient wanted; 'none' no gradient tensor; 'off' tensor present but not wanted."""
    return moments(core, kind, shape, tile, gmode != "none", gmode == "yes")


def gmode(rng, p=0.6):
    r = rng.random()
    return "yes" if r < p else "none" if r < (1 + p) / 2 else "off"


def make(core, rng, name, kind, redux=False, given=None, force_grad=None):
    """Build one layer with fresh inputs (or the given TensorMoments) and random options."""
    n = core.nntile
    L = n.layer
    gm = (lambda: force_grad) if force_grad else (lambda: gmode(rng))
    inp = lambda sh, ti: make_input(core, rng, kind, sh, ti, gm())
    shape_of = lambda m: (list(m.value.shape), list(m.value.basetile_shape))
    if name in ("relu", "gelu", "gelutanh"):
        if given:
            x = given[0]
        else:
            sh = dims(rng, int(rng.integers(1, 5)))
            x = inp(sh, tiles(rng, sh))
        lay, _ = L.Act.generate_simple(x, name, 0)
        f = dict(relu=relu, gelu=gelu, gelutanh=gelutanh)[name]
        return Node(name, lay, [x], lambda i, p: f(i[0]), kind, "%s%s" % (name, shape_of(x)))
    if name == "linear":
        side = "LR"[int(rng.integers(2))]
        tr = bool(rng.integers(2))
        if given:
            x = given[0]
            nd = int(rng.integers(1, len(x.value.shape)))
        else:
            nd = int(rng.integers(1, 3))
            sh = dims(rng, nd + int(rng.integers(1, 3)))
            x = inp(sh, tiles(rng, sh))
        out = dims(rng, 1 if rng.random() < 0.7 else 2)
        bias = len(out) == 1 and rng.random() < 0.6
        ot = tiles(rng, out)
        lay, _ = L.Linear.generate_simple(x, side, n.trans if tr else n.notrans, nd, out, ot, 0, bias=bool(bias), redux=redux)
        f = lambda i, p: ref_linear(side, tr, nd, i[0], p[0], p[1] if bias else None)
        return Node("linear", lay, [x], f, kind, "linear %s trans=%s nd=%d %s out %s/%s bias=%s redux=%s" % (
            side, tr, nd, shape_of(x), out, ot, bool(bias), redux))
    if name == "add":
        if given:
            x, y = given
        else:
            sh = dims(rng, int(rng.integers(1, 4)))
            ti = tiles(rng, sh)
            x = inp(sh, ti)
            y = x if rng.random() < 0.15 else inp(sh, ti)
        lay, _ = L.Add.generate_simple(x, y, 0) if hasattr(L, "Add") else __import__("nntile.layer.add", fromlist=["Add"]).Add.generate_simple(x, y, 0)
        return Node("add", lay, [x, y], lambda i, p: i[0] + i[1], kind, "add %s same=%s" % (shape_of(x), x is y))
    if name == "add_slice":
        if given:
            x = given[0]
            sh, ti = shape_of(x)
        else:
            sh = dims(rng, int(rng.integers(2, 5)))
            ti = tiles(rng, sh)
            x = inp(sh, ti)
        ax = int(rng.integers(len(sh)))
        y = inp(sh[:ax] + sh[ax + 1:], ti[:ax] + ti[ax + 1:])
        lay, _ = L.AddSlice.generate_simple(x, y, ax, 0, redux=redux)
        return Node("add_slice", lay, [x, y], lambda i, p: i[0] + i[1].unsqueeze(ax), kind, "add_slice axis %d %s redux=%s" % (ax, shape_of(x), redux))
    if name == "layer_norm":
        if given:
            x = given[0]
            sh = list(x.value.shape)
        else:
            sh = dims(rng, int(rng.integers(2, 5)))
            x = inp(sh, tiles(rng, sh))
        ax = int(rng.integers(len(sh)))
        eps = float(rng.choice([1e-5, 1e-3, 0.1, 1.0]))
        lay, _ = L.LayerNorm.generate_simple(x, ax, eps, 0, redux=redux)
        return Node("layer_norm", lay, [x], lambda i, p: ref_ln(i[0], p[0], p[1], ax, eps), kind, "layer_norm axis %d eps %g %s redux=%s" % (
            ax, eps, shape_of(x), redux))
    if name == "embedding":
        sh = dims(rng, int(rng.integers(1, 3)))
        ti = tiles(rng, sh)
        voc, emb = size(rng, 1, 9, 60), size(rng, 1, 9, 30)
        wt = pick_tile(rng, emb)
        yt = wt * int(rng.integers(1, max(1, emb // wt) + 1))
        ax = int(rng.integers(len(sh) + 1))
        x = raw(core, "int64", sh, ti)
        idx = rng.integers(0, voc, sh)
        put(x, idx.astype(np.int64))
        lay, _ = L.Embedding.generate_simple(x, getattr(n.tensor, "Tensor_" + kind), ax, voc, emb, yt, wt, 0)
        ti_ = torch.from_numpy(np.ascontiguousarray(idx))
        f = lambda i, p: torch.movedim(p[0].T[ti_], -1, ax)
        nd = Node("embedding", lay, [], f, kind, "embedding axis %d idx %s/%s vocab %d emb %d tiles %d %d" % (ax, sh, ti, voc, emb, yt, wt))
        nd.index = (x, idx.astype(np.int64))
        return nd
    if name == "gap":
        if given:
            x = given[0]
        else:
            sh = dims(rng, 3)
            x = inp(sh, tiles(rng, sh))
        lay, _ = __import__("nntile.layer.mixer", fromlist=["GAP"]).GAP.generate_simple(x, 0)
        return Node("gap", lay, [x], lambda i, p: ref_gap(i[0]), kind, "gap %s" % (shape_of(x),))
    if name == "mixer_mlp":
        side = "LR"[int(rng.integers(2))]
        if given:
            x = given[0]
        else:
            sh = dims(rng, int(rng.integers(2, 4)), 1, 6)
            ti = tiles(rng, sh)
            # the mixed dimension has to be one tile: the last linear layer creates it that way
            ti[0 if side == "R" else -1] = sh[0 if side == "R" else -1]
            x = inp(sh, ti)
        lay, _ = __import__("nntile.layer.mixer", fromlist=["GAP"]).MixerMlp.generate_simple(x, side, 0)
        return Node("mixer_mlp", lay, [x], lambda i, p: ref_mixer_mlp(side, i[0], p[0], p[1]), kind, "mixer_mlp %s %s" % (side, shape_of(x)),
                    clear=[t for t in lay.temporaries if t is not lay.y])
    if name == "mixer":
        if given:
            x = given[0]
        else:
            sh = dims(rng, 3, 1, 6)
            ti = tiles(rng, sh)
            ti[0], ti[2] = sh[0], sh[2]
            x = inp(sh, ti)
        lay, _ = L.Mixer.generate_simple(x, 0) if hasattr(L, "Mixer") else __import__("nntile.layer.mixer", fromlist=["GAP"]).Mixer.generate_simple(x, 0)
        return Node("mixer", lay, [x], lambda i, p: ref_mixer(i[0], p), kind, "mixer %s" % (shape_of(x),),
                    clear=[t for t in lay.temporaries if t is not lay.y])
    if name in ("attention", "flash_attention"):
        nh, hs = size(rng, 1, 5, 9), size(rng, 1, 4, 16)
        if given:
            x = given[0]
            emb, seq, nb = x.value.shape
            nh = int(rng.choice([h for h in range(1, emb + 1) if emb % h == 0]))
            q, k, v = given if len(given) == 3 else (x, x, x)
        else:
            emb = nh * hs
            seq, nb = size(rng, 1, 7, 20), size(rng, 1, 5, 12)
            t = tiles(rng, [emb, seq, nb])
            if name == "flash_attention":
                # the fused operations take sequences of whole tiles only
                t[1] = int(rng.choice([d for d in range(1, seq + 1) if seq % d == 0]))
            q = inp([emb, seq, nb], t)
            if rng.random() < 0.4:
                k = v = q
            else:
                ek, ev = size(rng, 1, 6, 20), size(rng, 1, 6, 20)
                k = inp([ek, seq, nb], [pick_tile(rng, ek)] + t[1:])
                v = k if rng.random() < 0.3 else inp([ev, seq, nb], [pick_tile(rng, ev)] + t[1:])
        bias = bool(rng.random() < 0.6)
        hasm = bool(rng.random() < 0.6) or name == "flash_attention"
        mask = ok_mask(rng, seq) if hasm else None
        mt = None
        if hasm:
            mt = raw(core, "bool", [seq, seq], [q.value.basetile_shape[1]] * 2)
            put(mt, mask)
        A = L.Attention if name == "attention" else L.FlashAttention
        ht = pick_tile(rng, nh)
        if name == "flash_attention":
            ht = int(rng.choice([d for d in range(1, nh + 1) if nh % d == 0]))
        lay, _ = A.generate_simple(q, k, v, nh, ht, 0, bias, mt, redux=redux)
        tm = torch.from_numpy(np.ascontiguousarray(mask)) if hasm else None

        def f(i, p):
            if bias:
                wq, wk, wv, bq, bk, bv, w, bo = p
            else:
                wq, wk, wv, w = p
                bq = bk = bv = bo = None
            return ref_attention(i[0], i[1], i[2], wq, wk, wv, w, bq, bk, bv, bo, tm)
        nd = Node(name, lay, [q, k, v], f, kind, "%s q%s k%s v%s heads %d/%d bias=%s mask=%s redux=%s shared=%d" % (
            name, shape_of(q), shape_of(k), shape_of(v), nh, ht, bias, hasm, redux, len({id(q), id(k), id(v)})))
        nd.mask = mt
        return nd
    raise ValueError(name)


# -- judging ------------------------------------------------------------------------------------
def reference(f, ins, params, gy, reqs):
    """Value and gradients at (ins, params); reqs: tensors (by position) whose gradient is wanted."""
    I = {}
    ti = []
    for a in ins:
        if id(a) not in I:
            I[id(a)] = torch.tensor(np.ascontiguousarray(a), dtype=T64, requires_grad=True)
        ti.append(I[id(a)])
    tp = [torch.tensor(np.ascontiguousarray(a), dtype=T64, requires_grad=True) for a in params]
    y = f(ti, tp)
    uniq = list(I.values()) + tp
    g = torch.autograd.grad(y, uniq, torch.tensor(np.array(gy), dtype=T64), allow_unused=True) if gy is not None else [None] * len(uniq)
    gd = {k: (None if z is None else z.numpy()) for k, z in zip(I, g)}
    return y.detach().numpy(), gd, [None if z is None else z.numpy() for z in g[len(I):]]


def amax(a):
    return float(np.max(np.abs(a))) if np.size(a) else 0.0


def reference_tol(rng, f, ins, params, gy, kind):
    """Reference plus error allowances measured by perturbing the data: rounding errors of the
    computation are equivalent to relative perturbations of that order of inputs and intermediates."""
    y, gi, gp = reference(f, ins, params, gy, None)
    d = 1e-6
    ky, ki, kp = 0.0, {k: 0.0 for k in gi}, [0.0] * len(gp)
    for _ in range(3):
        m = {}
        for a in list(ins) + list(params):
            if id(a) not in m:
                m[id(a)] = np.asarray(a, np.float64) * (1 + d * rng.choice([-1.0, 1.0], np.shape(a)))
        g2 = None if gy is None else np.asarray(gy, np.float64) * (1 + d * rng.choice([-1.0, 1.0], np.shape(gy)))
        i2 = [m[id(a)] for a in ins]
        global NOISE
        NOISE = (d, rng)
        try:
            y2, gi2, gp2 = reference(f, i2, [m[id(a)] for a in params], g2, None)
        finally:
            NOISE = None
        ky = max(ky, amax(y2 - y) / d)
        for a, b in zip(ins, i2):
            if gi[id(a)] is not None:
                ki[id(a)] = max(ki[id(a)], amax(gi2[id(b)] - gi[id(a)]) / d)
        for j in range(len(gp)):
            if gp[j] is not None:
                kp[j] = max(kp[j], amax(gp2[j] - gp[j]) / d)
    # sums get longer with the extents
    e = EPS[kind] * 128 * max(1.0, max([v for a in list(ins) + list(params) for v in np.shape(a)] + [1]) / 8)
    ty = e * (ky + amax(y))
    ti = {k: e * (ki[k] + (amax(gi[k]) if gi[k] is not None else 0)) for k in gi}
    tp = [e * (kp[j] + (amax(gp[j]) if gp[j] is not None else 0)) for j in range(len(gp))]
    return y, gi, gp, ty, ti, tp


def check_close(got, want, tol, key, what):
    got = np.asarray(got, np.float64)
    want = np.broadcast_to(np.asarray(want, np.float64), got.shape)
    with np.errstate(all="ignore"):
        ok = np.abs(got - want) <= tol + 1e-37
    if not ok.all():
        j = np.unravel_index(int(np.argmin(ok)), ok.shape) if ok.ndim else ()
        raise Violation(key, "%s: element %s is %r, expected %r (tolerance %.3g; %d of %d elements off)" % (
            what, tuple(int(v) for v in j), float(got[j]), float(want[j]), tol, int((~ok).sum()), ok.size))
    return int(ok.size)


def check_same(got, want, key, what):
    if bits(got) != bits(want):
        raise Violation(key, "%s changed: %s -> %s" % (what, np.asarray(want).reshape(-1)[:6], np.asarray(got).reshape(-1)[:6]))


def stale_temporaries(node):
    """Everything a layer overwrites may hold anything."""
    for t in node.layer.temporaries:
        if t is None or any(t is c for c in node.clear) or t is node.out:
            continue
        for z in ([t] if is_tensor(t) else [t.value, t.grad]):
            if z is not None:
                nan_fill(z, node.kind)


def clear_temporaries(core, node):
    for t in node.clear:
        if t.grad is not None:
            core.nntile.tensor.clear_async(t.grad)


def free(node, extra=()):
    node.layer.unregister()
    for m in list(node.ins) + [node.out] + list(extra):
        m.unregister()
    if getattr(node, "mask", None) is not None:
        node.mask.unregister()
    if hasattr(node, "index"):
        node.index[0].unregister()
