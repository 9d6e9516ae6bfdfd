"""Backward pass of single layers against automatic differentiation."""
from _ops import *
import layers as ly
from p21 import fill_params, fill_inputs, kind_of, big
RULE = ("random layer as in P21; inputs with a wanted gradient, without a gradient tensor, or with one that is not wanted; parameters frozen at random; "
        "shared inputs (one tensor used as several inputs); gradients hold random prior contents; 1-3 forward/backward rounds that keep accumulating. "
        "Every wanted gradient must equal prior plus autograd gradient; every other gradient, the inputs, parameters and the output gradient keep their bits. "
        "distinct: layer descriptions")
ASSUME = ["PyTorch's autograd in double precision is the exact derivative", "gradients of a mixer's internal tensors are cleared by the caller (clear_gradients)"]
REQUIRE = {"evaluations": 600, "distinct": 400, "elements_compared": 20000, "unwanted_checked": 80, "frozen_checked": 60, "accumulated_rounds": 100,
           "layer:linear": 40, "layer:attention": 20, "layer:flash_attention": 20, "layer:layer_norm": 20, "layer:mixer": 20}


def jobs(tier):
    return op_jobs(tier, 240, 5000, group="layers")


def setup(job, cfg):
    return op_setup(job, cfg, package=True)


def case(ctx, rng, i):
    core = ctx.core
    name = ly.LAYERS[(i + ctx.job["shard"] * 5) % len(ly.LAYERS)]
    note(ctx, "layer." + name)
    kind = kind_of(rng)
    redux = bool(rng.random() < 0.3)
    node = ly.make(core, rng, name, kind, redux)
    P = fill_params(node, rng)
    ly.stale_temporaries(node)
    frozen = []
    for p in node.params:
        if rng.random() < 0.2:
            p.grad_required = False
            frozen.append(p)
    # prior contents of all gradients
    G = {}
    uins = list({id(x): x for x in node.ins}.values())
    for m in uins + list(node.params):
        if m.grad is not None:
            G[id(m)] = ly.values(rng, m.grad.shape, kind)
            ly.put(m.grad, G[id(m)])
    acc = {k: np.asarray(g, np.float64) for k, g in G.items()}
    tol = {k: 0.0 for k in G}
    n = unw = fr = 0
    rounds = int(rng.integers(1, 4))
    for r in range(rounds):
        if r and rng.random() < 0.5:
            P = fill_params(node, rng)
        I = fill_inputs(node, rng)
        ly.nan_fill(node.out.value, kind) if r == 0 else None
        gy = ly.values(rng, node.out.value.shape, kind)
        ly.clear_temporaries(core, node)
        ly.put(node.out.grad, gy)
        if rng.random() < 0.3:
            # another evaluation in between must not matter
            node.layer.forward_async()
        node.layer.forward_async()
        if rng.random() < 0.5:
            core.wait()
        node.layer.backward_async()
        y, gi, gp, ty, ti, tp = ly.reference_tol(rng, node.f, I, P, gy, kind)
        for x, a in zip(node.ins, I):
            if x.grad is not None and x.grad_required and id(a) in gi and gi[id(a)] is not None:
                acc[id(x)] = acc[id(x)] + gi.pop(id(a))
                tol[id(x)] += ti[id(a)]
        for j, p in enumerate(node.params):
            if p.grad_required:
                acc[id(p)] = acc[id(p)] + gp[j]
                tol[id(p)] += tp[j]
        for x, a in zip(node.ins, I):
            ly.check_same(ly.get(x.value, kind), a, name + ":input-changed", node.desc)
        for p, a in zip(node.params, P):
            ly.check_same(ly.get(p.value, kind), a, name + ":parameter-changed", node.desc)
        ly.check_same(ly.get(node.out.grad, kind), gy, name + ":output-gradient-changed", node.desc)
    what = "%s %s after %d rounds" % (node.desc, kind, rounds)
    for j, m in enumerate(uins + list(node.params)):
        if m.grad is None:
            unw += 1
            continue
        g = ly.get(m.grad, kind)
        w = "input" if j < len(uins) else "parameter"
        if m.grad_required:
            n += ly.check_close(g, acc[id(m)], tol[id(m)] + EPSK[kind] * 64 * (ly.amax(acc[id(m)]) + ly.amax(G[id(m)])) * rounds, "%s:%s-gradient" % (name, w),
                                "%s %d of %s" % (w, j if j < len(uins) else j - len(uins), what))
        else:
            ly.check_same(g, G[id(m)], "%s:unwanted-%s-gradient-touched" % (name, w), what)
            unw += j < len(uins)
            fr += j >= len(uins)
    if hasattr(node.layer, "clear_gradients"):
        unw += check_cleared(core, rng, node.layer.clear_gradients, node.layer.activations_input + node.layer.activations_output +
                             node.layer.parameters + [t for t in node.layer.temporaries if t is not None and not ly.is_tensor(t)], kind, name + ":clear_gradients", node.desc)
    core.wait()
    core.raise_monitor("layer." + name + ":")
    d = "%s req=%s" % (node.desc, [m.grad_required for m in uins + list(node.params)])
    ly.free(node)
    return dict(n=rounds, count={"elements_compared": n, "layer:" + name: 1, "redux": int(redux), "unwanted_checked": unw, "frozen_checked": fr,
                                 "accumulated_rounds": rounds - 1, kind: 1}, keys=[d], sample=d)


def check_cleared(core, rng, f, ms, kind, key, desc):
    """Wanted gradients become zero, everything else keeps its bits."""
    ms = list({id(m): m for m in ms}.values())
    V, G = [], []
    for m in ms:
        V.append(ly.values(rng, m.value.shape, kind))
        G.append(ly.values(rng, m.value.shape, kind))
        ly.put(m.value, V[-1])
        if m.grad is not None:
            if rng.random() < 0.2:
                G[-1] = G[-1] * np.nan
            ly.put(m.grad, G[-1])
    f()
    n = 0
    for j, (m, v, g) in enumerate(zip(ms, V, G)):
        ly.check_same(ly.get(m.value, kind), v, key + ":value-changed", "value %d of %s" % (j, desc))
        if m.grad is None:
            continue
        h = ly.get(m.grad, kind)
        n += 1
        if m.grad_required:
            ly.check_close(h, 0.0, 0.0, key + ":not-cleared", "gradient %d of %s" % (j, desc))
        else:
            ly.check_same(h, g, key + ":unwanted-gradient-touched", "gradient %d of %s" % (j, desc))
    return n


EPSK = ly.EPS
