"""Forward pass of single layers against PyTorch definitions."""
from _ops import *
import layers as ly
RULE = ("random layer (activation, linear, add, add_slice, layer_norm, embedding, average pooling, mixer MLP, mixer, attention, fused attention), "
        "random options, shapes, tilings, parameter values, precision; stale NaN in output and temporaries; forward executed 1-2 times with "
        "changed inputs and compared with the PyTorch definition in double precision (tolerance: measured sensitivity times rounding unit); "
        "inputs and parameters must keep their bits. distinct: layer descriptions with more than one tile")
ASSUME = ["PyTorch's double precision functions are the reference definitions",
          "the mixed dimension of a MixerMlp has to be a single tile (its last linear layer creates it that way)"]
REQUIRE = {"evaluations": 600, "distinct": 300, "elements_compared": 20000, "layer:linear": 40, "layer:attention": 20, "layer:flash_attention": 20,
           "layer:layer_norm": 20, "layer:mixer": 20, "layer:embedding": 20, "layer:gap": 20, "redux": 40}


def jobs(tier):
    return op_jobs(tier, 320, 5000, group="layers")


def setup(job, cfg):
    return op_setup(job, cfg, package=True)


def kind_of(rng):
    return "fp64" if rng.random() < 0.6 else "fp32"


def big(node):
    m = node.out.value
    return tuple(m.shape) != tuple(m.basetile_shape)


def fill_params(node, rng):
    """Random parameters with random prior gradients."""
    D = []
    for p in node.params:
        a = ly.values(rng, p.value.shape, node.kind, rng.choice([0.3, 1.0]))
        ly.put(p.value, a)
        D.append(a)
    return D


def fill_inputs(node, rng):
    D, seen = [], {}
    for x in node.ins:
        if id(x) not in seen:
            a = ly.values(rng, x.value.shape, node.kind, float(rng.choice([0.1, 1.0, 5.0])))
            if node.name in ("relu", "gelu", "gelutanh"):
                # a few large magnitudes, no exact zeros
                a = np.asfortranarray(a * np.where(rng.random(a.shape) < 0.2, 20, 1).astype(a.dtype))
            ly.put(x.value, a)
            seen[id(x)] = a
        D.append(seen[id(x)])
    return D


def case(ctx, rng, i):
    core = ctx.core
    name = ly.LAYERS[(i + ctx.job["shard"] * 5) % len(ly.LAYERS)]
    note(ctx, "layer." + name)
    kind = kind_of(rng)
    redux = bool(rng.random() < 0.3)
    node = ly.make(core, rng, name, kind, redux)
    P = fill_params(node, rng)
    ly.stale_temporaries(node)
    ly.nan_fill(node.out.value, kind)
    n = 0
    for rep in range(int(rng.integers(1, 3))):
        I = fill_inputs(node, rng)
        if hasattr(node, "index") and rep:
            pass
        node.layer.forward_async()
        if rng.random() < 0.5:
            core.wait()
        got = ly.get(node.out.value, kind)
        y, _, _, ty, _, _ = ly.reference_tol(rng, node.f, I, P, None, kind)
        n += ly.check_close(got, y, ty, "%s:forward" % name, node.desc + " " + kind)
        for x, a in zip(node.ins, I):
            ly.check_same(ly.get(x.value, kind), a, name + ":input-changed", node.desc)
        for p, a in zip(node.params, P):
            ly.check_same(ly.get(p.value, kind), a, name + ":parameter-changed", node.desc)
        if rng.random() < 0.5:
            P = fill_params(node, rng)
    core.wait()
    core.raise_monitor("layer." + name + ":")
    d = node.desc
    b = big(node)
    ly.free(node)
    return dict(n=rep + 1, count={"elements_compared": n, "layer:" + name: 1, "redux": int(redux), kind: 1}, keys=[d] if b else [], sample=d)
