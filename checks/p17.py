from _ops import *
import validate
import layers as ly
from catalog import CAT
RULE = ("for every catalogued operation, a valid random call is broken in exactly one way (size of one dimension of one "
        "operand, tile of one dimension, one dimension more or fewer, axis / batch / dimension count out of range, an "
        "untiled dimension tiled); the call must raise, leave every operand bit-identical and submit no task (counted "
        "at the task-submission boundary); the valid call itself must be accepted. distinct: (operation, kind of "
        "violation, form). Layers and models of the Python package constructed with one broken argument (side, number of "
        "dimensions, layers or heads, unknown activation, operands of attention with other sizes or tiles, tile of an "
        "embedding, bias with several dimensions): must raise, submit nothing and leave the inputs usable and unchanged")
ASSUME = ["the compatibility conditions are those stated by the operation documentation: equal sizes and tiles of matching dimensions"]
NAMES = list(CAT)
CAP = 30             # broken variants per valid call
REQUIRE = {"evaluations": 8000, "distinct": 250, "rejected": 8000, "accepted_valid": 100, "constructors": 300, "broken_constructors": 20}


def jobs(tier):
    return op_jobs(tier, len(NAMES) * 4, len(NAMES) * 60) + op_jobs(tier, 80, 2000, group="layers", shards=4)


def setup(job, cfg):
    c = op_setup(job, cfg)
    c.seen = set()
    return c


def case(ctx, rng, i):
    if ctx.job["group"] == "layers":
        return constructor(ctx, rng)
    return run(ctx, rng, i, False)


def constructor(ctx, rng):
    """A layer or model constructed twice: with one broken argument, then correctly with the same inputs."""
    core = ctx.core
    n = core.nntile
    kind = str(rng.choice(["fp32", "fp64"]))
    pick = lambda *a: a[int(rng.integers(len(a)))]

    def mk(sh, ti=None):
        m = ly.make_input(core, rng, kind, sh, ti or ly.tiles(rng, sh), ly.gmode(rng))
        ly.put(m.value, rng.standard_normal(sh).astype(ly.NP[kind]))
        return m
    other = lambda v, lo=1: pick(*[x for x in range(lo, v + 3) if x != v])
    C = n.nntile_core
    side = pick("L", "R")
    bad_side = pick("l", "r", "", "LR", "T", " ", "B", "Z", "A")
    good, bad, ins = None, [], []
    what = pick("linear", "act", "attention", "flash_attention", "embedding", "mixer_mlp", "deep_relu", "deep_linear", "mlp_mixer")
    if what == "linear":
        x = mk(ly.dims(rng, int(rng.integers(2, 4)), 2, 6))
        ins = [x]
        L = n.layer.Linear
        tr = pick(C.notrans, C.trans)
        good = lambda: L.generate_simple(x, side, tr, 1, [3], [2], 0, bias=False)
        nb = pick(True, False)
        bad = [("bias", lambda: L.generate_simple(x, side, tr, 1, [3, 2], [2, 2], 0, bias=True)),
               ("side", lambda: L.generate_simple(x, bad_side, tr, 1, [3], [2], 0, bias=nb)),
               ("ndim", lambda: L(side, tr, x, x, x, pick(0, -1, -2), None)),
               ("side2", lambda: L(bad_side, tr, x, x, x, 1, None))]
    elif what == "act":
        x = mk(ly.dims(rng, int(rng.integers(1, 4))))
        ins = [x]
        good = lambda: n.layer.Act.generate_simple(x, "relu", 0)
        bad = [("name", lambda: n.layer.Act.generate_simple(x, pick("", "ReLU", "selu", "tanh", "gelu2", "sigmoid"), 0))]
    elif what in ("attention", "flash_attention"):
        A = n.layer.Attention if what == "attention" else n.layer.FlashAttention
        h = int(rng.integers(2, 4))
        e, s, b = h * int(rng.integers(1, 4)), int(rng.integers(2, 6)), int(rng.integers(2, 5))
        te, tb = ly.pick_tile(rng, e), ly.pick_tile(rng, b)
        ts = s if what != "attention" else ly.pick_tile(rng, s)
        q, k, v = [mk([e, s, b], [te, ts, tb]) for _ in range(3)]
        s2, b2 = other(s), other(b)
        ks, kb = mk([e, s2, b], [te, min(ts, s2), tb]), mk([e, s, b2], [te, ts, min(tb, b2)])
        kt = mk([e, s, b], [te, ts, b if tb < b else b - 1])
        ins = [q, k, v, ks, kb, kt]
        good = lambda: A.generate_simple(q, k, v, h, 1, 0)
        bad = [("k.seq", lambda: A.generate_simple(q, ks, v, h, 1, 0)), ("v.seq", lambda: A.generate_simple(q, k, ks, h, 1, 0)),
               ("k.batch", lambda: A.generate_simple(q, kb, v, h, 1, 0)), ("v.batch", lambda: A.generate_simple(q, k, kb, h, 1, 0)),
               ("heads", lambda: A.generate_simple(q, k, v, e + 1, 1, 0))]
        bad += [("k.tile", lambda: A.generate_simple(q, kt, v, h, 1, 0)), ("v.tile", lambda: A.generate_simple(q, k, kt, h, 1, 0))]
    elif what == "embedding":
        sh = ly.dims(rng, 2, 1, 5)
        x = core.tensor("int64", tuple(sh), tuple(ly.tiles(rng, sh)), np.zeros(sh, np.int64))
        T = getattr(n.tensor, "Tensor_" + kind)
        w = int(rng.integers(2, 4))
        good = lambda: n.layer.Embedding.generate_simple(x.x, T, 0, 5, 2 * w, 2 * w, w, 0)
        bad = [("tile", lambda: n.layer.Embedding.generate_simple(x.x, T, 0, 5, 2 * w, 2 * w - 1, w, 0))]
        ins = [x]
    elif what == "mixer_mlp":
        sh = ly.dims(rng, 3, 2, 4)
        x = mk(sh, sh)
        ins = [x]
        MM = n.layer.MixerMlp if hasattr(n.layer, "MixerMlp") else __import__("nntile.layer.mixer", fromlist=["MixerMlp"]).MixerMlp
        good = lambda: MM.generate_simple(x, side, 0)
        bad = [("side", lambda: MM.generate_simple(x, bad_side, 0))]
    elif what in ("deep_relu", "deep_linear"):
        from nntile.model.deep_relu import DeepReLU
        from nntile.model.deep_linear import DeepLinear
        x = mk(ly.dims(rng, 2, 2, 5))
        ins = [x]
        D = (lambda sd, nd, nl: DeepReLU(x, sd, nd, 3, 2, nl, 2, 0)) if what == "deep_relu" else (lambda sd, nd, nl: DeepLinear(x, sd, nd, 3, 2, nl, 0))
        good = lambda: D(side, 1, 2)
        bad = [("side", lambda: D(bad_side, 1, 2)), ("ndim", lambda: D(side, pick(0, -1), 2)), ("nlayers", lambda: D(side, 1, pick(1, 0, -1)))]
    else:
        from nntile.model.mlp_mixer import MlpMixer
        sh = [2, 3, 4]
        x = mk(sh, sh)
        ins = [x]
        good = lambda: MlpMixer(x, 3, 1, 2, 0)
        bad = [("nlayers", lambda: MlpMixer(x, 3, pick(0, -1), 2, 0))]
    val = lambda m: m.get() if hasattr(m, "x") and hasattr(m, "get") else ly.get(m.value, kind)
    before = [val(m) for m in ins]
    keys, sample = [], None
    for nm, f in [bad[j] for j in rng.permutation(len(bad))]:
        note(ctx, "%s.%s" % (what, nm))
        sub = core.stats()["submitted"]
        try:
            f()
        except Exception as e:
            sample = "rejected: %s %s with %s" % (what, nm, type(e).__name__)
        else:
            raise Violation("%s:%s:accepted" % (what, nm), "%s was constructed with a broken %s: inputs %s" % (
                what, nm, [list(m.shape if hasattr(m, "get") else m.value.shape) for m in ins]))
        core.wait()
        if core.stats()["submitted"] != sub:
            raise Violation("%s:%s:work-started" % (what, nm), "rejected constructor started %d tasks" % (core.stats()["submitted"] - sub))
        keys.append((what, nm))
    for m, a in zip(ins, before):
        ly.check_same(val(m), a, what + ":input-modified", "input of a rejected constructor")
    note(ctx, what)
    good()
    return dict(n=len(keys) + 1, count=dict(constructors=len(keys), broken_constructors=len([k for k in keys if not (k in ctx.seen or ctx.seen.add(k))])), keys=keys, sample=sample)


def run(ctx, rng, i, tile):
    core = ctx.core
    names = [n for n in NAMES if not tile or CAT[n].tile_ok]
    op = CAT[names[i % len(names)]]
    note(ctx, op.name)
    for _ in range(50):
        p = op.make(rng, small=True)
        if not tile or not hasattr(op, "tile_legal") or op.tile_legal(p):
            break
    if tile:
        p = p.retile(rng, whole=True)
    keys, viol, n, sample = [], [], 0, None
    bad = validate.variants(p, rng, tile)
    for j in rng.permutation(len(bad))[:CAP]:
        b = bad[j]
        note(ctx, op.name + ":" + b.what)
        try:
            sample = "rejected: " + validate.try_bad(core, b, rng, tile)
            keys.append((op.name, b.what, tile))
        except Violation as v:
            viol.append(v)
        n += 1
    note(ctx, op.name)
    D = op.data(p, rng)
    if tile:
        D = {s.name: D[s.name] if D[s.name].shape == p.shape(s)[0] else np.zeros(p.shape(s)[0], D[s.name].dtype) for s in p.specs}
    oprun.run_problem(core, p, D, True, tile)
    return dict(n=n + 1, count=dict(rejected=len(keys), accepted_valid=1), keys=keys, viol=viol, sample=sample)
