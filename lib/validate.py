"""Invalid variants of a valid call: each breaks exactly one documented compatibility condition."""
import numpy as np
from core import NP, Violation, same_bits
from catalog import Problem
import oprun


class Bad:
    """A call description with explicit shapes and tiles per tensor."""
    def __init__(self, p, shapes, par, what, kinds=None):
        self.p, self.shapes, self.par, self.what, self.kinds = p, shapes, par, what, kinds or {}


# fiber operations take a fiber and a tensor of any number of dimensions
FREE_NDIM = dict(add_fiber="dst", prod_fiber="dst", sum_fiber="src", norm_fiber="src")


def variants(p, rng, tile=False):
    op = p.op
    base = {s.name: p.shape(s) for s in p.specs}
    if tile:
        ts = op.tile_specs(p)
        base = {n: (tuple(ts[n]), tuple(ts[n])) for n in ts}
    out = []

    def add(what, name, sh, ti, par=None):
        if any(x < 1 for x in sh) or any(x < 1 for x in ti):
            return
        b = dict(base)
        b[name] = (tuple(sh), tuple(ti))
        out.append(Bad(p, b, par or p.par, what))
    uses = {}
    for s in p.specs:
        for d in s.dims:
            if isinstance(d, str):
                uses.setdefault(d, set()).add(s.name)
    for s in p.specs:
        sh, ti = base[s.name]
        if tile and op.name == "nrm2" and s.name == "src":
            continue            # any shape
        if tile and op.name == "nrm2" and s.name == "tmp":
            add("ndim", s.name, (1,), (1,))
            continue
        for j, d in enumerate(s.dims):
            shared = isinstance(d, int) or not isinstance(d, str) or len(uses[d]) > 1
            if not shared:
                continue
            k = "%s.dim%s" % (s.name, "0" if j == 0 else "last" if j == len(s.dims) - 1 else "mid")
            for delta in (1, -1, int(rng.integers(2, 9))):
                if sh[j] + delta >= 1:
                    x = list(sh)
                    x[j] += delta
                    y = list(ti)
                    if tile:
                        y = x
                    elif isinstance(d, int):
                        if x[j] > ti[j]:
                            add(k + ".size+tail", s.name, x, y)
                        y = list(y)
                        y[j] = x[j]
                    elif y[j] > x[j]:
                        continue
                    add(k + ".size", s.name, x, y)
            if not tile and sh[j] > 1 and (isinstance(d, str) or isinstance(d, int)):
                # a smaller tile and a larger one: a comparison may be wrong in one direction only
                for c in ([t for t in range(1, ti[j])], [t for t in range(ti[j] + 1, sh[j] + 1)]):
                    if c:
                        y = list(ti)
                        y[j] = c[int(rng.integers(len(c)))]
                        add(k + ".tile", s.name, sh, y)
        # a tensor with dimensions of its own may have any number of them, unless another operand has the same shape
        loose = FREE_NDIM.get(op.name) == s.name
        if len(p.specs) > 1 and not loose:
            j = int(rng.integers(len(sh) + 1))
            add(s.name + ".ndim+1", s.name, sh[:j] + (1,) + sh[j:], ti[:j] + (1,) + ti[j:])
            if len(sh) > 0:
                j = int(rng.integers(len(sh)))
                add(s.name + ".ndim-1", s.name, sh[:j] + sh[j + 1:], ti[:j] + ti[j + 1:])
    for n, v in op.bad_params(p, rng):
        if tile and n == "batch_ndim" and op.name == "mask_scalar":
            continue
        out.append(Bad(p, base, dict(p.par, **{n: v}), "par.%s=%s" % (n, "neg" if v < 0 else "big" if v > 0 else "0")))
    # an operand of the other precision
    same = [s.name for s in p.specs if s.kind == "T"]
    if len(same) > 1 and not tile:
        n = same[int(rng.integers(len(same)))]
        out.append(Bad(p, base, p.par, n + ".precision", {n: "fp64" if p.kind == "fp32" else "fp32"}))
    # dimensions that must stay untiled: tile them consistently everywhere
    if not tile:
        for l in p.full:
            if p.size[l] > 1:
                t = int(rng.integers(1, p.size[l]))
                b = {}
                for s in p.specs:
                    sh, ti = base[s.name]
                    b[s.name] = (sh, tuple(t if d == l else x for d, x in zip(s.dims, ti)))
                out.append(Bad(p, b, p.par, "untiled-dim-tiled"))
        for l in (op.uniform(p) if hasattr(op, "uniform") else []):
            c = [t for t in range(1, p.size[l]) if p.size[l] % t]
            if c:
                t = c[int(rng.integers(len(c)))]
                b = {s.name: (base[s.name][0], tuple(t if d == l else x for d, x in zip(s.dims, base[s.name][1]))) for s in p.specs}
                out.append(Bad(p, b, p.par, "uneven-tiles"))
        for s in p.specs:
            if s.dims and s.dims[0] == 2 and isinstance(s.dims[0], int):
                sh, ti = base[s.name]
                add(s.name + ".pair.tile", s.name, sh, (1,) + ti[1:])
    return out


def try_bad(core, b, rng, tile=False):
    """The call must raise, change nothing and start nothing."""
    from core import Tile_
    p, op = b.p, b.p.op
    T, D = {}, {}
    for s in p.specs:
        k = b.kinds.get(s.name) or oprun.kind_of(p, s)
        sh, ti = b.shapes[s.name]
        if k == "bool":
            d = rng.random(sh) < 0.5
        elif k == "int64":
            d = np.zeros(sh, np.int64)
        else:
            d = rng.standard_normal(sh).astype(NP[k])
        D[s.name] = np.asarray(d, dtype=NP[k])
        T[s.name] = Tile_(core, k, sh, D[s.name]) if tile else core.tensor(k, sh, ti, D[s.name])
    q = Problem(op)
    if not tile and hasattr(core, "nntile") and rng.random() < 0.3:
        b.par = dict(b.par, _py=True)
    q.size, q.tile, q.full, q.par, q.kind, q.specs = p.size, p.tile, p.full, b.par, p.kind, p.specs
    # also with scalar factors for which the operation would have nothing to do
    if rng.random() < 0.35:
        b.par = dict(b.par)
        for n in ("alpha", "beta", "val"):
            if n in b.par and not b.what.startswith("par." + n):
                b.par[n] = float(rng.choice([0, 1, 1 if n == "beta" else 0]))
        q.par = b.par
    desc = "%s %s par=%s" % (op.name, " ".join("%s%s/%s" % (n, list(v[0]), list(v[1])) for n, v in b.shapes.items()), b.par)
    if not tile:
        op.prepare(q, T)
    before = core.stats()["submitted"]
    err = None
    try:
        (op.run_tile if tile else op.run)(core, q, T, bool(rng.random() < 0.5))
    except TypeError as e:
        if not b.kinds:
            raise
        err = e
    except Exception as e:
        err = e
    core.wait()
    started = core.stats()["submitted"] - before
    key = "%s:%s" % (op.name, b.what)
    got = {n: x.get() for n, x in T.items()}
    for x in T.values():
        x.free()
    if err is None:
        raise Violation(key + ":accepted", "invalid call accepted (%s): %s" % (b.what, desc))
    if started:
        raise Violation(key + ":work-started", "rejected call started %d tasks (%s): %s" % (started, b.what, desc))
    for n in got:
        if not same_bits(got[n], D[n]):
            raise Violation(key + ":operand-modified", "rejected call modified %s: %s" % (n, desc))
    return desc
