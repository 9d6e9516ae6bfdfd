"""Run one catalogued problem on the real library and judge it."""
import numpy as np
from core import NP, Ten, Tile_, Violation, same_bits, close
from catalog import LD


def kind_of(p, s):
    return p.kind if s.kind == "T" else s.kind


def setup(core, p, D, tile=False):
    T = {}
    ts = p.op.tile_specs(p) if tile else None
    for s in p.specs:
        k = kind_of(p, s)
        sh, ti = p.shape(s)
        if tile:
            T[s.name] = Tile_(core, k, ts[s.name], D[s.name].reshape(ts[s.name], order="F"))
        else:
            T[s.name] = core.tensor(k, sh, ti, D[s.name])
    return T


def case_data(p, D):
    """Small description of the input for replay files."""
    return {k: v.reshape(-1)[:8].tolist() for k, v in D.items()}


def judge(p, D, got, key="", want=None, tile=False):
    """Compare all tensors after the call: outputs with the reference, inputs bit for bit."""
    op = p.op
    W = want if want is not None else (op.ref(p, D, tile=True) if tile and op.name == "sumnorm" else op.ref(p, D))
    exact = op.exact and p.par.get("_dyad")
    n = 0
    for s in p.specs:
        if s.role == "in":
            if not same_bits(got[s.name], D[s.name]):
                raise Violation("%s:input-modified:%s" % (op.name, s.name),
                                "%s modified its input %s: %s" % (op.name, s.name, p.describe()))
        elif s.name in W:
            w, sc, f = W[s.name]
            bad = close(got[s.name], w, sc, p.kind, 0 if exact else f)
            n += got[s.name].size
            if bad is not None:
                g = got[s.name][bad]
                raise Violation("%s:wrong-value%s" % (op.name, key),
                                "%s computed %r, expected %s at %s of %s: %s" % (
                                    op.name, float(g), float(np.broadcast_to(w, got[s.name].shape)[bad]), bad, s.name, p.describe()))
    return n


SHARED = dict(gemm=("A", "B"), sumprod_slice=("src1", "src2"), sumprod_fiber=("src1", "src2"), relu_backward=("x", "dy"), gelu_backward=("x", "dy"),
              gelutanh_backward=("x", "dy"), addcdiv=("denom", "nom"), flash_maxsumexp=("Q", "K"))


def share(p):
    """Give two read-only operands the same shape and tiling, so that one tensor can serve as both (x*x^T, sums of squares)."""
    a, b = SHARED[p.op.name]
    sp = {s.name: s for s in p.specs}
    if len(sp[a].dims) != len(sp[b].dims):
        return False
    for _ in range(len(p.size)):
        for x, y in zip(sp[a].dims, sp[b].dims):
            if not isinstance(x, str) or not isinstance(y, str):
                if x != y:
                    return False
            elif x != y:
                m, t = min(p.size[x], p.size[y]), min(p.tile[x], p.tile[y])
                if x in p.full or y in p.full:
                    p.full |= {x, y}
                    t = m
                p.size[x] = p.size[y] = m
                p.tile[x] = p.tile[y] = min(m, t)
    if p.shape(sp[a]) != p.shape(sp[b]):
        return False
    p.par["_shared"] = (a, b)
    return True


def run_problem(core, p, D, blocking=True, tile=False):
    """Returns the contents of all tensors after the call."""
    T = setup(core, p, D, tile)
    if p.par.get("_shared"):
        a, b = p.par["_shared"]
        T[b].free()
        T[b] = T[a]
        try:
            if not tile:
                p.op.prepare(p, T)
            (p.op.run_tile if tile else p.op.run)(core, p, T, blocking)
            core.wait()
            return {k: v.get() for k, v in T.items()}
        finally:
            for k, v in T.items():
                if k != b:
                    v.free()
    try:
        if not tile:
            p.op.prepare(p, T)
        (p.op.run_tile if tile else p.op.run)(core, p, T, blocking)
        if not blocking:
            core.wait()
        return {k: v.get() for k, v in T.items()}
    finally:
        for v in T.values():
            v.free()
