"""Fused attention: single calls and the whole forward/backward chain."""
import numpy as np
from _ops import *
from catalog import LD, mse_ref
from core import NP, close
RULE = ("two kinds of cases: (a) one call of flash_maxsumexp, flash_softmax_gemm or flash_softmax_gemm_backward against an explicit "
        "extended-precision attention; (b) the asynchronous chain clear, flash_maxsumexp, flash_softmax_gemm, clear, "
        "flash_softmax_gemm_backward, executed under two tilings of sequence, batch and heads and both reduction settings, every result "
        "compared with explicit masked attention and its gradients, over head sizes, sequence lengths, causal, banded, random masks, "
        "fully masked queries, both precisions and stale contents in every output and work buffer. distinct: shapes, tilings, mask, precision")
ASSUME = ["tolerances count rounding errors of the explicit computation"]
NAMES = GROUPS["flash"]
REQUIRE = {"evaluations": 500, "distinct": 300, "elements_compared": 40000, "chains": 150, "multi_seq": 100, "executed": 3000}


def jobs(tier):
    return op_jobs(tier, 260, 4000, group="flash")


def setup(job, cfg):
    return op_setup(job, cfg)


def case(ctx, rng, i):
    return chain(ctx, rng) if i % 3 == 2 else numeric_case(ctx, rng, i, NAMES)


def chain(ctx, rng):
    core = ctx.core
    P = {n: CAT[n] for n in NAMES}
    p = P["flash_softmax_gemm_backward"].make(rng, small=True)
    kind, k = p.kind, NP[p.kind]
    D = p.op.data(p, rng)
    w = P["flash_softmax_gemm_backward"].ref(p, D)
    fw = P["flash_softmax_gemm"].ref(p, D)["dst"]
    n = keys = 0
    keys = []
    objs = []
    for rep in range(2):
        q = p if rep == 0 else p.retile(rng)
        red = int(rng.integers(2)) if rep == 0 else 1 - red
        desc = "chain redux=%d %s" % (red, q.describe())
        note(ctx, desc[:200])
        tiles = {s.name: q.shape(s) for s in q.specs}
        stale = lambda sh: np.full(sh, np.nan, k) if rng.random() < 0.5 else rng.standard_normal(sh).astype(k)
        T = {}
        try:
            for s in q.specs:
                sh, ti = tiles[s.name]
                d = D[s.name] if s.role == "in" and s.name != "maxsumexp" else stale(sh)
                T[s.name] = core.tensor("bool" if s.kind == "bool" else kind, sh, ti, d)
            T["dst"] = core.tensor(kind, *tiles["Q"], stale(tiles["Q"][0]))
            if red:
                T["maxsumexp"].x.set_reduction_maxsumexp()
                for nme in ("dst", "dQ", "dK", "dV", "sumprod"):
                    T[nme].x.set_reduction_add()
            X = {a: b.x for a, b in T.items()}
            py = hasattr(core, "nntile") and rng.random() < 0.4
            f = (lambda nm: getattr(core.nntile.tensor, nm + "_async")) if py else (lambda nm: core.op(nm, kind, False))
            f("clear")(X["maxsumexp"])
            f("flash_maxsumexp")(X["Q"], X["K"], X["mask"], X["maxsumexp"], X["tmp"], red, 0)
            f("flash_softmax_gemm")(X["Q"], X["K"], X["V"], X["mask"], X["maxsumexp"], X["dst"], X["tmp"], red, 0)
            f("clear")(X["sumprod"])
            f("flash_softmax_gemm_backward")(*[X[s.name] for s in q.specs], red, 0)
            core.wait()
            for nme, (want, sc, fac) in dict(w, dst=fw).items():
                g = T[nme].get()
                bad = close(g, want, sc, kind, 2 * fac)
                n += g.size
                if bad is not None:
                    raise Violation("chain:wrong-value:" + nme, "%s: got %r, expected %s at %s: %s" % (
                        nme, float(g[bad]), float(np.broadcast_to(want, g.shape)[bad]), bad, desc))
            for nme in ("Q", "K", "V", "mask", "dst_grad"):
                if not same_bits(T[nme].get(), D[nme]):
                    raise Violation("chain:input-modified:" + nme, desc)
        finally:
            core.wait()
            for t in T.values():
                t.free()
        core.raise_monitor("chain:")
        if q.multi():
            keys.append(desc)
    multi = any(t["Q"][0][1] > t["Q"][1][1] for t in (tiles,))
    return dict(n=2, count=dict(elements_compared=n, chains=2, multi_seq=int(multi), multi_tile=len(keys)), keys=keys, sample=desc)
