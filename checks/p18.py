"""Memory safety: every workload of the other checks under address and undefined-behaviour sanitizers."""
from _ops import *
import importlib, os
RULE = ("the workloads of the other checks (single operations on tensors and tiles, host transfers, copies, random numbers, traits and distributions, asynchronous programs, reductions, "
        "invalid calls, layers, models, optimizers, losses, pipelines) executed by a library built with address and undefined-behaviour sanitizers and checked standard containers; tile buffers are separate "
        "heap blocks, BLAS calls are intercepted and the extents they touch compared with the allocation; fresh heap memory holds a fixed pattern. "
        "distinct: (workload, shapes, tilings, options) of calls on more than one element")
ASSUME = ["accesses inside one allocation but outside the part meant (another column of the same tile) are judged by the numeric checks",
          "uninitialised reads are judged by C15's poisoning, as no fully instrumented StarPU exists here", "alignment and vptr checks are off: StarPU's packed arguments are unaligned by design"]
REQUIRE = {"evaluations": 2500, "distinct": 1000, "executed": 20000, "blas_extents": 1000, "codelets": 60, "heap_blocks": 5, "rejected_calls": 100,
           "w:ops": 800, "w:tiles": 300, "w:copy": 150, "w:host": 80, "w:prog": 20, "w:models": 10}
# workload -> (module, needs the Python package, cases per shard: quick, thorough)
W = {
    "ops": (None, False, 230, 6000),
    "tiles": ("p29", False, 110, 4000),
    "invalid": ("p17", False, 90, 3000),
    "copy": ("p04", False, 60, 3000),
    "host": ("p03", False, 40, 2000),
    "randn": ("p12", False, 25, 1500),
    "softmax": ("p09", False, 30, 2000),
    "flash": ("p10", False, 20, 1000),
    "redux": ("p16", False, 18, 1000),
    "prog": ("p14", False, 5, 150),
    "traits": ("p01", False, 40, 4000),
    "distr": ("p02", False, 40, 4000),
    "layers": ("p22", True, 25, 1500),
    "models": ("p23", True, 5, 400),
    "losses": ("p24", True, 12, 1000),
    "optim": ("p25", True, 12, 1000),
    "import": ("p27", True, 4, 400),
}
NAMES = sorted(CAT)
PY = [w for w in W if W[w][1]]
CC = [w for w in W if not W[w][1]]


def jobs(tier):
    r = []
    q = 2 if tier == "quick" else 3
    env = {"STARPU_USE_ALLOCATION_CACHE": "0", "STARPU_SUBALLOCATOR": "0"}
    for k, ws in (("py", PY), ("cc", CC)):
        for s in range(3 if k == "py" else 5):
            n = sum(W[w][q] for w in ws)
            r.append(dict(flavour="asan", group=k, shard=s, n=n, ncpu=[4, 1, 2, 3, 6][s], sched=SCHEDS[s], delay=[0, 0, 150, 0, 300][s],
                          q=q, env=env, flags=F_ALL))
    return r


def setup(job, cfg):
    py = job["group"] == "py"
    c = op_setup(job, cfg, package=py)
    c.k, c.home = c.core, cfg["home"]
    c.plan = []
    for w in (PY if py else CC):
        c.plan += [w] * W[w][job["q"]]
    c.plan = [c.plan[j] for j in np.random.default_rng(7).permutation(len(c.plan))]
    c.seen = {}
    c.mods = {}
    for w in set(c.plan):
        if W[w][0]:
            m = c.mods[w] = importlib.import_module(W[w][0])
    if "import" in c.mods:
        import transformers
        c.tf = transformers
    c.block = blocks(c.core)
    return c


def blocks(core):
    """The buffers of tiles must be heap blocks of their own, or nothing could be detected."""
    import ctypes
    n = 0
    f = core.lib.__asan_region_is_poisoned
    f.restype = ctypes.c_void_p
    f.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
    for k in (1, 3, 8, 100, 5000):
        a = core.v.tile_address(k)
        if a and f(a, 4 * k) is None and f(a, 4 * k + 4) is not None:
            n += 1
    return n


def case(ctx, rng, i):
    w = ctx.plan[i]
    core = ctx.core
    j = ctx.seen.get(w, i)
    ctx.seen[w] = j + 1
    print("@@workload %s" % w, flush=True)
    held, info = 1, {}
    try:
        if w == "ops":
            info = numeric_case(ctx, rng, int(rng.integers(1 << 20)), NAMES)
        else:
            info = ctx.mods[w].case(ctx, rng, int(rng.integers(1 << 20)))
    except Violation as v:
        if "blas-extent" in v.key or "blas-extent" in v.msg:
            raise
        # wrong results are another property's business
        held = 0
        info = {}
    except Exception as e:
        held = 0
    if info is None:
        info = {}
    for v in core.mon_violations():
        if v.startswith("blas-extent"):
            raise Violation("%s:%s" % (ctx.what, " ".join(v.split()[:4])), "monitor: " + v)
    c = {"w:" + w: 1, "judged_elsewhere": 1 - held}
    if w == "invalid":
        c["rejected_calls"] = info.get("n", 0)
    if i == 0:
        c["heap_blocks"] = ctx.block
    return dict(n=1, count=c, keys=[w + ":" + str(k) for k in info.get("keys", [])], sample=info.get("sample"))
