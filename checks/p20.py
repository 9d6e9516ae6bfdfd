"""Races between tasks, and between tasks and the submitting thread, under ThreadSanitizer."""
from _ops import *
from core import F_TSAN
import glob, importlib, os, re
RULE = ("the library is built with ThreadSanitizer and StarPU's own synchronisation is invisible to it; the monitor announces exactly the order the library asked for: "
        "a task starts after the submission of its own arguments, after the last declared writer of everything it declares, and (when it declares writing) after the declared readers; "
        "a host access follows the tasks it waited for; BLAS calls are reported as reads and writes of the columns they touch. Anything else that touches the same memory from two threads is a race. "
        "Workloads: random asynchronous programs replayed with delays on 4-8 workers, single operations with many tiles, reductions with private copies, random models trained asynchronously. "
        "distinct: distinct execution orders of overlapping programs and distinct calls")
ASSUME = ["StarPU itself is not instrumented: its documented ordering is assumed, not checked", "a race is reported when both accesses happen in one execution without announced order, whether or not they overlapped in time"]
REQUIRE = {"evaluations": 300, "distinct": 200, "overlaps": 200, "executed": 20000, "codelets": 60, "w:prog": 16, "w:redux": 40, "w:models": 10}
W = {
    "prog": ("p14", False, 5, 150),
    "redux": ("p16", False, 14, 900),
    "ops": (None, False, 60, 5000),
    "flash": ("p10", False, 6, 400),
    "copy": ("p04", False, 10, 1500),
    "host": ("p03", False, 6, 500),
    "layers": ("p22", True, 10, 1000),
    "models": ("p23", True, 6, 400),
    "optim": ("p25", True, 3, 300),
}
NAMES = sorted(CAT)


def jobs(tier):
    q = 2 if tier == "quick" else 3
    env = {"STARPU_USE_ALLOCATION_CACHE": "0", "STARPU_SUBALLOCATOR": "0"}
    r = []
    for k in (False, True):
        ws = [w for w in W if W[w][1] == k]
        for s in range(3 if k else 5):
            r.append(dict(flavour="tsan", group="py" if k else "cc", shard=s, n=sum(W[w][q] for w in ws), ncpu=[4, 6, 3, 8, 2][s], sched=["lws", "eager", "ws", "random", "dmda"][s],
                          delay=[200, 0, 100, 0, 300][s], q=q, env=env, hang=400, flags=F_TSAN | F_LOG))
    return r


def setup(job, cfg):
    py = job["group"] == "py"
    c = op_setup(job, cfg, package=py)
    c.k, c.home = c.core, cfg["home"]
    c.plan = []
    for w in W:
        if W[w][1] == py:
            c.plan += [w] * W[w][job["q"]]
    c.plan = [c.plan[j] for j in np.random.default_rng(7).permutation(len(c.plan))]
    c.mods = {w: importlib.import_module(W[w][0]) for w in set(c.plan) if W[w][0]}
    for m in c.mods.values():
        # the monitor's own reads and fills are not part of this build's workload
        m.F_ALL = F_TSAN
    c.flags = job["flags"]
    real = c.core.monitor
    c.core.monitor = lambda flags=0, seed=1, delay_us=0, delay_p=0: real((flags & (F_DELAY | F_LOG)) | F_TSAN, seed, delay_us, delay_p)
    c.core.monitor(c.flags | (F_DELAY if job["delay"] else 0), cfg["seed"], job["delay"], 64)
    return c


def case(ctx, rng, i):
    w = ctx.plan[i]
    core = ctx.core
    print("@@workload %s" % w, flush=True)
    held, info = 1, {}
    core.reset_log()
    try:
        i2 = int(rng.integers(1 << 20))
        info = numeric_case(ctx, rng, i2, NAMES) if w == "ops" else ctx.mods[w].case(ctx, rng, i2)
    except Violation:
        # wrong results are another property's business
        held = 0
    except Exception:
        held = 0
    info = info or {}
    core.mon_violations()
    c = {"w:" + w: 1, "judged_elsewhere": 1 - held}
    for k in ("overlaps", "ordered_pairs", "events"):
        if k in info.get("count", {}):
            c[k] = info["count"][k]
    if w != "prog":
        core.wait()
        n, o, _ = core.check_order()
        c.update(events=o[0], ordered_pairs=o[1], overlaps=o[2])
    return dict(n=1, count=c, keys=[w + str(k) for k in info.get("keys", [])], sample=info.get("sample"))


def on_exit(w):
    """Reports the race detector wrote."""
    r = []
    for f in glob.glob(os.path.join(w.hdir, "tsan.*")):
        s = open(f, errors="replace").read()
        for b in s.split("=================="):
            m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]*)", b)
            if not m or m.group(1).strip().startswith(("thread leak", "lock-order")):
                continue
            fr = re.findall(r"#\d+ (?:void |float |double )?([\w:~]+)[^\n]*? (\S+?):(\d+)", b)
            fn = [x[0] for x in fr if x[0].startswith("nntile")] or [x[0] for x in fr]
            r.append(dict(key="race:%s" % (fn[0] if fn else "?"), msg=b.strip()[:3000]))
    return r
