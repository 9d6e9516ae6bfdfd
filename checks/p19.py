"""Life cycle: dropping objects with work pending, user memory, restarts, process exit."""
import ctypes, gc, os, subprocess, sys, time
from _ops import *
from core import NP, Ten
import oprun, program
import layers as ly, models, optim
RULE = ("queued: random programs submitted asynchronously while tensors are dropped (unregister, twice, destructor, kept alive only through a tile, replaced by new "
        "tensors with other contents) right after their last use, marked as not needed anywhere, with pauses and codelet restrictions in between: every result "
        "equals the sequential execution bit for bit, nothing runs while paused, registered = released buffers. user: tiles over caller memory with guard zones: "
        "after the drop the caller's array holds the results and nothing outside changed; too small memory is refused. cycle: start/stop of the runtime in one process "
        "with varying workers, policies and ways of stopping: identical results in every cycle. package: models with loss and optimizer released right after two queued "
        "training steps: copies queued before hold the same bits (the loss: the same value) as after a run that waits, and every buffer is released. exit: processes ending with objects and work pending end normally. "
        "distinct: (kind, ways of dropping / stopping)")
ASSUME = ["dropping the last reference of a tensor with pending work may wait for that work, so it is not done while paused"]
REQUIRE = {"evaluations": 300, "distinct": 60, "drops": 1500, "dropped_while_pending": 100, "tile_only": 200, "pauses": 20, "user_tiles": 150,
           "cycles": 40, "outlived": 40, "exits": 12, "replacements": 300, "released_models": 100, "pending_at_release": 50}
LIBKIND = ("fp32", "fp64")


def jobs(tier):
    q = tier == "quick"
    r = [dict(flavour="plain", group="queued", shard=s, n=12 if q else 400, ncpu=[3, 2, 3, 4, 1, 2][s], sched=SCHEDS[s],
              delay=[120, 200, 80, 60, 60, 250][s]) for s in range(6)]
    r += [dict(flavour="plain", group="user", shard=s, n=90 if q else 2000, ncpu=2 + s, sched=SCHEDS[s], delay=300) for s in range(1 if q else 4)]
    r += [dict(flavour="plain", group="package", shard=s, n=25 if q else 600, ncpu=2 + s, sched=SCHEDS[s], delay=300) for s in range(2 if q else 4)]
    r += [dict(flavour="plain", group="cycle", shard=s, n=7 if q else 80) for s in range(2)]
    r += [dict(flavour="plain", group="exit", shard=s, n=8 if q else 60) for s in range(2)]
    return r


def setup(job, cfg):
    if job["group"] in ("queued", "user", "package"):
        return op_setup(job, cfg, package=True if job["group"] == "package" else None)
    c = Ctx()
    c.job, c.cfg, c.what = job, cfg, ""
    if job["group"] == "cycle":
        c.core = Core(cfg["dir"], False)
    return c


def case(ctx, rng, i):
    return globals()[ctx.job["group"]](ctx, rng, i)


def balance(core, before, what, running=True):
    gc.collect()
    if running:
        core.wait()
    # deferred releases happen when the runtime gets to them
    t = time.time()
    while True:
        s = core.stats()
        reg, rel = s["registered"] - before["registered"], s["released"] - before["released"]
        if reg == rel:
            return reg
        if time.time() - t > 5 or rel > reg:
            raise Violation("buffers-not-released", "%s: %d buffers registered, %d released" % (what, reg, rel))
        time.sleep(0.02)


def tile_slices(x, i):
    """Part of a tensor covered by its tile number i."""
    r = []
    for s, b in zip(x.shape, x.tile):
        n = -(-s // b)
        k = i % n
        i //= n
        r.append(slice(k * b, min(s, (k + 1) * b)))
    return tuple(r)


def queued(ctx, rng, i):
    core = ctx.core
    note(ctx, "queued")
    core.monitor(F_ALL, 0, 0, 0)
    before = core.stats()
    small = rng.random() < 0.5
    prog = program.grow(core, rng, int(rng.integers(6, 31)), small=bool(small))
    if len(prog.steps) < 3:
        return dict(n=0)
    core.raise_monitor("program:")
    cnt = dict(drops=0, dropped_while_pending=0, tile_only=0, pauses=0, replacements=0, compared=0, restrictions=0, balanced=0)
    keys = set()
    last = {}
    for j, st in enumerate(prog.steps):
        for t in st.bind.values():
            last[t] = j
    desc = prog.describe()[:1200]
    for rep in range(3):
        core.wait()
        core.monitor(F_ALL | F_DELAY, int(rng.integers(1, 2 ** 40)), ctx.job["delay"], 110)
        T = program.make_tensors(core, prog, prog.u.tiles)
        pdrop = [0.3, 0.7, 1.0][rep]
        paused = rep == 1 and rng.random() < 0.7
        unit = paused
        e0 = None
        tiles, extra, dead = [], [], set()

        def read_tile(t, k, tl, x):
            b = np.frombuffer(core.v.tile.bytes(tl), dtype=NP[x.kind])
            want = prog.final[t][tile_slices(x, k)]
            cnt["compared"] += 1
            if b.tobytes() != np.asfortranarray(want).tobytes(order="F"):
                raise Violation("queued:dropped-tensor-result", "tile %d of t%d, kept after its tensor was dropped: %s, sequential run gave %s (%s)" % (
                    k, t, b[:5], np.asfortranarray(want).reshape(-1, order="F")[:5], desc))

        if paused:
            core.wait()
            core.m.starpu.pause()
            time.sleep(0.01)
            e0 = core.stats()["executed"]
        for j, st in enumerate(prog.steps):
            q = st.p
            TT = {n: T[t] for n, t in st.bind.items()}
            q.op.run(core, q, TT, False)
            if rng.random() < 0.2:
                cnt["restrictions"] += 1
                (core.m.starpu.restrict_cpu if rng.random() < 0.5 else core.m.starpu.restrict_restore)()
            for n, t in st.bind.items():
                if rng.random() < 0.3:
                    T[t].x.wont_use()
                if rng.random() < 0.2:
                    T[t].x.invalidate_submit()
                if last[t] != j or rng.random() >= pdrop or t in dead:
                    continue
                x = T[t]
                nt = int(np.prod([-(-s // b) for s, b in zip(x.shape, x.tile)])) if x.shape else 1
                how = int(rng.integers(5))
                s0 = core.stats()
                pend = s0["executed"] < s0["submitted"]
                if unit and how != 2:
                    # the drop may wait: continue first
                    if rng.random() < 0.6:
                        continue
                    time.sleep(0.02)
                    now = core.stats()
                    if now["executed"] != e0:
                        core.m.starpu.resume()
                        raise Violation("pause:work-executed-while-paused", "%d tasks ran between pause and resume" % (now["executed"] - e0))
                    cnt["pauses"] += 1
                    core.m.starpu.resume()
                    unit = False
                dead.add(t)
                cnt["drops"] += 1
                cnt["dropped_while_pending"] += pend
                keys.add(("queued", how, pend, rep))
                if how == 0:
                    x.x.unregister()
                elif how == 1:
                    x.x.unregister()
                    x.x.unregister()
                elif how == 2:
                    ks = sorted(set(int(k) for k in rng.integers(0, nt, 3)))
                    for k in ks:
                        tl = core.v.tile.get_tile(x.x, k)
                        tiles.append((t, k, tl, x))
                        cnt["tile_only"] += 1
                    if not unit:
                        # the other tiles go now
                        x.x = None
                elif how == 3:
                    x.x = None
                else:
                    x.x = None
                    gc.collect()
                if not unit and rng.random() < 0.6:
                    # new tensors of the same size, most likely in the memory just released
                    y = core.tensor(x.kind, x.shape, x.tile, data=garbage(rng, x.kind, x.shape))
                    cnt["replacements"] += 1
                    if rng.random() < 0.5:
                        y.free()
                    else:
                        extra.append(y)
                if tiles and not unit and rng.random() < 0.3:
                    read_tile(*tiles.pop(int(rng.integers(len(tiles)))))
        if unit:
            time.sleep(0.02)
            now = core.stats()
            core.m.starpu.resume()
            if now["executed"] != e0:
                raise Violation("pause:work-executed-while-paused", "%d tasks ran between pause and resume" % (now["executed"] - e0))
            cnt["pauses"] += 1
        if rng.random() < 0.5:
            core.wait()
        for a in tiles:
            read_tile(*a)
        for t in rng.permutation(len(T)):
            if t in dead:
                continue
            g = T[t].get()
            cnt["compared"] += 1
            if not same_bits(g, prog.final[t]):
                raise Violation("queued:survivor-differs", "t%d after drops of other tensors: %s, expected %s (%s)" % (
                    t, g.reshape(-1)[:6], prog.final[t].reshape(-1)[:6], desc))
        core.m.starpu.restrict_restore()
        tiles.clear()
        for y in extra:
            y.free()
        for x in T:
            if x.x is not None:
                x.free()
        core.raise_monitor("queued:")
    T = TT = x = y = a = tl = None
    cnt["balanced"] += balance(core, before, "program with drops: " + desc)
    return dict(n=3, count=cnt, keys=keys, sample=desc[:300])


def garbage(rng, kind, shape):
    if kind in LIBKIND:
        return np.asfortranarray(rng.standard_normal(shape) * 1e6)
    return np.asfortranarray(rng.integers(0, 2, shape))


GUARD = 96
UOPS = [n for n, o in CAT.items() if o.tile_ok]


def held(ctx, rng):
    """Unregistering releases every tile there and then, although the objects themselves are still held."""
    core = ctx.core
    before = core.stats()
    X = []
    for _ in range(int(rng.integers(1, 4))):
        sh = [int(v) for v in rng.integers(1, 5, int(rng.integers(0, 6)))]
        ti = [int(rng.integers(1, v + 1)) for v in sh]
        kind = str(rng.choice(list(LIBKIND) + ["int64", "bool"]))
        X.append(core.tensor(kind, tuple(sh), tuple(ti), garbage(rng, kind, sh).astype(NP[kind]) if rng.random() < 0.8 else None))
    if rng.random() < 0.5:
        # work on them may still be pending
        for x in X:
            if x.kind in LIBKIND:
                getattr(core.t, "fill_async_" + x.kind)(1.5, x.x)
    for x in X:
        x.x.unregister()
    balance(core, before, "unregistered tensors %s" % [(x.shape, x.tile) for x in X])


def user(ctx, rng, i):
    """Tiles over memory of the caller."""
    core = ctx.core
    note(ctx, "user")
    if i % 3 == 0:
        held(ctx, rng)
    before = core.stats()
    vt = core.v.tile
    for _ in range(80):
        op = CAT[UOPS[int(rng.integers(len(UOPS)))]]
        p = op.make(rng, kind=LIBKIND[int(rng.integers(2))])
        if all(s.kind == "T" for s in p.specs) and not (hasattr(op, "tile_legal") and not op.tile_legal(p)):
            break
    p = p.retile(rng, whole=True)
    p.par["redux"] = 0
    D = op.data(p, rng)
    D = {s.name: D[s.name] if D[s.name].shape == p.shape(s)[0] else np.zeros(p.shape(s)[0], D[s.name].dtype) for s in p.specs}
    if hasattr(op, "tile_prior"):
        D = op.tile_prior(p, D, rng)
    note(ctx, "user:" + op.name)
    dt = NP[p.kind]
    A, TT, keys = {}, {}, set()
    ts = op.tile_specs(p)
    for s in p.specs:
        d = np.asfortranarray(D[s.name].astype(dt).reshape(ts[s.name], order="F"))
        buf = np.full(d.size + 2 * GUARD, -7.25, dt)
        buf[GUARD:GUARD + d.size] = d.reshape(-1, order="F")
        sh = [int(v) for v in ts[s.name]]
        A[s.name] = (buf, tuple(sh))
        mem = buf[GUARD:GUARD + d.size]
        f = getattr(vt, "user_tile_" + p.kind)
        if rng.random() < 0.3 and d.size:
            # memory smaller than the shape has to be refused
            try:
                f(sh, mem, int(rng.integers(0, d.size)))
            except RuntimeError:
                pass
            else:
                raise Violation("user:small-memory-accepted", "tile of shape %s over too little memory was accepted" % (d.shape,))
        x = Ten(core, f(sh, mem, d.size + int(rng.integers(0, 2)) * 5), p.kind, tuple(sh), tuple(sh))
        TT[s.name] = x
    core.monitor(F_ALL | F_DELAY, int(rng.integers(1, 2 ** 40)), ctx.job["delay"], 128)
    op.run_tile(core, p, TT, False)
    order = list(TT)
    rng.shuffle(order)
    how = int(rng.integers(3))
    for n in order:
        x = TT.pop(n)
        if how == 0 or how == 2 and rng.random() < 0.5:
            x.x.unregister()
        else:
            x.x = None
        x = None
    keys.add(("user", op.name, how))
    # every tile is gone: the memory belongs to the caller again and holds the results
    got = {}
    for n, (buf, shape) in A.items():
        size = int(np.prod(shape)) if shape else 1
        g = np.concatenate([buf[:GUARD], buf[GUARD + size:]])
        if (g != dt(-7.25)).any():
            raise Violation("user:memory-outside-changed:" + op.name, "%s wrote outside the memory given for %s" % (op.name, n))
        got[n] = buf[GUARD:GUARD + size].reshape(shape, order="F").copy(order="F") if shape else buf[GUARD:GUARD + 1].reshape(())
    n = oprun.judge(p, D, got, ":user-memory", tile=True)
    core.raise_monitor(op.name + ":")
    balance(core, before, "tiles over user memory, " + op.name)
    return dict(n=1, count=dict(user_tiles=len(A), drops=len(A), compared=n), keys=keys, sample="user " + p.describe())


def cycle(ctx, rng, i):
    core = ctx.core
    note(ctx, "cycle")
    prog, cnt, keys = None, dict(cycles=0, compared=0, outlived=0), set()
    b0 = core.stats()
    later = []
    for c in range(int(rng.integers(3, 6))):
        ncpu, sched = int(rng.integers(1, 6)), SCHEDS[int(rng.integers(len(SCHEDS)))]
        core.start(ncpu, sched)
        core.monitor(F_ALL, 0, 0, 0)
        b = core.stats()
        if prog is None:
            prog = program.grow(core, rng, int(rng.integers(5, 20)), small=True)
            if not prog.steps:
                core.stop()
                return dict(n=0)
        else:
            core.monitor(F_ALL | F_DELAY, int(rng.integers(1, 2 ** 40)), 200, 64)
            T = program.replay(core, prog)
            for t, x in enumerate(T):
                g = x.get()
                cnt["compared"] += 1
                if not same_bits(g, prog.final[t]):
                    raise Violation("cycle:result-differs", "t%d in cycle %d (%d workers, %s): %s, first cycle gave %s (%s)" % (
                        t, c, ncpu, sched, g.reshape(-1)[:5], prog.final[t].reshape(-1)[:5], prog.describe()[:900]))
            if rng.random() < 0.5:
                core.wait()
            for x in T:
                if rng.random() < 0.3:
                    later.append(x)
                else:
                    x.free()
            T = x = None
        core.wait()
        if not later:
            balance(core, b, "cycle")
        core.raise_monitor("cycle:")
        s = core.stats()
        if s["executed"] - b["executed"] < s["submitted"] - b["submitted"]:
            raise Violation("cycle:work-lost", "%d submitted, %d executed in cycle %d" % (
                s["submitted"] - b["submitted"], s["executed"] - b["executed"], c))
        how = int(rng.integers(4))
        if how != 1:
            core.cfg.shutdown()
        if how == 2:
            core.cfg.shutdown()
        core.cfg = None
        if how == 3:
            gc.collect()
        # tensors may outlive the runtime
        cnt["outlived"] += len(later)
        for x in later:
            x.free()
        later.clear()
        x = None
        keys.add(("cycle", how, ncpu, sched))
        cnt["cycles"] += 1
    balance(core, b0, "all cycles", False)
    return dict(n=cnt["cycles"], count=cnt, keys=keys, sample="cycle " + prog.describe()[:200])


SCRIPT = r'''
import sys, json, numpy as np, gc
A = json.loads(sys.argv[1])
sys.path[:0] = [A["lib"], A["checks"]]
from core import Core
core = Core(A["dir"], A["package"])
core.start(A["ncpu"], A["sched"])
core.monitor(8, A["seed"], A["delay"], 128)
rng = np.random.default_rng(A["seed"])
S = A["shape"]
def mk(v=None):
    return core.tensor("fp32", S, A["tile"], data=v)
T = [mk(np.asfortranarray(rng.integers(-3, 4, S).astype(np.float32))) for _ in range(4)]
ops = A["ops"]
def work(n):
    for k in range(n):
        a, b = T[k % 4], T[(k + 1) % 4]
        o = ops[k % len(ops)]
        if o == "add": core.op("add", "fp32", False)(0.5, a.x, 0.25, b.x)
        elif o == "scal": core.op("scal_inplace", "fp32", False)(0.5, a.x)
        elif o == "relu": core.op("relu", "fp32", False)(a.x)
        elif o == "copy": core.op("copy", "fp32", False)(a.x, b.x)
work(A["nwork"])
class Keep:
    pass
how = A["how"]
print("@@ready", flush=True)
if how == "ok":
    core.wait()
    for t in T: t.free()
    core.stop()
elif how == "no-wait":
    for t in T: t.free()
    core.stop()
elif how == "stop-only-config":
    for t in T: t.free()
    core.cfg = None
elif how == "left":
    pass
elif how == "wait-left":
    core.wait()
elif how == "cyclic":
    for t in T:
        k = Keep(); k.t = t; k.me = k
    del t, k, T
elif how == "exc":
    raise ValueError("the user's own error")
elif how == "exit":
    sys.exit(7)
elif how == "thread":
    import threading
    th = threading.Thread(target=lambda: [core.op("relu", "fp32", False)(t.x) for t in T]); th.start(); th.join()
elif how == "func":
    def f():
        y = mk(); core.op("copy", "fp32", False)(T[0].x, y.x)
        raise KeyError("inside")
    try:
        f()
    except KeyError:
        pass
elif how == "stop-twice":
    core.wait()
    for t in T: t.free()
    core.stop(); core.stop()
elif how == "outlived":
    y = [mk() for _ in range(3)]
    for k in range(len(y) * (A["nwork"] % 5)):
        core.op("copy", "fp32", False)(T[k % 4].x, y[k % 3].x)
    if A["nwork"] % 2: core.wait()
    core.stop()
    if A["nwork"] % 3: del T, y
    else:
        for t in T + y: t.free()
print("@@end", flush=True)
'''
HOWS = ["outlived", "ok", "no-wait", "stop-only-config", "left", "wait-left", "cyclic", "exc", "exit", "thread", "func", "stop-twice", "outlived", "outlived"]
def package(ctx, rng, i):
    """Layers, models, losses and optimizers released while their work is queued."""
    core = ctx.core
    n = core.nntile
    note(ctx, "package")
    kind = str(rng.choice(["fp32", "fp64"]))
    spec = models.random_spec(rng, kind)
    seed = int(rng.integers(1 << 40))
    ok = optim.KINDS[i % 4]
    first, cnt, desc = None, dict(released_models=0, balanced=0, compared=0, pending_at_release=0), ""
    for rep in range(3):
        core.monitor(F_ALL, 0, 0, 0)
        core.wait()
        gc.collect()
        core.wait()
        before = core.stats()
        r = np.random.default_rng(seed)
        M = models.build(core, r, spec)
        hp = optim.hyper(r, ok, NP[kind], mild=True)
        opt = optim.make(n, ok, hp, M.params, NP[kind])
        B = [M.batch(r) for _ in range(2)]
        desc = "%s with %s" % (M.desc, ok)
        if rep:
            core.monitor(F_ALL | F_DELAY, int(rng.integers(1, 1 << 40)), 800, 160)
        for b in B:
            M.train_step(opt, b)
            if not rep:
                core.wait()
        nbit = 2 * len(M.params) + 1
        src = [p.value for p in M.params] + [p.grad for p in M.params] + [M.out.value] + ([M.loss.val] if M.loss else [])
        keep = []
        for t in src:
            k = M.like(t, kind)
            n.tensor.copy_async(t, k)
            keep.append(k)
        # release everything at once, in any order; some of it twice, some only by dropping the last reference
        s = core.stats()
        cnt["pending_at_release"] += int(s["submitted"] > s["executed"])
        how = [opt.unregister, M.free] if M.loss is None or rng.random() < 0.5 else [M.loss.unregister, opt.unregister, M.free]
        for j in rng.permutation(len(how)):
            how[j]()
        if rng.random() < 0.3:
            M.free()
        del M, opt, src, t, B, b, how, k
        got = [ly.get(k, kind) for k in keep]
        for k in keep:
            k.unregister()
        del keep, k
        if first is None:
            first = got
        else:
            for j, (x, y) in enumerate(zip(got, first)):
                # the tiles of the loss are summed up in any order
                if j == nbit and np.allclose(x, y, rtol=1e-4 if kind == "fp32" else 1e-10, atol=1e-4 if kind == "fp32" else 1e-10):
                    continue
                if not same_bits(x, y):
                    raise Violation("package:result-changed-by-release", "tensor %d of %s: %s instead of %s" % (j, desc, x.reshape(-1)[:5], y.reshape(-1)[:5]))
                cnt["compared"] += 1
        core.monitor(F_ALL, 0, 0, 0)
        cnt["balanced"] += balance(core, before, "released model " + desc)
        cnt["released_models"] += 1
        core.raise_monitor("package:")
    return dict(n=3, count=cnt, keys=[("package", desc)], sample=desc)


CODES = {"exc": 1, "exit": 7}


def exit(ctx, rng, i):
    k = i * 2 + ctx.job["shard"]
    how = HOWS[k % len(HOWS)]
    note(ctx, "exit:" + how)
    nd = int(rng.integers(1, 4))
    shape = [int(v) for v in rng.integers(1, 9, nd)]
    A = dict(lib=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"), checks=os.path.dirname(os.path.abspath(__file__)),
             dir=ctx.cfg["dir"], package=False, ncpu=int(rng.integers(1, 5)), sched=SCHEDS[int(rng.integers(len(SCHEDS)))],
             seed=int(rng.integers(1, 1 << 30)), delay=int(rng.integers(0, 2)) * 400, shape=shape, tile=[int(rng.integers(1, s + 1)) for s in shape],
             ops=[["add", "scal", "relu", "copy"][int(v)] for v in rng.integers(0, 4, 3)], nwork=int(rng.integers(0, 40)), how=how)
    import json
    for attempt in range(2):
        try:
            p = subprocess.run([sys.executable, "-c", SCRIPT, json.dumps(A)], capture_output=True, timeout=60, cwd=ctx.cfg["home"])
            rc, out = p.returncode, (p.stdout + p.stderr).decode(errors="replace")
        except subprocess.TimeoutExpired as e:
            rc, out = "hang", (e.stdout or b"").decode(errors="replace")
            continue
        break
    want = CODES.get(how, 0)
    if "@@ready" not in out:
        raise RuntimeError("script failed: %s %s" % (rc, out[-1500:]))
    if rc != want:
        raise Violation("exit:%s" % how, "process ending by '%s' with %s ended with %s instead of %s: %s" % (how, A, rc, want, out[-900:]))
    if how != "exc" and how != "exit" and "@@end" not in out:
        raise Violation("exit:%s:lost-output" % how, out[-900:])
    return dict(n=1, count=dict(exits=1), keys=[("exit", how)], sample="exit %s %s" % (how, shape))
