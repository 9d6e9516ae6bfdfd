from _ops import *
import program
import layers as ly
RULE = ("each case grows a random program (8-40 operations over a small shared pool of tensors, or of single tiles) synchronously, judging every "
        "step against its mathematical reference, then submits the recorded program asynchronously 3 times (6 thorough) "
        "under random task delays; the worker count and the scheduling policy vary between processes. Checked per replay: "
        "final and intermediate contents bit for bit, host reads without waiting, all tasks finished after wait or "
        "after any blocking operation, and an event-log check that every conflicting pair of accesses ran in submission "
        "order. Group 'blocking': the blocking form of every catalogued operation, of copy, copy_intersection, scatter, gather, randn, "
        "from_array (tensors) and of every single-tile operation, with every task delayed by up to 3 ms: at return as many tasks "
        "have run as were submitted. Group 'layer': blocking forward and backward of a random layer in the same way, then twice asynchronously with the same bits and "
        "an ordered event log. Group 'update': every operation with a factor beta, three times onto the same tensor or tile, the sources of the first made late: the bits of running them "
        "one by one. distinct = distinct execution orders (digest of task start order); non-trivial: tasks overlapped in time")
ASSUME = ["StarPU orders tasks by the access modes declared at submission", "job ids grow in submission order"]
REQUIRE = {"evaluations": 60, "distinct": 100, "ordered_pairs": 2000, "overlaps": 50, "events": 3000, "tile_programs": 10, "blocking_calls": 300, "blocking_functions": 90, "layer_calls": 200, "updates": 60}


def jobs(tier):
    n = 14 if tier == "quick" else 220
    return [dict(flavour="plain", group="prog", shard=s, n=n, ncpu=[4, 2, 3, 8, 1, 4, 6, 4][s], sched=SCHEDS[s],
                 delay=[300, 600, 150, 400, 100, 800, 200, 300][s], flags=F_ALL | F_LOG) for s in range(8)] + \
        op_jobs(tier, len(BLOCKING) // 8 * 3, len(BLOCKING) // 8 * 20, group="blocking") + \
        op_jobs(tier, 16, 300, group="layer") + \
        op_jobs(tier, 12, 200, group="update")


MOVES = ["copy_intersection", "gather", "scatter", "randn", "from_array"]
BLOCKING = [("tensor", n) for n in CAT] + [("tile", n) for n in CAT if CAT[n].tile_ok] + [("move", n) for n in MOVES]


def setup(job, cfg):
    c = op_setup(job, cfg, package=True if job["group"] == "layer" else None)
    c.seen = set()
    return c


def blocking_case(ctx, rng, i):
    """One blocking call while every task takes its time: nothing may be pending when it returns."""
    core = ctx.core
    form, name = BLOCKING[(i * 8 + ctx.job["shard"]) % len(BLOCKING)]
    note(ctx, "%s (%s)" % (name, form))
    core.monitor(F_ALL, 0, 0, 0)
    core.wait()
    slow = lambda: core.monitor(F_ALL | F_DELAY, int(rng.integers(1, 2 ** 40)), 3000, 256)
    kind = str(rng.choice(["fp32", "fp64"]))
    if form == "move":
        sh = [int(rng.integers(2, 7)) for _ in range(int(rng.integers(1, 4)))]
        ti = [int(rng.integers(1, s)) for s in sh]
        z = lambda t: core.tensor(kind, tuple(sh), tuple(t), np.zeros(sh))
        a, b = z(sh if name == "scatter" else ti), z(sh if name == "gather" else ti)
        o = [0] * len(sh)
        f = getattr(core.t, "%s_%s" % (name, kind), None)
        sub = core.stats()["submitted"]
        slow()
        if name == "copy_intersection":
            f(a.x, o, b.x, [1] + o[1:])
        elif name == "randn":
            f(a.x, o, sh, 3, 0.0, 1.0)
        elif name == "from_array":
            a.x.from_array(np.ones(sh, order="F"))
        else:
            f(a.x, b.x)
        T = {"a": a, "b": b}
        desc = "%s %s/%s" % (name, sh, ti)
    else:
        op = CAT[name]
        for _ in range(50):
            p = op.make(rng, small=True)
            if form == "tensor" or not hasattr(op, "tile_legal") or op.tile_legal(p):
                break
        if form == "tile":
            p = p.retile(rng, whole=True)
        D = op.data(p, rng)
        if form == "tile":
            D = {s.name: D[s.name] if D[s.name].shape == p.shape(s)[0] else np.zeros(p.shape(s)[0], D[s.name].dtype) for s in p.specs}
        T = oprun.setup(core, p, D, form == "tile")
        if form == "tensor":
            op.prepare(p, T)
        sub = core.stats()["submitted"]
        slow()
        (op.run_tile if form == "tile" else op.run)(core, p, T, True)
        desc = p.describe()
    s = core.stats()
    core.monitor(F_ALL, 0, 0, 0)
    core.wait()
    for x in T.values():
        x.free()
    if s["executed"] < s["submitted"]:
        raise Violation("%s:returned-before-work-finished" % name, "blocking %s (%s) returned with %d of its %d tasks still pending: %s" % (
            name, form, s["submitted"] - s["executed"], s["submitted"] - sub, desc))
    core.raise_monitor(name + ":")
    new = (form, name) not in ctx.seen
    ctx.seen.add((form, name))
    return dict(n=1, count=dict(blocking_calls=1, blocking_functions=int(new and s["submitted"] > sub)), keys=[("blocking", form, name)] if s["submitted"] > sub else [],
                sample="blocking " + desc)


def updates():
    r = []
    for n, o in CAT.items():
        p = o.make(np.random.default_rng(1), small=True)
        if "beta" in p.par:
            r.append(n)
    return r


def update_case(ctx, rng, i):
    """Two updates that scale what was there before, onto the same tensor; the sources of the first are long in coming,
    those of the second are there at once. The result must be that of running them one after the other."""
    core = ctx.core
    names = ctx.seen_updates = getattr(ctx, "seen_updates", None) or updates()
    op = CAT[names[(i * 8 + ctx.job["shard"]) % len(names)]]
    note(ctx, op.name + " (updates)")
    tile = op.tile_ok and rng.random() < 0.4
    for _ in range(200):
        p = op.make(rng, small=bool(rng.random() < 0.7))
        if p.par["beta"] != 0 and any(s.role == "inout" for s in p.specs) and (not tile or not hasattr(op, "tile_legal") or op.tile_legal(p)):
            break
    else:
        return dict(n=0)
    if "redux" in p.par:
        p.par["redux"] = 0
    tile = tile and all(op.tile_specs(p)[s.name] == p.shape(s)[0] for s in p.specs)
    if tile:
        p = p.retile(rng, whole=True)
    par = []
    for b in (0.5, -2.0, float(rng.choice([1.0, 0.25]))):
        q = dict(p.par, beta=b)
        if q.get("alpha"):
            q["alpha"] = float(rng.choice([1.0, -1.0, 0.5]))
        par.append(q)
    Ds = [op.data(p, rng) for _ in par]
    outs = [s.name for s in p.specs if s.role in ("inout", "out", "tmp")]
    res, desc = [], p.describe()
    late = [s.name for s in p.specs if s.role == "in" and s.kind == "T"]
    flip = "scal_inplace_async_%s" % p.kind
    for mode in ("one by one", "asynchronous", "asynchronous"):
        core.monitor(F_ALL, 0, 0, 0)
        core.wait()
        Ts = []
        for D in Ds:
            T = oprun.setup(core, p, D, tile)
            if Ts:
                for n in outs:
                    T[n].free()
                    T[n] = Ts[0][n]
            Ts.append(T)
        core.wait()
        core.reset_log()
        core.monitor(F_ALL | F_DELAY | F_LOG, int(rng.integers(1, 2 ** 40)), 2000, 256)
        for n in late:
            for _ in range(2):
                getattr(core.v.tile if tile else core.t, flip)(-1.0, Ts[0][n].x)
        for q, T in zip(par, Ts):
            p.par = q
            if tile:
                op.run_tile(core, p, T, False)
            else:
                op.prepare(p, T)
                op.run(core, p, T, False)
            if mode == "one by one":
                core.wait()
        got = {n: Ts[0][n].get() for n in outs}
        core.wait()
        all_done(core, "wait_for_all")
        nbad, o, msg = core.check_order()
        if nbad:
            raise Violation("conflicting-accesses-out-of-order", msg + " in updates " + desc)
        core.monitor(F_ALL, 0, 0, 0)
        core.raise_monitor(op.name + ":")
        for j, T in enumerate(Ts):
            for n, x in T.items():
                if j == 0 or n not in outs:
                    x.free()
        for n in outs:
            if res and not same_bits(got[n], res[0][n]):
                raise Violation("%s:updates-reordered" % op.name, "%s of %s (%s) after updates with beta %s: %s, one by one %s" % (
                    n, desc, "tile" if tile else "tensor", [q["beta"] for q in par], got[n].reshape(-1)[:6], res[0][n].reshape(-1)[:6]))
        res.append(got)
    return dict(n=2, count=dict(updates=1, ordered_pairs=o[1], events=o[0], overlaps=o[2]), keys=[("update", desc)], sample="updates " + desc)


def layer_case(ctx, rng, i):
    """Blocking forward and backward of a layer; then the same asynchronously: same bits, conflicting accesses in order."""
    core = ctx.core
    name = ly.LAYERS[(i + ctx.job["shard"] * 2) % len(ly.LAYERS)]
    note(ctx, "layer." + name)
    core.monitor(F_ALL, 0, 0, 0)
    core.wait()
    seed, kind = int(rng.integers(1 << 40)), str(rng.choice(["fp32", "fp64"]))
    res, cnt, keys, done = [], dict(layer_calls=0, events=0, ordered_pairs=0, overlaps=0), [], 0
    for mode in ("blocking", "async", "async"):
        r = np.random.default_rng(seed)
        node = ly.make(core, r, name, kind)
        for p in node.params:
            ly.put(p.value, ly.values(r, p.value.shape, kind))
            ly.put(p.grad, ly.values(r, p.value.shape, kind))
        uins = list({id(x): x for x in node.ins}.values())
        for x in uins:
            ly.put(x.value, ly.values(r, x.value.shape, kind))
            if x.grad is not None:
                ly.put(x.grad, ly.values(r, x.value.shape, kind))
        ly.put(node.out.grad, ly.values(r, node.out.value.shape, kind))
        for t in node.clear:
            if t.grad is not None:
                ly.put(t.grad, np.zeros(t.grad.shape, ly.NP[kind]))
        core.wait()
        core.reset_log()
        core.monitor(F_ALL | F_DELAY | F_LOG, int(rng.integers(1, 2 ** 40)), 1500, 200)
        for step in ("forward", "backward"):
            if mode == "blocking":
                getattr(node.layer, step)()
                all_done(core, "%s.%s (%s)" % (name, step, node.desc))
                cnt["layer_calls"] += 1
            else:
                getattr(node.layer, step + "_async")()
        read = [node.out.value] + [m.grad for m in uins + list(node.params) if m.grad is not None]
        got = {j: ly.get(read[j], kind) for j in rng.permutation(len(read)).tolist()}
        core.wait()
        all_done(core, "wait_for_all")
        nbad, o, msg = core.check_order()
        if nbad:
            raise Violation("conflicting-accesses-out-of-order", msg + " in " + node.desc)
        cnt["events"] += o[0]
        cnt["ordered_pairs"] += o[1]
        cnt["overlaps"] += o[2]
        if o[2]:
            keys.append(o[3])
        core.monitor(F_ALL, 0, 0, 0)
        core.raise_monitor("layer." + name + ":")
        if mode != "blocking":
            for j in got:
                if not same_bits(got[j], res[0][j]):
                    raise Violation("layer:async-differs-from-blocking", "result %d of %s: %s, blocking %s" % (
                        j, node.desc, got[j].reshape(-1)[:6], res[0][j].reshape(-1)[:6]))
        res.append(got)
        desc = node.desc
        ly.free(node)
    return dict(n=len(res), count=cnt, keys=keys, sample=desc)


def all_done(core, when):
    s = core.stats()
    # tasks that initialise or merge private copies of a reduction are added by the runtime itself
    if s["executed"] < s["submitted"]:
        raise Violation("returned-before-work-finished:" + when,
                        "%s returned with %d of %d submitted tasks executed" % (when, s["executed"], s["submitted"]))


def case(ctx, rng, i):
    if ctx.job["group"] == "blocking":
        return blocking_case(ctx, rng, i)
    if ctx.job["group"] == "update":
        return update_case(ctx, rng, i)
    if ctx.job["group"] == "layer":
        return layer_case(ctx, rng, i)
    core = ctx.core
    ctx.what = "program"
    tier = ctx.cfg["tier"]
    core.monitor(F_ALL, 0, 0, 0)
    prog = program.grow(core, rng, int(rng.integers(8, 41)), tile=i % 4 == 3)
    if len(prog.steps) < 3:
        return dict(n=0)
    core.raise_monitor("program:")
    keys, cnt = [], dict(events=0, ordered_pairs=0, overlaps=0, replays=0, mid_reads=0, steps=len(prog.steps), tile_programs=int(prog.tile))
    for k in range(3 if tier == "quick" else 6):
        note(ctx, "program")
        core.wait()
        core.reset_log()
        mode = k % 3
        core.monitor(ctx.job["flags"] | F_DELAY, int(rng.integers(1, 2 ** 40)), ctx.job["delay"], 90)
        T = program.make_tensors(core, prog, prog.u.tiles)
        cut = int(rng.integers(len(prog.steps)))
        for j, st in enumerate(prog.steps):
            TT = {n: T[t] for n, t in st.bind.items()}
            block = mode == 1 and j == cut
            program.start(core, prog, st.p, TT, block)
            if block:
                all_done(core, st.p.op.name)
        if mode == 0:
            core.wait()
            all_done(core, "wait_for_all")
        order = rng.permutation(len(T))
        for t in order:
            # modes 1 and 2 read at once: the transfer itself has to wait for the pending work
            g = T[t].get()
            cnt["mid_reads"] += 1
            if not same_bits(g, prog.final[t]):
                raise Violation("async-differs-from-sequential", "t%d after asynchronous run: %s, expected %s (%s)" % (
                    t, g.reshape(-1)[:6], prog.final[t].reshape(-1)[:6], prog.describe()[:1500]))
        core.wait()
        all_done(core, "wait_for_all")
        for x in T:
            x.free()
        nbad, o, msg = core.check_order()
        if nbad:
            raise Violation("conflicting-accesses-out-of-order", msg + " in " + prog.describe()[:1500])
        core.raise_monitor("program:")
        cnt["events"] += o[0]
        cnt["ordered_pairs"] += o[1]
        cnt["overlaps"] += o[2]
        cnt["replays"] += 1
        if o[2]:
            keys.append(o[3])
    return dict(n=cnt["replays"], count=cnt, keys=keys, sample=prog.describe())
