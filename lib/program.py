"""Random programs over a shared pool of tensors.

A program is grown while it is executed synchronously (every operation waits, every result is judged
against the mathematical reference); the recorded steps are then replayed asynchronously."""
import numpy as np
from core import NP, Tile_, Violation, same_bits
from catalog import CAT, Problem, Spec
import oprun

POOLABLE = None


def prog_ops():
    return [n for n, o in CAT.items() if o.prog]


def tile_ops():
    """Operations whose single-tile variant takes operands of the same shapes."""
    return [n for n, o in CAT.items() if o.prog and o.tile_ok and n not in ("nrm2", "sumnorm")]


class Universe:
    def __init__(self, rng, small=False, whole=False):
        hi = 6 if small else 9
        sizes = list(rng.permutation(np.arange(1, hi + 1))[:3])
        self.sizes = [int(s) for s in sizes]
        self.fullsize = self.sizes[0]
        self.tiles = self.tiling(rng, whole)

    def tiling(self, rng, whole=False):
        return {s: (s if s == self.fullsize or whole else int(rng.integers(max(1, -(-s // 4)), s + 1))) for s in self.sizes}

    def pairs(self):
        return [(s, self.tiles[s]) for s in self.sizes]


class Step:
    __slots__ = ("p", "bind", "kind", "arg")

    def __init__(self, kind, p=None, bind=None, arg=None):
        self.kind, self.p, self.bind, self.arg = kind, p, bind, arg


class Program:
    def __init__(self, kind):
        self.kind, self.steps = kind, []
        self.tile = False   # operands are single tiles
        self.tens = []      # (kind, sizes tuple with None for fixed leading pair)
        self.init = []      # initial contents
        self.final = None   # contents after the sequential run
        self.mid = {}       # step -> (tensor, contents right after it)

    def describe(self):
        r = []
        for s in self.steps:
            r.append("%s(%s)" % (s.p.op.name if s.p else s.kind, ",".join("%s=t%d" % b for b in (s.bind or {}).items())))
        return "%s tensors=%s %s" % (self.kind, [t[1] for t in self.tens], "; ".join(r))


def shape_tile(u, sizes):
    return tuple(abs(s) for s in sizes), tuple(2 if s == -2 else u[s] for s in sizes)


def make_tensors(core, prog, tiles):
    if prog.tile:
        return [Tile_(core, k, [abs(x) for x in sz], d) for (k, sz), d in zip(prog.tens, prog.init)]
    return [core.tensor(k, *shape_tile(tiles, sz), data=d) for (k, sz), d in zip(prog.tens, prog.init)]


def sizes_of(p, s):
    r = []
    for d in s.dims:
        if isinstance(d, str):
            r.append(p.size[d])
        elif isinstance(d, int):
            r.append(-d)
        else:
            return None
    return tuple(r)


def grow(core, rng, nsteps, kind=None, ops=None, redux=0, judge=True, small=False, maxdims=3, dyad=None, tile=False):
    """Generates and synchronously executes a program; returns it with reference contents.
    dyad=(limit, granularity): all values stay multiples of the granularity and below the limit, so that sums and products are exact."""
    u = Universe(rng, small, tile)
    prog = Program(kind or ("fp32", "fp64")[int(rng.integers(2))])
    prog.tile = tile
    names = ops or (tile_ops() if tile else prog_ops())
    T, val = [], []
    pool = {}
    tries = 0
    while len(prog.steps) < nsteps and tries < nsteps * 12:
        tries += 1
        best = again(prog, rng)
        pin = {}
        if best is not None:
            best, pin = (0, best[0]), best[1]
        for _ in range(4 if best is None else 0):
            op = CAT[names[int(rng.integers(len(names)))]]
            try:
                p = op.make(rng, kind=prog.kind, universe=u.pairs(), dyad=dyad is not None)
            except IndexError:
                continue
            if any(len(s.dims) > maxdims for s in p.specs) or tile and hasattr(op, "tile_legal") and not op.tile_legal(p):
                continue
            # prefer operations whose operands already exist: denser dependencies
            miss = sum(1 for s in p.specs if not pool.get((prog.kind if s.kind == "T" else s.kind, sizes_of(p, s)), []))
            if best is None or miss < best[0]:
                best = (miss, p)
        if best is None:
            continue
        p = best[1]
        szs = {s.name: sizes_of(p, s) for s in p.specs}
        if any(z is None for z in szs.values()) or any(np.prod([abs(x) for x in z]) > 400 for z in szs.values()):
            continue
        if "redux" in p.par:
            p.par["redux"] = redux if redux in (0, 1) else int(rng.integers(2))
        bind, used = {}, set()
        D0 = None
        for s in p.specs:
            k = prog.kind if s.kind == "T" else s.kind
            key = (k, szs[s.name])
            cand = [t for t in pool.get(key, []) if t not in used and (t not in pin.values() or pin.get(s.name) == t)]
            if s.name in pin:
                cand = [pin[s.name]]
            fresh = s.kind != "T" or len(cand) < 1 or (len(pool.get(key, [])) < 2 and rng.random() < 0.3)
            if s.kind != "T" and cand and rng.random() < 0.5 or s.name in pin:
                fresh = False
            if fresh:
                D0 = D0 or p.op.data(p, rng)
                d = D0[s.name]
                if s.role in ("out", "tmp"):
                    d = (rng.integers(-4, 5, d.shape) if dyad else rng.standard_normal(d.shape)).astype(d.dtype)
                t = len(prog.tens)
                prog.tens.append(key)
                prog.init.append(d)
                T.append(Tile_(core, k, d.shape, d) if tile else core.tensor(k, *shape_tile(u.tiles, szs[s.name]), data=d))
                val.append(d)
                pool.setdefault(key, []).append(t)
            else:
                t = cand[int(rng.integers(len(cand)))]
            bind[s.name] = t
            used.add(t)
        D = {n: val[t] for n, t in bind.items()}
        if not legal(p, D):
            continue
        TT = {n: T[t] for n, t in bind.items()}
        start(core, prog, p, TT, True)
        got = {n: x.get() for n, x in TT.items()}
        if judge:
            with np.errstate(all="ignore"):
                oprun.judge(p, D, got, ":in-program", tile=tile)
        prog.steps.append(Step("op", p, bind))
        for n, t in bind.items():
            val[t] = got[n]
        # keep values in a range where comparisons mean something
        for s in p.specs:
            if s.role in ("out", "inout"):
                t = bind[s.name]
                v = val[t]
                if v.dtype.kind == "f" and (not np.isfinite(v).all() or abs(v).max(initial=0) > (dyad[0] if dyad else 1e4)
                                            or dyad and (np.rint(v / dyad[1]) * dyad[1] != v).any()):
                    q = refill(p, s, rng)
                    start(core, prog, q, {"A": T[t]}, True)
                    prog.steps.append(Step("op", q, {"A": t}))
                    val[t] = T[t].get()
    prog.final = [x.get() for x in T]
    for n, (a, b) in enumerate(zip(prog.final, val)):
        if not same_bits(a, b):
            raise Violation("program:contents-changed-later", "tensor t%d changed without an operation on it: %s" % (n, prog.describe()))
    prog.u = u
    for x in T:
        x.free()
    return prog


def again(prog, rng):
    """Now and then a recent accumulation once more, onto the same tensor, with other factors and sources:
    such updates do not commute when they scale what was there before."""
    if rng.random() > 0.15:
        return None
    for st in prog.steps[:-4:-1]:
        b = st.p.par.get("beta", 0.0) if st.kind == "op" else 0.0
        out = [s.name for s in st.p.specs if s.role == "inout"] if b != 0 else []
        if not out:
            continue
        q = Problem(st.p.op)
        q.size, q.full, q.kind, q.specs, q.tile = st.p.size, st.p.full, st.p.kind, st.p.specs, st.p.tile
        q.par = dict(st.p.par)
        q.par["beta"] = float(rng.choice([0.5, -1.0, -2.0, 1.0, 0.25 if not q.par.get("_dyad") else 0.5]))
        if q.par.get("alpha"):
            q.par["alpha"] = float(rng.choice([1.0, -1.0, 0.5]))
        return q, {n: st.bind[n] for n in out}
    return None


def start(core, prog, p, T, blocking):
    if prog.tile:
        return p.op.run_tile(core, p, T, blocking)
    p.op.prepare(p, T)
    p.op.run(core, p, T, blocking)


def refill(p, s, rng):
    q = Problem(CAT["fill"])
    q.kind, q.size, q.tile, q.par = p.kind, p.size, p.tile, dict(val=float(rng.integers(-4, 5)) / 4)
    q.specs = [Spec("A", "T", s.dims, "out")]
    return q


def legal(p, D):
    """Domain restrictions of the mathematical reference."""
    n = p.op.name
    if n in ("sqrt", "sqrt_inplace"):
        return all((D[s.name] >= 0).all() for s in p.specs if s.role != "out")
    if n == "pow":
        return (D["A"] > 0.05).all()
    if n == "addcdiv":
        return (abs(D["denom"] + p.par["eps"]) > 0.05).all()
    if n in ("adam_step", "adamw_step"):
        return p.par["it"] == 1 or (D["v"] >= 0).all()
    if n == "normalize":
        return (D["src"][1] >= abs(D["src"][0]) / np.sqrt(p.par["l"]) * 1.001).all() and (D["src"][1] >= 0).all()
    return True


def rebind(prog, p, tiles):
    """The step's problem under another tiling of the universe."""
    q = Problem(p.op)
    q.size, q.full, q.par, q.kind, q.specs = p.size, p.full, p.par, p.kind, p.specs
    q.tile = {l: tiles[s] for l, s in p.size.items()}
    return q


def replay(core, prog, tiles=None, rng=None, read_mid=0, redux=None):
    """Submit the whole program asynchronously. Yields nothing; returns (tensors, mid reads)."""
    tiles = tiles or prog.u.tiles
    T = make_tensors(core, prog, tiles)
    for st in prog.steps:
        q = st.p if redux is None else with_redux(st.p, redux)
        TT = {n: T[t] for n, t in st.bind.items()}
        q.op.prepare(q, TT)
        q.op.run(core, q, TT, False)
    return T


def with_redux(p, r):
    if "redux" not in p.par:
        return p
    q = Problem(p.op)
    q.size, q.full, q.kind, q.specs, q.tile = p.size, p.full, p.kind, p.specs, p.tile
    q.par = dict(p.par, redux=r)
    return q
