"""Catalogue of tensor operations: how to make a call, what is legal, and what it must compute.

A problem is described by *labelled* dimensions: every tensor of a call lists the labels of its
dimensions, and equal labels mean equal size and equal tile size.  Tilings, invalid mutations,
single-tile variants and reference results are all derived from that one description.

References are written from the mathematics in extended precision; each returns
    {output: (want, scale, factor)}
where |got-want| <= factor*eps*scale is what a correct implementation achieves with ample slack.
"""
import math
import numpy as np
from core import NP, EPS

LD = np.longdouble
erf_np = None


def _erf(x):
    """erf and erfc in double precision through torch or math (vectorised)."""
    x = np.asarray(x, dtype=np.float64)
    return np.vectorize(math.erf, otypes=[np.float64])(x)


def _erfc(x):
    x = np.asarray(x, dtype=np.float64)
    return np.vectorize(math.erfc, otypes=[np.float64])(x)


class Spec:
    __slots__ = ("name", "kind", "dims", "role")

    def __init__(self, name, kind, dims, role):
        self.name, self.kind, self.dims, self.role = name, kind, list(dims), role


class Problem:
    """One call: operation, labelled sizes, tile sizes, tensor list, parameters."""
    def __init__(self, op):
        self.op, self.size, self.tile, self.full = op, {}, {}, set()
        self.par, self.specs, self.kind = {}, [], None

    # -- dims ------------------------------------------------------------------------------------
    def shape(self, s):
        r = []
        for d in s.dims:
            if isinstance(d, str):
                r.append((self.size[d], self.tile[d]))
            elif isinstance(d, int):
                r.append((d, d))
            else:
                r.append(d(self))
        return tuple(x[0] for x in r), tuple(x[1] for x in r)

    def grid(self, s):
        sh, ti = self.shape(s)
        return tuple(-(-a // b) for a, b in zip(sh, ti))

    def describe(self):
        return "%s<%s> %s par=%s" % (
            self.op.name, self.kind,
            " ".join("%s%s/%s" % (s.name, list(self.shape(s)[0]), list(self.shape(s)[1])) for s in self.specs),
            {k: v for k, v in self.par.items()})

    def retile(self, rng, whole=False):
        """A copy with other tile sizes."""
        q = Problem(self.op)
        q.size, q.full, q.par, q.kind = dict(self.size), set(self.full), dict(self.par), self.kind
        q.specs = self.specs
        q.tile = {l: (s if whole or l in q.full else pick_tile(rng, s)) for l, s in q.size.items()}
        self.op.fix_tiles(q, rng, whole)
        return q

    def ntiles(self):
        return max([int(np.prod(self.grid(s))) for s in self.specs] + [1])

    def multi(self):
        return self.ntiles() > 1

    def partial(self):
        return any(a % b for s in self.specs for a, b in zip(*self.shape(s)))


def pick_size(rng, small=False):
    u = rng.random()
    if u < 0.12:
        return 1
    if u < 0.9 or small:
        return int(rng.integers(2, 8))
    return int(rng.integers(8, 34))


def pick_wide(rng):
    """Sizes around those where blocked or vectorised code changes path."""
    b = int(rng.choice([32, 64, 100, 128, 256, 512, 600, 1024, 2048, 4096]))
    if b > 1000:
        return b + int(rng.integers(-1, 300))
    return b + int(rng.integers(-1, 3)) if rng.random() < 0.7 else int(rng.integers(34, 701))


def pick_box(rng, n):
    b = int(rng.choice([16, 32, 64, 64, 100, 128] if n < 3 else [8, 16, 20, 32]))
    return b + int(rng.integers(-1, max(3, b // 2)))


def pick_tile(rng, s, maxg=5):
    if rng.random() < (0.5 if s > 33 else 0.15):
        return s
    if rng.random() < 0.05:
        maxg = 40           # rarely many tiles
    lo = max(1, -(-s // maxg))
    return int(rng.integers(lo, s + 1))


BOXED = 0.04


class Dims:
    """Source of dimension labels for one problem: random, or drawn from a fixed universe."""
    def __init__(self, rng, p, universe=None, small=False, wide=0.08):
        self.rng, self.p, self.u, self.n, self.small = rng, p, universe, 0, small
        # rarely one long dimension, the others short
        self.wide = int(rng.integers(4)) if universe is None and not small and rng.random() < wide else None
        # rarely many tiles along one dimension
        self.tiled = int(rng.integers(3)) if universe is None and not small and self.wide is None and rng.random() < 0.07 else None
        # rarely two or three sizeable dimensions (where loops are blocked in several of them)
        self.boxed = None
        if universe is None and not small and self.wide is None and self.tiled is None and rng.random() < BOXED:
            self.boxed = [(0, 1), (0, 1), (0, 2), (1, 2), (0, 1, 2), (0, 3), (1, 3)][int(rng.integers(7))]

    def new(self, full=False, size=None):
        l = "d%d" % self.n
        self.n += 1
        if self.u is not None and size is None:
            cand = [x for x in self.u if not full or x[0] == x[1]]
            s, t = cand[int(self.rng.integers(len(cand)))]
        else:
            s = size if size is not None else pick_size(self.rng, self.small)
            if self.wide is not None and size is None:
                s = pick_wide(self.rng) if self.n - 1 == self.wide else min(s, 3)
            if self.tiled is not None and size is None:
                s = int(self.rng.integers(9, 25)) if self.n - 1 == self.tiled else min(s, 4)
            if self.boxed is not None and size is None:
                s = pick_box(self.rng, len(self.boxed)) if self.n - 1 in self.boxed else min(s, 2)
            t = s if full else pick_tile(self.rng, s)
            if self.tiled == self.n - 1 and size is None and not full:
                t = int(self.rng.integers(1, 3))
        self.p.size[l], self.p.tile[l] = s, t
        if full:
            self.p.full.add(l)
        return l

    def many(self, lo, hi):
        n = int(self.rng.integers(lo, hi + 1))
        return [self.new() for _ in range(n)]


SC = [0.0, 1.0, -1.0, 0.5, -2.0, 3.0]


def scalar(rng, zero=True, dyad=False):
    u = rng.random()
    if u < 0.7 or dyad:
        while True:
            x = SC[int(rng.integers(len(SC)))]
            if zero or x != 0.0:
                return x
    return float(np.float32(rng.normal() * 2))


def structure(rng, x):
    """Rarely all, or long runs of, the values are alike: one sign, small, zero, constant, ordered."""
    u = rng.random()
    if u > (0.6 if x.size > 900 else 0.2) or x.size == 0:
        return x
    how = int(rng.integers(7))
    if how == 0:
        x = abs(x)
    elif how == 1:
        x = -abs(x)
    elif how == 2:
        x = np.where(rng.random(x.shape) < 0.93, np.zeros_like(x), x)
    elif how == 3:
        x = np.full_like(x, x.reshape(-1)[0])
    elif how == 4:
        f = np.sort(x.reshape(-1))
        x = (f if rng.random() < 0.5 else f[::-1]).reshape(x.shape, order="F")
    elif how == 5 and x.ndim:
        # whole slices alike
        a = int(rng.integers(x.ndim))
        m = rng.random(x.shape[a]) < 0.5
        x = np.where(m.reshape([-1 if k == a else 1 for k in range(x.ndim)]), x, (x.dtype.type(0) * x) if rng.random() < 0.5 else -abs(x))
    elif how == 6:
        x = x / 1024
    return np.array(x)


class Op:
    """Base: subclass or instantiate with functions."""
    kinds = ("fp32", "fp64")
    groups = ()
    exact = False        # with dyadic data the result is exact whatever the order of operations
    bitwise = False      # the result must be bitwise independent of the tiling
    specials = False     # IEEE special values are in the documented domain
    redux = None
    tile_ok = True       # exists for single tiles with the same argument list
    prog = True          # usable in random programs
    nodup = ()           # mutations to skip: (spec name, what)

    def __init__(self, name):
        self.name = name

    def make(self, rng, kind=None, universe=None, small=False, dyad=False, special=False):
        p = Problem(self)
        p.kind = kind or self.kinds[int(rng.integers(len(self.kinds)))]
        p.par["_dyad"], p.par["_special"] = dyad, special
        D = Dims(rng, p, universe, small, 0.16 if "act" in self.groups or "ew" in self.groups else 0.08)
        self.gen(p, D, rng)
        if universe is None:
            # bound the amount of work
            for _ in range(200):
                big = max(p.specs, key=lambda s: np.prod(p.shape(s)[0]) if s.dims else 1)
                sh, ti = p.shape(big)
                cap = p.par.get("_cap") or (40000 if D.boxed else 6000 if D.wide is None else 12000)
                if (np.prod(sh) if sh else 1) <= cap and p.ntiles() <= 160:
                    break
                labs = [l for l in p.size if 1 < p.size[l] < 34] or [l for l in p.size if p.size[l] > 1]
                l = max(labs, key=lambda l: p.size[l] + (0 if any(l in s.dims for s in p.specs) else -99))
                p.size[l] = max(1, p.size[l] // 2)
                p.tile[l] = p.size[l] if l in p.full else min(p.tile[l], p.size[l])
                if p.size[l] // p.tile[l] > 4:
                    p.tile[l] = p.size[l] // 2
        self.fix_tiles(p, rng, False)
        return p

    def fix_tiles(self, p, rng, whole):
        pass

    def data(self, p, rng):
        r = {}
        for s in p.specs:
            r[s.name] = self.fill(p, s, rng)
        return r

    def tile_specs(self, p):
        """Shapes of the single-tile variant."""
        return {s.name: p.shape(s)[0] for s in p.specs}

    def fill(self, p, s, rng):
        shape = p.shape(s)[0]
        kind = p.kind if s.kind == "T" else s.kind
        if s.role in ("out", "tmp"):
            return np.full(shape, np.nan, dtype=NP[kind]) if kind.startswith("fp") else np.zeros(shape, NP[kind])
        if kind == "bool":
            return rng.random(shape) < 0.6
        if kind == "int64":
            return rng.integers(-50, 50, shape).astype(np.int64)
        if p.par.get("_dyad"):
            x = structure(rng, (rng.integers(-8, 9, shape) * 2.0 ** -int(rng.integers(0, 3))))
            # scaling down keeps the values dyadic but would widen their range
            return np.where(abs(x) < 1 / 64, 0.0, x).astype(NP[kind])
        x = (rng.standard_normal(shape) * 10.0 ** rng.uniform(-1, 1)).astype(NP[kind])
        if p.par.get("_special") and self.specials:
            sp = np.array([0.0, -0.0, np.inf, -np.inf, np.nan, np.finfo(NP[kind]).max / 4096,
                           -np.finfo(NP[kind]).max / 4096, np.finfo(NP[kind]).tiny / 4, 1.0, -1.0])
            m = rng.random(shape) < 0.35
            x = np.where(m, sp[rng.integers(0, len(sp), shape)], x).astype(NP[kind])
            return x
        return structure(rng, x).astype(NP[kind])

    # arguments in call order for the tensor API; T maps spec name -> object
    def args(self, p, T):
        raise NotImplementedError

    def tile_args(self, p, T):
        return self.args(p, T)

    def prepare(self, p, T):
        """Announce the reduction method of the accumulated tensor, as the library requires."""
        if p.par.get("redux") and self.redux:
            for s in p.specs:
                if s.role in ("out", "inout"):
                    getattr(T[s.name].x, "set_reduction_" + self.redux)()

    fname = None         # name in the library when it differs

    def run(self, core, p, T, blocking=True, t=None):
        """Through the extension module or, when the problem says so, through the Python-level function."""
        a = self.args(p, {k: v.x for k, v in T.items()})
        n = self.fname or self.name
        if p.par.get("_py"):
            if n.startswith("adam"):
                it, b1, b2, eps, lr, wd, g, m, v, x = a
                getattr(core.nntile.tensor, "fused_" + n)(x, g, m, v, lr, eps, b1, b2, wd, it)
            else:
                getattr(core.nntile.tensor, n + "_async")(*a)
            if blocking:
                core.wait()
            return
        getattr(core.t, "%s_%s%s" % (n, "" if blocking else "async_", p.kind))(*a)

    def run_tile(self, core, p, T, blocking=True):
        f = getattr(core.v.tile, "%s_%s%s" % (self.fname or self.name, "" if blocking else "async_", p.kind))
        f(*self.tile_args(p, {k: v.x for k, v in T.items()}))

    def ref(self, p, D):
        raise NotImplementedError

    # invalid variants: list of (description, Problem-like override); see validate.py
    def bad_params(self, p, rng):
        return []


CAT = {}


def reg(op):
    CAT[op.name] = op
    return op


def ld(D):
    return {k: (v.astype(LD) if np.asarray(v).dtype.kind == "f" else v) for k, v in D.items()}


def out_dims(specs):
    return [s for s in specs if s.role in ("out", "inout")]


# ---- element-wise --------------------------------------------------------------------------------
class EW(Op):
    groups = ("ew",)
    bitwise = True
    specials = True

    def __init__(self, name, tens, pars, call, ref, exact=False, specials=True, dom=None, tile_ok=True, maxdim=4, groups=("ew",)):
        """tens: list of (name, role) or functions of par; pars: rng->dict; call: (par,T)->args;
        ref: (par, D)->{out:(want,scale,factor)}; dom: optional map of the data onto the domain."""
        super().__init__(name)
        self.tens, self.pars, self.call, self.refn = tens, pars, call, ref
        self.exact, self.specials, self.dom, self.tile_ok, self.maxdim = exact, specials, dom, tile_ok, maxdim
        self.groups = groups

    def gen(self, p, D, rng):
        p.par.update(self.pars(rng, p.par["_dyad"], p.par["_special"]))
        dims = D.many(0 if rng.random() < 0.1 else 1, self.maxdim)
        for n, role in self.tens:
            r = role(p.par) if callable(role) else role
            p.specs.append(Spec(n, "T", dims, r))

    def fill(self, p, s, rng):
        x = super().fill(p, s, rng)
        if self.dom and s.role not in ("out", "tmp"):
            x = self.dom(s.name, x).astype(x.dtype)
        return x

    def args(self, p, T):
        return self.call(p.par, T)

    def ref(self, p, D):
        with np.errstate(all="ignore"):
            return self.refn(p.par, ld(D))


def ab(rng, dyad, special):
    z = not special
    return dict(alpha=scalar(rng, z, dyad), beta=scalar(rng, z, dyad))


def a1(rng, dyad, special):
    return dict(alpha=scalar(rng, not special, dyad))


none = lambda rng, dyad, special: {}
dst0 = lambda par: "out" if par["beta"] == 0 else "inout"


def zmul(a, x):
    """a*x with the convention that a zero factor removes the term."""
    return np.zeros_like(x) if a == 0 else LD(a) * x


def r_add(q, D):
    a, b = zmul(q["alpha"], D["src"]), zmul(q["beta"], D["dst"])
    return {"dst": (a + b, abs(a) + abs(b), 4)}


reg(EW("add", [("src", "in"), ("dst", dst0)], ab, lambda q, T: (q["alpha"], T["src"], q["beta"], T["dst"]), r_add, exact=True))
reg(EW("axpy", [("src", "in"), ("dst", "inout")], a1, lambda q, T: (q["alpha"], T["src"], T["dst"]),
       lambda q, D: {"dst": (zmul(q["alpha"], D["src"]) + D["dst"], abs(zmul(q["alpha"], D["src"])) + abs(D["dst"]), 4)},
       exact=True))


class AxpyT(EW):
    """axpy whose factor is a scalar tensor, possibly still being computed."""
    fname = "axpy"

    def gen(self, p, D, rng):
        super().gen(p, D, rng)
        p.specs.insert(0, Spec("alpha", "T", [], "in"))


reg(AxpyT("axpy_tensor", [("src", "in"), ("dst", "inout")], none, lambda q, T: (T["alpha"], T["src"], T["dst"]),
          lambda q, D: {"dst": (D["alpha"] * D["src"] + D["dst"], abs(D["alpha"] * D["src"]) + abs(D["dst"]), 4)},
          exact=True, specials=False))
reg(EW("scal", [("src", "in"), ("dst", "out")], a1, lambda q, T: (q["alpha"], T["src"], T["dst"]),
       lambda q, D: {"dst": (LD(q["alpha"]) * D["src"], abs(LD(q["alpha"]) * D["src"]), 2)}, exact=True))
reg(EW("scal_inplace", [("data", "inout")], a1, lambda q, T: (q["alpha"], T["data"]),
       lambda q, D: {"data": (LD(q["alpha"]) * D["data"], abs(LD(q["alpha"]) * D["data"]), 2)}, exact=True))
reg(EW("add_scalar", [("dst", "inout")], ab, lambda q, T: (q["alpha"], q["beta"], T["dst"]),
       lambda q, D: {"dst": (LD(q["alpha"]) + LD(q["beta"]) * D["dst"], abs(LD(q["alpha"])) + abs(LD(q["beta"]) * D["dst"]), 4)},
       exact=True))
reg(EW("prod", [("src", "in"), ("dst", "inout")], none, lambda q, T: (T["src"], T["dst"]),
       lambda q, D: {"dst": (D["src"] * D["dst"], abs(D["src"] * D["dst"]), 2)}, exact=True))
reg(EW("maximum", [("src", "in"), ("dst", "inout")], none, lambda q, T: (T["src"], T["dst"]),
       lambda q, D: {"dst": (np.fmax(D["src"], D["dst"]), 0, 0)}, exact=True,
       dom=lambda n, x: np.where(np.isnan(x), 1.5, x)))
reg(EW("hypot", [("src", "in"), ("dst", dst0)], ab, lambda q, T: (q["alpha"], T["src"], q["beta"], T["dst"]),
       lambda q, D: {"dst": ((lambda a, b: (np.hypot(a, b), np.hypot(a, b), 8))(zmul(q["alpha"], D["src"]), zmul(q["beta"], D["dst"])))}))
reg(EW("hypot_scalar_inverse", [("dst", "inout")],
       lambda rng, dyad, sp: dict(eps=float(np.float32(abs(rng.normal()) + 1e-3)), alpha=scalar(rng, True, dyad)),
       lambda q, T: (q["eps"], q["alpha"], T["dst"]),
       lambda q, D: {"dst": ((lambda w: (w, abs(w), 8))(1 / np.hypot(LD(q["alpha"]) * D["dst"], LD(q["eps"]))))},
       tile_ok=False, specials=False))
reg(EW("pow", [("A", "inout")],
       lambda rng, dyad, sp: dict(alpha=scalar(rng, False, dyad), exp=[2.0, 1.0, -1.0, 0.5, 3.0, -0.5, 0.0, 1.25][int(rng.integers(8))]),
       lambda q, T: (q["alpha"], q["exp"], T["A"]),
       lambda q, D: {"A": ((lambda w: (w, abs(w), 12))(LD(q["alpha"]) * np.power(D["A"], LD(q["exp"]))))},
       specials=False, dom=lambda n, x: abs(x) + 0.125))
reg(EW("sqrt", [("src", "in"), ("dst", "out")], none, lambda q, T: (T["src"], T["dst"]),
       lambda q, D: {"dst": (np.sqrt(D["src"]), np.sqrt(abs(D["src"])), 3)}))
reg(EW("sqrt_inplace", [("A", "inout")], none, lambda q, T: (T["A"],),
       lambda q, D: {"A": (np.sqrt(D["A"]), np.sqrt(abs(D["A"])), 3)}))


def r_addcdiv(q, D):
    t = LD(q["val"]) * D["nom"] / (D["denom"] + LD(q["eps"]))
    return {"src": (D["src"] + t, abs(D["src"]) + abs(t), 12)}


reg(EW("addcdiv", [("nom", "in"), ("denom", "in"), ("src", "inout")],
       lambda rng, dyad, sp: dict(val=scalar(rng, True, dyad), eps=[0.0, 0.5, 1e-3][int(rng.integers(3))]),
       lambda q, T: (q["val"], q["eps"], T["nom"], T["denom"], T["src"]), r_addcdiv, specials=False,
       dom=lambda n, x: abs(x) + 0.25 if n == "denom" else x))
reg(EW("fill", [("A", "out")], lambda rng, d, s: dict(val=[0.0, -1.5, 2.0 ** -99, float("inf"), 2.0 ** 20][int(rng.integers(5))]),
       lambda q, T: (q["val"], T["A"]),
       lambda q, D: {"A": (np.full(D["A"].shape, LD(q["val"])), abs(LD(q["val"])) if math.isfinite(q["val"]) else 0, 1)}, exact=True))
reg(EW("clear", [("A", "out")], none, lambda q, T: (T["A"],),
       lambda q, D: {"A": (np.zeros(D["A"].shape, LD), 0, 0)}, exact=True))
reg(EW("copy", [("src", "in"), ("dst", "out")], none, lambda q, T: (T["src"], T["dst"]),
       lambda q, D: {"dst": (D["src"], 0, 0)}, exact=True))


class MaskScalar(Op):
    groups = ("ew",)
    bitwise = True
    exact = True
    specials = True

    def gen(self, p, D, rng):
        lead, batch = D.many(0 if rng.random() < 0.15 else 1, 3), D.many(0, 2)
        p.par.update(val=[0.0, float("-inf"), -3.5, 1e10][int(rng.integers(4))], batch_ndim=len(batch))
        p.specs = [Spec("mask", "bool", lead, "in"), Spec("A", "T", lead + batch, "inout")]

    def args(self, p, T):
        return (T["mask"], p.par["val"], T["A"], p.par["batch_ndim"])

    def tile_args(self, p, T):
        return (T["mask"], p.par["val"], T["A"])

    def tile_legal(self, p):
        return p.par["batch_ndim"] == 1

    def ref(self, p, D):
        m = D["mask"].reshape(D["mask"].shape + (1,) * p.par["batch_ndim"])
        v = LD(NP[p.kind](p.par["val"]))
        return {"A": (np.where(m, D["A"].astype(LD), v), 0, 0)}

    def bad_params(self, p, rng):
        return [("batch_ndim", p.par["batch_ndim"] + 1), ("batch_ndim", -1)]


reg(MaskScalar("mask_scalar"))

# ---- activations ---------------------------------------------------------------------------------
S2 = LD(2) ** LD(0.5)
PI = LD("3.14159265358979323846264338327950288")


def f_gelu(x):
    return x * (LD(0.5) * _erfc(-x / S2))


def f_dgelu(x):
    pdf = np.exp(-x * x / 2) / np.sqrt(2 * PI)
    return LD(0.5) * _erfc(-x / S2) + np.where(np.isfinite(x), x, 0) * pdf


K1, K2 = np.sqrt(2 / PI), np.sqrt(2 / PI) * LD("0.044715")


def sig(y):
    y = np.asarray(y)
    e = np.exp(-abs(y))
    return np.where(y >= 0, 1 / (1 + e), e / (1 + e))


def f_gelut(x):
    # x/2*(1+tanh(y)) = x*sigmoid(2y)
    return x * sig(2 * (K1 * x + K2 * x ** 3))


def f_dgelut(x):
    y = 2 * (K1 * x + K2 * x ** 3)
    s, c = sig(y), sig(-y)
    d = x * 2 * (K1 + 3 * K2 * x * x)
    return s + np.where(s * c == 0, 0, d * s * c)


def act_dom(name, x):
    """Moderate values with tails: activations must be finite for every finite input."""
    return x


class Act(Op):
    groups = ("act",)
    bitwise = True

    def __init__(self, name, form, fn, sc, factor=24, deriv=False):
        super().__init__(name)
        self.form, self.fn, self.sc, self.factor = form, fn, sc, factor
        self.exact = name.startswith(("relu", "drelu"))

    def gen(self, p, D, rng):
        dims = D.many(0 if rng.random() < 0.1 else 1, 4)
        if self.form == "inplace":
            p.specs = [Spec("A", "T", dims, "inout")]
        elif self.form == "forward":
            p.specs = [Spec("src", "T", dims, "in"), Spec("dst", "T", dims, "out")]
        else:
            p.specs = [Spec("x", "T", dims, "in"), Spec("dy", "T", dims, "in"), Spec("dx", "T", dims, "inout")]
        p.par["tail"] = float(rng.choice([0, 0, 1, 2, 4, 8, 12, 18, 30]))

    def fill(self, p, s, rng):
        x = super().fill(p, s, rng)
        if s.name in ("A", "src", "x") and s.role != "out" and not p.par["_dyad"]:
            # log-uniform magnitudes up to 10**tail: "every finite input"
            m = rng.random(x.shape) < 0.5
            big = rng.choice([-1.0, 1.0], x.shape) * 10.0 ** rng.uniform(-3, max(p.par["tail"], 0.6), x.shape)
            x = np.where(m, big, x).astype(x.dtype)
            z = rng.random(x.shape)
            x = np.where(z < 0.03, 0.0, np.where(z < 0.05, -0.0, x)).astype(x.dtype)
            x = structure(rng, x).astype(x.dtype)
        return x

    def args(self, p, T):
        if self.form == "inplace":
            return (T["A"],)
        if self.form == "forward":
            return (T["src"], T["dst"])
        return (T["x"], T["dy"], T["dx"])

    def ref(self, p, D):
        D = ld(D)
        with np.errstate(all="ignore"):
            if self.form == "inplace":
                x = D["A"]
                return {"A": (self.fn(x), self.sc(x), self.factor)}
            if self.form == "forward":
                x = D["src"]
                return {"dst": (self.fn(x), self.sc(x), self.factor)}
            x = D["x"]
            t = self.fn(x) * D["dy"]
            return {"dx": (D["dx"] + t, abs(D["dx"]) + self.sc(x) * abs(D["dy"]), self.factor)}


relu = lambda x: np.where(x > 0, x, LD(0))
drelu = lambda x: np.where(x > 0, LD(1), LD(0))
# value: rounding of x itself; near zero the value is about x/2
sc_v = lambda x: abs(x)
# derivative: condition x*f'' is bounded; the tanh form also carries the rounding of its cubic
sc_d = lambda x: 1 + np.minimum(abs(x), 8)
sc_vt = lambda x: abs(x) * (1 + np.minimum(abs(x), 12) ** 1)
sc_dt = lambda x: (1 + np.minimum(abs(x), 12)) ** 2

for n in ("relu",):
    reg(Act(n, "inplace", relu, lambda x: 0 * x, 0))
reg(Act("relu_forward", "forward", relu, lambda x: 0 * x, 0))
reg(Act("relu_backward", "backward", drelu, lambda x: 1 + 0 * x, 3))
reg(Act("drelu", "inplace", drelu, lambda x: 0 * x, 0))
reg(Act("gelu", "inplace", f_gelu, sc_v))
reg(Act("dgelu", "inplace", f_dgelu, sc_d))
reg(Act("gelu_backward", "backward", f_dgelu, sc_d))
reg(Act("gelutanh", "forward", f_gelut, sc_vt))
reg(Act("gelutanh_inplace", "inplace", f_gelut, sc_vt))
reg(Act("dgelutanh", "inplace", f_dgelut, sc_dt))
reg(Act("gelutanh_backward", "backward", f_dgelut, sc_dt))

# ---- slices and fibers ---------------------------------------------------------------------------


def ex(a, axis):
    return np.expand_dims(a, axis)


class Slice(Op):
    """Operations between a tensor and its slice (the tensor without one axis)."""
    groups = ("slice",)

    def __init__(self, name, bitwise=False, exact=True, redux=None):
        super().__init__(name)
        self.bitwise, self.exact, self.redux = bitwise, exact, redux

    def gen(self, p, D, rng):
        dims = D.many(1, 4)
        axis = int(rng.integers(len(dims)))
        sl = dims[:axis] + dims[axis + 1:]
        p.par["axis"] = axis
        d, z = p.par["_dyad"], True
        p.par["alpha"], p.par["beta"] = scalar(rng, z, d), scalar(rng, z, d)
        if self.redux:
            p.par["redux"] = int(rng.integers(2))
        n, S = self.name, Spec
        b0 = "out" if p.par["beta"] == 0 else "inout"
        if n == "add_slice":
            p.specs = [S("src", "T", sl, "in"), S("dst", "T", dims, b0)]
        elif n == "add_slice3":
            p.par["alpha"], p.par["beta"] = scalar(rng, z, d), scalar(rng, z, d)
            p.specs = [S("src1", "T", sl, "in"), S("src2", "T", dims, "in"), S("dst", "T", dims, "out")]
        elif n == "prod_slice":
            p.specs = [S("src", "T", sl, "in"), S("dst", "T", dims, "inout")]
        elif n in ("sum_slice", "norm_slice"):
            p.specs = [S("src", "T", dims, "in"), S("dst", "T", sl, b0)]
        elif n == "sumprod_slice":
            p.specs = [S("src1", "T", dims, "in"), S("src2", "T", dims, "in"), S("dst", "T", sl, b0)]

    def args(self, p, T):
        q, n = p.par, self.name
        if n == "add_slice":
            return (q["alpha"], T["src"], q["beta"], T["dst"], q["axis"])
        if n == "add_slice3":
            return (q["alpha"], T["src1"], q["beta"], T["src2"], T["dst"], q["axis"])
        if n == "prod_slice":
            return (T["src"], q["alpha"], T["dst"], q["axis"])
        if n in ("sum_slice", "norm_slice"):
            return (q["alpha"], T["src"], q["beta"], T["dst"], q["axis"], q["redux"])
        return (q["alpha"], T["src1"], T["src2"], q["beta"], T["dst"], q["axis"], q["redux"])

    def tile_args(self, p, T):
        return self.args(p, T)[:-1] if self.redux else self.args(p, T)

    def ref(self, p, D):
        q, n = p.par, self.name
        D = ld(D)
        al, be, ax = LD(q["alpha"]), LD(q["beta"]), q["axis"]
        old = 0 if q["beta"] == 0 else (be * D["dst"] if "dst" in D else 0)
        if n == "add_slice":
            t = np.broadcast_to(al * ex(D["src"], ax), D["dst"].shape)
            return {"dst": (t + old, abs(t) + abs(old), 4)}
        if n == "add_slice3":
            t = al * ex(D["src1"], ax)
            u = be * D["src2"]
            return {"dst": (t + u, abs(t) + abs(u), 4)}
        if n == "prod_slice":
            t = al * ex(D["src"], ax) * D["dst"]
            return {"dst": (t, abs(t), 4)}
        if n == "sum_slice":
            k = D["src"].shape[ax]
            t = al * D["src"].sum(axis=ax)
            s = abs(al) * abs(D["src"]).sum(axis=ax)
            return {"dst": (t + old, s + abs(old), 4 + k)}
        if n == "norm_slice":
            k = D["src"].shape[ax]
            t = np.hypot(al * np.sqrt((D["src"] ** 2).sum(axis=ax)), old)
            return {"dst": (t, t, 8 + 4 * k)}
        k = D["src1"].shape[ax]
        pr = D["src1"] * D["src2"]
        t = al * pr.sum(axis=ax)
        s = abs(al) * abs(pr).sum(axis=ax)
        return {"dst": (t + old, s + abs(old), 6 + 2 * k)}

    def bad_params(self, p, rng):
        n = max(len(s.dims) for s in p.specs)
        return [("axis", -1), ("axis", n)]


reg(Slice("add_slice", bitwise=True))
reg(Slice("add_slice3", bitwise=True))
reg(Slice("prod_slice", bitwise=True))
reg(Slice("sum_slice", redux="add"))
reg(Slice("norm_slice", exact=False, redux="hypot"))
reg(Slice("sumprod_slice", redux="add"))


class Fiber(Op):
    """Operations between a tensor and its fiber (one axis, plus batch dimensions at the end)."""
    groups = ("fiber",)

    def __init__(self, name, bitwise=False, batch=True, redux=None):
        super().__init__(name)
        self.bitwise, self.batch, self.redux, self.exact = bitwise, batch, redux, True

    def gen(self, p, D, rng):
        lead = D.many(1, 3)
        bt = D.many(0, 2) if self.batch else []
        axis = int(rng.integers(len(lead)))
        p.par.update(axis=axis, batch_ndim=len(bt), alpha=scalar(rng, True, p.par["_dyad"]),
                     beta=scalar(rng, True, p.par["_dyad"]))
        if self.redux:
            p.par["redux"] = int(rng.integers(2))
        dims, fb = lead + bt, [lead[axis]] + bt
        n, S = self.name, Spec
        b0 = "out" if p.par["beta"] == 0 else "inout"
        if n == "add_fiber":
            p.specs = [S("src", "T", fb, "in"), S("dst", "T", dims, b0)]
        elif n == "prod_fiber":
            p.specs = [S("src", "T", fb, "in"), S("dst", "T", dims, "inout")]
        elif n == "prod_fiber3":
            p.specs = [S("src1", "T", fb, "in"), S("src2", "T", dims, "in"), S("dst", "T", dims, "out")]
        elif n == "sum_fiber":
            p.specs = [S("src", "T", dims, "in"), S("dst", "T", fb, b0)]
        else:
            p.specs = [S("src1", "T", dims, "in"), S("src2", "T", dims, "in"), S("dst", "T", fb, b0)]

    def args(self, p, T):
        q, n = p.par, self.name
        if n == "add_fiber":
            return (q["alpha"], T["src"], q["beta"], T["dst"], q["axis"], q["batch_ndim"])
        if n == "prod_fiber":
            return (T["src"], q["alpha"], T["dst"], q["axis"])
        if n == "prod_fiber3":
            return (T["src1"], q["alpha"], T["src2"], T["dst"], q["axis"])
        if n == "sum_fiber":
            return (q["alpha"], T["src"], q["beta"], T["dst"], q["axis"], q["batch_ndim"], q["redux"])
        return (q["alpha"], T["src1"], T["src2"], q["beta"], T["dst"], q["axis"], q["redux"])

    def tile_args(self, p, T):
        return self.args(p, T)[:-1] if self.redux else self.args(p, T)

    def ref(self, p, D):
        q, n = p.par, self.name
        D = ld(D)
        al, be, ax, bn = LD(q["alpha"]), LD(q["beta"]), q["axis"], q["batch_ndim"]
        big = next(s for s in p.specs if len(s.dims) == max(len(x.dims) for x in p.specs) and
                   (s.name != "src" or n == "sum_fiber") and s.name != ("src1" if n == "prod_fiber3" else "-")
                   and (s.name != "dst" or n not in ("sum_fiber", "sumprod_fiber")))
        nd = len(big.dims)
        old = 0 if q["beta"] == 0 or "dst" not in D else be * D["dst"]

        def up(f):
            sh = [1] * nd
            sh[ax] = f.shape[0]
            for i in range(bn):
                sh[nd - bn + i] = f.shape[1 + i]
            return f.reshape(sh)
        red = tuple(i for i in range(nd - bn) if i != ax)
        if n == "add_fiber":
            t = np.broadcast_to(al * up(D["src"]), D["dst"].shape)
            return {"dst": (t + old, abs(t) + abs(old), 4)}
        if n == "prod_fiber":
            t = al * up(D["src"]) * D["dst"]
            return {"dst": (t, abs(t), 4)}
        if n == "prod_fiber3":
            t = al * up(D["src1"]) * D["src2"]
            return {"dst": (t, abs(t), 4)}
        src = D["src"] if n == "sum_fiber" else D["src1"] * D["src2"]
        k = int(np.prod([src.shape[i] for i in red])) if red else 1
        t, s = al * src.sum(axis=red), abs(al) * abs(src).sum(axis=red)
        return {"dst": (t + old, s + abs(old), 6 + 2 * k)}

    def bad_params(self, p, rng):
        n = max(len(s.dims) for s in p.specs)
        r = [("axis", -1), ("axis", n - p.par["batch_ndim"])]
        if self.batch and "batch_ndim" in p.par:
            r += [("batch_ndim", p.par["batch_ndim"] + 1)]
            if p.par["batch_ndim"] > 0:
                r += [("batch_ndim", p.par["batch_ndim"] - 1)]
        return r


reg(Fiber("add_fiber", bitwise=True))
reg(Fiber("prod_fiber", bitwise=True, batch=False))
reg(Fiber("prod_fiber3", bitwise=True, batch=False))
reg(Fiber("sum_fiber", redux="add"))
reg(Fiber("sumprod_fiber", batch=False, redux="add"))


class SumNorm(Op):
    groups = ("slice",)

    def gen(self, p, D, rng):
        dims = D.many(1, 4)
        p.par["axis"] = ax = int(rng.integers(len(dims)))
        p.specs = [Spec("src", "T", dims, "in"), Spec("dst", "T", [2] + dims[:ax] + dims[ax + 1:], "out")]

    def args(self, p, T):
        return (T["src"], T["dst"], p.par["axis"])

    # the single-tile operation accumulates onto the given pair
    def tile_prior(self, p, D, rng):
        D = dict(D)
        sh = D["dst"].shape
        d = rng.standard_normal(sh)
        d[1] = abs(d[1])
        D["dst"] = d.astype(D["dst"].dtype)
        return D

    def ref(self, p, D, tile=False):
        D = ld(D)
        ax = p.par["axis"]
        k = D["src"].shape[ax]
        a, b = D["src"].sum(axis=ax), np.sqrt((D["src"] ** 2).sum(axis=ax))
        sa = abs(D["src"]).sum(axis=ax)
        if tile:
            a = a + D["dst"][0]
            sa = sa + abs(D["dst"][0])
            b = np.hypot(b, D["dst"][1])
        return {"dst": (np.stack([a, b]), np.stack([sa, b]), 8 + 4 * k)}

    def bad_params(self, p, rng):
        return [("axis", -1), ("axis", len(p.specs[0].dims))]


reg(SumNorm("sumnorm"))


class Normalize(Op):
    groups = ("slice",)
    bitwise = True

    def gen(self, p, D, rng):
        dims = D.many(1, 4)
        p.par["axis"] = ax = int(rng.integers(len(dims)))
        p.par["l"] = int(rng.integers(1, 9))
        p.par["eps"] = [1e-3, 0.5, 1.0, 1e-5][int(rng.integers(4))]
        p.specs = [Spec("gamma_beta", "T", [2], "in"), Spec("src", "T", [2] + dims[:ax] + dims[ax + 1:], "in"),
                   Spec("dst", "T", dims, "inout")]

    def fill(self, p, s, rng):
        x = super().fill(p, s, rng)
        if s.name == "src":
            # consistent pair: norm >= |sum|/sqrt(l), sometimes exactly zero norm
            l = p.par["l"]
            y = rng.standard_normal((l,) + x.shape[1:]) * 10.0 ** rng.uniform(-1, 1) + rng.normal() * (rng.random() < 0.5)
            if rng.random() < 0.2:
                y = y * (rng.random(x.shape[1:]) < 0.5)
            x = np.stack([y.sum(axis=0), np.sqrt((y ** 2).sum(axis=0))]).astype(x.dtype)
        return x

    def args(self, p, T):
        q = p.par
        return (T["gamma_beta"], T["src"], T["dst"], q["l"], q["eps"], q["axis"])

    def ref(self, p, D):
        D = ld(D)
        q = p.par
        g, b = D["gamma_beta"]
        m = D["src"][0] / q["l"]
        r2 = D["src"][1] ** 2 / q["l"]
        eps = LD(NP[p.kind](q["eps"]))
        var = r2 - m * m + eps
        m, r2, var = (ex(z, q["axis"]) for z in (m, r2, var))
        var = np.broadcast_to(var, D["dst"].shape)
        w = (D["dst"] - m) / np.sqrt(var) * g + b
        # cancellation in r2-m^2, relative to the total
        amp = 1 + (r2 + m * m) / np.maximum(abs(var), LD(1e-30))
        sc = (abs(D["dst"]) + abs(m)) / np.sqrt(np.maximum(abs(var), LD(1e-30))) * abs(g) * amp + abs(b)
        bad = (r2 + m * m + eps) * EPS[p.kind] * 40 > abs(var)
        sc = np.where(bad, LD(np.inf), sc)
        w = np.where(bad, LD(0), w)
        return {"dst": (w, sc, 24)}

    def bad_params(self, p, rng):
        n = len(p.specs[2].dims)
        return [("axis", -1), ("axis", n), ("l", 0), ("l", -3), ("eps", 0.0), ("eps", -1.0)]


reg(Normalize("normalize"))


class Nrm2(Op):
    groups = ("slice",)
    tile_ok = True
    prog = False

    def gen(self, p, D, rng):
        dims = D.many(1, 4)
        p.par.update(alpha=scalar(rng), beta=scalar(rng))
        g = [lambda q, l=l: (-(-q.size[l] // q.tile[l]), 1) for l in dims]
        p.specs = [Spec("src", "T", dims, "in"), Spec("dst", "T", [], "out" if p.par["beta"] == 0 else "inout"),
                   Spec("tmp", "T", g, "tmp")]

    def tile_specs(self, p):
        r = super().tile_specs(p)
        r["tmp"] = ()
        return r

    def args(self, p, T):
        q = p.par
        return (q["alpha"], T["src"], q["beta"], T["dst"], T["tmp"])

    def tile_args(self, p, T):
        q = p.par
        return (q["alpha"], T["src"], q["beta"], T["dst"], T["tmp"])

    def ref(self, p, D):
        D, q = ld(D), p.par
        n = abs(LD(q["alpha"])) * np.sqrt((D["src"] ** 2).sum())
        old = 0 if q["beta"] == 0 else LD(q["beta"]) * D["dst"]
        w = np.hypot(n, old) + 0 * np.zeros(())
        return {"dst": (w, abs(w), 16 + D["src"].size)}


reg(Nrm2("nrm2"))

# ---- contraction and transposition ---------------------------------------------------------------


class Gemm(Op):
    groups = ("gemm",)
    exact = True
    redux = "add"

    def gen(self, p, D, rng):
        M, N = D.many(1, 2), D.many(1, 2)
        K, B = D.many(1, 2), D.many(0, 2)
        d = p.par["_dyad"]
        p.par.update(alpha=scalar(rng, True, d), beta=scalar(rng, True, d), tA=int(rng.integers(2)),
                     tB=int(rng.integers(2)), ndim=len(K), batch_ndim=len(B), redux=int(rng.integers(2)))
        a = (K + M if p.par["tA"] else M + K) + B
        b = (N + K if p.par["tB"] else K + N) + B
        p.par["_mn"] = (len(M), len(N))
        p.specs = [Spec("A", "T", a, "in"), Spec("B", "T", b, "in"),
                   Spec("C", "T", M + N + B, "out" if p.par["beta"] == 0 else "inout")]
        p.par["_c"] = None

    def run(self, core, p, T, blocking=True):
        q = p.par
        f = core.nntile.tensor.gemm_async if q.get("_py") else getattr(
            core.t, "gemm_%s%s" % ("" if blocking else "async_", p.kind))
        tr = (core.m.notrans, core.m.trans)
        x = {k: v.x for k, v in T.items()}
        f(q["alpha"], tr[q["tA"]], x["A"], tr[q["tB"]], x["B"], q["beta"], x["C"], q["ndim"], q["batch_ndim"], q["redux"])
        if q.get("_py") and blocking:
            core.wait()

    def run_tile(self, core, p, T, blocking=True):
        q = p.par
        f = getattr(core.v.tile, "gemm_%s%s" % ("" if blocking else "async_", p.kind))
        tr = (core.m.notrans, core.m.trans)
        x = {k: v.x for k, v in T.items()}
        f(q["alpha"], tr[q["tA"]], x["A"], tr[q["tB"]], x["B"], q["beta"], x["C"], q["ndim"], q["batch_ndim"])

    def ref(self, p, D):
        q = p.par
        D = ld(D)
        nm, nn = q["_mn"]
        k, b = q["ndim"], q["batch_ndim"]
        A, B = D["A"], D["B"]
        bs = A.shape[A.ndim - b:] if b else ()
        nb = int(np.prod(bs)) if b else 1
        Csh = D["C"].shape
        m, n = int(np.prod(Csh[:nm])), int(np.prod(Csh[nm:nm + nn]))
        kk = A.size // (m * nb)
        a = A.reshape(((kk, m) if q["tA"] else (m, kk)) + (nb,), order="F")
        c = B.reshape(((n, kk) if q["tB"] else (kk, n)) + (nb,), order="F")
        if q["tA"]:
            a = a.transpose(1, 0, 2)
        if q["tB"]:
            c = c.transpose(1, 0, 2)
        t = np.zeros((m, n, nb), LD)
        s = np.zeros((m, n, nb), LD)
        for i in range(kk):
            pr = a[:, i, None, :] * c[None, i, :, :]
            t += pr
            s += abs(pr)
        t = (LD(q["alpha"]) * t).reshape(Csh, order="F")
        s = (abs(LD(q["alpha"])) * s).reshape(Csh, order="F")
        old = 0 if q["beta"] == 0 else LD(q["beta"]) * D["C"]
        return {"C": (t + old, s + abs(old), 8 + 2 * kk)}

    def bad_params(self, p, rng):
        r = [("ndim", -1), ("ndim", p.par["ndim"] + 3), ("batch_ndim", -1),
             ("batch_ndim", p.par["batch_ndim"] + 4)]
        return r


reg(Gemm("gemm"))


class Transpose(Op):
    groups = ("gemm",)
    exact = True
    bitwise = True
    tile_ok = False

    def gen(self, p, D, rng):
        dims = D.many(2, 4)
        nd = int(rng.integers(1, len(dims)))
        p.par.update(alpha=scalar(rng, True, p.par["_dyad"]), ndim=nd)
        p.specs = [Spec("src", "T", dims, "in"), Spec("dst", "T", dims[nd:] + dims[:nd], "out")]

    def args(self, p, T):
        return (p.par["alpha"], T["src"], T["dst"], p.par["ndim"])

    def ref(self, p, D):
        s = ld(D)["src"]
        nd, n = p.par["ndim"], s.ndim
        w = LD(p.par["alpha"]) * s.transpose(list(range(nd, n)) + list(range(nd)))
        return {"dst": (w, abs(w), 2)}

    def bad_params(self, p, rng):
        return [("ndim", 0), ("ndim", len(p.specs[0].dims)), ("ndim", -1)]


reg(Transpose("transpose"))

# ---- softmax family ------------------------------------------------------------------------------


def smag(rng, kind):
    """Magnitude of logits, now and then close to the largest number of the type."""
    if rng.random() < 0.15:
        return float(10.0 ** rng.uniform(4, 37 if kind == "fp32" else 307))
    return float(10.0 ** rng.uniform(-1, 3))


def mse_ref(x, ax):
    """(max, sum exp(x-max)) along ax; fully masked (-inf) slices give (nan marker, 0)."""
    with np.errstate(all="ignore"):
        mx = x.max(axis=ax)
        safe = np.where(np.isfinite(mx), mx, 0)
        e = np.exp(x - ex(safe, ax))
        return mx, e.sum(axis=ax)


class MaxSumExp(Op):
    groups = ("softmax",)
    redux = "maxsumexp"
    bitwise = False
    prog = False

    def gen(self, p, D, rng):
        dims = D.many(1, 4)
        ax = int(rng.integers(len(dims)))
        p.par.update(axis=ax, redux=int(rng.integers(2)), mag=smag(rng, p.kind),
                     mask=float(rng.choice([0, 0, 0.3, 0.8, 1.0])), prior=int(rng.integers(2)))
        p.specs = [Spec("src", "T", dims, "in"), Spec("dst", "T", [2] + dims[:ax] + dims[ax + 1:], "inout")]

    def fill(self, p, s, rng):
        sh = p.shape(s)[0]
        if s.name == "src":
            x = rng.standard_normal(sh) * p.par["mag"]
            x[rng.random(sh) < p.par["mask"]] = -np.inf
            if p.par["mask"]:
                # some slices entirely masked
                m = rng.random(sh[:p.par["axis"]] + sh[p.par["axis"] + 1:]) < 0.3
                x = np.where(ex(m, p.par["axis"]), -np.inf, x)
            return x.astype(NP[p.kind])
        if not p.par["prior"]:
            return np.zeros(sh, NP[p.kind])
        mx = rng.standard_normal(sh[1:]) * p.par["mag"]
        se = rng.uniform(1, 9, sh[1:])
        e = rng.random(sh[1:]) < 0.3
        return np.stack([np.where(e, 0, mx), np.where(e, 0, se)]).astype(NP[p.kind])

    def args(self, p, T):
        return (T["src"], T["dst"], p.par["axis"], p.par["redux"])

    def tile_args(self, p, T):
        return (T["src"], T["dst"], p.par["axis"])

    def ref(self, p, D):
        D = ld(D)
        mx, se = mse_ref(D["src"], p.par["axis"])
        om, os = D["dst"]
        with np.errstate(all="ignore"):
            emp, oemp = se == 0, os == 0
            emp |= ~np.isfinite(mx)
            M = np.where(emp, om, np.where(oemp, mx, np.maximum(mx, om)))
            S = np.where(emp, os, np.where(oemp, se, se * np.exp(mx - M) + os * np.exp(om - M)))
        # a term exp(-d) carries an error of about eps*(1+d)*exp(-d) < 2*eps, so rounding counts terms
        return {"dst": (np.stack([M, S]), np.stack([0 * M, S]), 16 + 2 * D["src"].shape[p.par["axis"]])}

    def bad_params(self, p, rng):
        return [("axis", -1), ("axis", len(p.specs[0].dims))]


reg(MaxSumExp("maxsumexp"))


class Softmax(Op):
    groups = ("softmax",)
    bitwise = True
    prog = False

    def __init__(self, name, inplace):
        super().__init__(name)
        self.inplace = inplace

    def gen(self, p, D, rng):
        dims = D.many(1, 4)
        ax = int(rng.integers(len(dims)))
        p.par.update(axis=ax, alpha=scalar(rng), mag=smag(rng, p.kind),
                     mask=float(rng.choice([0, 0, 0.3, 0.8])))
        sl = [2] + dims[:ax] + dims[ax + 1:]
        p.specs = [Spec("maxsumexp", "T", sl, "in")]
        if self.inplace:
            p.specs += [Spec("dst", "T", dims, "inout")]
        else:
            p.specs += [Spec("src", "T", dims, "in"), Spec("dst", "T", dims, "out")]

    def data(self, p, rng):
        k, q = NP[p.kind], p.par
        n = "dst" if self.inplace else "src"
        s = next(s for s in p.specs if s.name == n)
        sh = p.shape(s)[0]
        x = rng.standard_normal(sh) * q["mag"]
        x[rng.random(sh) < q["mask"]] = -np.inf
        # at least one finite entry per slice
        first = [slice(None)] * len(sh)
        first[q["axis"]] = 0
        x[tuple(first)] = np.where(np.isfinite(x[tuple(first)]), x[tuple(first)], 0.25)
        x = x.astype(k)
        mx, se = mse_ref(x.astype(LD), q["axis"])
        D = {"maxsumexp": np.stack([mx, se]).astype(k), n: x}
        if not self.inplace:
            D["dst"] = np.full(sh, np.nan, k)
        return D

    def args(self, p, T):
        q = p.par
        if self.inplace:
            return (T["maxsumexp"], q["alpha"], T["dst"], q["axis"])
        return (T["maxsumexp"], T["src"], q["alpha"], T["dst"], q["axis"])

    def ref(self, p, D):
        D, q = ld(D), p.par
        x = D["dst" if self.inplace else "src"]
        m, s = (ex(v, q["axis"]) for v in D["maxsumexp"])
        with np.errstate(all="ignore"):
            w = np.where(np.isfinite(x), LD(q["alpha"]) * np.exp(x - m) / s, 0)
            sc = abs(w) * (1 + abs(np.where(np.isfinite(x), x - m, 0)))
        return {"dst": (w, sc, 12)}

    def bad_params(self, p, rng):
        return [("axis", -1), ("axis", len(p.specs[1].dims))]


reg(Softmax("softmax", False))
reg(Softmax("softmax_inplace", True))


class LogSumExp(Op):
    groups = ("softmax",)
    bitwise = True
    prog = False

    def gen(self, p, D, rng):
        dims = D.many(1, 3)
        p.par["mag"] = float(10.0 ** rng.uniform(-1, 3))
        p.specs = [Spec("maxsumexp", "T", [2] + dims, "in"), Spec("logsumexp", "T", dims, "out")]

    def data(self, p, rng):
        k = NP[p.kind]
        sh = p.shape(p.specs[1])[0]
        return {"maxsumexp": np.stack([rng.standard_normal(sh) * p.par["mag"], rng.uniform(1, 50, sh)]).astype(k),
                "logsumexp": np.full(sh, np.nan, k)}

    def args(self, p, T):
        return (T["maxsumexp"], T["logsumexp"])

    def ref(self, p, D):
        D = ld(D)
        m, s = D["maxsumexp"]
        return {"logsumexp": (m + np.log(s), abs(m) + np.log(s) + 1, 6)}


reg(LogSumExp("logsumexp"))


def many_classes(rng, p, D):
    """Rarely as many classes as a real vocabulary has (beyond 16 bits); the other dimensions stay short."""
    if D.u is not None or D.small or D.wide is not None or D.tiled is not None or D.boxed or rng.random() > 0.02:
        return None
    for l in p.size:
        p.size[l] = min(p.size[l], 3)
        p.tile[l] = min(p.tile[l], p.size[l])
    p.par["_cap"] = 2000000
    return int(rng.choice([33000, 50257, 66000, 70000, 132000])) + int(rng.integers(-1, 40))


class TotalSum(Op):
    groups = ("softmax",)
    prog = False

    def gen(self, p, D, rng):
        dims = D.many(1, 2)
        c = D.new(full=True, size=many_classes(rng, p, D))
        p.par.update(alpha=scalar(rng, True), _c=c)
        p.specs = [Spec("logsumexp", "T", dims, "in"), Spec("src", "T", [c] + dims, "in"),
                   Spec("labels", "int64", dims, "in"), Spec("val", "T", [], "inout")]

    def fill(self, p, s, rng):
        if s.name == "labels":
            return rng.integers(0, p.size[p.par["_c"]], p.shape(s)[0]).astype(np.int64)
        return super().fill(p, s, rng)

    def args(self, p, T):
        return (p.par["alpha"], T["logsumexp"], T["src"], T["labels"], T["val"])

    def ref(self, p, D):
        D, al = ld(D), LD(p.par["alpha"])
        pick = np.take_along_axis(D["src"], D["labels"][None], axis=0)[0]
        t = (D["logsumexp"] - pick).sum() * al
        s = (abs(D["logsumexp"]) + abs(pick)).sum() * abs(al) + abs(D["val"])
        return {"val": (D["val"] + t, s, 8 + 2 * pick.size)}


reg(TotalSum("total_sum_accum"))


class SubIndexed(Op):
    groups = ("softmax",)
    exact = True
    bitwise = True
    prog = False

    def gen(self, p, D, rng):
        dims = D.many(1, 2)
        c = D.new(full=True, size=many_classes(rng, p, D))
        p.par.update(val=scalar(rng, True, p.par["_dyad"]), _c=c)
        p.specs = [Spec("labels", "int64", dims, "in"), Spec("dst", "T", [c] + dims, "inout")]

    fill = TotalSum.fill

    def args(self, p, T):
        return (p.par["val"], T["labels"], T["dst"])

    def ref(self, p, D):
        w = D["dst"].astype(LD)
        i = D["labels"][None]
        np.put_along_axis(w, i, np.take_along_axis(w, i, 0) - LD(NP[p.kind](p.par["val"])), 0)
        return {"dst": (w, abs(D["dst"].astype(LD)) + abs(w), 2)}


SubIndexed.fill = lambda self, p, s, rng: (rng.integers(0, p.size[p.par["_c"]], p.shape(s)[0]).astype(np.int64)
                                           if s.name == "labels" else Op.fill(self, p, s, rng))
TotalSum.fill = SubIndexed.fill
reg(SubIndexed("subtract_indexed_outputs"))

# ---- embedding -----------------------------------------------------------------------------------


class Embedding(Op):
    groups = ("emb",)
    exact = True
    bitwise = True
    tile_ok = False
    prog = False

    def __init__(self, name, back):
        super().__init__(name)
        self.back, self.redux = back, "add" if back else None
        self.bitwise = not back

    def gen(self, p, D, rng):
        dims = D.many(1, 3)
        ax = int(rng.integers(len(dims) + 1))
        # rarely a vocabulary of a realistic size
        big = many_classes(rng, p, D)
        V = D.new(full=True, size=big)
        e = D.new(size=big and int(rng.integers(1, 4)))
        p.par.update(axis=ax, _v=V, _e=e, mul=1, redux=int(rng.integers(2)))
        E = lambda q: (q.size[q.par["_e"]], q.par["etile"])
        emb = dims[:ax] + [E] + dims[ax:]
        i, v = Spec("index", "int64", dims, "in"), Spec("vocab", "T", [e, V], "inout" if self.back else "in")
        o = Spec("embed", "T", emb, "in" if self.back else "out")
        p.specs = [i, o, v] if self.back else [i, v, o]
        p.par["etile"] = p.tile[e]

    def fix_tiles(self, p, rng, whole):
        s, t = p.size[p.par["_e"]], p.tile[p.par["_e"]]
        mx = -(-s // t)
        p.par["etile"] = s if whole and s % t == 0 else t * int(rng.integers(1, mx + 1))
        if p.par["etile"] > s:
            p.par["etile"] = t

    def fill(self, p, s, rng):
        if s.name == "index":
            v = p.size[p.par["_v"]]
            hi = v if rng.random() < 0.7 else min(v, 2)
            return rng.integers(0, hi, p.shape(s)[0]).astype(np.int64)
        return super().fill(p, s, rng)

    def args(self, p, T):
        if self.back:
            return (T["index"], T["embed"], T["vocab"], p.par["axis"], p.par["redux"])
        return (T["index"], T["vocab"], T["embed"], p.par["axis"])

    def ref(self, p, D):
        ax, idx = p.par["axis"], D["index"]
        D = ld(D)
        if not self.back:
            return {"embed": (np.moveaxis(D["vocab"][:, idx], 0, ax), 0, 0)}
        g = np.moveaxis(D["embed"], ax, 0).reshape(D["vocab"].shape[0], -1)
        w, s = D["vocab"].copy(), abs(D["vocab"])
        for j, v in enumerate(idx.reshape(-1)):
            w[:, v] += g[:, j]
            s[:, v] += abs(g[:, j])
        return {"vocab": (w, s, 4 + 2 * idx.size)}

    def bad_params(self, p, rng):
        n = len(p.specs[0].dims)
        return [("axis", -1), ("axis", n + 1)]


reg(Embedding("embedding", False))
reg(Embedding("embedding_backward", True))

# ---- optimizer steps -----------------------------------------------------------------------------


class Adam(Op):
    groups = ("optim",)
    bitwise = True

    def gen(self, p, D, rng):
        dims = D.many(0 if rng.random() < 0.1 else 1, 3)
        p.par.update(it=int(rng.integers(1, 12)) if rng.random() < 0.7 else int(10 ** rng.uniform(1, 7)), b1=float(rng.choice([0.9, 0.5, 0.0, 0.99])),
                     b2=float(rng.choice([0.999, 0.9, 0.5])), eps=float(rng.choice([1e-8, 1e-3])),
                     lr=float(rng.choice([1e-3, 0.1, 1.0])), wd=float(rng.choice([0, 0, 0.01, 0.1])))
        first = p.par["it"] == 1
        p.specs = [Spec("grad", "T", dims, "in"), Spec("m", "T", dims, "out" if first else "inout"),
                   Spec("v", "T", dims, "out" if first else "inout"), Spec("p", "T", dims, "inout")]

    def fill(self, p, s, rng):
        x = super().fill(p, s, rng)
        return abs(x) if s.name == "v" else x

    def args(self, p, T):
        q = p.par
        return (q["it"], q["b1"], q["b2"], q["eps"], q["lr"], q["wd"], T["grad"], T["m"], T["v"], T["p"])

    def ref(self, p, D):
        D, q = ld(D), p.par
        k = NP[p.kind]
        b1, b2, eps, lr, wd = (LD(k(q[n])) for n in ("b1", "b2", "eps", "lr", "wd"))
        g, P = D["grad"], D["p"]
        aw = self.name == "adamw_step"
        g0 = abs(g)
        if wd != 0:
            if aw:
                P = P * (1 - lr * wd)
            else:
                g0 = abs(g) + abs(wd * P)
                g = g + wd * P
        m0, v0 = (0 * g, 0 * g) if q["it"] == 1 else (D["m"], D["v"])
        m = b1 * m0 + (1 - b1) * g
        sm = abs(b1 * m0) + (1 - b1) * g0
        v = np.hypot(np.sqrt(b2) * v0, np.sqrt(1 - b2) * g)
        sv = np.hypot(np.sqrt(b2) * v0, np.sqrt(1 - b2) * g0)
        t = q["it"]
        c1, c2 = 1 / (1 - b1 ** t), 1 / np.sqrt(1 - b2 ** t)
        den = v * c2 + eps
        up = lr * c1 * m / den
        # 1-b**t and sqrt(1-b2) lose digits when b is near one
        amp = 1 / (1 - b2) + 1 / (1 - b1 ** t)
        with np.errstate(all="ignore"):
            rel = np.where(den > 0, (sm + abs(m)) / den * (1 + np.where(v > 0, sv / np.maximum(v, LD(1e-300)), 1)), 0)
        return {"m": (m, sm * amp, 12), "v": (v, sv * amp, 12),
                "p": (P - up, abs(P) + lr * c1 * rel * amp, 24)}


reg(Adam("adam_step"))
reg(Adam("adamw_step"))

# ---- fused attention -----------------------------------------------------------------------------


class Flash(Op):
    """Fused attention: everything is laid out as (head, seq, batch, heads), scores as (key, query, ...)."""
    groups = ("flash",)
    tile_ok = False
    prog = False

    def gen(self, p, D, rng):
        h, s, b, n = D.new(full=True), D.new(), D.new(), D.new()
        p.par.update(_h=h, _s=s, redux=int(rng.integers(2)), mag=float(10.0 ** rng.uniform(-1.5, 0.9)),
                     mask=["causal", "random", "band", "none", "dead", "all"][int(rng.integers(6))],
                     prior=int(rng.integers(2)))
        x, sc, ms = [h, s, b, n], [s, s, b, n], [2, s, b, n]
        S = lambda *a: [Spec(nm, "T", d, r) for nm, d, r in a]
        M = Spec("mask", "bool", [s, s], "in")
        if self.name == "flash_maxsumexp":
            p.specs = S(("Q", x, "in"), ("K", x, "in")) + [M] + S(("maxsumexp", ms, "inout"), ("tmp", sc, "tmp"))
        elif self.name == "flash_softmax_gemm":
            p.specs = S(("Q", x, "in"), ("K", x, "in"), ("V", x, "in")) + [M] + \
                S(("maxsumexp", ms, "in"), ("dst", x, "out"), ("tmp", sc, "tmp"))
        else:
            p.specs = S(("Q", x, "in"), ("dQ", x, "out"), ("K", x, "in"), ("dK", x, "out"), ("V", x, "in"),
                        ("dV", x, "out")) + [M] + S(("maxsumexp", ms, "in"), ("dst_grad", x, "in"), ("tmp", sc, "tmp"),
                                                    ("tmp_grad", sc, "tmp"), ("sumprod", [s, b, n], "inout"))

    def uniform(self, p):
        """Labels whose tiles must all be equal."""
        return [p.par["_s"]]

    def fix_tiles(self, p, rng, whole):
        s = p.par["_s"]
        while p.size[s] % p.tile[s]:
            p.tile[s] -= 1

    def scores(self, p, D):
        H = LD(D["Q"].shape[0])
        q, k = D["Q"].astype(LD), D["K"].astype(LD)
        with np.errstate(all="ignore"):
            z = np.einsum("jkbn,jqbn->kqbn", k, q) / np.sqrt(H)
            za = np.einsum("jkbn,jqbn->kqbn", abs(k), abs(q)) / np.sqrt(H)
        m = D["mask"][:, :, None, None]
        return np.where(m, z, -np.inf), np.where(m, za, 0)

    def data(self, p, rng):
        k, q = NP[p.kind], p.par
        D = {}
        for s in p.specs:
            D[s.name] = self.fill(p, s, rng)
        for n in ("Q", "K", "V", "dst_grad"):
            if n in D:
                D[n] = (rng.standard_normal(D[n].shape) * q["mag"]).astype(k)
        S = D["mask"].shape[0]
        i = np.arange(S)
        D["mask"] = {"causal": i[:, None] <= i[None], "random": rng.random((S, S)) < 0.5,
                     "band": abs(i[:, None] - i[None]) <= max(1, S // 3), "none": np.ones((S, S), bool),
                     "dead": (rng.random((S, S)) < 0.7) & (rng.random(S) < 0.5)[None],
                     "all": np.zeros((S, S), bool)}[q["mask"]]
        z, _ = self.scores(p, D)
        mx, se = mse_ref(z, 0)
        emp = ~np.isfinite(mx)
        if self.name == "flash_maxsumexp":
            sh = mx.shape
            if q["prior"]:
                e = rng.random(sh) < 0.4
                D["maxsumexp"] = np.stack([np.where(e, 0, rng.standard_normal(sh) * q["mag"] ** 2),
                                           np.where(e, 0, rng.uniform(1, 9, sh))]).astype(k)
            else:
                D["maxsumexp"] = np.zeros((2,) + sh, k)
        else:
            D["maxsumexp"] = np.stack([np.where(emp, 0, mx), np.where(emp, 0, se)]).astype(k)
        if "sumprod" in D:
            D["sumprod"] = np.zeros(D["sumprod"].shape, k)
        return {s.name: D[s.name] for s in p.specs}

    def prepare(self, p, T):
        if p.par.get("redux"):
            if self.name == "flash_maxsumexp":
                T["maxsumexp"].x.set_reduction_maxsumexp()
            else:
                for n in ("dst", "dQ", "dK", "dV", "sumprod"):
                    if n in T:
                        T[n].x.set_reduction_add()

    def args(self, p, T):
        return tuple(T[s.name] for s in p.specs) + (p.par["redux"], 0)

    def ref(self, p, D):
        D = {k: (v.astype(LD) if v.dtype.kind == "f" else v) for k, v in D.items()}
        z, za = self.scores(p, D)
        H, S = D["Q"].shape[0], D["mask"].shape[0]
        root = np.sqrt(LD(H))
        zm = za.max(axis=0)
        if self.name == "flash_maxsumexp":
            mx, se = mse_ref(z, 0)
            om, os = D["maxsumexp"]
            with np.errstate(all="ignore"):
                emp, oemp = ~np.isfinite(mx), os == 0
                M = np.where(emp, om, np.where(oemp, mx, np.maximum(mx, om)))
                W = np.where(emp, os, np.where(oemp, se, se * np.exp(mx - M) + os * np.exp(om - M)))
            return {"maxsumexp": (np.stack([M, W]), np.stack([zm, W * (1 + zm)]), 24 + 2 * S + 2 * H)}
        m, s = D["maxsumexp"]
        with np.errstate(all="ignore"):
            A = np.where(np.isfinite(z), np.exp(np.where(np.isfinite(z), z, 0) - m) / np.where(s == 0, 1, s), 0)
        As = A * (1 + zm)
        f = 32 + 3 * S + 3 * H
        E = np.einsum
        if self.name == "flash_softmax_gemm":
            return {"dst": (E("jkbn,kqbn->jqbn", D["V"], A), E("jkbn,kqbn->jqbn", abs(D["V"]), As), f)}
        g = D["dst_grad"]
        dA, dAs = E("jkbn,jqbn->kqbn", D["V"], g), E("jkbn,jqbn->kqbn", abs(D["V"]), abs(g))
        sp, sps = (dA * A).sum(axis=0), (dAs * As).sum(axis=0)
        dZ = A * (dA - sp)
        dZs = As * (dAs + sps)
        return {"dV": (E("jqbn,kqbn->jkbn", g, A), E("jqbn,kqbn->jkbn", abs(g), As), f),
                "sumprod": (D["sumprod"] + sp, sps + abs(D["sumprod"]), f),
                "dQ": (E("jkbn,kqbn->jqbn", D["K"], dZ) / root, E("jkbn,kqbn->jqbn", abs(D["K"]), dZs) / root, 2 * f),
                "dK": (E("jqbn,kqbn->jkbn", D["Q"], dZ) / root, E("jqbn,kqbn->jkbn", abs(D["Q"]), dZs) / root, 2 * f)}


reg(Flash("flash_maxsumexp"))
reg(Flash("flash_softmax_gemm"))
reg(Flash("flash_softmax_gemm_backward"))

GROUPS = {}
for _o in CAT.values():
    for _g in _o.groups:
        GROUPS.setdefault(_g, []).append(_o.name)
