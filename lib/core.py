"""Inside a worker process: NNTile under the monitor, tensors with known contents."""
import ctypes, itertools, os, sys, time
import numpy as np

NP = {"fp64": np.float64, "fp32": np.float32, "int64": np.int64, "bool": np.bool_,
      "fp16": np.float16}
F_HASH, F_POISON_W, F_POISON_SCRATCH, F_DELAY, F_LOG, F_TSAN = 1, 2, 4, 8, 16, 32
F_ALL = F_HASH | F_POISON_W | F_POISON_SCRATCH


class Violation(Exception):
    """The property is broken on this execution."""
    def __init__(self, key, msg, **data):
        super().__init__(msg)
        self.key, self.msg, self.data = key, msg, data


class Inconclusive(Exception):
    pass


class HarnessError(Exception):
    """A fault of the checks themselves."""


class Core:
    """One process-wide instance: loads the library of one flavour and starts the runtime."""
    def __init__(self, builddir, package=False):
        pk = os.path.join(builddir, "pypkg")
        if package:
            sys.path.insert(0, pk)
            import nntile
            self.nntile = nntile
            self.m = sys.modules["nntile.nntile_core"]
            sys.modules["nntile_core"] = self.m
        else:
            sys.path.insert(0, os.path.join(pk, "nntile"))
            import nntile_core
            self.m = nntile_core
        sys.path.insert(0, os.path.join(builddir, "native"))
        import vcore
        self.v = vcore
        self.t = self.m.tensor
        self.lib = ctypes.CDLL(None)
        try:
            self.lib.vmon_set
            self.mon = True
        except AttributeError:
            self.mon = False
        self.cfg = None
        self.tag = 0

    # -- runtime ---------------------------------------------------------------------------------
    def start(self, ncpu=4, sched=None):
        if self.mon:
            self.lib.vmon_sched((sched or "").encode())
        self.ncpu, self.sched = ncpu, sched
        self.cfg = self.m.starpu.Config(ncpu, 0, 0)
        self.m.starpu.init()

    def stop(self):
        if self.cfg is not None:
            self.cfg.shutdown()

    def wait(self):
        self.m.starpu.wait_for_all()

    # -- monitor ---------------------------------------------------------------------------------
    def monitor(self, flags=F_ALL, seed=1, delay_us=0, delay_p=0):
        if self.mon:
            self.lib.vmon_set(ctypes.c_uint(flags), ctypes.c_uint64(seed & (2**64 - 1)),
                              ctypes.c_uint(delay_us), ctypes.c_uint(delay_p))

    STAT = ["submitted", "executed", "registered", "released", "hashed_buffers", "poisoned_buffers",
            "blas_extents", "delays", "max_concurrent", "acquires", "logged", "copies", "redux_inits"]

    def stats(self):
        o = (ctypes.c_uint64 * 16)()
        if self.mon:
            self.lib.vmon_stats(o)
        return {k: int(o[i]) for i, k in enumerate(self.STAT)}

    def reset_log(self):
        if self.mon:
            self.lib.vmon_reset_log()

    def mon_violations(self):
        if not self.mon:
            return []
        b = ctypes.create_string_buffer(1 << 16)
        self.lib.vmon_take_violations(b, len(b))
        return [x for x in b.value.decode().split("\n") if x]

    def check_order(self):
        o = (ctypes.c_uint64 * 4)()
        b = ctypes.create_string_buffer(1 << 14)
        n = self.lib.vmon_check_order(o, b, len(b))
        return n, [int(x) for x in o], b.value.decode().strip().split("\n")[0]

    def codelets(self):
        b = ctypes.create_string_buffer(1 << 16)
        if self.mon:
            self.lib.vmon_codelets(b, len(b))
        return {l.rsplit(" ", 1)[0]: int(l.rsplit(" ", 1)[1])
                for l in b.value.decode().split("\n") if l}

    def raise_monitor(self, prefix="", only=None):
        for v in self.mon_violations():
            if only and not v.startswith(only):
                continue
            w = v.split()
            name = next((x.split("=")[1] for x in w if x.startswith("codelet=")), "")
            raise Violation("%s%s:%s" % (prefix, w[0], name), "monitor: " + v)

    # -- tensors ---------------------------------------------------------------------------------
    def traits(self, shape, tile):
        return self.t.TensorTraits([int(x) for x in shape], [int(x) for x in tile])

    def tensor(self, kind, shape, tile, data=None):
        tr = self.traits(shape, tile)
        n = int(np.prod([-(-s // b) for s, b in zip(shape, tile)])) if len(shape) else 1
        x = getattr(self.t, "Tensor_" + kind)(tr, [0] * n, self.tag)
        x = Ten(self, x, kind, tuple(int(s) for s in shape), tuple(int(b) for b in tile))
        if data is not None:
            x.put(data)
        return x

    def op(self, name, kind, blocking):
        return getattr(self.t, "%s_%s%s" % (name, "" if blocking else "async_", kind))


class Ten:
    """A tensor with its description; put/get go through the library's host transfer."""
    __slots__ = ("c", "x", "kind", "shape", "tile")

    def __init__(self, c, x, kind, shape, tile):
        self.c, self.x, self.kind, self.shape, self.tile = c, x, kind, shape, tile

    def put(self, a):
        a = np.asarray(a, dtype=NP[self.kind])
        if not self.shape:
            self.x.from_array(a.reshape(1))
        else:
            self.x.from_array(np.asfortranarray(a))

    def get(self):
        o = np.zeros(self.shape if self.shape else (1,), dtype=NP[self.kind], order="F")
        self.x.to_array(o)
        return o.reshape(self.shape) if not self.shape else o

    def free(self):
        self.x.unregister()


class Tile_:
    """A single tile with the same interface as Ten."""
    __slots__ = ("c", "x", "kind", "shape", "tile")

    def __init__(self, c, kind, shape, data=None):
        tr = c.m.tile.TileTraits([int(s) for s in shape])
        cls = getattr(c.m.tile, "Tile_" + kind, None) or getattr(c.v.tile, "Tile_" + kind)
        self.c, self.x, self.kind, self.shape, self.tile = c, cls(tr), kind, tuple(shape), tuple(shape)
        if data is not None:
            self.put(data)

    def put(self, a):
        a = np.asarray(a, dtype=NP[self.kind])
        self.c.v.tile.set_bytes(self.x, np.asfortranarray(a).tobytes(order="F"))

    def get(self):
        b = self.c.v.tile.bytes(self.x)
        return np.frombuffer(b, dtype=NP[self.kind]).reshape(self.shape, order="F").copy(order="F")

    def free(self):
        self.x.unregister()


def bits(a):
    a = np.asfortranarray(a)
    return a.tobytes(order="F")


def same_bits(a, b):
    return a.shape == b.shape and bits(a) == bits(b)


EPS = {"fp64": 2.0 ** -52, "fp32": 2.0 ** -23}


def close(got, want, scale, kind, factor, floor=0.0):
    """Element-wise: |got-want| <= factor*eps*scale + tiny, NaN/inf must agree. Returns bad index or None.

    want and scale are computed in extended precision; scale bounds the magnitude of the terms that
    enter the result, so factor counts rounding errors.  Where the terms themselves exceed the range
    of the type although the inputs are finite, the outcome of that element is left open."""
    LD = np.longdouble
    got = np.asarray(got).astype(LD)
    want = np.asarray(want).astype(LD)
    fmax = LD(np.finfo(NP[kind]).max)
    tiny = LD(np.finfo(NP[kind]).tiny)
    with np.errstate(all="ignore"):
        want = np.broadcast_to(want, got.shape)
        sc = np.broadcast_to(np.abs(np.asarray(scale).astype(LD)), got.shape)
        tol = factor * LD(EPS[kind]) * sc + (tiny * 4 if factor else 0) + LD(floor)
        ok = np.abs(got - want) <= tol
        ok |= (got == want)
        ok |= np.isnan(got) & np.isnan(want)
        if factor:
            # a finite value beyond the range of the type
            ok |= np.isfinite(want) & (np.abs(want) + tol >= fmax) & (np.abs(got) >= fmax * LD(1 - 1e-3)) & (np.sign(got) == np.sign(want))
            # intermediate terms beyond the range of the type
            ok |= np.isfinite(want) & (sc * 2 >= fmax)
    if ok.all():
        return None
    return tuple(int(v) for v in np.unravel_index(int(np.argmin(ok)), ok.shape)) if ok.ndim else ()
