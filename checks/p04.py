"""Copying the overlap of two placed tensors: bit-exact oracle."""
import math
import numpy as np
from _ops import *
from core import Tile_
from p03 import pattern, diff, assemble, reject
RULE = ("pairs of tensors (and single tiles) with unrelated shapes and tilings are placed at random integer offsets (negative, "
        "disjoint, touching, nested, equal, huge) in a common index space; after copying the intersection (blocking, asynchronous, "
        "Python function, chains of several copies into one destination) every destination element is compared bit for bit with an "
        "indexing model and the source with its original bits, under the task monitor; wrong dimension counts must raise and start "
        "nothing. distinct: (type, shapes, tilings, offsets) with a non-empty overlap")
ASSUME = []
REQUIRE = {"evaluations": 3000, "distinct": 1200, "overlap_empty": 200, "overlap_partial": 600, "overlap_full": 100,
           "touching": 60, "multi_tile": 800, "rejected": 200, "tiles": 300}
KINDS = ["fp32", "fp64", "int64"]


def jobs(tier):
    return op_jobs(tier, 1000, 12000, group="copy")


def setup(job, cfg):
    return op_setup(job, cfg)


def dims(rng, nd, big):
    cap = [0, 40, 14, 8, 5, 4][nd]
    sh = [1 if rng.random() < 0.12 else int(rng.integers(1, cap + 1)) for _ in range(nd)]
    if big and nd:
        sh[int(rng.integers(nd))] *= 3
    if big and nd > 1 and rng.random() < 0.2:
        # one long dimension
        sh = [min(s, 3) for s in sh]
        sh[int(rng.integers(nd))] = int(rng.integers(40, 300))
    many = 16 if rng.random() < 0.08 and nd < 3 else 4
    ti = [s if rng.random() < 0.2 else int(rng.integers(max(1, s // many), s + 1)) for s in sh]
    return sh, ti


def place(rng, s, d):
    """Offsets of source and destination along one dimension."""
    base = int(rng.choice([0, 0, 7, -9, 1 << 40, -(1 << 33)]))
    k = rng.integers(8)
    if k == 0:
        o = 0                                   # same start
    elif k == 1:
        o = s - d                               # same end
    elif k == 2:
        o = s - 1                               # one common index at the source's end
    elif k == 3:
        o = -(d - 1)                            # one common index at the source's start
    elif k == 4 and rng.random() < 0.3:
        o = s + int(rng.integers(0, 3))         # touching or disjoint
    elif k == 5 and rng.random() < 0.3:
        o = -d - int(rng.integers(0, 3))
    else:
        o = int(rng.integers(-(d - 1), s)) if s + d > 1 else 0
    return base, base + o


def related(rng, dsh, dti):
    """Almost the same shape, tile and position as the destination: shortcuts apply to some of these and not to others."""
    ssh, sti, so, do = [], [], [], []
    near = rng.random() < 0.5
    for s, b in zip(dsh, dti):
        k = rng.random()
        t = max(1, s + int(rng.integers(-1, 2))) if k < 0.4 else s if k < 0.9 else s + b
        ssh.append(t)
        sti.append(min(t, b) if rng.random() < 0.9 else max(1, min(t, b + int(rng.integers(-1, 2)))))
        base = int(rng.choice([0, 3, 1 << 40]))
        k = rng.random()
        so.append(base)
        do.append(base + (0 if near or k < 0.5 else b * int(rng.integers(-2, 3)) if k < 0.9 else int(rng.integers(-1, 2))))
    return ssh, sti, so, do


def model(src, so, dst, do):
    """dst after the copy; returns also the shape of the overlap."""
    out = dst.copy(order="F")
    lo = [max(a, b) for a, b in zip(so, do)]
    hi = [min(a + m, b + n) for a, m, b, n in zip(so, src.shape, do, dst.shape)]
    ext = [h - l for l, h in zip(lo, hi)]
    if all(e > 0 for e in ext):
        out[tuple(slice(l - b, h - b) for l, h, b in zip(lo, hi, do))] = \
            src[tuple(slice(l - a, h - a) for l, h, a in zip(lo, hi, so))]
    return out, ext


def classify(ext, src, dst, c):
    if any(e <= 0 for e in ext):
        c["overlap_empty"] = c.get("overlap_empty", 0) + 1
        if min(ext) == 0:
            c["touching"] = c.get("touching", 0) + 1
    elif ext == list(dst.shape):
        c["overlap_full"] = c.get("overlap_full", 0) + 1
    else:
        c["overlap_partial"] = c.get("overlap_partial", 0) + 1


def case(ctx, rng, i):
    core = ctx.core
    kind = KINDS[int(rng.integers(3))]
    nd = int(rng.choice([0, 1, 1, 2, 2, 2, 3, 3, 4, 5]))
    c = dict(bytes=0)
    form = ["tile", "one", "one", "chain"][int(rng.integers(4))]
    note(ctx, "copy_intersection " + form)
    dsh, dti = dims(rng, nd, rng.random() < 0.3)
    n = 1 if form != "chain" else int(rng.integers(2, 5))
    srcs = []
    for _ in range(n):
        ssh, sti = (dsh, dti) if rng.random() < 0.1 else dims(rng, nd, rng.random() < 0.3)
        off = [place(rng, s, d) for s, d in zip(ssh, dsh)]
        so, do = [o[0] for o in off], [o[1] for o in off]
        if ssh == dsh and rng.random() < 0.5:
            do = list(so)
        if nd and rng.random() < 0.3:
            ssh, sti, so, do = related(rng, dsh, dti)
        srcs.append((ssh, sti, so, do))
    desc = "%s %s dst %s/%s " % (kind, form, dsh, dti) + "; ".join("src %s/%s at %s->%s" % s for s in srcs)
    D = pattern(rng, kind, dsh)
    keys = []
    if form == "tile":
        ssh, _, so, do = srcs[0]
        S = pattern(rng, kind, ssh)
        a, b = Tile_(core, kind, ssh, S), Tile_(core, kind, dsh, D)
        w = Tile_(core, "int64", [max(1, 2 * nd + int(rng.integers(0, 3)))])
        f = getattr(core.v.tile, "copy_intersection_" + kind)
        try:
            f(a.x, so, b.x, do, w.x)
            want, ext = model(S, so, D, do)
            diff(b.get(), want, "tile.copy_intersection:wrong-contents", desc)
            diff(a.get(), S, "tile.copy_intersection:source-modified", desc)
            classify(ext, S, D, c)
            c["tiles"] = 1
            if nd:
                bad = Tile_(core, "int64", [2 * nd - 1]) if nd else None
                for args in ((a.x, so[1:], b.x, do, w.x), (a.x, so, b.x, do + [0], w.x), (a.x, so, b.x, do, bad.x)):
                    n0 = core.stats()["submitted"]
                    if not reject(f, *args):
                        raise Violation("tile.copy_intersection:accepted", desc)
                    if core.stats()["submitted"] != n0:
                        raise Violation("tile.copy_intersection:work-started", desc)
                    c["rejected"] = c.get("rejected", 0) + 1
                bad.free()
                diff(b.get(), want, "tile.copy_intersection:rejected-but-modified", desc)
            if all(e > 0 for e in ext):
                keys.append(desc)
        finally:
            core.wait()
            for t in (a, b, w):
                t.free()
        core.raise_monitor("tile.copy_intersection:")
        return dict(n=1, count=c, keys=keys, sample=desc)
    dst = core.tensor(kind, dsh, dti, D)
    objs = [dst]
    try:
        want = D
        SS = []
        for ssh, sti, so, do in srcs:
            S = pattern(rng, kind, ssh)
            s = core.tensor(kind, ssh, sti, S)
            objs.append(s)
            SS.append((s, S))
            r = rng.random()
            if hasattr(core, "nntile") and r < 0.35:
                core.nntile.tensor.copy_intersection_async(s.x, so, dst.x, do)
            elif r < 0.75:
                getattr(core.t, "copy_intersection_async_" + kind)(s.x, so, dst.x, do)
            else:
                getattr(core.t, "copy_intersection_" + kind)(s.x, so, dst.x, do)
                diff(assemble(core, dst.x, kind, dsh, dti), model(S, so, want, do)[0], "copy_intersection:wrong-contents", desc)
            want, ext = model(S, so, want, do)
            classify(ext, S, D, c)
            if all(e > 0 for e in ext):
                keys.append(desc)
            c["bytes"] += S.nbytes
        core.wait()
        diff(assemble(core, dst.x, kind, dsh, dti), want, "copy_intersection:wrong-contents", desc)
        for s, S in SS:
            diff(assemble(core, s.x, kind, s.shape, s.tile), S, "copy_intersection:source-modified", desc)
        if rng.random() < 0.3:
            s = objs[-1]
            ssh, sti, so, do = srcs[-1]
            o = core.tensor(kind, list(dsh) + [2], list(dti) + [1])
            objs.append(o)
            f = getattr(core.t, "copy_intersection_" + kind)
            for args in ((s.x, so + [0], dst.x, do), (s.x, so, dst.x, do + [0]), (s.x, so, o.x, do + [0]), (s.x, so, o.x, do),
                         (o.x, so + [0], dst.x, do)):
                n0 = core.stats()["submitted"]
                if not reject(f, *args):
                    raise Violation("copy_intersection:accepted", desc)
                if core.stats()["submitted"] != n0:
                    raise Violation("copy_intersection:work-started", desc)
                c["rejected"] = c.get("rejected", 0) + 1
            diff(assemble(core, dst.x, kind, dsh, dti), want, "copy_intersection:rejected-but-modified", desc)
    finally:
        core.wait()
        for x in objs:
            x.free()
    core.raise_monitor("copy_intersection:")
    c["multi_tile"] = int(any(s > b for s, b in zip(dsh, dti)) or any(u > v for x in srcs for u, v in zip(x[0], x[1])))
    return dict(n=1, count=c, keys=keys, sample=desc)
