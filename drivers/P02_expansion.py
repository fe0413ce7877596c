"""P02: expansion of points and data to full orbits."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *  # noqa
import groups as gr
from tight_binding_redweasel.symmetry import Symmetry


def points(rng, dim, q, n, lo, hi):
    p = rng.integers(lo, hi + 1, (n, dim))
    if rng.random() < 0.5 and n > 1:   # points on symmetry lines and planes
        p[rng.integers(0, n)] = rng.integers(0, 2) * rng.integers(lo, hi + 1)
        p[rng.integers(0, n)][rng.integers(0, dim):] = 0
    p = np.unique(p, axis=0)
    return p[rng.permutation(len(p))]


def expand(k, dim, gens, inv, pts, q, cell, collect, ordered, A, **_):
    A = np.array(A)
    sym = gr.cart_group(A, gens, inv) if not np.array_equal(A, np.eye(dim)) else gr.crystal_group(gens, inv, dim)
    x = gr.used(sym, kinds((A @ (np.array(pts).T / q)).T))
    x0 = np.array(x)
    out, src = sym.realize_symmetric(x, unit_cell=cell, collect_bad_duplicates=collect)
    if not np.array_equal(x, x0):
        raise ProjErr("the input points were changed")
    out = (np.linalg.inv(A) @ np.asarray(out).T).T
    return {"out": qint(out, q), "src": [[int(j) + 1 for j in s] for s in src] if collect else [int(j) + 1 for j in src]}


def expand_data(k, dim, gens, inv, pts, q, cell, average, data, A, scale, **_):
    A = np.array(A)
    sym = gr.cart_group(A, gens, inv) if not np.array_equal(A, np.eye(dim)) else gr.crystal_group(gens, inv, dim)
    x = gr.used(sym, kinds((A @ (np.array(pts).T / q)).T))
    d = kinds(np.array(data) / scale, 5)
    kw = {"average_bad_duplicates": True} if average else {}
    out, od = sym.realize_symmetric_data(x, d, unit_cell=cell, **kw)
    out = (np.linalg.inv(A) @ np.asarray(out).T).T
    return {"out": qint(out, q), "od": qint(od, scale)}


def body(c):
    c.model("OrbitsMC", "CONSTANTS D = 2\nQ = %d\nINIT Init\nNEXT Next\nINVARIANTS RoundTrip Partition OrbitStabilizer WeightSum CompleteIdem\n" % c.n(3, 4),
            min_states=100, name="orbit expansion/reduction, dim 2")
    if c.thorough:
        c.model("OrbitsMC", "CONSTANTS D = 3\nQ = 2\nINIT Init\nNEXT Next\nINVARIANTS RoundTrip Partition OrbitStabilizer WeightSum CompleteIdem\n",
                min_states=100, name="orbit expansion/reduction, dim 3")
    rng = c.rng
    ex, da = [], []
    for i in range(c.n(160, 1500)):
        cell = rng.random() < 0.5
        nm, A, gram, (gname, gens, inv) = gr.pick(rng)
        if cell or rng.random() < 0.3:
            A = np.eye(len(A))   # unit cells and non orthogonal groups: crystal coordinates
        dim = len(A)
        q = int(rng.choice([2, 3, 4, 5, 6, 8, 10, 12, 250])) if cell else int(rng.choice([1, 1, 2, 7, 250, 1000]))   # large q: points close together
        n = int(rng.integers(1, 7)) if i % 10 < 9 else int(rng.integers(8, 20))
        lo, hi = (-q, 2 * q) if cell else (-4, 4)
        pts = points(rng, dim, q, n, lo, hi)
        if rng.random() < 0.6:    # only inequivalent points: the documented use
            ops = gr.np_ops(gens, inv, dim)
            keep = []
            for p in pts:
                imgs = [g @ p for g in ops]
                if not any(np.array_equal((im - r) % q if cell else im - r, 0 * p) for im in imgs for r in keep):
                    keep.append(p)
            pts = np.array(keep)
        if cell and rng.random() < 0.3:
            # a complete grid of the unit cell
            q = int(rng.choice([2, 3, 4])) if dim == 3 else int(rng.choice([3, 4, 6]))
            g = np.stack(np.meshgrid(*([np.arange(q)] * dim), indexing="ij"), axis=-1).reshape(-1, dim)
            pts = g[rng.permutation(len(g))]
        if cell and rng.random() < 0.2:    # fixed points only, integers
            q, pts = 1, rng.integers(-1, 2, (1, dim)) * (rng.random() < 0.5)
        ordered = bool(np.array_equal(A, np.eye(dim)))
        inp = dict(dim=dim, gens=gens, inv=inv, pts=pts.tolist(), q=q, cell=bool(cell), A=A.tolist(), lattice=nm, group=gname)
        ex.append(dict(inp, k="expand", collect=bool(rng.random() < 0.4), ordered=ordered))
        width = int(rng.integers(1, 4))
        scale = 1 if rng.random() < 0.5 else 60
        average = bool(rng.random() < 0.4)
        data = rng.integers(-50, 50, (len(pts), width))
        if average:
            scale = 27720
        da.append(dict(inp, k="data", average=average, scale=scale,
                       data=(data * (scale if average else 1)).tolist()))
    for dim in (1, 2, 3):    # a few integer points that no operation moves
        for pts in ([[0] * dim], [[2] * dim], [[1] * dim, [0] * dim]):
            inp = dict(dim=dim, gens=[], inv=False, pts=pts, q=1, cell=True, A=np.eye(dim).tolist(), lattice="fixed", group="1")
            ex.append(dict(inp, k="expand", collect=bool(dim % 2), ordered=True))
            da.append(dict(inp, k="data", average=False, scale=1, data=[[i + dim] for i in range(len(pts))]))
    for e in ex + da:   # A is not part of the trace
        e["_A"] = e["A"]
    c.evs("TraceOrbits", lambda **e: expand(**e), ex)
    c.evs("TraceOrbits", lambda **e: expand_data(**e), da)
    for e in c.traces["TraceOrbits"]:
        e.pop("A", None)
    c.validate("TraceOrbits", min_events=300)


main("P02", body)
