"""P17: volumes below a level, cell by cell: cubes, tetrahedra, spheres, extrapolation, points on the cut."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *  # noqa
from tight_binding_redweasel import smearing as sm

F = 10**5
RAD = (3 / (4 * np.pi))**(1 / 3)


def qd(x):
    """densities: delta functions of flat cells are cut off (not judged)"""
    return qfix(np.clip(x, -1e4, 1e4), F)


def shaped(x, shape):
    return np.broadcast_to(np.asarray(x, float), shape).copy()


def cube(k, c, g, s, vs, **_):
    v = np.array(vs, float) / s
    a = [shaped(x / s, v.shape) for x in g]
    a_ = [x.copy() for x in a]
    a0 = v - (c + sum(g) / 2) / s
    a0_ = a0.copy()
    pre = sm.cube_precomp(*a)
    V, D = sm.cube_cut_volume(a0, *pre), sm.cube_cut_dvolume(a0, *pre)
    V2, D2 = sm.cube_cut_volume_dvolume(a0, *pre)
    return {"V": qfix(V, F), "D": qd(D), "V2": qfix(V2, F), "D2": qd(D2), "same": bool(np.array_equal(a0, a0_) and all(np.array_equal(x, y) for x, y in zip(a, a_)))}


def com(k, c, g, s, vs, **_):
    v = np.array(vs, float) / s
    a = [shaped(x / s, v.shape) for x in g]
    area, x = sm.cube_cut_area_com(v - (c + sum(g) / 2) / s, *sm.cube_precomp(*a), *a)
    return {"D": qfix(area / np.linalg.norm(np.array(g) / s), F), "com": qfix(np.clip(x + 0.5, -10, 10), F)}


def tet(k, vals, s, vs, **_):
    v = np.array(vs, float) / s
    a = [v - x / s for x in vals]
    a_ = [x.copy() for x in a]
    return {"V": qfix(6 * sm.tetra_cut_volume(*a), F), "D": qd(6 * sm.tetra_cut_dvolume(*a)), "same": all(np.array_equal(x, y) for x, y in zip(a, a_))}


def sphere(k, c, g, vs, **_):
    v = np.array(vs, float)
    V, D = sm.unit_sphere_cut(v - c, *[shaped(x, v.shape) for x in g])
    return {"V": qfix(V, F), "D": qfix(D * np.linalg.norm(g) * RAD, F)}


def gsphere(k, c, g, vs, A, N, scale, cell, seed, **_):
    """the sphere of one cell of a grid with given gradients"""
    rng = np.random.default_rng(seed)
    A = np.array(A, float) * scale
    pos, n = positions((N, N, N), True, A, [-0.5] * 3, [1.0] * 3)
    vals = rng.integers(-5, 6, (N, N, N)).astype(float)
    gr = rng.integers(-5, 6, (N, N, N, 3)).astype(float)
    vals[tuple(cell)], gr[tuple(cell)] = c, g
    s = sm.SphereSmearing(pos, np.linalg.inv(A).T, vals, grads=gr * scale * N, wrap=True)
    V, D = zip(*[s.volume_dvolume(float(v)) for v in vs])
    if any(not np.array_equal(a, s.volume(float(v))) or not np.array_equal(b, s.dvolume(float(v))) for a, b, v in zip(V, D, vs)):
        raise ProjErr("volumes and densities alone differ")
    return {"V": qfix([x[tuple(cell)] for x in V], F), "D": qfix(np.array([x[tuple(cell)] for x in D]) * np.linalg.norm(g) * RAD, F)}


def positions(shape, wrap, A, low, width, shift=0.0):
    """points of a grid in reciprocal space: crystal coordinates low + width * i/n, n cells"""
    n = [x - (0 if wrap else 1) for x in shape]
    ax = [low[i] + width[i] * (np.arange(shape[i]) + shift) / n[i] for i in range(3)]
    return np.stack(np.meshgrid(*ax, indexing="ij"), -1) @ np.linalg.inv(A), n


def smearer(method, G, wrap, A, low, width):
    pos, n = positions(G.shape, wrap, A, low, width)
    if method == "cubes":
        return sm.CubesSmearing(pos, A, G, wrap=wrap)
    if method == "cubes+":
        return sm.ExtraCubesSmearing(pos, A, G, wrap=wrap)
    if method == "tetras":
        return sm.TetraSmearing(G, wrap, np.linalg.inv(A).T)
    return sm.SphereSmearing(pos, np.linalg.inv(A).T, G, wrap=wrap)


def grid(k, method, G, wrap, vs, A, low, width, **_):
    g = np.array(G, float)
    A = np.array(A, float)
    g0, A0 = g.copy(), A.copy()
    s = smearer(method, g, wrap, A, low, width)
    V, D, both = [], [], True
    order = np.random.default_rng(len(vs)).permutation(len(vs))   # nothing may depend on earlier calls
    for i in order:
        v = vs[i] / 8
        a, b = s.volume(v), s.dvolume(v)
        a2, b2 = s.volume_dvolume(v)
        both = both and np.allclose(a, a2, atol=1e-7) and np.allclose(b, b2, atol=1e-7)
        if method == "spheres":
            b = b * RAD * np.sqrt(sum(x**2 for x in cellgrad(g, wrap)))
        V.append(a), D.append(b)
    inv = np.argsort(order)
    return {"V": [qfix(np.ravel(V[i]), F) for i in inv], "D": [qd(np.ravel(D[i])) for i in inv], "bothsame": bool(both), "same": bool(np.array_equal(g, g0) and np.array_equal(A, A0))}


def cellgrad(g, wrap):
    """normalization only: mean slopes of a cell"""
    out = []
    for ax in range(3):
        d = np.roll(g, -1, ax) - g
        for o in range(3):
            if o != ax:
                d = (d + np.roll(d, -1, o)) / 2
        out.append(d if wrap else d[:-1, :-1, :-1])
    return out


def grad(k, shape, cells, vs, A, low, width, **_):
    A = np.array(A, float)
    cl = np.array(cells, float).reshape(*shape, 4)
    pos, n = positions(shape, True, A, low, width)
    step = np.array(width) / np.array(n)
    gk = (cl[..., 1:] / step) @ A.T
    s = sm.CubesSmearing(pos, A, cl[..., 0], grads=gk, wrap=True)
    return {"V": [qfix(np.ravel(s.volume(v / 2)), F) for v in vs]}


def samples(k, method, G, wrap, v, A, low, width, **_):
    g = np.array(G, float)
    A = np.array(A, float)
    s = smearer(method, g, wrap, A, low, width)
    if _["_again"]:
        s.samples(v / 8 + 0.3)
    x, gr, w = s.samples(v / 8)
    pos, n = positions(g.shape, wrap, A, low, width)
    step = np.array(width) / np.array(n)
    u = (x @ A - np.array(low)) / step
    cellvol = np.prod(step) / abs(np.linalg.det(A))
    pts = []
    gc = gr @ np.linalg.inv(A).T * step
    for i in range(len(x)):
        cell = np.floor(u[i]).astype(int)
        pts.append({"cell": (cell + 1).tolist(), "com": qfix(u[i] - cell, F), "den": qd(w[i] / np.linalg.norm(gr[i]) / cellvol) if np.any(gr[i]) else 0, "grad": qint(gc[i] * 8, 1, tol=1e-4)})
    return {"pts": pts}


LATTICES = [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 1, 1], [1, 0, 1], [1, 1, 0]], [[2, 0, 0], [0, 1, 0], [1, 0, 3]], [[-1, 1, 1], [1, -1, 1], [1, 1, -1]], [[1, 1, 0], [-1, 2, 0], [0, 1, 1]], [[1, 0, 0], [0, 0, 2], [0, -1, 0]], [[0, 1, 0], [1, 0, 0], [0, 0, 1]], [[0, -1, -1], [-1, 0, -1], [-1, -1, 0]]]


def geometry(rng):
    if rng.random() < 0.3:
        return dict(A=LATTICES[0], low=[-0.5] * 3, width=[1.0] * 3)
    A = (np.array(LATTICES[int(rng.integers(len(LATTICES)))]) * float(rng.choice([1, 0.5, 2, 10, 100, 0.05]))).tolist()
    return dict(A=A, low=rng.choice([-0.5, 0.0, 0.25], 3).tolist(), width=rng.choice([1.0, 0.5, 2.0], 3).tolist())


def random_grid(rng, shape, mx):
    kind = rng.random()
    if kind < 0.35:
        h = rng.integers(-mx, mx + 1, 3)
        g = np.sum(np.stack(np.meshgrid(*[np.arange(n) for n in shape], indexing="ij"), -1) * np.sign(h) * np.minimum(np.abs(h), 1 + (rng.random(3) < 0.3)), -1)
        return g - int(np.mean(g))
    if kind < 0.5:
        return np.broadcast_to(rng.integers(-mx, mx + 1, (shape[0], 1, 1)) + rng.integers(0, 2, (1, shape[1], 1)), shape).copy()
    if kind < 0.55:
        return np.full(shape, int(rng.integers(-mx, mx + 1)))
    return rng.integers(-mx, mx + 1, shape)


def body(c):
    c.model("CutsMC", f"CONSTANTS Mx = {c.n(3, 5)}\nTMx = {c.n(4, 6)}\nINIT Init\nNEXT Next\nINVARIANTS InRange Empty Full DensityPositive Complement Agree Symmetric OnPlane Sphere\n"
            "PROPERTIES Monotone Integral\n", min_states=10000, name="a level rising through every small linear cube and tetrahedron")
    rng = c.rng
    ev, ec, et, es = [], [], [], []
    for i in range(c.n(250, 3000)):
        mx = int(rng.choice([1, 3, 10, 60]))
        g = rng.integers(-mx, mx + 1, 3).tolist()
        if rng.random() < 0.3:
            g[int(rng.integers(3))] = 0
        if rng.random() < 0.2:
            g = (np.array(g) * (np.arange(3) == rng.integers(3))).tolist()
        cc, s = int(rng.integers(-20, 21)), int(rng.choice([1, 2, 8]))
        lo, hi = cc + sum(min(x, 0) for x in g), cc + sum(max(x, 0) for x in g)
        e = dict(c=cc, g=g, s=s, vs=sorted(set(rng.integers(lo - 2, hi + 3, 12).tolist() + [lo, hi])))
        ev.append(dict(k="cube", **e))
        if any(g) and mx < 60:
            ec.append(dict(k="com", **e))
    c.evs("TraceCuts", cube, ev)
    c.evs("TraceCuts", com, ec)
    for i in range(c.n(250, 3000)):
        mx = int(rng.choice([1, 4, 60]))
        vals = rng.integers(-mx, mx + 1, 4).tolist()
        et.append(dict(k="tet", vals=vals, s=int(rng.choice([1, 2])), vs=sorted(set(rng.integers(min(vals) - 1, max(vals) + 2, 10).tolist() + vals))))
        g = rng.integers(-5, 6, 3).tolist()
        if not any(g):
            g = [0, 1, 0]
        es.append(dict(k="sphere", c=int(rng.integers(-5, 6)), g=g, vs=rng.integers(-15, 16, 10).tolist()))
    c.evs("TraceCuts", tet, et)
    c.evs("TraceCuts", sphere, es)
    eg = []
    for i in range(c.n(40, 300)):
        N = int(rng.integers(2, 4))
        g = rng.integers(-5, 6, 3).tolist()
        if not any(g):
            g = [0, 1, 0]
        eg.append(dict(k="sphere", c=int(rng.integers(-5, 6)), g=g, vs=rng.integers(-15, 16, 10).tolist(), A=[LATTICES[0], LATTICES[6], [[1, 1, 0], [0, 1, 0], [0, 1, 1]]][int(rng.integers(3))],
                       N=N, scale=float(rng.choice([0.5, 1, 2, 10])), cell=rng.integers(0, N, 3).tolist(), seed=int(rng.integers(10**6))))
    c.evs("TraceCuts", gsphere, eg)
    ev, eg, ex = [], [], []
    for i in range(c.n(240, 2400)):
        method = ["cubes", "tetras", "cubes+", "spheres"][i % 4]
        wrap = bool(rng.random() < 0.5)
        even = 2 if method == "cubes+" else 1
        shape = [int(rng.integers(3 - even, 4 - even + 1)) * even + (0 if wrap else 1) for _ in range(3)]
        shape = [max(x, 2) for x in shape]
        if method == "cubes+":   # not more than 4x4x2 cells
            shape = [int(rng.choice([2, 4])) + (0 if wrap else 1) for _ in range(3)]
        G = random_grid(rng, shape, int(rng.choice([2, 5])))
        vs = sorted(set(rng.integers(8 * G.min() - 4, 8 * G.max() + 5, 3).tolist()))
        ev.append(dict(k="grid", method=method, G=G.tolist(), wrap=wrap, vs=vs, vtol=60, dtol=400, **geometry(rng)))
    c.evs("TraceCuts", grid, ev)
    for i in range(c.n(40, 400)):
        shape = [int(rng.integers(2, 4)) for _ in range(3)]
        n = int(np.prod(shape))
        cells = np.concatenate([rng.integers(-3, 4, (n, 1)), rng.integers(-4, 5, (n, 3))], 1)
        eg.append(dict(k="grad", shape=shape, cells=cells.tolist(), vs=sorted(set(rng.integers(-12, 13, 3).tolist())), **geometry(rng)))
    c.evs("TraceCuts", grad, eg)
    for i in range(c.n(120, 1200)):
        method = "cubes+" if i % 3 == 2 else "cubes"
        wrap = bool(rng.random() < 0.5)
        shape = [(int(rng.choice([2, 4])) if method == "cubes+" else int(rng.integers(2, 4))) + (0 if wrap else 1) for _ in range(3)]
        G = random_grid(rng, shape, int(rng.choice([1, 3])))
        ex.append(dict(k="samples", method=method, G=G.tolist(), wrap=wrap, v=int(rng.integers(8 * G.min() - 2, 8 * G.max() + 3)), dtol=200, _again=bool(rng.random() < 0.5), **geometry(rng)))
    c.evs("TraceCuts", samples, ex)
    c.validate("TraceCuts", min_events=900)
    c.coverage["rational_points_explored"] = "integer functions and levels in eighths, grids up to 4x4x4 cells"
    c.assumptions.append("volumes are compared with 4e-5 where the gradient has no zero component, 4e-4 otherwise (the code replaces zero slopes by 1e-4); the ends of one dimensional cuts are not judged")


if __name__ == "__main__":
    main("P17", body)
