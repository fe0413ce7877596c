"""P03: reduction of symmetric data to representatives, weights and classes of points."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *  # noqa
import groups as gr


def make(A, gens, inv, dim):
    return gr.cart_group(A, gens, inv) if not np.array_equal(A, np.eye(dim)) else gr.crystal_group(gens, inv, dim)


def reduce(k, dim, gens, inv, pts, q, data, checked, A, scale, **_):
    A = np.array(A)
    sym = make(A, gens, inv, dim)
    x = gr.used(sym, kinds((A @ (np.array(pts).T / q)).T))
    out, od = sym.reduce_symmetric_data(x, kinds(np.array(data) / scale, 5), checked=checked)
    out = (np.linalg.inv(A) @ np.asarray(out).T).T
    return {"out": qint(out, q), "od": qint(od, scale)}


def weight(k, dim, gens, inv, pts, q, **_):
    sym = gr.crystal_group(gens, inv, dim)
    p = gr.used(sym, kinds(np.array(pts) / q))
    return {"w": qint(1 / sym.k_weight(p)), "c": qint(sym.r_class_size(p))}


def find(k, dim, gens, inv, pts, q, A, **_):
    A = np.array(A)
    sym = make(A, gens, inv, dim)
    cls = sym.find_classes(gr.used(sym, kinds((A @ (np.array(pts).T / q)).T)))
    return {"cls": [[int(i) + 1, sorted(int(j) + 1 for j in m)] for i, m in cls.items()]}


def body(c):
    c.model("OrbitsMC", "CONSTANTS D = 2\nQ = %d\nINIT Init\nNEXT Next\nINVARIANTS RoundTrip Partition OrbitStabilizer WeightSum CompleteIdem\n" % c.n(3, 4),
            min_states=100, name="orbit expansion/reduction, dim 2")
    rng = c.rng
    red, wei, fin = [], [], []
    for i in range(c.n(150, 1500)):
        nm, A, gram, (gname, gens, inv) = gr.pick(rng)
        dim = len(A)
        ops = gr.np_ops(gens, inv, dim)
        q = int(rng.choice([1, 1, 2, 3, 10, 16, 25, 40, 1000]))
        mode = rng.random()
        if mode < 0.35 and nm != "hex" and nm != "hex2":
            # a symmetric grid
            m = int(rng.integers(1, 4)) if dim < 3 else int(rng.integers(1, 3))
            g = np.stack(np.meshgrid(*([np.arange(-m, m + 1)] * dim), indexing="ij"), axis=-1).reshape(-1, dim)
            pts = g
        else:
            base = rng.integers(-4, 5, (int(rng.integers(1, 5)), dim))
            if rng.random() < 0.5:
                base[0] *= rng.integers(0, 2)
                # points of (nearly) equal length, on a fine grid
                base[-1] = base[0] + (np.arange(dim) == 0)
            pts = np.unique(np.concatenate([[o @ b for o in ops] for b in base]), axis=0)
            if rng.random() < 0.3:   # not the complete orbits
                pts = pts[rng.random(len(pts)) < 0.7]
                if len(pts) == 0:
                    pts = base[:1]
        if len(pts) > 130:
            pts = pts[:130]
        pts = pts[rng.permutation(len(pts))]
        # symmetric data: one value per orbit
        key = {}
        vals = []
        for p in pts:
            o = min(tuple((s @ p).tolist()) for s in ops)
            vals.append(key.setdefault(o, rng.integers(-9, 10, 2).tolist()))
        vals = [list(v) for v in vals]
        scale = int(rng.choice([1, 10, 1000]))
        # a constant offset between orbits must not be taken for a violation; a single changed value has to be
        if rng.random() < 0.3:
            vals[int(rng.integers(len(vals)))][int(rng.integers(2))] += int(rng.choice([-1, 1]))
        red.append(dict(k="reduce", dim=dim, gens=gens, inv=inv, pts=pts.tolist(), q=q, data=vals, scale=scale,
                        checked=bool(rng.random() < 0.75), lattice=nm, group=gname, _A=A.tolist()))
        sub = pts[:12]
        fin.append(dict(k="find", dim=dim, gens=gens, inv=inv, pts=sub.tolist(), q=q, lattice=nm, group=gname, _A=A.tolist()))
        q2 = int(rng.choice([1, 2, 3, 4, 6, 8, 500]))
        pts = rng.integers(-2 * q2, 2 * q2 + 1, (8, dim))
        if q2 == 500:   # next to special points
            pts[3:] = rng.integers(-1, 2, (5, dim)) + 250 * rng.integers(-1, 2, (5, dim))
            pts[5:7] %= 250
        pts[0] *= 0
        pts[1, 0:1] = 0
        pts[2] = pts[2, 0]
        wei.append(dict(k="weight", dim=dim, gens=gens, inv=inv, pts=pts.tolist(), q=q2, lattice=nm, group=gname))
    # grids that are fine in absolute units
    for q in (7, 10, 20, 50, 200, 1000):
        for gname, gens, inv in ((gr.CUBIC[0]), gr.CUBIC[16], gr.CUBIC[5], gr.CUBIC[1]):
            ops = gr.np_ops(gens, inv, 3)
            base = np.array([[3, 1, 0], [3, 1, 1], [2, 2, 1], [0, 0, 3], [0, 0, 0], [1, 1, 1]])
            pts = np.unique(np.concatenate([[o @ b for o in ops] for b in base]), axis=0)
            pts = pts[rng.permutation(len(pts))]
            vals = [[int(p @ p), 0] for p in pts]
            red.append(dict(k="reduce", dim=3, gens=gens, inv=inv, pts=pts.tolist(), q=q, data=vals, scale=1, checked=True,
                            lattice="fine", group=gname, _A=np.eye(3).tolist()))
    for f, inp in ((reduce, red), (find, fin), (weight, wei)):
        c.evs("TraceOrbits", (lambda fn: lambda **e: fn(**{("A" if n == "_A" else n): v for n, v in e.items()}))(f), inp)
    c.validate("TraceOrbits", min_events=300)


main("P03", body)
