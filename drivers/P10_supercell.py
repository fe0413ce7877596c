"""P10: supercells describe the same solid: their bands are the folded bands of the original cell."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *  # noqa
from models import *  # noqa
from groups import HEXA

LATT = {1: [np.eye(1), 2.5 * np.eye(1)], 2: [np.eye(2), np.diag([2., 3.]), HEXA[:2, :2], np.array([[1, .3], [.2, 1.1]])],
        3: [np.eye(3), np.diag([1., 2., 1.5]), HEXA, np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]]) / 2, np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1]]) / 2]}


def rand_L(rng, dim, maxdet):
    while True:
        t = rng.random()
        if t < 0.3:
            L = np.diag(rng.integers(1, 4, dim))
        elif t < 0.4:
            L = np.diag(rng.choice([-2, -1, 1, 2], dim))
        else:
            L = rng.integers(-2, 3, (dim, dim))
        if 1 <= abs(round(np.linalg.det(L))) <= maxdet:
            return L.astype(int)


def widecell(k, cls, nb, h, q, L, sizes, seed, A, moved, **_):
    A, L, dim = np.array(A), np.array(L), len(A)
    rng = np.random.default_rng(seed)
    H = wide_matrices(rng, h, sizes)
    if moved:
        nb, H = regauge(nb, H, rng.integers(-1, 2, (len(H[0]), dim)))
    r = np.array(nb) @ A.T
    if cls == "asym":
        m = AsymTightBindingModel(HermitianFourierSeries(r, H))
    else:
        m = BandStructureModel.init_tight_binding(Symmetry.none(dim), r, H.shape[1], cos_reduced=False, exp="e" in cls)
        m.set_params_complex(H)
    before = np.array(m.params_complex())
    s = m.supercell(A, A @ L)
    b = s.bands(np.array(q) / 4 @ np.linalg.inv(A))
    n = int(s.band_count())
    return {"n": n, "sh": b.shape == (len(q), n), "bands": qint(b, tol=1e-6), "onb": qint((s.H.neighbors if cls == "asym" else s.neighbors) @ np.linalg.inv(A).T),
            "untouched": bool(np.array_equal(before, m.params_complex()))}


def wide_L(rng, dim, maxdet):
    """U D V with unimodular U, V and D of divisors of 4"""
    def uni():
        U = np.eye(dim, dtype=int)[rng.permutation(dim)]
        if dim > 1 and rng.random() < 0.7:
            i, j = rng.choice(dim, 2, replace=False)
            U[i] += int(rng.choice([-1, 1])) * U[j]
        return U * rng.choice([-1, 1], dim)
    while True:
        D = np.diag(rng.choice([1, 2, 4], dim))
        if 4 <= np.linalg.det(D) <= maxdet:
            return uni() @ D @ uni() if rng.random() < 0.7 else D


def supercell(k, cls, nb, H, A, chain, q, g, jmax, **_):
    A = np.array(A)
    dim = len(A)
    Hc = cH(H)
    r = np.array(nb) @ A.T
    if cls == "asym":
        m = AsymTightBindingModel(HermitianFourierSeries(r, Hc))
    else:
        m = BandStructureModel.init_tight_binding(Symmetry.none(dim), r, Hc.shape[1], cos_reduced="c" in cls, exp="e" in cls)
        m.set_params_complex(Hc)
    m0 = m
    before = np.array(m0.params_complex())
    if len(nb) % 2:      # the cells of this model for other lattices, before
        m.supercell(A, A * 2), m.supercell(A @ (np.eye(dim) + np.eye(dim, k=1)), A * 2)
    cell = A
    for L in chain:
        new = cell @ np.array(L)
        m = m.supercell(cell, new) if cls == "asym" or "x" not in cls else m.supercell(cell, new, cos_reduced=True, exp=False)
        cell = new
    kk = used(m, np.array(q) / 4 @ np.linalg.inv(A))
    b = m.bands(kk)
    b2 = m.bands(kk + np.array(g) @ np.linalg.inv(cell))
    nbs = m.H.neighbors if cls == "asym" else m.neighbors
    return {"n": int(m.band_count()), "bs": sums(b, jmax), "bs2": sums(b2, jmax), "onb": qint(nbs @ np.linalg.inv(A).T),
            "untouched": bool(np.array_equal(before, m0.params_complex()))}


def body(c):
    c.model("ModelsMC", "CONSTANTS Depth = %d\nSmall = TRUE\nINIT Init\nNEXT Next\nVIEW View\nINVARIANTS ZeroFirst FoldTwo\n" % c.n(1, 2), min_states=30, name="folding law")
    rng = c.rng
    ev = []
    while len(ev) < c.n(110, 900):
        dim = int(rng.integers(1, 4))
        cls = ["asym", "asym", "asym", "be", "b", "bcx"][len(ev) % 6]
        chain = [rand_L(rng, dim, 4)]
        if rng.random() < 0.15:
            chain = [rand_L(rng, dim, 2), rand_L(rng, dim, 2)]
        L = chain[0]
        for x in chain[1:]:
            L = L @ x
        det = abs(round(np.linalg.det(L)))
        n = int(rng.integers(1, 3))
        count = int(rng.integers(1, 5 if dim < 3 else 4))
        _, n, nb, H = random_model(rng, dim=dim, n=n, count=count, mx=1, reach=2 if dim < 3 else 1)
        if rng.random() < 0.5:
            H[1:] = H[1:].real
        jmax = min(n * det, 3 if dim == 3 or n == 2 else 4)
        A = LATT[dim][int(rng.integers(len(LATT[dim])))] if rng.random() < 0.7 else np.eye(dim)
        ev.append(dict(k="supercell", cls=cls, nb=nb, H=jH(H), L=L.tolist(), q=probes(rng, dim, 3),
                       _A=A.tolist(), _chain=[x.tolist() for x in chain], _g=rng.integers(-3, 4, (3, dim)).tolist(), _jmax=jmax))
    c.evs("TraceModels", lambda **e: supercell(**{k.lstrip("_"): v for k, v in e.items()}), ev)
    ev = []
    for i in range(c.n(24, 240)):
        dim = int(rng.integers(1, 4))
        sizes = [[1], [2], [1, 1, 1], [4], [2, 1], [4, 1]][int(rng.integers(6))]
        nb = half_neighbors(rng, dim, int(rng.integers(1, 9)), reach=2)
        h = rng.integers(-2, 3, (len(nb), sum(sizes), 2))
        h[0] *= 5 * np.array([1, 0])
        L = wide_L(rng, dim, 4 if dim == 1 else 16)
        A = LATT[dim][int(rng.integers(len(LATT[dim])))]
        ev.append(dict(k="widecell", cls=["asym", "be", "b"][i % 3], nb=nb, h=h.tolist(), q=rng.integers(-9, 10, (int(rng.integers(1, 9)), dim)).tolist(), L=L.tolist(), _sizes=sizes, _seed=int(rng.integers(10**6)), _A=A.tolist(), _moved=bool(rng.random() < 0.5)))
    c.evs("TraceModels", lambda **e: widecell(**{k.lstrip("_"): v for k, v in e.items()}), ev)
    c.validate("TraceModels", min_events=100)


main("P10", body)
