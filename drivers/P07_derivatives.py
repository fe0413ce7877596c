"""P07: gradients (group velocities) and hessians (inverse masses) of the bands."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *  # noqa
from models import *  # noqa

TP = 2 * np.pi


def build(cls, nb, H, L=None):
    if cls == "tbi":
        return tb_model(nb, H, L)
    if cls.startswith("asym"):
        if L is not None:    # the same bands, with the overlap L L^+
            L = cH(L)
            return AsymTightBindingModel(HermitianFourierSeries(nb, L @ H @ L.conj().T), HermitianFourierSeries([[0] * len(nb[0])], [L @ L.conj().T]))
        return AsymTightBindingModel(HermitianFourierSeries(nb, H))
    if cls == "tb":
        return tb_model(nb, H)
    m = BandStructureModel.init_tight_binding(Symmetry.none(len(nb[0])), nb, H.shape[1], cos_reduced="c" in cls, exp="e" in cls)
    m.set_params_complex(H)
    return m


def wsum(b, g, n):
    """sum_b E^(j-1) g for j = 1..n, as integers: one row per j"""
    out = []
    for j in range(1, n + 1):
        v = np.sum(b**(j - 1) * g, axis=-1)
        m = max(1.0, float(np.max(np.sum(np.abs(b)**(j - 1) * np.abs(g), axis=-1))))
        out.append(qint(v, 1, tol=max(1e-6, m * 1e-9)))
    return out


def grad(k, cls, nb, H, L, q, via=0, split=None, **_):
    m = build(cls, nb, cH(H), split if cls == "tbi" else L)
    kk = used(m, points(q))
    b, g = m.bands_grad_hess(kk)[:2] if via else m.bands_grad(kk)
    n = len(H[0])
    if b.shape != (len(q), n) or g.shape != (len(q), len(nb[0]), n):
        raise ProjErr("shapes")
    return {"bands": qfix(b, 1e4), "bs": sums(b, n), "gs": [wsum(b, g[:, a] / TP, n) for a in range(len(nb[0]))]}


def ggrad(k, nb, H, snb, S, q, **_):
    m = AsymTightBindingModel(HermitianFourierSeries(nb, cH(H)), HermitianFourierSeries(snb, cH(S)))
    kk = used(m, points(q))
    n = len(H[0])
    det = np.round(np.real(np.linalg.det(hk(snb, cH(S), kk)))).astype(int)
    b, g = m.bands_grad(kk)
    d = det[:, None].astype(float)
    return {"det": det.tolist(), "bs": sums(b, n, det),
            "gs": [wsum(b * d, g[:, a] / TP * d**2, n) for a in range(len(nb[0]))]}


def hess(k, cls, nb, H, L, q, split=None, **_):
    m = build(cls, nb, cH(H), split if cls == "tbi" else L)
    kk = used(m, points(q))
    b, g, h = m.bands_grad_hess(kk)
    n, d = len(H[0]), len(nb[0])
    if b.shape != (len(q), n) or g.shape != (len(q), d, n) or h.shape != (len(q), d, d, n):
        raise ProjErr("shapes")
    hs = []
    for a in range(d):
        row = []
        for c in range(d):
            out = []
            for j in range(1, n + 1):
                t = b**(j - 1) * h[:, a, c] / TP**2
                u = (j - 1) * b**max(j - 2, 0) * g[:, a] * g[:, c] / TP**2
                mx = max(1.0, float(np.max(np.sum(np.abs(t) + np.abs(u), axis=-1))))
                out.append(qint(np.sum(t + u, axis=-1), 1, tol=max(1e-6, 1e-8 * mx)))
            row.append(out)
        hs.append(row)
    return {"bands": qfix(b, 1e4), "bs": sums(b, n), "gs": [wsum(b, g[:, a] / TP, n) for a in range(d)], "hs": hs}


def ghess(k, nb, H, snb, S, q, **_):
    m = AsymTightBindingModel(HermitianFourierSeries(nb, cH(H)), HermitianFourierSeries(snb, cH(S)))
    kk = used(m, points(q))
    n, dm = len(H[0]), len(nb[0])
    det = np.round(np.real(np.linalg.det(hk(snb, cH(S), kk)))).astype(int)
    b, g, h = m.bands_grad_hess(kk)
    d = det[:, None].astype(float)
    hs = []
    for a in range(dm):
        row = []
        for c in range(dm):
            out = []
            for j in range(1, n + 1):
                t = d**(j + 2) * (b**(j - 1) * h[:, a, c] + (j - 1) * b**max(j - 2, 0) * g[:, a] * g[:, c]) / TP**2
                mx = max(1.0, float(np.max(np.sum(np.abs(t), axis=-1))))
                out.append(qint(np.sum(t, axis=-1), 1, tol=max(1e-6, 1e-9 * mx)))
            row.append(out)
        hs.append(row)
    return {"det": det.tolist(), "bs": sums(b, n, det), "gs": [wsum(b * d, g[:, a] / TP * d**2, n) for a in range(dm)], "hs": hs}


def coupling(k, cls, nb, h, q, V, s, k1, k2, **_):
    V_ = np.array(V)
    n = len(V_)
    hc = np.array(h)[..., 0] + 1j * np.array(h)[..., 1]
    nb2, H = regauge(nb, np.einsum("aj,rj,bj->rab", V_, hc, V_) / n, np.array(s))
    m = build(cls, nb2, H)
    b, v, g = m.electron_phonon_coupling(np.array(q) / 4, np.array(k1) - 1, np.array(k2) - 1)
    if g.shape != (len(k1), len(k2), len(nb[0]), n, n):
        raise ProjErr("shape")
    return {"bands": qint(b), "v": qint(v / TP, tol=1e-5), "g": qint(np.abs(g)**2 * n**2 / TP**2, tol=1e-4)}


def lower(rng, n):
    L = np.eye(n, dtype=complex)
    for i in range(n):
        for j in range(i):
            L[i, j] = rng.integers(-1, 2) + 1j * rng.integers(-1, 2)
    return L


CLASSES = ["asym", "b", "be", "bc", "bce", "asymL", "tb", "tbi"]


def body(c):
    rng = c.rng
    gr_, gg, he = [], [], []
    for i in range(c.n(240, 2000)):
        dim, n, nb, H = random_model(rng, count=int(rng.integers(1, 6)))
        cls = CLASSES[i % len(CLASSES)]
        split = int(rng.integers(0, n + 1))
        if cls == "tbi" and dim == 2:     # there, inversion is a rotation
            cls = "tb"
        if cls == "tbi":
            H = inv_blocks(H, split)
        gr_.append(dict(k="grad", cls=cls, _split=split, nb=nb, H=jH(H), L=jH(lower(rng, n)) if cls == "asymL" else None,
                        q=probes(rng, dim), via=int(rng.random() < 0.3)))
    for i in range(c.n(120, 900)):
        dim, n, nb, H = random_model(rng, n=int(rng.integers(1, 3)), count=int(rng.integers(0, 4)), mx=1)
        snb, S = overlap(rng, dim, n)
        gg.append(dict(k="ggrad", nb=nb, H=jH(H), snb=snb, S=jH(S), q=probes(rng, dim)))
    gh = []
    while len(gh) < c.n(120, 900):
        dim, n, nb, H = random_model(rng, n=int(rng.integers(1, 3)), count=int(rng.integers(0, 4)), mx=1)
        snb, S = overlap(rng, dim, n)
        q = probes(rng, dim)
        kk = points(q)
        Sk = hk(snb, S, kk)
        e = np.linalg.eigvals(np.linalg.solve(Sk, hk(nb, H, kk))).real
        q = [x for x, y, s in zip(q, e, Sk) if (n == 1 or np.ptp(y) > 0.05) and abs(np.linalg.det(s)) < 40]
        if q:
            gh.append(dict(k="ghess", nb=nb, H=jH(H), snb=snb, S=jH(S), q=q))
    skipped = 0
    while len(he) < c.n(240, 2000):
        dim, n, nb, H = random_model(rng, count=int(rng.integers(1, 6)), mx=2 if rng.random() < 0.6 else 1)
        q = probes(rng, dim)
        cls = CLASSES[len(he) % len(CLASSES)]
        split = int(rng.integers(0, n + 1))
        if cls == "tbi" and dim == 2:     # there, inversion is a rotation
            cls = "tb"
        if cls == "tbi":
            H = inv_blocks(H, split)
        e = np.linalg.eigvalsh(hk(nb, H, np.array(q) / 4))
        q = [x for x, y in zip(q, e) if n == 1 or np.min(np.diff(y)) > 0.05]
        if not q:
            skipped += 1
            continue
        he.append(dict(k="hess", cls=cls, _split=split, nb=nb, H=jH(H), L=jH(lower(rng, n)) if cls == "asymL" else None, q=q, degenerate=False))
    full = len(he)
    while len(he) < full + c.n(100, 800):
        # bands A(k), A(-k), which touch or cross, and sometimes a third one
        dim, _, nb, _ = random_model(rng, count=int(rng.integers(1, 5)))
        A = coeffs(rng, 1, len(nb) - 1, 1)
        same = rng.random() < 0.2
        B = A if same else np.conj(A)
        H = np.zeros((len(nb), 2, 2), complex)
        if rng.random() < 0.7:
            H[:, 0, 0] = H[:, 1, 1] = (A + B)[:, 0, 0]
            H[:, 0, 1] = H[:, 1, 0] = (A - B)[:, 0, 0]
        else:
            H[:, 0, 0], H[:, 1, 1] = A[:, 0, 0], B[:, 0, 0]
        if rng.random() < 0.5:
            C = coeffs(rng, 1, len(nb) - 1, 1)
            G = np.zeros((len(nb), 3, 3), complex)
            G[:, :2, :2], G[:, 2, 2] = H, C[:, 0, 0]
            p = rng.permutation(3)
            H = G[:, p][:, :, p]
        n = H.shape[1]
        q = probes(rng, dim, 6)
        e = np.linalg.eigvalsh(hk(nb, H, np.array(q) / 4))
        q = [x for x, y in zip(q, e) if np.all((np.diff(y) > 0.05) | (np.diff(y) < 1e-10)) and np.any(np.diff(y) < 1e-10)]
        if not q:
            skipped += 1
            continue
        cls = [x for x in CLASSES if x != "tbi"][len(he) % (len(CLASSES) - 1)]
        he.append(dict(k="hess", cls=cls, nb=nb, H=jH(H), L=jH(lower(rng, n)) if cls == "asymL" else None, q=q, degenerate=True))
    for e in gr_ + he:
        if e["L"] is None:
            e["L"] = []
    c.evs("TraceModels", lambda **e: grad(**dict(e, L=e["L"] or None, split=e.pop("_split"))), gr_)
    c.evs("TraceModels", lambda **e: ggrad(**e), gg)
    c.evs("TraceModels", lambda **e: ghess(**e), gh)
    c.evs("TraceModels", lambda **e: hess(**dict(e, L=e["L"] or None, split=e.pop("_split", None))), he)
    c.coverage["degenerate_points_left_out_for_hessians"] = skipped
    c.assumptions.append("hessians are only judged where the bands are at least 0.05 apart or equal (there, the second derivatives along the axes only, summed over the equal bands)")
    c.evs("TraceModels", lambda **e: wide_event(build, True, **e), [wide_input(rng, ["asym", "asymS", "b", "be", "bc", "bce", "tb"], int(rng.choice([20, 40, 70]))) for i in range(c.n(14, 60))])
    ev = []
    while len(ev) < c.n(30, 300):
        dim, n = int(rng.integers(1, 4)), int(rng.choice([1, 2, 4]))
        nb = half_neighbors(rng, dim, int(rng.integers(1, 6)))
        h = rng.integers(-2, 3, (len(nb), n)) + 1j * rng.integers(-2, 3, (len(nb), n))
        h[0] = rng.integers(-6, 7, n)
        E = lambda q: np.array([hk(nb, h[:, b, None, None], np.array(q) / 4)[..., 0, 0].real for b in range(n)])
        q = [x for x in probes(rng, dim, 5) if n == 1 or np.min(np.diff(np.sort(E([x])[:, 0]))) > 0.5]
        if len(q) < 2:
            continue
        V = np.round(hadamard(n) * n**0.5).astype(int) * rng.choice([-1, 1], n)
        ev.append(dict(k="coupling", cls=["b", "be", "bc", "bce"][len(ev) % 4], nb=nb, h=[[[int(x.real), int(x.imag)] for x in row] for row in h], q=q, V=V.tolist(), s=rng.integers(-1, 2, (n, dim)).tolist(),
                       k1=[int(x) for x in rng.integers(1, len(q) + 1, int(rng.integers(1, 4)))], k2=[int(x) for x in rng.integers(1, len(q) + 1, int(rng.integers(1, 4)))]))
    c.evs("TraceModels", lambda **e: coupling(**e), ev)
    c.validate("TraceModels", min_events=350)


main("P07", body)
