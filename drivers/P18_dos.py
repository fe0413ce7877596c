"""P18: densities of states: states below a level, Fermi levels, curves, energies, temperatures, surface samples."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *  # noqa
from tight_binding_redweasel import density_of_states as dm
from P17_cuts import F, LATTICES, RAD, random_grid, cellgrad, qd  # noqa

KB = dm.k_B


class GridModel:
    """bands known on the points of a grid only (reciprocal coordinates); anything else is an error"""

    def __init__(self, bands, A, low, width, n, shift, grads=None):
        self.b, self.A, self.low, self.width, self.n, self.shift = bands, np.array(A, float), np.array(low, float), np.array(width, float), n, shift
        self.g = grads
        if type(self) is GridModel:      # models may return numbers of any type (the values are integers)
            t = [float, float, int, np.float32][int(np.sum(np.abs(bands))) % 4]
            if t is float or np.array_equal(np.round(bands), bands):
                self.b = bands.astype(t)

    def index(self, k):
        k = np.asarray(k)
        assert k.ndim == 2 and k.shape[1] == 3
        u = (k @ self.A - self.low) / self.width * self.n - self.shift
        i = np.round(u).astype(int)
        if len(u) and (np.max(np.abs(u - i)) > 1e-6 or np.min(i) < 0 or np.any(np.max(i, 0) >= self.b.shape[:3])):
            raise AssertionError("asked for a point which is not on the grid")
        return tuple(i.T)

    def __call__(self, k):
        return self.b[self.index(k)].copy()

    def bands_grad(self, k):
        if self.g is None:
            raise AttributeError("no gradients")
        i = self.index(k)
        return self.b[i].copy(), self.g[i].copy()

    def __dir__(self):
        return [x for x in super().__dir__() if x != "bands_grad" or self.g is not None]


def make(e):
    """a DensityOfStates for the bands of an event; half of them have answered other questions before"""
    d, m = fresh(e)
    b = np.array(e["bands"])
    c = int(abs(np.sum(b)))
    if c % 2 and e["method"] != "grad":
        n = len(b)
        lo, hi = d.energy_range()
        x = lo + (hi - lo) * (c % 7 + 0.5) / 7
        d.states_below(x), d.density(x), d.states_density(x), d.density_bands(x), d.cut_band_indices(x)
        if hi - lo > 1e-3:
            el = n * (c % 5 + 1) / 6
            d.fermi_energy(el), d.full_curve(N=5), d.energy(x, spin_factor=1)
            if c % 3 == 0:
                d.chemical_potential(el, [300.0, 0.0]), d.k_resolved_density(x, 0), d.full_curve(N=7, T=2000.0)
    return d, m


def fresh(e):
    A, low, width, wrap, N = np.array(e["A"], float), e["low"], e["width"], e["wrap"], e["_N"]
    ranges = [(low[i], low[i] + width[i]) for i in range(3)]
    if e["method"] == "grad":
        cl = np.array(e["bands"], float).reshape(len(e["bands"]), N, N, N, 4)
        b = np.moveaxis(cl[..., 0], 0, -1)
        g = (cl[..., 1:] / (np.array(width) / N)) @ A.T
        m = GridModel(b, A, low, width, N, 0.5 if e["_mid"] else 0.0, np.moveaxis(g, 0, -1))
        return dm.DensityOfStates(m, N=N, A=A, ranges=ranges, wrap=wrap, smearing="cubes", use_gradients=True, midpoint=e["_mid"], check=False), m
    b = np.moveaxis(np.array(e["bands"], float), 0, -1)
    m = GridModel(b, A, low, width, N, 0.5 if e["_mid"] else 0.0)
    Aarg = None if e["_noA"] else A
    if e["_noA"] and low == [-0.5] * 3 and width == [1.0] * 3:
        return dm.DensityOfStates(m, N=N, A=Aarg, wrap=wrap, smearing=e["method"], midpoint=e["_mid"], check=False), m
    return dm.DensityOfStates(m, N=N, A=Aarg, ranges=ranges, wrap=wrap, smearing=e["method"], midpoint=e["_mid"], check=False), m


def dos(**e):
    d, m = make(e)
    before = (m.b.copy(), np.array(d.A).copy())
    out = {k: [] for k in ("N", "N2", "D", "D2", "NB", "DB", "cut")}
    order = np.random.default_rng(len(e["vs"])).permutation(len(e["vs"]))
    for i in order:
        v = e["vs"][i] / 8
        n2, d2 = d.states_density(v)
        out["N"].append(qfix(d.states_below(v), F))
        out["N2"].append(qfix(n2, F))
        out["D"].append(qd(d.density(v)))
        out["D2"].append(qd(d2))
        out["NB"].append([qfix(d.states_below_band(v, b), F) for b in range(d.model_bandcount())])
        out["DB"].append([qd(x) for x in d.density_bands(v)])
        out["cut"].append([int(x) + 1 for x in d.cut_band_indices(v)])
    inv = np.argsort(order)
    out = {k: [x[i] for i in inv] for k, x in out.items()}
    return dict(out, count=int(d.model_bandcount()), ranges=qint(d.bands_range, 8), range=qint(d.energy_range(), 8), same=bool(np.array_equal(before[0], m.b) and np.array_equal(before[1], d.A)))


def fermi(**e):
    d, m = make(e)
    el = e["el"][0] / e["el"][1]
    ef = d.fermi_energy(el)
    a, b = d.states_below(ef - 5e-8), d.states_below(ef + 5e-8)
    n = d.model_bandcount()
    gap = qint(d.bandgap(el) * 8) if 0 < el < n else -1
    exact = abs(ef * 16 - round(ef * 16)) < 1e-6
    return {"ef16": int(round(ef * 16)) if exact else 10**6, "lo8": int(np.floor(ef * 8 - 1e-6)), "hi8": int(np.ceil(ef * 8 + 1e-6)), "Nlow": qfix(a, F), "Nhigh": qfix(b, F), "gap8": gap}


def curve(**e):
    d, m = make(e)
    es, N, D = d.full_curve(N=e["n"]) if e["n"] != 10 else d.full_curve()
    return {"es": qint(es, 8), "N": qfix(N, F), "D": qd(D)}


def smear(es, ys, x, kT, flat):
    """integral of the piecewise linear function against the derivative of the Fermi function (quantiles, midpoint rule)"""
    q = (np.arange(20000) + 0.5) / 20000
    t = x + kT * np.log(q / (1 - q))
    y = np.interp(t, es, ys)
    if not flat:
        y[(t < es[0]) | (t > es[-1])] = 0
    return float(np.mean(y))


def warm(T, **e):
    d, m = make(e)
    es0, N0, D0 = d.full_curve(N=e["n"])
    es, N, D = d.full_curve(N=e["n"], T=T)
    kT = KB * T
    return {"tame": bool(np.max(np.abs(D0)) < 100), "es": qfix(es, F), "cold": qfix(es0, F), "N": qfix(N, F), "D": qd(D),
            "refN": [qfix(smear(es0, N0, x, kT, True), F) for x in es], "refD": [qd(smear(es0, D0, x, kT, False)) for x in es]}


def energy(**e):
    d, m = make(e)
    E = [d.energy(v / 8) for v in e["vs"]]
    E2 = [d.energy(v / 8, spin_factor=1) for v in e["vs"]]
    return {"E": [qfix(x * 4, F) for x in E], "E2": [qfix(x * 8, F) for x in E2]}


def surface(**e):
    d, m = make(e)
    v = e["v"] / 8
    A = np.array(e["A"], float)
    step = np.array(e["width"]) / e["_N"]
    n = int(np.prod([s - (0 if e["wrap"] else 1) for s in d.bands.shape[:3]]))   # the samples of cubes+ are those of the small cells
    kw = dict(improved_points=False)
    x, bi, w, area = d.fermi_surface_samples(v, weight_by_gradient=True, **kw)
    x1, bi1, w1, area1 = d.fermi_surface_samples(v, **kw)
    xb, bib, wb, _ = d.fermi_surface_samples(v, normalize="band", **kw)
    xt, bit, wt, _ = d.fermi_surface_samples(v, normalize="total", **kw)
    u = (x @ A - np.array(e["low"])) / step - (0.5 if e["_mid"] else 0.0)
    pts = []
    for i in range(len(x)):
        cell = np.floor(u[i]).astype(int)
        g = [cellgrad(np.array(e["bands"][bi[i]], float), True)[j][tuple(cell)] for j in range(3)]
        ref = w[i] * np.linalg.norm(A @ (np.array(g) / step))
        pts.append({"band": int(bi[i]) + 1, "cell": (cell + 1).tolist(), "den": qd(w[i] * n), "area": qfix(w1[i], F), "refarea": qfix(ref, F)})
    bands = sorted(set(bi.tolist()))
    return {"pts": pts, "area": qfix(area, F), "sumarea": qfix(np.sum(w1), F), "bandsum": [qfix(np.sum(wb[bib == b]), F) for b in bands], "totalsum": qfix(np.sum(wt), F),
            "samepts": bool(np.allclose(x, x1) and np.allclose(x, xb) and np.allclose(x, xt) and np.array_equal(bi, bi1) and np.array_equal(bi, bib) and area == area1)}


class Quadratic:
    """bands c + (k - k0) H (k - k0) / 2"""

    def __init__(self, c, k0, H):
        self.c, self.k0, self.H = np.array(c, float), np.array(k0, float), np.array(H, float)

    def __call__(self, k):
        d = np.asarray(k)[..., None, :] - self.k0
        return self.c + np.einsum("...bi,bij,...bj->...b", d, self.H, d) / 2

    def bands_grad_hess(self, k):
        d = np.asarray(k)[..., None, :] - self.k0
        return self(k), np.moveaxis(np.einsum("bij,...bj->...bi", self.H, d), -2, -1), np.broadcast_to(np.moveaxis(self.H, 0, -1), (len(k),) + self.H.shape[1:] + self.H.shape[:1])


def refine(k, H, k0, c, N, A, wrap, **_):
    m = Quadratic(c, np.array(k0) / 16, H)
    d = dm.DensityOfStates(m, N=N, A=np.array(A, float), wrap=wrap, check=False)
    samp, true, exact = [], [], []
    for b in range(len(c)):
        e = d.bands[..., b]
        samp.append(qfix([e.min(), e.max()], F))
        ev = np.linalg.eigvalsh(np.array(H[b], float))
        lo = c[b] if ev[0] > 1e-9 else (e.min() if ev[0] > -1e-9 and False else -10**4)
        hi = c[b] if ev[-1] < -1e-9 else 10**4
        t = [qfix(lo, F), qfix(hi, F)]
        diag = bool(np.count_nonzero(np.array(H[b]) - np.diag(np.diag(H[b]))) == 0) and A == LATTICES[0] and N >= 2
        exact.append(("min" if ev[0] > 1e-9 else "max" if ev[-1] < -1e-9 else "") if diag and _["_inside"] else "")
        true.append(t)
    return {"range": qfix(d.bands_range, F), "sampled": samp, "true": true, "exact": exact}


class Cosine:
    """bands c_b + sum_j t_bj cos(2 pi n_bj.(k A)), periodic with the lattice A; sorted"""

    def __init__(self, c, t, n, A):
        self.c, self.t, self.n, self.A = np.array(c, float), np.array(t, float), np.array(n, float), np.array(A, float)

    def raw(self, k):
        ph = 2 * np.pi * np.einsum("...i,bji->...bj", np.asarray(k) @ self.A, self.n)
        return self.c + np.sum(self.t * np.cos(ph), -1), ph

    def __call__(self, k):
        return np.sort(self.raw(k)[0], -1)

    def bands_grad(self, k):
        b, ph = self.raw(k)
        g = -2 * np.pi * np.einsum("...bj,bji->...bi", self.t * np.sin(ph), self.n) @ self.A.T
        i = np.argsort(b, -1)
        return np.take_along_axis(b, i, -1), np.moveaxis(np.take_along_axis(g, i[..., None], -2), -2, -1)


class Values:
    def __init__(self, m):
        self.m = m

    def __call__(self, k):
        return self.m(k)


def check(k, c, t, n, A, A2, **_):
    m = Cosine(c, t, n, A)
    try:
        dm.DensityOfStates(m if _["_grad"] else Values(m), N=2, A=np.array(A2, float), check=_["_check"])
        acc = True
    except AssertionError:
        acc = False
    return {"accepted": acc}


def naive(k, es, shape, filled, mus, spin, **_):
    b = np.array(es, float).reshape(shape)
    ef = dm.naive_fermi_energy(b, filled / np.prod(shape[:-1]))
    nk = np.prod(shape[:-1])
    if _["warm"]:     # all energies in units of kT ln 3
        u = dm.k_B * _["T"] * np.log(3)
        return {"ef2": qint(ef * 2), "E": [qfix(dm.naive_energy(b * u, m * u, _["T"], **({} if spin == 2 and _["_default"] else {"spin_factor": spin})) * nk / u, 1000000) for m in mus]}
    return {"ef2": qint(ef * 2), "E": [qint(dm.naive_energy(b, float(m), 0.0, **({} if spin == 2 and _["_default"] else {"spin_factor": spin})) * nk, 1, 1e-6) for m in mus]}


def thermal(k, c, t, n, A, el, N, Ts, smearing, **_):
    A = np.array(A, float)
    m = Cosine(c, t, n, A)
    d = dm.DensityOfStates(Values(m) if _["_plain"] else m, N=N, A=A, smearing=smearing, **_["_kw"])
    if N % 2:     # other questions before
        d.fermi_energy(el / 2), d.chemical_potential(el / 2, Ts[::-1]), d.seebeck(el / 2, Ts), d.heat_capacity(el / 2, Ts[0]), d.energy(np.mean(d.energy_range()), Ts[0] * 2), d.full_curve(N=9)
    g = np.stack(np.meshgrid(*3 * [(np.arange(36) + 0.5) / 36], indexing="ij"), -1).reshape(-1, 3) @ np.linalg.inv(A)
    b = m(g).ravel()
    nb, nk = len(c), len(g)

    def count(mu, T):
        return np.sum(1 / (1 + np.exp(np.clip((b - mu) / (KB * T), -600, 600)))) / nk

    def solve(T, el):
        lo, hi = b.min() - 50, b.max() + 50
        for _i in range(70):
            x = (lo + hi) / 2
            lo, hi = (x, hi) if count(x, T) < el else (lo, x)
        return (lo + hi) / 2

    def en(mu, T):
        return np.sum(b / (1 + np.exp(np.clip((b - mu) / (KB * T), -600, 600)))) / nk
    ef = d.fermi_energy(el)
    mu = d.chemical_potential(el, Ts)
    one = [float(d.chemical_potential(el, [T])[0]) for T in Ts]
    S = d.seebeck(el, [0.0] + Ts)
    fine = 100.0 * 1.035 ** np.arange(100)
    pick = list(range(0, 100, 9))
    batch = d.chemical_potential(el, fine)[pick]
    single = [d.chemical_potential(el, [fine[i]])[0] for i in pick]
    refS, refC, refk, kmean, kmin, refkd = [], [], [], [], [], []
    q = (np.arange(4000) + 0.5) / 4000
    es = np.linspace(*d.energy_range(), 301)
    De = np.array([d.density(x) for x in es])
    De[[0, -1]] = 0
    es, De = np.concatenate([[es[0] - 1e-9], es, [es[-1] + 1e-9]]), np.concatenate([[0], De, [0]])
    for i, T in enumerate(Ts):
        up, dn = solve(T * 1.01, el), solve(T * 0.99, el)
        refS.append((up - dn) / (0.02 * T))
        refC.append(2 * (en(up, T * 1.01) - en(dn, T * 0.99)) / (0.02 * T))
        x = (b - mu[i]) / (2 * KB * T)
        refk.append(np.sum(1 / np.cosh(np.clip(x, -300, 300))**2) / (4 * KB * T) / nk)
        kr = d.k_resolved_density(mu[i], T, N=200)
        kmean.append(np.mean(kr))
        kmin.append(np.min(kr))
        u = mu[i] + KB * T * np.log(q / (1 - q))
        refkd.append(np.mean(np.interp(u, es, De)))
    gap = [qfix(d.bands_range[int(el) - 1][1], F), qfix(d.bands_range[int(el)][0], F)] if el == int(el) and d.bandgap(el) > 0 else []
    return {"ef": qfix(ef, F), "zero": qfix(d.chemical_potential(el, [0.0])[0], F), "mu": qfix(mu, F), "counted": [qfix(count(x, T), F) for x, T in zip(mu, Ts)],
            "countedsingle": [qfix(count(x, T), F) for x, T in zip(one, Ts)], "gap": gap, "cold": [bool(len(gap) and KB * T * 12 < (gap[1] - gap[0]) / F) for T in Ts],
            "E": [qfix(d.energy(x, T), F) for x, T in zip(mu, Ts)], "refE": [qfix(2 * en(x, T), F) for x, T in zip(mu, Ts)],
            "S0": qfix(S[0], 10**9), "S00": qfix(d.seebeck(el, [0.0, 0.0]), 10**9), "batch": qfix((batch - single) / (KB * fine[pick]), 10**3), "S": qfix(S[1:], 10**9), "refS": qfix(refS, 10**9), "warm": [bool(T >= 4000) for T in Ts], "judge": [bool(KB * T * 3 < np.sum(np.abs(t[0]))) for T in Ts], "C0": qfix(d.heat_capacity(el, 0.0), F),
            "C": [qfix(d.heat_capacity(el, T), 10**9) for T in Ts], "refC": qfix(refC, 10**9), "kmean": qfix(kmean, F), "refkd": qfix(refkd, F), "refk": qfix(refk, F), "kmin": qfix(kmin, F),
            "el": qfix(el, F), "center": qfix(_["_center"], F)}


def kres(**e):
    d, m = make(e)
    return {"K": [qd(np.ravel(d.k_resolved_density(v / 8, 0))) for v in e["vs"]]}


def improved(k, c, t, n, A, v, N, smearing, weights, **_):
    A = np.array(A, float)
    m = Cosine(c, t, n, A)
    d = dm.DensityOfStates(m if not _["_plain"] else Values(m), N=N, A=A, smearing=smearing, wrap=_["_wrap"])
    x0, b0, w0, a0 = d.fermi_surface_samples(v, improved_points=False, weight_by_gradient=True)
    kw = {} if _["_default"] else dict(improved_points=True)
    x, bi, w, a = d.fermi_surface_samples(v, weight_by_gradient=not weights, improved_weights=weights, **kw)
    _x, _b, wt, _a = d.fermi_surface_samples(v, improved_weights=weights, normalize="total", **kw)
    r = np.abs(m(x)[np.arange(len(x)), bi] - v)
    r0 = np.abs(m(x0)[np.arange(len(x0)), b0] - v)
    r, r0 = r / _["_scale"], r0 / _["_scale"]
    D = d.density(v)
    zoom = []
    for z in (1 / 64, 64):   # the same surface in another unit of energy (powers of two: exactly)
        mz = Cosine(np.array(c) * z, np.array(t) * z, n, A)
        xz = dm.DensityOfStates(mz if not _["_plain"] else Values(mz), N=N, A=A, smearing=smearing, wrap=_["_wrap"]).fermi_surface_samples(v * z, weight_by_gradient=not weights, improved_weights=weights, **kw)[0]
        zoom.append(qfix(np.max(np.abs(xz - x)), 10**9) if xz.shape == x.shape else 10**9)
    return {"zoom": zoom, "n": len(x), "n0": len(x0), "bandsok": bool(np.array_equal(bi, b0)), "res": qfix(np.quantile(r, 0.9), F), "mean": qfix(np.mean(r), F), "mean0": qfix(np.mean(r0), F),
            "den": qfix(np.sum(w) if not weights else D, F), "refden": qfix(D, F), "totalsum": qfix(np.sum(wt), F), "same": bool(np.array_equal(m.A, A))}


LEFT = [[0, 1, 0], [1, 0, 0], [0, 0, 1]]


def geometry(rng, left=True):
    if rng.random() < 0.3:
        return dict(A=LATTICES[0], low=[-0.5] * 3, width=[1.0] * 3)
    ls = LATTICES + ([LEFT, (-np.array(LATTICES[1])).tolist()] if left else [])
    A = (np.array(ls[int(rng.integers(len(ls)))]) * float(rng.choice([1, 0.5, 2]))).tolist()
    return dict(A=A, low=rng.choice([-0.5, 0.0, 0.25], 3).tolist(), width=rng.choice([1.0, 0.5, 2.0], 3).tolist())


def system(rng, methods, mx=2, nmax=3, mid=True, left=True, big=0.0):
    method = str(rng.choice(methods))
    geo = geometry(rng, left and method not in ("spheres", "tetras"))
    wrap = bool(rng.random() < 0.5) or method == "grad"
    n = int(rng.integers(1, nmax + 1))
    N = int(rng.choice([2, 4] if n < 2 else [2])) if method == "cubes+" else int(rng.integers(2, 4))
    md = bool(mid and rng.random() < 0.3 and (wrap or method == "grad"))
    if big and rng.random() < big:       # many bands or many cells
        n, N = (int(rng.integers(4, 9)), N) if rng.random() < 0.5 else (n if n < 3 else 2, int(rng.choice([4, 6] if method == "cubes+" else [4, 5, 6])))
    e = dict(method=method, wrap=wrap, _N=N, _mid=md, _noA=bool(geo["A"] == LATTICES[0]), **geo)
    if method == "grad":
        N = e["_N"] = 2
        c = np.sort(rng.integers(-mx, mx + 1, (n, N**3, 1)), 0)
        e["bands"] = np.concatenate([c, rng.integers(-2, 3, (n, N**3, 3))], 2).tolist()
        return e
    M = N + (0 if wrap else 1)
    bands = np.stack([random_grid(rng, (M, M, M), mx) for _ in range(n)])
    bands = np.sort(bands, 0)
    if rng.random() < 0.4:   # separated bands
        off = 0
        for b in range(1, n):
            off = int(rng.integers(0, 2 * mx + 3))
            bands[b:] += off
    if rng.random() < 0.1:
        bands[0] = bands.min()
    e["bands"] = bands.tolist()
    return e


def bounds(e):
    b = np.array(e["bands"])
    if e["method"] == "grad":
        b = b[..., 0]
    return int(b.min()), int(b.max())


def body(c):
    c.model("DosMC", f"CONSTANTS Mx = {c.n(1, 2)}\nMethods = {{\"cubes\", \"tetras\", \"spheres\"}}\nINIT Init\nNEXT Next\nINVARIANTS InRange Ends InGap FullEnergy\nPROPERTIES Monotone EnergyGrows\n",
            min_states=5000, name="levels rising through every small system of two bands")
    rng = c.rng
    ALL = ["cubes", "cubes", "tetras", "cubes+", "spheres", "grad"]
    ev = []
    for i in range(c.n(150, 1500)):
        e = system(rng, ALL, big=0.12)
        lo, hi = bounds(e)
        ev.append(dict(k="dos", vs=sorted(set(rng.integers(8 * lo - 3, 8 * hi + 4, 3).tolist() + [8 * lo, 8 * hi][:int(rng.integers(0, 3))])), **e))
    c.evs("TraceDos", dos, ev)
    ev = []
    for i in range(c.n(150, 1500)):
        e = system(rng, ["cubes", "cubes", "tetras", "cubes+", "spheres"], big=0.2)
        n = len(e["bands"])
        den = int(rng.choice([1, 1, 2, 3, 7, 100]))
        ev.append(dict(k="fermi", el=[int(rng.integers(0, n * den + 1)), den], **e))
    c.evs("TraceDos", fermi, ev)
    ev = []
    for i in range(c.n(60, 500)):
        e = system(rng, ["cubes", "tetras", "cubes+", "spheres"], nmax=2, big=0.1)
        ev.append(dict(k="curve", n=int(rng.choice([2, 3, 5, 9])), **e))
    c.evs("TraceDos", curve, ev)
    ev = []
    for i in range(c.n(30, 300)):
        e = system(rng, ["cubes", "tetras", "spheres"], nmax=2)
        if len(set(np.array(e["bands"]).ravel().tolist())) > 1:
            ev.append(dict(k="warm", n=int(rng.choice([2, 5, 10])), T=float(rng.choice([300, 3000, 20000])), **e))
    c.evs("TraceDos", warm, ev)
    ev = []
    for i in range(c.n(80, 800)):
        e = system(rng, ["cubes"], big=0.1)
        lo, hi = bounds(e)
        ev.append(dict(k="energy", etol=8000 * len(e["bands"]), vs=sorted(set(rng.integers(8 * lo - 4, 8 * hi + 20, 3).tolist())), **e))
    c.evs("TraceDos", energy, ev)
    ev = []
    for i in range(c.n(80, 800)):
        e = system(rng, ["cubes", "cubes", "cubes+"], nmax=2, big=0.1)
        lo, hi = bounds(e)
        ev.append(dict(k="surface", v=int(rng.integers(8 * lo, 8 * hi + 1)), **e))
    c.evs("TraceDos", surface, ev)
    ev = []
    for i in range(c.n(40, 400)):
        n = int(rng.integers(1, 3))
        H, k0 = [], []
        A = LATTICES[0] if rng.random() < 0.6 else LATTICES[int(rng.integers(len(LATTICES)))]
        for b in range(n):
            h = np.diag(rng.integers(1, 5, 3) * 2)
            if rng.random() < 0.4:
                q = rng.integers(-1, 2, (3, 3))
                h = q @ q.T + np.eye(3, dtype=int) * int(rng.integers(1, 3)) if rng.random() < 0.7 else q + q.T
            H.append((h * int(rng.choice([-1, 1]))).tolist())
            k0.append(rng.integers(-5, 4, 3).tolist())
        N = int(rng.choice([3, 4, 6, 8]))
        # the sampled points reach from -1/2 to 1/2 - 1/N (1/2 without wrapping)
        inside = all(max(k) / 16 <= 0.5 - 1 / N for k in k0)
        cc = rng.integers(-3, 4, n).tolist()
        ev.append(dict(k="refine", H=H, k0=k0, c=cc, N=N, A=A, wrap=bool(rng.random() < 0.5), _inside=inside))
    c.evs("TraceDos", refine, ev)
    ev, et, ei = [], [], []
    for i in range(c.n(40, 400)):
        A = np.array(LATTICES[int(rng.integers(len(LATTICES)))], float)
        same = bool(rng.random() < 0.6)
        U = np.eye(3)
        if rng.random() < 0.5:
            U[int(rng.integers(3)), :] += 0
            i1, j1 = rng.permutation(3)[:2]
            U[i1, j1] = int(rng.integers(-1, 2))
        A2 = A @ U
        if not same:
            j = int(rng.integers(3))
            f = float(rng.choice([0.5, 0.75, 1.25]))
            A2[:, j] *= f
            same = f == 0.5   # twice a reciprocal lattice vector is a period
        ev.append(dict(k="check", periodic=same, c=[0, 1], t=[[1, 2, 3], [2, 1, 3]], n=[np.eye(3, dtype=int).tolist()] * 2, A=A.tolist(), A2=A2.tolist(), _grad=bool(rng.random() < 0.5), _check=[True, 1e-8, 0.01][int(rng.integers(3))]))
    c.evs("TraceDos", check, ev)
    ev = []
    for i in range(c.n(60, 600)):
        shape = [int(rng.integers(1, 5)), int(rng.integers(1, 3))] if rng.random() < 0.6 else [2, int(rng.integers(1, 3)), int(rng.integers(1, 4))]
        n = int(np.prod(shape))
        es = np.sort(rng.integers(-9, 10, shape), -1)
        ev.append(dict(k="naive", warm=bool(i % 3 == 2), T=int(rng.choice([1, 30, 300, 2000])), es=es.ravel().tolist(), shape=shape, filled=int(rng.integers(0, n + 1)), mus=sorted(rng.integers(-10, 11, 3).tolist()), spin=int(rng.choice([1, 2])), _default=bool(rng.random() < 0.5)))
    c.evs("TraceDos", naive, ev)
    ev = []
    for i in range(c.n(60, 500)):
        e = system(rng, ["cubes", "tetras"], nmax=2)
        lo, hi = bounds(e)
        if e["method"] == "tetras":
            e = system(rng, ["cubes"], nmax=2)
            lo, hi = bounds(e)
        ev.append(dict(k="kres", vs=sorted(set(rng.integers(8 * lo - 2, 8 * hi + 3, 3).tolist())), **e))
    c.evs("TraceDos", kres, ev)
    for i in range(c.n(24, 200)):
        nb = int(rng.choice([1, 2, 2]))
        t = rng.choice([0.5, 1.0, 1.5], (nb, 3)) * rng.choice([-1, 1], (nb, 3))
        gapd = float(rng.choice([1.0, 3.0, 9.0, 14.0]))
        shift = float(rng.choice([0.0, 0.0, 4.0, -3.0]))
        cc = [shift, shift + gapd][:nb]
        el = float(rng.choice([0.2, 0.5, 1.3, 1.7, 1.0][:(2 if nb == 1 else 5)]))
        sym = nb == 1 and el == 0.5
        A = LATTICES[int(rng.integers(2))]
        et.append(dict(k="thermal", c=cc, t=t.tolist(), n=[np.eye(3, dtype=int).tolist()] * nb, A=A, el=el, N=int(rng.choice([12, 16])), Ts=sorted(rng.choice([1500.0, 4000.0, 12000.0, 30000.0], 2, replace=False).tolist()),
                       smearing=["cubes", "tetras", "cubes"][i % 3], symmetric=sym, ntol=1500, etol=6000, ktol=2500, _center=shift, _plain=bool(rng.random() < 0.5), _kw={}))
    c.evs("TraceDos", thermal, et, chunk=1)
    for i in range(c.n(40, 300)):
        nb = int(rng.choice([1, 1, 2]))
        scale = float(rng.choice([1, 1, 4, 0.25, 1 / 32]))
        t = rng.choice([0.5, 1.0, 1.5], (nb, 3)) * scale
        cc = [0.0, 9.0 * scale][:nb]
        wts = bool(i % 4 == 3)
        A = LATTICES[0] if wts else LATTICES[int(rng.integers(4))]
        s = float(np.sum(np.abs(t[0])))
        vs = [x * s for x in (-0.6, -0.3, 0.45, 0.7, 0.2, -0.15, -0.75) if all(min(abs(x * s - a - b - d) for a in (-t[j, 0], t[j, 0]) for b in (-t[j, 1], t[j, 1]) for d in (-t[j, 2], t[j, 2])) > 0.19 * scale for j in range(1))]
        if not vs:
            continue
        v = float(rng.choice(vs))   # away from van Hove singularities
        ei.append(dict(k="improved", c=cc, t=t.tolist(), n=[np.eye(3, dtype=int).tolist()] * nb, A=A, v=v, _scale=scale, N=12, smearing="cubes", weights=wts, rtol=4000, _plain=bool(rng.random() < 0.4) and not wts, _wrap=bool(rng.random() < 0.7), _default=bool(rng.random() < 0.5)))
    c.evs("TraceDos", improved, ei)
    c.validate("TraceDos", min_events=500)
    c.coverage["rational_points_explored"] = "integer bands on grids up to 4x4x4 cells, levels in eighths, all smearing methods"
    c.assumptions.append("finite temperatures are compared with sums over a 36^3 grid: electrons to 0.015, energies to 0.06, heat capacities to 40 % (the code samples 256 energies with equal weights)")


if __name__ == "__main__":
    main("P18", body)
