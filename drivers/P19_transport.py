"""P19: transport integrals over Fermi surfaces, transport coefficients, free electrons."""
import os
import sys
import warnings
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *  # noqa
from tight_binding_redweasel import bulk_properties as bulk
from tight_binding_redweasel import density_of_states as dm
from tight_binding_redweasel.tight_binding_asym import free_electron_model_orthogonal
from P17_cuts import F, LATTICES, random_grid, cellgrad  # noqa
from P18_dos import GridModel, system, bounds  # noqa

KB = dm.k_B
# CODATA 2018 (exact)
QE, HBAR = 1.602176634e-19, 1.054571817646e-34
CV = 1e-10 / (2 * np.pi * HBAR) * QE    # eV per (2 pi / Angstrom) -> m/s


class Tiles(GridModel):
    """a function which is linear in every cell of a grid, with second derivatives which are constant in every cell"""

    def equip(self, wrap, N, hess):
        self.wrap, self.N = wrap, N
        b = np.moveaxis(self.b, -1, 0).astype(float)
        self.slopes = np.stack([np.stack(cellgrad(x, wrap), -1) for x in b], -1)          # cells, 3, bands
        m = b
        for ax in (1, 2, 3):
            m = (m + np.roll(m, -1, ax)) / 2
        self.means = np.moveaxis(m if wrap else m[:, :-1, :-1, :-1], 0, -1)
        self.hess = np.moveaxis(np.array(hess, float), 0, -1)                             # cells, 3, 3, bands
        return self

    def cell(self, k):
        u = (np.asarray(k) @ self.A - self.low) / self.width * self.N - self.shift
        i = np.floor(u).astype(int)
        x = u - i - 0.5
        if self.wrap:
            i %= self.N
        assert np.all((i >= 0) & (i < self.N)), "point outside of the cells"
        return tuple(i.T), x

    def jac(self):
        return self.A @ np.diag(self.N / self.width)

    def linear(self, k):
        i, x = self.cell(k)
        return self.means[i] + np.einsum("nd,ndb->nb", x, self.slopes[i])

    def tile_grad(self, k):
        i, x = self.cell(k)
        return self.linear(k), np.einsum("ij,njb->nib", self.jac(), self.slopes[i])

    def tile_hess(self, k):
        i, x = self.cell(k)
        return self.linear(k), np.einsum("ij,njb->nib", self.jac(), self.slopes[i]), np.einsum("ij,kl,njlb->nikb", self.jac(), self.jac(), self.hess[i])


def integral(**e):
    A0, low, width, wrap, N = np.array(e["A"], float), e["low"], e["width"], e["wrap"], e["_N"]
    Ad = A0
    if e["_seed"] % 4 == 0:      # the densities are in other coordinates than the coefficients
        Ad = np.array([[[0, 1, 0], [-1, 0, 0], [0, 0, 1]], [[1, 0, 0], [1, 1, 0], [0, 2, 1]], [[1, 0, 1], [0, 1, 0], [0, 0, 2]]][e["_seed"] % 3]) @ A0
    m = Tiles(np.moveaxis(np.array(e["bands"], float), 0, -1), Ad if not e["_crystal"] else np.eye(3), low, width, N, 0.5 if e["_mid"] else 0.0)
    kw = {} if e["_crystal"] else {"A": Ad}
    d = dm.DensityOfStates(m, N=N, ranges=[(low[i], low[i] + width[i]) for i in range(3)], wrap=wrap, smearing="cubes", midpoint=e["_mid"], check=False, **kw)
    m.equip(wrap, N, e["hess"])
    m.bands_grad, m.bands_grad_hess = m.tile_grad, m.tile_hess
    v = e["v"] / 8
    A = A0 * e["_unit"]
    A_ = A.copy()
    spin = e["_spin"]
    el = d.states_below(v)
    Ts = e["_Ts"]
    if el <= 0 or el >= len(e["bands"]):     # nothing or everything is filled up to this level
        return {"level": False}
    if e["_seed"] % 2:      # another integral over the same densities, before and while this one is used
        try:
            other = bulk.KIntegral(d, len(e["bands"]) - el, [300.0] + Ts)
        except NotImplementedError:
            other = bulk.KIntegral(d, el, Ts[:1])
    ki = bulk.KIntegral(d, el, Ts)
    if e["_seed"] % 2:
        other.drude_factor(A, 3 - spin)
        ki.drude_factor(A * 2, 3 - spin)
    metal = bool(d.bandgap(el) == 0)
    level = bool(abs(ki.fermi_energy - v) < 1e-6 or not metal)
    W = A @ np.diag(N / np.array(width))           # velocities per cell
    V = abs(np.linalg.det(A)) * 1e-30
    iW = np.linalg.inv(W)
    U0 = spin * QE**2 / QE / V * CV**2
    U3 = spin * QE**3 / QE / V * CV**4 / QE
    pull2 = lambda s: qfix(iW @ s @ iW.T / U0, F)
    pull3 = lambda s: qfix(np.einsum("ia,jb,ck,abc->ijk", iW, iW, W, s) / np.linalg.det(W) / U3, F)
    tab = np.array(e["tau"], float)

    def tau(k):
        u = (np.asarray(k) @ A / (2 * np.pi) - low) / width * N - m.shift
        return tab[tuple((np.floor(u).astype(int) % N).T)]
    calls = {"L": lambda: ki.transport_coefficients(A, spin), "drude": lambda: ki.drude_factor(A, spin), "Lt": lambda: ki.transport_coefficients(A, spin, tau=tau, max_a=0),
             "hall": lambda: ki.conductivity_hall_tensor(A, spin, tau=tau), "Lc": lambda: ki.transport_coefficients(A, spin, tau=e["tconst"], max_a=0),
             "hallc": lambda: ki.conductivity_hall_tensor(A, spin, tau=float(e["tconst"]))}
    order = np.random.default_rng(e["_seed"]).permutation(list(calls))
    r = {n: calls[n]() for n in order}
    r2 = {n: calls[n]() for n in order[::-1]}
    flat = lambda x: np.concatenate([np.ravel(y) for y in x]) if isinstance(x, tuple) else np.ravel(x)
    again = all(np.allclose(flat(r[n]), flat(r2[n]), rtol=1e-9, atol=0) for n in calls)
    nT = len(Ts)
    shapes = r["L"].shape == (3, nT, 3, 3) and r["drude"].shape == (nT, 3, 3) and r["hall"][0].shape == (nT, 3, 3) and r["hall"][1].shape == (nT, 3, 3, 3) and r["Lt"].shape == (1, nT, 3, 3)
    cubic = []
    if metal and e["_cubic"]:
        rh = ki.hall_coefficient_metal_cubic(A, spin)
        shapes = shapes and rh.shape == (nT,)
        cubic = [qfix(np.clip(np.nan_to_num(rh[0]) * QE * spin / V, -2e4, 2e4), F)]
    dev, ens = [], []

    def probe(en, vel, k):
        dev.append(float(np.max(np.min(np.abs(m.linear(k) - en), -1), initial=0)))
        ens.append(abs(en - v) < 1e-6)
        return np.ones(len(k))

    def probeA(en, vel, k):
        kk = np.asarray(k) @ A / (2 * np.pi) @ np.linalg.inv(m.A)
        dev.append(float(np.max(np.min(np.abs(m.linear(kk) - en), -1), initial=0)))
        i, x = m.cell(kk)
        g = np.einsum("ij,njb->nib", W, m.slopes[i]) * CV
        dev.append(float(np.max(np.min(np.linalg.norm(vel[:, :, None] - g, axis=1), -1), initial=0) / CV / np.linalg.norm(W)))
        return np.ones(len(k))
    if metal:
        ki.integrate_df(probe)
        ki.integrate_df_A(A, probeA)
    grid = np.arange(1, 11).reshape(2, 5)
    tot = ki.integrate_df(lambda en, vel, k: np.ones((len(k), 2, 5)) * grid, moments=1)
    hs = ki.integrate_df(lambda en, vel, h, k: np.ones(len(k)), hessians=True)
    hv = ki.integrate_df(lambda en, vel, h, k: np.ones((len(k), 2, 5)) * grid, hessians=True)
    shapes = shapes and tot.shape == (2, nT, 2, 5) and hs.shape == (1, nT) and hv.shape == (1, nT, 2, 5)
    shapes = shapes and np.allclose(tot, tot[..., :1, :1] * grid) and np.allclose(hv, hs[..., None, None] * grid) and np.allclose(hs[0], tot[0, :, 0, 0])
    Ua = [spin * QE**(2 - a) / V * CV**2 * QE**(a - 1) for a in range(3)]    # with energies in eV
    return {"level": level, "L0": pull2(r["L"][0, 0]), "L12": [qfix(iW @ r["L"][a, t] @ iW.T / Ua[a], F) for a in (1, 2) for t in range(nT)],
            "drude": pull2(r["drude"][-1]), "Lt": pull2(r["Lt"][0, -1]), "s2": pull2(r["hall"][0][0]), "s3": pull3(r["hall"][1][-1]), "Lc": pull2(r["Lc"][0, 0]), "s2c": pull2(r["hallc"][0][0]),
            "cubic": cubic, "dev": [qfix(x, F) for x in dev], "energies": bool(all(ens)), "shapes": bool(shapes), "again": bool(again), "same": bool(np.array_equal(A, A_))}


class Linear:
    def __init__(self, lo, hi, axis):
        self.lo, self.hi, self.axis = np.array(lo, float), np.array(hi, float), axis

    def __call__(self, k):
        return self.lo + (np.asarray(k)[:, self.axis, None] + 0.5) * (self.hi - self.lo)

    def bands_grad(self, k):
        g = np.zeros((len(k), 3, len(self.lo)))
        g[:, self.axis] = self.hi - self.lo
        return self(k), g


def warmint(lo, hi, m, js, axis, unit, **_):
    N = _["_num"]
    model = Linear(lo, hi, axis)
    d = dm.DensityOfStates(model, N=_["_grid"], wrap=False, check=False)
    el = d.states_below(m / 8)
    T = [0.0 if j < 0 else 2.0**-j / KB for j in js]
    kw = {} if _["_default"] else {"rtol": 1e-12}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ki = bulk.KIntegral(d, el, T, N=N, **kw)
    Is, shapes = [], True
    for p in range(4):
        r = ki.integrate_df(lambda e, v, k: e**p * v[:, axis]**2 / unit**2, moments=3)
        shapes = shapes and r.shape == (4, len(T))
        Is += [{"p": p, "a": a, "j": js[t], "I": qfix(r[a, t], F)} for a in range(4) for t in range(len(T))]
    A = np.diag([1.0, 2.0, 5.0])[[0, 2, 1]]
    L = ki.transport_coefficients(A, 2)
    v = A[:, axis] * CV * unit
    i = int(np.argmax(np.abs(v)))
    for a in range(3):     # the coefficients are the same integrals, with their units
        Is += [{"p": 0, "a": a, "j": js[t], "I": qfix(L[a, t, i, i] / (2 * QE**(2 - a) / (10 * 1e-30) * QE**(a - 1)) / v[i]**2, F)} for t in range(len(T))]
    shapes = shapes and L.shape == (3, len(T), 3, 3) and np.sum(np.abs(L[0]) > 1e-9 * np.max(L[0])) == len(T)
    return {"mu": qfix(ki.mu, F), "I": Is, "shapes": bool(shapes), "degree": (2 if _["_default"] else N - 1), "tol": 300, "rel": 25 if _["_default"] else 2000}


def center(lo, hi, m, js, axis, **_):
    """a band begins close to the level, so the chemical potential moves with the temperature"""
    model = Linear(_["_lo"], _["_hi"], axis)
    d = dm.DensityOfStates(model, N=3, wrap=False, check=False)
    T = [0.0 if j < 0 else 2.0**-j / KB for j in js]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ki = bulk.KIntegral(d, d.states_below(m / 8), T, N=_["_num"])
    Is = [[ki_a for ki_a in ki.integrate_df(lambda e, v, k: e**p * v[:, axis]**2 / 16, moments=3)] for p in range(4)]
    return {"mu": qfix(ki.mu, F), "ef": qfix(ki.fermi_energy, F), "I": [[[qfix(Is[p][a][t], F) for a in range(4)] for p in range(4)] for t in range(len(T))]}


def unimodular(rng):
    U = np.eye(3, dtype=int)
    for _ in range(4):
        i, j = rng.permutation(3)[:2]
        U[i] += int(rng.choice([-1, 1])) * U[j]
    return U[rng.permutation(3)] * int(rng.choice([-1, 1]))


def coef(k, L, s3, T, **_):
    La = np.array(L, float)
    S3 = np.array(s3, float)
    L_, S_ = La.copy(), S3.copy()
    batch = np.stack([La, La * [[[1]], [[2]], [[3]]]], 1)       # two temperatures
    pel = bulk.peltier(La)
    b = bulk.peltier(batch)
    h = bulk.hall_coefficients(La[0], S3)
    hb = bulk.hall_coefficients(np.stack([La[0]] * 4), np.stack([S3, 2 * S3, 0 * S3, -S3]))
    ok = np.allclose(b[0], pel) and np.allclose(b[1], 2 * pel) and np.allclose(bulk.conductivity(batch), batch[0]) and all(np.allclose(hb[i], x * h) for i, x in enumerate((1, 2, 0, -1)))
    ok = ok and np.allclose(bulk.seebeck(batch, T)[1], 2 * bulk.seebeck(La, T)) and np.allclose(bulk.electronic_thermal_conductivity(batch, T)[0], bulk.electronic_thermal_conductivity(La, T))
    return {"cond": qint(bulk.conductivity(La)), "pel": qint(pel), "seeb": qint(bulk.seebeck(La, T) * T), "kap": qint(bulk.electronic_thermal_conductivity(La, T) * T), "hall": qint(h),
            "batches": bool(ok), "same": bool(np.array_equal(La, L_) and np.array_equal(S3, S_))}


def free(k, ks, nbs, limit, **_):
    fe = bulk.FreeElectrons(k_neighbors=nbs, limit_count=limit or None) if not _["_def"] else bulk.FreeElectrons()
    unit = HBAR**2 / (2 * 9.1093837015e-31) * (2 * np.pi * 1e10)**2 / QE    # hbar^2 / 2 m (2 pi / Angstrom)^2 in eV
    k_ = np.array(ks) / 4
    b = fe(k_)
    b1, g = fe.bands_grad(k_)
    b2, g2, h = fe.bands_grad_hess(k_)
    n = b.shape[1]
    shapes = b.shape == (len(ks), n) and g.shape == (len(ks), 3, n) and h.shape == (len(ks), 3, 3, n)
    hb = np.broadcast_to(h, (len(ks),) + h.shape[1:])
    q = lambda x: qint(x, tol=1e-4)
    return {"shapes": bool(shapes), "bands": q(b / unit * 16), "bands1": q(b1 / unit * 16), "bands2": q(b2 / unit * 16), "grads": q(np.moveaxis(g, 1, -1) / unit * 2), "grads2": q(np.moveaxis(g2, 1, -1) / unit * 2),
            "hess": q(np.moveaxis(hb, -1, 1) / unit / 2)}


def freetb(a, nc, bp, ks, **_):
    m, u = free_electron_model_orthogonal(float(a[0]), float(a[1]), float(a[2]), nc, bp)
    b = m.bands(np.array(ks) / 16 / np.array(a))
    return {"bands": qfix(b, F), "count": len(m.H.neighbors), "unit": qfix(u, F)}


def reject(k, what, want, **_):
    model = Linear([-4, 4], [0, 8], 0) if what.startswith("gap") else Linear([-4], [4], 0)
    d = dm.DensityOfStates(model, N=2, wrap=False, check=False)
    el = 1 if what.startswith("gap") else 0.5
    try:
        bulk.KIntegral(d, el, {"negative": [-1.0], "gapwarm": [300.0]}.get(what, [0.0]), N={"even": 4}.get(what))
    except (AssertionError, ValueError, NotImplementedError):
        return {"raised": True}
    return {"raised": False}


def body(c):
    c.model("TransportMC", "CONSTANTS Mx = 1\nDepth = %d\nINIT Init\nNEXT Next\nINVARIANTS Outer2 Symmetric2 Pseudo Perpendicular Kelvin Inverse Shifted\n" % c.n(1, 2), min_states=1500, name="tensors under changes of coordinates")
    rng = c.rng
    ev = []
    while len(ev) < c.n(150, 1500):
        e = system(rng, ["cubes"], mx=2, nmax=2, big=0.07)
        e["A"] = np.array(e["A"]).tolist()
        N, nb = e["_N"], len(e["bands"])
        if rng.random() < 0.25:   # cubic
            e["A"], e["width"] = np.eye(3).tolist(), [float(rng.choice([1.0, 0.5]))] * 3
        lo, hi = bounds(e)
        if hi == lo:
            continue
        h = rng.integers(-1, 2, (nb, N, N, N, 3, 3))
        h = np.sign(h + np.swapaxes(h, -1, -2))
        v = int(rng.integers(8 * lo + 1, 8 * hi))
        ev.append(dict(k="integral", v=v, hess=h.tolist(), tau=rng.integers(1, 4, (N, N, N)).tolist(), tconst=int(rng.choice([1, 2, 3])), _unit=float(rng.choice([1.0, 3.61, 0.2])), _spin=int(rng.choice([1, 2])),
                       _crystal=bool(rng.random() < 0.4), _Ts=[[0.0], [0.0], [0, 0]][int(rng.integers(3))], _cubic=bool(np.array_equal(e["A"], np.eye(3)) and len(set(e["width"])) == 1), _seed=int(rng.integers(10**6)), **e))
    c.evs("TraceTransport", integral, ev)
    ev = []
    for i in range(c.n(60, 600)):
        nb = int(rng.choice([1, 2]))
        lo = (-8 * rng.integers(2, 4, nb)).tolist()
        hi = (8 * rng.integers(2, 4, nb)).tolist()
        o = np.argsort(lo)
        js = [[3], [4], [5, 3], [4, 3], [-1, 3], [3, 4, -1], [5, 4, 3], [3, 5], [-1], [6, 5]][int(rng.integers(10))]
        N = int(rng.choice([1, 3, 5, 7, 9, 11]))
        single = len([j for j in js if j >= 0]) <= 1
        if not single and N in (3, 5) and min(js) >= 0:
            N = 7
        if single is False and N in (3, 5):
            N = 9
        lo, hi = [lo[0]] * nb, [hi[0]] * nb       # bands do not cross
        if nb == 2:
            lo, hi = [lo[0], lo[0] + 2], [hi[0], hi[0] + 2]
        ev.append(dict(k="warmint", lo=lo, hi=hi, m=int(rng.integers(-12, 13)), js=js, axis=int(rng.integers(3)), _num=N, unit=4, _grid=int(rng.choice([2, 3])), _default=False))
    for i in range(c.n(20, 100)):
        ev.append(dict(k="warmint", lo=[-16], hi=[16], m=int(rng.integers(-12, 13)), js=[[3], [4], [-1], [5], [-1, 4]][i % 5], axis=0, _num=None, unit=4, _grid=2, _default=True))
    c.evs("TraceTransport", warmint, ev)
    ev = []
    for i in range(c.n(20, 200)):
        m = int(rng.integers(-10, 11))
        js = [[3], [4], [3, 4], [4, 3, -1], [3, -1]][int(rng.integers(5))]
        off = float(2.0**-max(js)) * float(rng.choice([-0.5, 0.5, 1.0]))
        ev.append(dict(k="center", lo=[-4.0, m / 8 + off], hi=[4.0, m / 8 + off + 8.0], m=m, js=js, axis=int(rng.integers(3)), _num=[7, 9, 11, 13][i % 4]))
        if rng.random() < 0.5:
            ev[-1].update(lo=[-4.0, m / 8 + off - 8.0], hi=[4.0, m / 8 + off])
        o = np.argsort(ev[-1]["lo"])
        ev[-1].update(lo=[float(ev[-1]["lo"][x]) for x in o], hi=[float(ev[-1]["hi"][x]) for x in o])
    for e in ev:
        e["_lo"], e["_hi"], e["lo"], e["hi"] = e["lo"], e["hi"], [int(round(64 * x)) for x in e["lo"]], [int(round(64 * x)) for x in e["hi"]]
    c.evs("TraceTransport", center, ev)
    ev = []
    for i in range(c.n(12, 80)):
        bp = int(rng.choice([1, 2, 3]))
        ev.append(dict(k="freetb", a=rng.integers(1, 3, 3).tolist(), nc=int(rng.integers(2, 6 if bp < 3 else 4)), bp=bp, ks=(2 * rng.integers(-4, 4, (6, 3)) + 1).tolist()))
    c.evs("TraceTransport", freetb, ev)
    ev = []
    for i in range(c.n(100, 1000)):
        L = [unimodular(rng).tolist(), rng.integers(-4, 5, (3, 3)).tolist(), rng.integers(-9, 10, (3, 3)).tolist()]
        ev.append(dict(k="coef", L=L, s3=rng.integers(-3, 4, (3, 3, 3)).tolist(), T=float(rng.choice([1, 2, 300, 0.5]))))
    c.evs("TraceTransport", coef, ev)
    ev = []
    for i in range(c.n(60, 600)):
        nn = int(rng.integers(1, 9))
        dfl = bool(rng.random() < 0.15)
        nbs = [[0, 0, 0]] if dfl else np.unique(rng.integers(-1, 2, (nn, 3)), axis=0).tolist()
        rng.shuffle(nbs)
        ev.append(dict(k="free", ks=rng.integers(-4, 5, (int(rng.integers(1, 6)), 3)).tolist(), nbs=nbs, limit=0 if dfl else int(rng.integers(0, len(nbs) + 2)), _def=dfl))
    c.evs("TraceTransport", free, ev)
    c.evs("TraceTransport", reject, [dict(k="reject", what=w, want=w not in ("good", "gap")) for w in ("good", "gap", "negative", "gapwarm", "even")])
    c.validate("TraceTransport", min_events=300)
    c.coverage["rational_points_explored"] = "piecewise linear bands on grids up to 3x3x3 cells with integer second derivatives and scattering times per cell, levels in eighths; linear bands at temperatures of 1/8 to 1/64 eV"
    c.assumptions.append("tensors are compared in the coordinates of a cell with 0.5 % (2 % and more for products of several); the sign convention of the charge and the dropping of small weights (rtol) are taken as they are")


if __name__ == "__main__":
    main("P19", body)
