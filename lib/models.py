"""Random models with Gaussian integer coefficients, and projections of what the library computes with them."""
import itertools
import numpy as np
from vlib import *  # noqa
from tight_binding_redweasel.tight_binding_asym import HermitianFourierSeries, AsymTightBindingModel
from tight_binding_redweasel.bandstructure import BandStructureModel
from tight_binding_redweasel.symmetry import Symmetry
from tight_binding_redweasel.tight_binding import TightBindingModel
from tight_binding_redweasel.unitary_representations import UnitaryRepresentation


def half_neighbors(rng, dim, count, reach=2, mirror=False):
    """0 first, then distinct non zero vectors, one of each mirror pair"""
    pool = [v for v in itertools.product(range(-reach, reach + 1), repeat=dim) if any(v)]
    out, seen = [(0,) * dim], set()
    for i in rng.permutation(len(pool)):
        v = pool[i]
        if len(out) > count:
            break
        if v in seen or (not mirror and tuple(-x for x in v) in seen):
            continue
        if dim > 1 and reach > 1 and max(map(abs, v)) > 1 and rng.random() < 0.5:
            continue
        seen.add(v)
        out.append(v)
    return [list(v) for v in out]


def gauss(rng, n, m, mx):
    return rng.integers(-mx, mx + 1, (n, m)) + 1j * rng.integers(-mx, mx + 1, (n, m))


def herm(rng, n, mx):
    a = gauss(rng, n, n, mx)
    a = np.triu(a, 1)
    return a + a.conj().T + np.diag(rng.integers(-mx, mx + 1, n))


def coeffs(rng, n, count, mx=2, hermitian=False, zero=0.15):
    H = [herm(rng, n, mx + 1)]
    for _ in range(count):
        A = herm(rng, n, mx) if hermitian else gauss(rng, n, n, mx)
        if rng.random() < zero:
            A = A * 0
        if n > 1 and rng.random() < 0.2:
            A = A * (rng.random((n, n)) < 0.5)
            if hermitian:
                A = np.triu(A, 1) + np.triu(A, 1).conj().T + np.diag(np.diag(A).real)
        H.append(A)
    H = np.array(H, dtype=complex)
    return H if rng.random() > 0.2 else H.real + 0j


def random_model(rng, dim=None, n=None, count=None, hermitian=False, reach=2, mx=2, mirror=False):
    dim = dim or int(rng.integers(1, 4))
    n = n or int(rng.integers(1, 4))
    count = count if count is not None else int(rng.integers(0, 6))
    nb = half_neighbors(rng, dim, count, reach, mirror)
    return dim, n, nb, coeffs(rng, n, len(nb) - 1, mx, hermitian)


def jH(H):
    return gint(H)


def cH(H):
    """the coefficients as an array; coefficients without imaginary parts come as numbers of any type"""
    a = np.array(H, dtype=float)
    if a.size and not np.any(a[..., 1]):
        a = a[..., 0].copy()
        return [a + 0j, a, a, a.astype(int)][int(np.sum(np.abs(a)) + len(a)) % 4]
    return a[..., 0] + 1j * a[..., 1]


def probes(rng, dim, count=4, zero=True):
    q = rng.integers(-6, 7, (count, dim))
    if rng.random() < 0.15:
        q = q // 3 * 4          # points where the phases are 1
    if zero:
        q[0] = 0
    return q.tolist()


def points(q, den=4):
    """points as arrays of different kinds: read only, lists, another memory order, integers"""
    k = np.array(q) / den
    kind = int(np.sum(np.abs(q)) + len(k)) % 6
    if kind == 0:
        k.flags.writeable = False
    elif kind == 1:
        return k.tolist()
    elif kind == 2:
        return np.asfortranarray(k)
    if kind < 5 and np.array_equal(k, np.round(k)):
        return np.round(k).astype(int)
    return k


def used(m, kk):
    """the model has answered other questions before: other points (in the same array), and the same points with other parameters.
    Returns the points, in the array of the earlier question where that can be written to"""
    c = int(abs(np.sum(np.asarray(kk, float)) * 4)) + np.size(kk)
    if c % 2:
        return kk
    s = m.H if isinstance(m, AsymTightBindingModel) else m
    buf = kk
    if isinstance(kk, np.ndarray) and kk.flags.writeable:
        buf = kk.copy()
        buf[...] = kk[::-1] * 2 + 1
    other = np.array(buf)[:1 + c % 3] + 0.25
    for x in (buf, other):
        s.f(x), m.bands(x)
        if c % 3:
            s.df(x), m.bands_grad(x)
        if c % 3 == 2:
            m.bands_grad_hess(x)
    attr = "H_r" if s is not m else "params"
    mine = getattr(s, attr)
    setattr(s, attr, mine * 2)
    s.f(kk), m.bands(kk), m.bands_grad(kk)
    setattr(s, attr, mine)
    if buf is not kk:
        s.f(buf), m.bands(buf)
        buf[...] = kk
    return buf


def hk(nb, H, k):
    """the driver's own evaluation: only used to choose inputs (non degenerate points, tolerances)"""
    nb, k = np.array(nb, float), np.array(k, float)
    T = sum((np.exp(2j * np.pi * (k @ nb[i]))[..., None, None] * H[i] for i in range(1, len(nb))), np.zeros(k.shape[:-1] + H[0].shape, complex))
    return T + np.conj(np.swapaxes(T, -1, -2)) + H[0]


def overlap(rng, dim, n):
    """a positive definite overlap series with small integers"""
    if rng.random() < 0.4:
        L = np.eye(n, dtype=complex)
        if n > 1:
            L[0, 1] = rng.integers(-1, 2) + 1j * rng.integers(-1, 2)
        return [[0] * dim], np.array([L @ L.conj().T])
    nb = half_neighbors(rng, dim, int(rng.integers(1, 3)), 1)
    S = [np.eye(n) * (3 if len(nb) == 2 else 5)] + [gauss(rng, n, n, 1) for _ in nb[1:]]
    for i in range(1, len(nb)):   # diagonal dominance
        if n > 1:
            S[i] = S[i] * (rng.random((n, n)) < 0.3)
        if np.abs(S[i]).sum(axis=0).max() > 1.5 or np.abs(S[i]).sum(axis=1).max() > 1.5:
            S[i] = np.diag(rng.integers(0, 2, n)).astype(complex)
    return nb, np.array(S, dtype=complex)


def sums(bands, n, scale=None):
    """powersums per point; scale (per point) multiplies the energies"""
    b = np.asarray(bands, float)
    if scale is not None:
        b = b * np.asarray(scale, float)[:, None]
    return powersums(b, n)


# ---- TightBindingModel: cosines and sines, with the matrix at k = 0 first
def inv_blocks(H, split):
    """the part of the coefficients which is symmetric under inversion with the first `split` states even and the others odd"""
    H = np.array(H)
    n = H.shape[1]
    even = np.zeros((n, n), bool)
    even[:split, :split] = even[split:, split:] = True
    out = []
    for i, A in enumerate(H):
        up = np.triu(A, 1)
        D = up + up.conj().T + np.diag(np.diag(A).real)
        O = up - up.conj().T
        out.append(np.where(even, D, O if i else 0))
    return np.array(out, dtype=complex)


def tb_model(nb, H, split=None, fourier=False):
    dim, n = len(nb[0]), H.shape[1]
    if split is None:
        m = TightBindingModel(UnitaryRepresentation(Symmetry.none(dim), n), np.array(nb), None)
        m.set_from_complex(H)
        return m
    r = UnitaryRepresentation(Symmetry.inv(dim), n)
    r.inv_split = split
    even = np.zeros((n, n), bool)
    even[:split, :split] = even[split:, split:] = True
    if fourier:
        m = TightBindingModel(r, np.array(nb), None)
        H0 = np.array(H)
        m.set_from_complex(H)
        if not np.array_equal(H, H0):
            raise ProjErr("set_from_complex changed its argument")
        return m
    P = np.array([np.where(even, 2 * A, 2j * A) for A in H])
    P[0] = H[0] + np.sum(np.where(even, P[1:], 0), axis=0)
    if not np.any(P.imag):     # numbers of any type
        P = [P, P.real.copy(), np.round(P.real).astype(int)][len(nb) % 3]
    P0 = P.copy()
    m = TightBindingModel(r, np.array(nb), P)
    if not np.array_equal(P, P0):
        raise ProjErr("the constructor changed its argument")
    return m


# ---- large models: many bands with known eigenvectors, many points, many neighbors
def hadamard(n):
    V = np.ones((1, 1))
    while len(V) < n:
        V = np.block([[V, V], [V, -V]])
    return V / len(V)**0.5


def wide_input(rng, classes, nk):
    dim = int(rng.integers(1, 4))
    sizes = [[8], [16], [4, 4, 2], [8, 1, 4], [16, 8], [2, 2, 2, 1]][int(rng.integers(6))]
    n = sum(sizes)
    nb = half_neighbors(rng, dim, int(rng.integers(3, 45 if n < 16 else 20)), reach=3 if dim > 1 else 12)
    h = rng.integers(-2, 3, (len(nb), n)) + 1j * rng.integers(-2, 3, (len(nb), n))
    h[0] = rng.integers(-40, 41, n)
    return dict(k="wide", cls=str(rng.choice(classes)), nb=nb, h=[[[int(x.real), int(x.imag)] for x in row] for row in h], q=rng.integers(-9, 10, (nk, dim)).tolist(),
                sizes=sizes, seed=int(rng.integers(10**6)), contiguous=bool(rng.random() < 0.5), moved=bool(rng.random() < 0.5))


def wide_matrices(rng, h, sizes):
    n = sum(sizes)
    V, o = np.zeros((n, n), complex), 0
    for s in sizes:
        V[o:o + s, o:o + s] = hadamard(s)
        o += s
    V = np.diag(1j**rng.integers(0, 4, n)) @ V
    V = V[rng.permutation(n)]
    hc = np.array(h)[..., 0] + 1j * np.array(h)[..., 1]
    return np.einsum("aj,rj,bj->rab", V, hc, V.conj())


def regauge(nb, H, shifts):
    """the same bands with the basis functions moved by some lattice vectors: the eigenvectors depend on k"""
    full = {}
    for r, A in zip(nb, H):
        for sign, B in ((1, A), (-1, A.conj().T)) if any(r) else ((1, A),):
            for a, b in zip(*np.nonzero(B)):
                t = tuple(sign * np.array(r) + shifts[a] - shifts[b])
                full.setdefault(t, np.zeros_like(A))[a, b] += B[a, b]
    zero = (0,) * len(nb[0])
    out = {zero: full.get(zero, np.zeros_like(H[0]))}
    for t, A in full.items():
        if t not in out and tuple(-x for x in t) not in out:
            out[t] = A
    return [list(map(int, t)) for t in out], np.array(list(out.values()))


def wide_event(build, derivatives, k, cls, nb, h, q, sizes, seed, contiguous, moved=False, post=None, **_):
    rng = np.random.default_rng(seed)
    n = sum(sizes)
    H = wide_matrices(rng, h, sizes)
    if moved:
        nb, H = regauge(nb, H, rng.integers(-1, 2, (n, len(nb[0]))))
    if cls == "asymS":
        D = 2.0**rng.integers(-1, 2, n)
        m = AsymTightBindingModel(HermitianFourierSeries(nb, H * D[:, None] * D), HermitianFourierSeries([[0] * len(nb[0])], [np.diag(D * D) + 0j]))
    else:
        m = build(cls, nb, H)
    kk = np.array(q) / 4
    if post:
        m, kk = post(m, kk, rng)
    if not contiguous:
        kk = np.asfortranarray(kk)
    kk.setflags(write=False)
    b = m.bands(kk)
    out = {"bands": qint(b, tol=1e-6), "sh": b.shape == (len(q), n), "gr": [], "he": []}
    if derivatives:
        b1, g, he = m.bands_grad_hess(kk)
        b2, g2 = m.bands_grad(kk)
        if max(np.max(np.abs(b1 - b)), np.max(np.abs(b2 - b))) > 1e-6:
            raise ProjErr("other bands along with the derivatives")
        E = np.round(b).astype(int)
        for i in range(len(q)):
            gi, hi = [], []
            for x in sorted(set(E[i].tolist())):
                w = E[i] == x
                tot = np.sum(g[i][:, w], axis=1)
                if np.max(np.abs(tot - np.sum(g2[i][:, w], axis=1))) > 1e-5:
                    raise ProjErr("two gradients")
                gi.append(qint(tot / 2 / np.pi, tol=1e-5))
                hi.append(qint([np.sum(he[i][a, a, w]) / (2 * np.pi)**2 for a in range(len(nb[0]))], tol=1e-4))
            out["gr"].append(gi)
            out["he"].append(hi)
    return out
