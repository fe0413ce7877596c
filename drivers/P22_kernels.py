"""P22: the linear algebra and quadrature below the models."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *  # noqa
from tight_binding_redweasel import linalg as la
from tight_binding_redweasel import density_of_states as dos

UNIT = [1, 1, 3, 10, 45, 300, 1419, 10000, 80336, 1000000]


def G(x):
    return np.array(x)[..., 0] + 1j * np.array(x)[..., 1]


def J(a):
    return gint(a)


def unchanged(fn, *args):
    before = [np.array(a) for a in args]
    out = fn(*args)
    return out, all(np.array_equal(a, b) for a, b in zip(before, args))


def product(k, kind, args, count, _lists, _real, **_):
    a = [G(m) for m in args]
    if _real:
        a = [m.real for m in a]
    if not _lists:
        a = [m[0] for m in a]
    out, same = unchanged(getattr(la, "kron" if kind == "kron" else "direct_sum"), *a)
    out = np.array(out)
    if not _lists:
        out = out[None]
    return {"out": [J(m) for m in out], "same": same}


def merge(k, shape, start, cnt, _neg, **_):
    a = np.arange(int(np.prod(shape))).reshape(shape)
    s = start - len(shape) if _neg else start
    if s == -2 and cnt == 2:
        out = la.merge_axes(a)
    else:
        out = la.merge_axes(a, s, cnt)
    return {"oshape": list(out.shape), "flat": bool(np.array_equal(out.ravel(), a.ravel()))}


def eig(k, H, S, V, c, D, _batch, _real, _identity, **_):
    h, s = G(H), G(S)
    if _real:
        h = h.real
    if not _batch:
        (w, v), same = unchanged(la.geigh, h[0], s[0])
        vals = la.geigvalsh(h[0], s[0])
        w, v, vals = w[None], v[None], vals[None]
    else:
        (w, v), same = unchanged(la.geigh, h, s)
        vals = la.geigvalsh(h, s)
    res = np.max(np.abs(h @ v - s @ v * w[:, None, :])) / (1 + np.max(np.abs(h)))
    nrm = np.max(np.abs(np.conj(np.swapaxes(v, -1, -2)) @ s @ v - np.eye(h.shape[-1])))
    return {"la": qint(w, 1, 1e-6), "vals": qint(vals, 1, 1e-6), "residual": qfix(res, 1e7), "norm": qfix(nrm, 1e7), "same": same}


def grad(k, H, S, V, c, D, dH, dS, _plain, **_):
    h, s, dh, ds = G(H), G(S), G(dH), G(dS)
    if _plain:
        (w, g, v), same = unchanged(la.eigh_grad, h, dh) if _plain == 1 else unchanged(la.eigh_grad, h[0], dh[0])
        if _plain == 2:
            w, g, v = w[None], g[None], v[None]
    else:
        (w, g, v), same = unchanged(la.geigh_grad, h, s, dh, ds)
    res = np.max(np.abs(h @ v - s @ v * w[:, None, :])) / (1 + np.max(np.abs(h)))
    return {"la": qint(w, 1, 1e-6), "g": qfix(g, 10000), "residual": qfix(res, 1e7), "same": same}


def hess(k, H, V, c, D, dH, ddH, hs, _shape, **_):
    h, dh, ddh = G(H) / hs, G(dH), G(ddH)
    if _shape == "single":
        (w, g, x), same = unchanged(la.eigh_grad_hess, h[0], dh[0], ddh[0])
        w, g, x = w[None], g[None], x[None]
    elif _shape == "double":
        (w, g, x), same = unchanged(la.eigh_grad_hess, h[None], dh[None], ddh[None])
        w, g, x = w[0], g[0], x[0]
    else:
        (w, g, x), same = unchanged(la.eigh_grad_hess, h, dh, ddh)
    return {"la": qint(w, 1, 1e-6), "g": qfix(g, 1000), "g2": qfix(np.array(g)**2, 1000), "h": qfix(x, 1000), "same": same}


def solve(k, A, b, x, _x0, _shape, _real, _kind, **_):
    a, bb = G(A), G(b)[:, 0]
    if _real:
        a, bb = a.real, bb.real
    if not np.any(bb.imag) and _kind < 3:     # a right hand side of another type than the matrix
        bb = [bb.real, bb.real.astype(int), bb.real.astype(np.float32)][_kind]
    bb = bb.reshape(_shape)
    n = len(a)
    memory = []

    def op(v):
        r = (a @ np.asarray(v).reshape(n)).reshape(_shape)
        memory.append((r, r.copy()))
        return r
    if _x0 is None:
        out, same = unchanged(lambda y: la.conjugate_gradient_solve(op, y), bb)
    else:
        x0 = G(_x0)
        x0 = x0.real if _real else x0
        x0 = (np.round(x0.real).astype(int) if _kind == 1 and not np.any(x0.imag) else x0).reshape(_shape)
        out, same = unchanged(lambda y, z: la.conjugate_gradient_solve(op, y, x0=z), bb, x0)
    if np.shape(out) != tuple(_shape):
        raise ProjErr("shape of the solution")
    same = same and all(np.array_equal(r, r0) for r, r0 in memory)
    return {"out": gint(np.ravel(out)[:, None], 1, 1e-5), "same": same}


def steps(k, limit, _n, _seed, **_):
    rng = np.random.default_rng(_seed)
    a = rng.standard_normal((_n, _n))
    a = a @ a.T + 1e-3 * np.eye(_n)
    b = rng.standard_normal(_n)
    calls = []

    def op(v):
        calls.append(1)
        return a @ v
    out, same = unchanged(lambda y: la.conjugate_gradient_solve(op, y, err=0.0, max_i=limit), b)
    return {"calls": len(calls), "same": same}


def cloud(k, p, q, _perm, **_):
    return {"dist": qfix(la.pointcloud_distance(p, q), 1000),
            "permuted": qfix(la.pointcloud_distance(np.array(q, float), np.array(q, float)[_perm]), 1000)}


def ball(k, A, m, r2, **_):
    pts = la.lattice_in_sphere(np.array(A, float), np.sqrt(r2 / 100))
    return {"pts": qint(np.reshape(pts, (-1, len(A))), 1, 1e-6)}


RULES = {("df", 5): dos.gauss_5_df, ("df", 7): dos.gauss_7_df, ("f", 4): dos.gauss_4_f, ("f", 6): dos.gauss_6_f}


def quad(k, kind, a, points, _mu, _beta, _shape, **_):
    co = np.array(a, dtype=float) / np.array(UNIT)[:len(a[0])]

    def f(e):
        x = (np.asarray(e, dtype=float) - _mu) * _beta
        y = np.array([np.polynomial.polynomial.polyval(x, c) for c in co]).T
        return y.reshape((len(x),) + tuple(_shape))
    out = RULES[kind, points](f, _mu, _beta)
    if kind == "f":
        out = np.asarray(out) * _beta / (2 * np.log(2))
    return {"out": np.atleast_1d(qfix(out, 10**6)).ravel().tolist(), "shapeok": np.shape(out) == tuple(_shape)}


def rnd(k, n, **_):
    h, h2, u, u2 = la.random_hermitian(n), la.random_hermitian(n), la.random_unitary(n), la.random_unitary(n)
    return {"herm": qfix(np.max(np.abs(h - h.conj().T)), 1e7), "unit": qfix(np.max(np.abs(u @ u.conj().T - np.eye(n))), 1e7),
            "diff": not np.array_equal(h, h2) and not np.array_equal(u, u2) and h.shape == (n, n) and u.shape == (n, n)}


# ---------------------------------------------------------------- inputs
def gauss(rng, n, m, mx):
    return rng.integers(-mx, mx + 1, (n, m)) + 1j * rng.integers(-mx, mx + 1, (n, m))


def herm(rng, n, mx):
    a = np.triu(gauss(rng, n, n, mx), 1)
    return a + a.conj().T + np.diag(rng.integers(-mx, mx + 1, n))


def unimodular(rng, n, real):
    """an integer matrix with an integer inverse"""
    m = np.eye(n, dtype=complex)
    for i in range(n):
        for j in range(i):
            m[i, j] = rng.choice([0, 0, 1, -1] if real else [0, 1, -1, 1j, -1j])
    m = m[rng.permutation(n)]
    return m * (rng.choice([1, -1], n) if real else rng.choice([1, -1, 1j, -1j], n))


def spectrum(rng, n):
    d = rng.integers(-2, 3, n)
    if rng.random() < 0.5:
        d = np.arange(n) - 1
    return d


def inv(m):
    return np.round(np.linalg.inv(m).real) + 1j * np.round(np.linalg.inv(m).imag)


def system(rng, n, real=False, identity=False):
    M = np.eye(n, dtype=complex)[rng.permutation(n)] * rng.choice([1, -1, 1j], n) if identity else unimodular(rng, n, real)
    D = spectrum(rng, n)
    W = inv(M)
    return M, W.conj().T @ W, W.conj().T @ np.diag(D) @ W, D


def realh(rng, n):
    """a real matrix with a complex overlap: complex rows only where the eigenvalue is zero"""
    M, _, _, D = system(rng, n, True)
    W, D = inv(M), np.array(D)
    i = int(rng.integers(n))
    D[i] = 0
    W[i] = W[i] + 1j * W[(i + 1) % n]
    return inv(W), W.conj().T @ W, W.conj().T @ np.diag(D) @ W, D


ORTHO = {1: [(1, np.eye(1))], 2: [(1, np.eye(2)), (2, np.array([[1, 1j], [1j, 1]])), (2, np.array([[1, 1], [-1, 1]]))],
         3: [(1, np.eye(3)), (9, np.array([[1, 2, 2], [2, 1, -2], [2, -2, 1]])), (1, np.array([[0, 1j, 0], [0, 0, 1], [1, 0, 0]]))],
         4: [(4, np.array([[1, 1, 1, 1], [1, -1, 1, -1], [1, 1, -1, -1], [1, -1, -1, 1]])), (4, np.kron([[1, 1j], [1j, 1]], [[1, 1], [-1, 1]])),
             (1, np.eye(4)[[2, 0, 3, 1]] * np.array([1, 1j, -1, 1]))]}


def body(c):
    c.model("KernelsMC", "INIT Init\nNEXT Next\nINVARIANTS Terminates Residual Solved\n", min_states=1000, name="conjugate gradients over rationals; laws of products and perturbations")
    rng = c.rng
    T = "TraceKernels"
    ev = []
    for i in range(c.n(60, 600)):
        lists = bool(i % 2)
        kind = ["kron", "sum"][(i // 2) % 2]
        if kind == "kron":
            lists = False
        cnt = int(rng.integers(1, 4)) if lists else 1
        mats = []
        for m in range(int(rng.integers(1, 5 if kind == "sum" else 4))):
            s = rng.integers(1, 3, 2) if kind == "kron" else rng.integers(1, 4, 2)
            mats.append([J(gauss(rng, s[0], s[1], 3)) for _ in range(cnt if rng.random() < 0.8 else 1)])
        if max(len(m) for m in mats) < cnt:
            cnt = max(len(m) for m in mats)
        ev.append(dict(k="product", kind=kind, args=mats, count=cnt, _lists=lists, _real=False))
    c.evs(T, product, ev)
    ev = []
    for i in range(c.n(40, 300)):
        shape = [int(x) for x in rng.integers(1, 4, int(rng.integers(1, 6)))]
        start = int(rng.integers(len(shape)))
        ev.append(dict(k="merge", shape=shape, start=start, cnt=int(rng.integers(1, min(4, len(shape) - start) + 1)), _neg=bool(rng.integers(2))))
    c.evs(T, merge, ev)
    ev = []
    for i in range(c.n(80, 900)):
        n = int(rng.integers(1, 5 if i % 3 else 4))
        cnt = int(rng.integers(1, 4)) if i % 2 else 1
        real, ident = rng.random() < 0.3, rng.random() < 0.15
        sy = [system(rng, n, real, ident or (i % 5 == 1 and m == 0)) for m in range(cnt)]
        if i % 2 and rng.random() < 0.2:   # the same overlap everywhere
            W = inv(sy[0][0])
            ds = [spectrum(rng, n) for _ in sy]
            sy = [(sy[0][0], sy[0][1], W.conj().T @ np.diag(d) @ W, d) for d in ds]
        if n > 1 and rng.random() < 0.15:
            sy, ident = [realh(rng, n) for m in range(cnt)], False
        ev.append(dict(k="eig", V=[J(s[0]) for s in sy], S=[J(s[1]) for s in sy], H=[J(s[2]) for s in sy], D=[qint(s[3]) for s in sy], c=[1] * cnt,
                       _batch=bool(i % 2), _real=all(np.all(s[2].imag == 0) for s in sy), _identity=ident))
    c.evs(T, eig, ev)
    ev = []
    for i in range(c.n(80, 900)):
        n = int(rng.integers(1, 4))
        cnt, nv = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        plain = int(rng.choice([0, 0, 0, 1, 2])) if i % 4 else 0
        cnt = 1 if plain == 2 else cnt
        ident = plain > 0 or rng.random() < 0.3
        sy = [system(rng, n, False, ident) for m in range(cnt)]
        noS = plain > 0 or (ident and rng.random() < 0.5)
        ev.append(dict(k="grad", V=[J(s[0]) for s in sy], S=[J(s[1]) for s in sy], H=[J(s[2]) for s in sy], D=[qint(s[3]) for s in sy], c=[1] * cnt,
                       dH=[[J(herm(rng, n, 2)) for _ in range(nv)] for _ in sy], dS=[[J(herm(rng, n, 2) * (0 if noS else 1)) for _ in range(nv)] for _ in sy], _plain=plain))
    c.evs(T, grad, ev)
    ev = []
    for i in range(c.n(100, 900)):
        n = int(rng.integers(1, 5))
        cnt, nv = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        shape = ["list", "list", "double", "single"][i % 4]
        cc, V = ORTHO[n][int(rng.integers(len(ORTHO[n])))]
        V = V[:, rng.permutation(n)].astype(complex)
        ds = [spectrum(rng, n) for _ in range(1 if shape == "single" else cnt)]
        # H = V D V' / c; the recorded one is c H
        Hs = [V @ np.diag(d) @ V.conj().T for d in ds]
        sym = []
        for _ in ds:
            dd = [[None] * nv for _ in range(nv)]
            for p in range(nv):
                for q in range(p, nv):
                    dd[p][q] = dd[q][p] = J(herm(rng, n, 2))
            sym.append(dd)
        ev.append(dict(k="hess", V=[J(V) for _ in ds], H=[J(h) for h in Hs], D=[qint(d) for d in ds], c=[cc] * len(ds), hs=cc,
                       dH=[[J(herm(rng, n, 2)) for _ in range(nv)] for _ in ds], ddH=sym, _shape=shape))
    c.evs(T, hess, ev)
    ev = []
    for i in range(c.n(60, 600)):
        n = int(rng.integers(1, 7))
        real = bool(rng.integers(2))
        L = unimodular(rng, n, real)
        A = L @ np.diag(rng.integers(1, 4, n) ** int(rng.integers(2))) @ L.conj().T
        x = gauss(rng, n, 1, 3) * (0 if i % 15 == 3 else 1)
        x0 = gauss(rng, n, 1, 3)
        if real:
            x, x0 = x.real + 0j, x0.real + 0j
        elif rng.random() < 0.4:    # a real right hand side for a complex matrix
            Ai = np.linalg.inv(A)
            if abs(abs(np.linalg.det(A)) - 1) < 1e-6:
                bb = rng.integers(-3, 4, (n, 1))
                x = np.round((Ai @ bb).real) + 1j * np.round((Ai @ bb).imag)
            if rng.random() < 0.5:
                x0 = x0.real + 0j
        shape = [n] if n % 2 or i % 2 else [2, n // 2]
        ev.append(dict(k="solve", A=J(A), x=J(x), b=J(A @ x), _x0=[None, J(x0), J(x)][int(rng.integers(3))], _shape=shape, _real=real, _kind=int(rng.integers(5))))
    c.evs(T, solve, ev)
    c.evs(T, steps, [dict(k="steps", limit=int(rng.integers(0, 12)), _n=int(rng.integers(2, 30)), _seed=int(rng.integers(10**6))) for _ in range(c.n(20, 100))])
    ev = []
    for i in range(c.n(60, 900)):
        d, n = int(rng.integers(1, 4)), int(rng.integers(1, 7))
        p = rng.integers(-2, 3, (n, d))
        q = p[rng.permutation(n)]
        if i % 2:
            q = q.copy()
            q[int(rng.integers(n))] = p[int(rng.integers(n))] if rng.random() < 0.5 else rng.integers(-2, 3, d)
        ev.append(dict(k="cloud", p=p.tolist(), q=q.tolist(), _perm=rng.permutation(n).tolist()))
    c.evs(T, cloud, ev)
    ev = []
    while len(ev) < c.n(60, 600):
        d = int(rng.integers(1, 4))
        A = rng.integers(-4, 5, (d, d))
        if len(ev) % 6 == 0 and d > 1:
            A[:, 0] += A[:, 1] * int(rng.integers(-30, 31))
        if abs(np.linalg.det(A)) < 0.5:
            continue
        m = int(rng.integers(1, [30, 9, 6][d - 1]))
        r2 = int(rng.integers(max(1, 100 * (m - 1)**2), 100 * m * m))
        ev.append(dict(k="ball", A=A.tolist(), m=m, r2=r2 + (r2 % 100 == 0)))
    c.evs(T, ball, ev)
    ev = []
    for i in range(c.n(40, 300)):
        kind, pts = list(RULES)[i % 4]
        deg = min(2 * pts - 1, 9)
        shape = [[], [2], [2, 3], [1]][int(rng.integers(4))]
        ev.append(dict(k="quad", kind=kind, points=pts, a=rng.integers(-3, 4, (int(np.prod(shape)), int(rng.integers(1, deg + 2)))).tolist(),
                       _mu=float(rng.integers(-8, 9)) / 4, _beta=float(rng.choice([0.5, 1, 2, 40])), _shape=shape))
    c.evs(T, quad, ev)
    c.evs(T, rnd, [dict(k="random", n=n) for n in range(1, 6)])
    c.validate(T, min_events=500)


main("P22", body)
