"""P14: paths through k-space, interpolation of band data, special points."""
import copy
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *  # noqa
import groups as gr
from tight_binding_redweasel import kpaths
from tight_binding_redweasel.kpaths import KPath, interpolate, interpolate_unstructured
from tight_binding_redweasel.symmetry import Symmetry

S8 = 8


def frozen(points):
    return {k: (np.array(v[0], dtype=float).tolist(), v[1]) for k, v in points.items()}


def as_point(w, form):
    p = [x / S8 for x in w]
    return np.array(p) if form == "array" else tuple(p) if form == "tuple" else p


def refuse(fn, path):
    """a waypoint that has to be refused, and the path has to stay the same"""
    before = ([p.tolist() for p in path.path], list(path.indices), list(path.names), list(path.x()))
    st, v = call(fn)
    return st == "exc" and "Timeout" not in v and before == ([p.tolist() for p in path.path], list(path.indices), list(path.names), list(path.x()))


def build(wps, segs, how, forms, names, default, pdict):
    """names[i]: None (take what the path chooses), or the name to give; 'how[i]': by key or explicitly"""
    ref = []

    dim = len(wps[0])

    def arg(i):
        return how[i] if how[i] else as_point(wps[i], forms[i])
    if default and all(s == 32 for s in segs):
        args = [arg(i) for i in range(len(wps))]
        path = KPath(tuple(args) if forms[0] == "tuple" else args, points=pdict)
    else:
        path = KPath(arg(0), name=names[0], points=pdict)
        for i, n in enumerate(segs):
            if forms[i] == "list":
                ref.append(refuse(lambda: path.to([0.1] * (dim + 1)), path))
                ref.append(refuse(lambda: path.to("no such point"), path))
                ref.append(refuse(lambda: path.to("no such point", name="N"), path))
            if (i + len(segs)) % 2:     # looked at before it is complete
                path.x(), path.sym_x(), path.sym_x_names(), len(path), str(path) if dim == 3 else 0, np.array(path)
            r = path.to(arg(i + 1), name=names[i + 1]) if n == 32 and default else path.to(arg(i + 1), name=names[i + 1], N=n)
            if r is not path:
                raise ProjErr("to() did not return the path")
    return path, ref


def the_path(k, wps, segs, how, forms, names, default, custom, preset=None, **_):
    pdict = {kk: (np.array(v), n) for kk, v, n in custom} if custom else kpaths.points
    before = frozen(pdict)
    path, ref = (getattr(kpaths, preset), []) if preset else build(wps, segs, how, forms, names, default, pdict)
    arr = np.array([np.asarray(p, dtype=float) for p in path])
    seg = np.repeat(segs, segs) if segs else np.zeros(0, int)
    x = np.array(path.x())
    if len(path) != len(x) or len(arr) != len(path):
        raise ProjErr("lengths differ")
    got = np.array([path[i] for i in range(len(path))])
    if not np.array_equal(got, arr):
        raise ProjErr("iteration and indexing differ")
    sx = path.sym_x()
    nm = path.sym_x_names()
    want = []
    for i in range(len(wps)):
        want.append(names[i] if names[i] is not None and not (default and all(s == 32 for s in segs)) else pdict[how[i]][1] if how[i] else str(nm[i]) if i < len(nm) else "?")
    return {"len": len(path), "iter": len(list(iter(path))), "start": qint(arr[0], S8), "pts": [qint(p, S8 * int(n), tol=1e-6) for p, n in zip(arr[1:], seg)],
            "idx": qint(path.indices), "names": [str(n) for n in nm], "wantnames": [str(n) for n in want], "dim": int(path.dim()),
            "x0": qint(x[0]), "dx2": [qint(d * d, (S8 * int(n))**2, tol=1e-4) for d, n in zip(np.diff(x), seg)],
            "ticks_at_points": bool(len(sx) == len(wps) and np.allclose(sx, x[path.indices], atol=1e-12)), "refusals": ref, "dictok": frozen(pdict) == before}


def listing(k, wps, segs, **_):
    path = KPath(as_point(wps[0], "array"))
    for w, n in zip(wps[1:], segs):
        path.to(as_point(w, "array"), N=n)
    lines = str(path).strip().split("\n")
    if not lines[0].startswith("K_POINTS") or "tpiba_b" not in lines[0]:
        raise ProjErr("header")
    rows = [[float(v) for v in ln.split()] for ln in lines[2:]]
    seg = [1] + list(np.repeat(segs, segs))
    return {"count": int(lines[1]), "lines": [qint(r[:3], S8 * int(n), tol=1e-6) for r, n in zip(rows, seg)], "w": [qint(r[3]) for r in rows]}


def expand_label(t):
    out = []
    for part in t.split(","):
        a, *b = part.split("-")
        out += list(range(int(a), int(b[0]) + 1)) if b else [int(a)]
    return out


def plotted(k, wps, segs, bands, lab, given_ylim, offset, **_):
    from matplotlib import pyplot as plt
    plt.close("all")
    plt.figure()
    path = KPath(as_point(wps[0], "array"))
    for w, n in zip(wps[1:], segs):
        path.to(as_point(w, "array"), N=n)
    B = np.array(bands, dtype=float)
    seen = []

    def func(kk):
        seen.append(np.array(kk))
        return B
    r = path.plot(func, band_offset=offset, label_bands=lab or None, ylim=tuple(given_ylim) if given_ylim else None)
    if len(seen) != 1 or not np.allclose(seen[0], np.array(path.path)):
        raise ProjErr("the function was not called with the points of the path")
    x = np.array(path.x())
    axs = plt.gcf().axes
    lines = [ln for ax in axs for ln in ax.lines if len(ln.get_xdata()) == len(x) and len(x) > 2]
    xok = all(np.allclose(ln.get_xdata(), x) for ln in lines)
    ax = [a for a in axs if any(ln in a.lines for ln in lines)][0]
    sx = path.sym_x()
    ticks = ax.get_xticks()
    tick_ok = len(ticks) == len(sx) and np.allclose(ticks, sx) and [t.get_text() for t in ax.get_xticklabels()] == [str(n) for n in path.names]
    tick_ok = tick_ok and np.allclose(ax.get_xlim(), (x[0], x[-1]))
    if given_ylim:
        tick_ok = tick_ok and np.allclose(axs[0].get_ylim(), given_ylim)
    vl = sorted(float(ln.get_xdata()[0]) for a in axs for ln in a.lines if len(ln.get_xdata()) == 2)
    tick_ok = tick_ok and np.allclose(vl, sorted(sx[1:-1]))
    out = {"y": [qint(ln.get_ydata()) for ln in lines], "xok": bool(xok), "ticksok": bool(tick_ok), "labelled": [], "labelpos": [], "textsize": 0}
    if lab:
        lax = [a for a in axs if a is not ax] if lab == "left" else [a for a in axs if a is not ax]
        la = r[0] if lab == "left" else r[1]
        cand = [a for a in axs if any(any(ch.isdigit() for ch in t.get_text()) for t in a.get_yticklabels()) and a.get_yticklabels() and len(a.get_yticks()) <= len(bands[0])]
        # the labelled axis is the current one when plot returns
        la = plt.gca()
        if la.yaxis.get_ticks_position() != lab:
            raise ProjErr("labels on the other side")
        yl = la.get_ylim()
        ts = 8 * (yl[1] - yl[0]) / plt.gcf().get_figheight() * 0.15
        for pos, t in zip(la.get_yticks(), la.get_yticklabels()):
            for b in expand_label(t.get_text()):
                out["labelled"].append(b)
                out["labelpos"].append(int(round(pos * 1000)))
        out["textsize"] = int(round(ts * 1000)) + 1
        if not np.allclose(r[0].get_ylim(), r[1].get_ylim()):
            raise ProjErr("the two axes have different limits")
        del lax, cand
    plt.close("all")
    return out


def simple_plot(k, bands, xs, via, **_):
    """the plain band plot of a function or a model"""
    from matplotlib import pyplot as plt
    from tight_binding_redweasel.bandstructure import plot_bands_generic, BandStructureModel
    plt.close("all")
    plt.figure()
    B = np.array(bands, dtype=float)
    ks = np.array(xs, dtype=float)
    if via == "flat":
        ks = ks[:, 0]
    k0 = ks.copy()
    if via == "model":   # bands that are constant, as a model
        m = BandStructureModel.init_tight_binding(Symmetry.none(ks.shape[1]), [[0] * ks.shape[1]], B.shape[1])
        m.params[0] = np.diag(B[0])
        m.plot_bands(ks, "--", linewidth=2)
    else:
        plot_bands_generic(ks, B, "--", linewidth=2)
    ax = plt.gca()
    out = {"y": [qint(ln.get_ydata()) for ln in ax.lines], "x": [qint(ln.get_xdata()) for ln in ax.lines],
           "style": all(ln.get_linestyle() == "--" and ln.get_linewidth() == 2 for ln in ax.lines), "colors": len(set(ln.get_color() for ln in ax.lines)),
           "same": bool(np.array_equal(k0, ks))}
    plt.close("all")
    return out


def compared(k, o, nm, nr, ref, **_):
    from matplotlib import pyplot as plt
    plt.close("all")
    plt.figure()
    path = KPath([0.0, 0.0]).to([0.5, 0.0], N=4)
    R = np.array(ref, dtype=float)[None, :] + np.arange(len(path))[:, None] * 0.01
    M = R[:, max(o, 0):o + nm] if o >= 0 else np.concatenate([np.arange(-100, -100 - o)[None, :] + np.zeros((len(path), 1)), R], axis=1)[:, :nm]
    path.plot_comparison(lambda kk: M[:len(kk)], lambda kk: R[:len(kk)])
    lines = [ln for ax in plt.gcf().axes for ln in ax.lines if len(ln.get_xdata()) == len(path)]
    c1 = [ln.get_color() for ln in lines[:nm]]
    c2 = [ln.get_color() for ln in lines[nm:]]
    val = len(lines) == nm + nr and all(np.allclose(ln.get_ydata(), M[:, i]) for i, ln in enumerate(lines[:nm])) \
        and all(np.allclose(ln.get_ydata(), R[:, i]) for i, ln in enumerate(lines[nm:]))
    dashed = all(ln.get_linestyle() == "--" for ln in lines[nm:]) and all(ln.get_linestyle() == "-" for ln in lines[:nm])
    plt.close("all")
    return {"c1": c1, "c2": c2, "valok": bool(val), "dashed": bool(dashed)}


def interp_event(k, n, off, pts, vals, u, method, grid, _sym, ops=None, inv=None, twice=(), **_):
    n_, off_ = np.array(n), np.array(off)
    kk = np.array(pts) / (2 * n_)
    data = np.array(vals, dtype=float)
    for i, shift, d in twice:      # measured twice, with an error of opposite signs
        kk = np.append(kk, kk[i:i + 1] + np.array(shift), axis=0)
        data = np.append(data, data[i:i + 1] - d, axis=0)
        data[i] += d
    k0, d0 = kk.copy(), data.copy()
    f = interpolate(kk, data, _sym, method=method, periodic=True, grid=tuple(n) if grid else None)
    q = (np.array(u) / 4 + off_ / 2) / n_
    buf = q[::-1] + 0.125     # the same array with other points in it
    f(buf), f(buf[:1])
    buf[...] = q
    out = f(buf)
    one = f(q[0])
    if not np.allclose(np.ravel(one), out[0], atol=1e-9):
        raise ProjErr("a single point gives something else")
    if not (np.array_equal(kk, k0) and np.array_equal(data, d0)):
        raise ProjErr("the data was changed")
    if method == "cubic":  # the splines come from an iterative solver (relative 1e-5): the node values are integers
        return {"out": (np.array(qint(out, 1, tol=5e-3)) * 4**len(n)).tolist()}
    return {"out": qint(out, 4**len(n), tol=1e-5)}


def open_event(k, n, xs, vals, u, method, order, **_):
    grids = [np.array(x) / (8 if len(x) < 50 else 4 * len(x)) for x in xs]
    kk = np.stack(np.meshgrid(*grids, indexing="ij"), -1).reshape(-1, len(n))
    data = np.array(vals, dtype=float)
    f = interpolate(kk[order], data[order], None, method=method, periodic=False, grid=tuple(n))
    q = []
    for p in u:
        q.append([g[v // 4] + (v % 4) / 4 * ((g[v // 4 + 1] if v // 4 + 1 < len(g) else g[v // 4]) - g[v // 4]) for g, v in zip(grids, p)])
    if method == "cubic":
        r = np.array(f(np.array(q))) * 4
        return {"out": (np.array(qint(r, 1, tol=2e-2)) * 4**(len(n) - 1)).tolist()}
    return {"out": qint(f(np.array(q)), 4**len(n), tol=1e-5)}


def scatter_event(k, pts, vals, q, shift, _sym, ops=None, inv=None, **_):
    f = interpolate_unstructured(np.array(pts) / 8, np.array(vals, dtype=float), _sym, **({} if shift == 0 else {"max_error": 2e-2}))
    dim = len(pts[0])
    d = np.zeros(dim)
    d[0] = shift
    buf = np.array(q)[::-1] / 8 - d
    f(buf)
    buf[...] = np.array(q) / 8 + d
    r = f(buf)
    if r.shape != (len(q), len(vals[0])):
        raise ProjErr("shape")
    found = [bool(not np.any(np.isnan(x))) for x in r]
    if any(np.any(np.isnan(x)) and not np.all(np.isnan(x)) for x in r):
        raise ProjErr("partly nan")
    return {"found": found, "out": [qint(x) if fd else [0] for x, fd in zip(r, found)]}


def reject_event(k, what, **_):
    rng = np.random.default_rng(3)
    g = np.stack(np.meshgrid(*[np.arange(4) / 4 - 0.5] * 2, indexing="ij"), -1).reshape(-1, 2)
    v = rng.normal(size=(16, 2))
    sq = Symmetry.square()
    fn = {"missing point": lambda: interpolate(g[:-1], v[:-1], periodic=True),
          "missing point sym": lambda: interpolate(g[:-1], v[:-1], Symmetry.none(2), periodic=False),
          "wrong grid": lambda: interpolate(g, v, grid=(3, 5)),
          "count": lambda: interpolate(g, v[:-1]),
          "dimension": lambda: interpolate(g, v, Symmetry.none(3)),
          "dimension unstructured": lambda: interpolate_unstructured(g, v, Symmetry.none(3)),
          "out of range": lambda: interpolate(g, v, periodic=False, method="linear")(np.array([[0.4, 0.0]])),
          "wedge with hole": lambda: interpolate(np.array([[0.0, 0.0], [0.25, 0.0], [-0.5, 0.0], [0.25, 0.25], [-0.5, -0.5]]), np.ones((5, 1)), sq, periodic=True),
          "4d": lambda: interpolate(np.zeros((1, 4)), np.ones((1, 1)), periodic=False),
          "flat k": lambda: interpolate(g[:, 0], v, periodic=False),
          "label": lambda: KPath("G").to("X").plot(lambda kk: np.zeros((len(kk), 1)), label_bands="top"),
          "good": lambda: interpolate(g, v, sq.none(2), periodic=True, method="linear")(np.array([[0.4, 0.0]])),
          }[what]
    st, val = call(fn)
    return {"raised": st == "exc" and "Timeout" not in val}


def lattice(kind, par):
    if kind == "tetra":
        c = par[0]
        A = np.array([[-.5, .5, .5], [.5, -.5, .5], [.5 * c, .5 * c, -.5 * c]])
    elif kind == "trigonal":
        al, mx = par
        c, s = ((1 + 2 * np.cos(al)) / 3)**.5, (4 / 3)**.5 * np.sin(al / 2)
        ph = np.radians(np.array([0, 120, 240]) + (90 if mx else 0))
        A = np.array([s * np.cos(ph), s * np.sin(ph), c * np.ones(3)])
    elif kind == "hex":
        r, h = par
        a = 1 / r
        A = np.array([[a, a / 2, 0], [0, 3**.5 / 2 * a, 0], [0, 0, 1 / h]])
    elif kind == "sc":
        A = np.eye(par[0])
    elif kind == "fcc":
        A = np.array([[0, .5, .5], [.5, 0, .5], [.5, .5, 0]])
    else:
        A = np.array([[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]])
    return np.linalg.inv(A).T


FIX = 2500


def defaults():
    return {kk: (np.array(v[0]).tolist(), v[1]) for kk, v in kpaths.points.items()}


DEFAULTS, FIRST = defaults(), kpaths.points


def points_event(k, kind, par, keys, **_):
    if kind == "one":      # the cubic case of the tetragonal lattice: the points of the default list
        P, kind = kpaths.tetragonal_bc_points(1), "bcc"
    elif kind == "tetra":
        P = kpaths.tetragonal_bc_points(par[0])
    elif kind == "trigonal":
        P = kpaths.trigonal_points(par[0], **({"mirror_x": True} if par[1] else {}))
    elif kind == "hex":
        P = kpaths.hexagonal_points(*par)
    else:
        P = kpaths.points
    kept = defaults() == DEFAULTS and kpaths.points is FIRST
    keys = keys or list(P)
    if keys[0] not in P:
        raise ProjErr("no center")
    B = lattice(kind, par)
    n = len(B)
    R = 3
    g = np.stack(np.meshgrid(*[range(-R, R + 1)] * n), -1).reshape(-1, n) @ B.T
    p = np.array([np.asarray(P[kk][0], float) for kk in keys])
    if not np.all(np.isfinite(p)) or np.max(np.abs(p)) > np.sum(np.linalg.norm(B, axis=0)):
        raise ProjErr("points far away")
    big = 2.05 * np.max(np.linalg.norm(p, axis=1)) + 0.1
    g = np.array([v for v in g if 1e-9 < np.linalg.norm(v) < big])
    return {"names": [kk.replace("G2d", "G").replace("G1d", "G") for kk in keys], "p": qfix(p, FIX), "kept": bool(kept), "g": qfix(g, FIX), "tol": int(6 * FIX * (1 + np.max(np.abs(g))))}


def random_path(rng, dim, steps=(1, 2, 3, 4, 5, 8)):
    m = int(rng.integers(1, 5))
    wps = [[int(x) for x in rng.integers(-8, 9, dim)] for _ in range(m)]
    if m > 2 and rng.random() < 0.3:
        wps[-1] = list(wps[0])
    if m > 1 and rng.random() < 0.15:
        wps[1] = list(wps[0])
    return wps, [int(rng.choice(steps)) for _ in range(m - 1)]


PRESETS = {"SC_PATH": "G 0 0 0, X 0 1/2 0, M 1/2 1/2 0, G 0 0 0, R 1/2 1/2 1/2, X 0 1/2 0", "FCC_PATH": "G 0 0 0, X 0 1 0, W 1/2 1 0, L 1/2 1/2 1/2, G 0 0 0, K 3/4 3/4 0",
           "BCC_PATH": "G 0 0 0, H 1 0 0, P 1/2 1/2 1/2, G 0 0 0, N 1/2 1/2 0, P 1/2 1/2 1/2", "DIAMOND_PATH": "L 1/2 1/2 1/2, G 0 0 0, X 0 1 0, U 1/4 1 1/4, G 0 0 0, K 3/4 3/4 0",
           "SC_PATH_2D": "G 0 0, X 0 1/2, M 1/2 1/2, G 0 0", "PATH_1D": "G 0, X 1/2"}


def body(c):
    for d in (1, 2):
        c.model("PathsMC", f"CONSTANTS D = {d}\nMaxWp = {c.n(3, 4)}\nINIT Init\nNEXT Next\nINVARIANTS Bookkeeping EqualSteps\n",
                min_states=100, name=f"paths as a state machine, {d}d")
    rng = c.rng
    ev = []
    std = {1: ["G1d", "X1d"], 2: ["G2d", "X2d", "X12d", "M2d"], 3: ["G", "O", "X2", "K", "L", "W", "U", "X", "M", "R", "H", "H1", "N", "P"]}
    pos = {kk: [int(round(8 * x)) for x in np.ravel(v[0])] for kk, v in kpaths.points.items()}
    odd = [N for N in range(1, 200) if len(np.arange(1 / N, 1 + 1 / N, 1 / N)) != N]  # where 1/N accumulates rounding errors
    for N in odd + [int(x) for x in rng.integers(60, 200, 6)]:
        ev.append(dict(k="path", wps=[[0, 0], [4, 0], [4, 4]], segs=[N, 3], how=["", "", ""], forms=["tuple"] * 3, _names=[None] * 3, default=False, _custom=[]))
    for name, where in PRESETS.items():      # the paths which come with the package
        w = [[8 * int(n) // int(d) for n, d in (x.split("/") if "/" in x else (x, 1) for x in p.split()[1:])] for p in where.split(", ")]
        ev.append(dict(k="path", preset=name, wps=w, segs=[100 if name == "PATH_1D" else 32] * (len(w) - 1), how=[""] * len(w), forms=[], _names=[p.split()[0].replace("G", "Γ") for p in where.split(", ")],
                       default=False, _custom=[]))
    for i in range(c.n(160, 4000)):
        dim = int(rng.integers(1, 4))
        wps, segs = random_path(rng, dim)
        default = bool(rng.random() < 0.2)
        if rng.random() < 0.25:
            segs = [int(rng.integers(1, 128)) for _ in segs]
        if default:
            wps, segs = wps[:3], [32] * (len(wps[:3]) - 1)
        custom = []
        if rng.random() < 0.4:
            custom = [[f"Q{j}", [float(x) / 8 for x in rng.integers(-8, 9, dim)], f"$Q_{j}$"] for j in range(3)]
        pool = {n: [int(round(8 * x)) for x in v] for n, v, _ in custom} if custom else {n: pos[n] for n in std[dim]}
        how = [str(rng.choice(list(pool))) if rng.random() < 0.5 else "" for _ in wps]
        wps = [pool[h] if h else w for h, w in zip(how, wps)]
        names = [None if rng.random() < 0.6 else f"name{j}" for j in range(len(wps))]
        ev.append(dict(k="path", wps=wps, segs=segs, how=how, forms=[str(rng.choice(["array", "tuple", "list"])) for _ in wps], _names=names,
                       default=default, _custom=custom))
    c.evs("TracePaths", lambda **e: the_path(**dict(e, names=e["_names"], custom=e["_custom"])), ev)
    ev = []
    for i in range(c.n(20, 100)):
        wps, segs = random_path(rng, 3)
        ev.append(dict(k="list", wps=wps, segs=segs))
    c.evs("TracePaths", listing, ev)
    # plots
    ev = []
    for i in range(c.n(24, 120)):
        while True:
            wps, segs = random_path(rng, int(rng.integers(1, 4)), steps=(2, 3, 5))
            if len(wps) > 1 and len(set(map(tuple, wps))) == len(wps):
                break
        nb = int(rng.integers(1, 7))
        bands = np.sort(rng.integers(-6, 7, (1 + sum(segs), nb)), axis=1)
        if rng.random() < 0.3:
            bands = bands[:, rng.permutation(nb)]
        lab = str(rng.choice(["", "left", "right"]))
        yl = [int(bands.min()) - 1, int(bands.max()) + 2] if rng.random() < 0.4 else []
        ev.append(dict(k="plot", wps=wps, segs=segs, bands=bands.tolist(), lab=lab, given_ylim=yl, offset=int(rng.integers(0, 3))))
    c.evs("TracePaths", plotted, ev)
    ev = []
    for i in range(c.n(24, 120)):
        via = str(rng.choice(["flat", "generic", "model"]))
        nk, nb, d = int(rng.integers(2, 8)), int(rng.integers(1, 5)), int(rng.integers(1, 4))
        bands = np.sort(rng.integers(-9, 10, (nk, nb)), axis=1)
        if via == "model":
            bands[:] = bands[0]
        ev.append(dict(k="bandplot", bands=bands.tolist(), xs=rng.integers(-9, 10, (nk, d)).tolist(), via=via, scalar=bool(d == 1 or via == "flat")))
    c.evs("TracePaths", simple_plot, ev)
    ev = []
    for i in range(c.n(16, 60)):
        nr = int(rng.integers(2, 8))
        o = int(rng.integers(-2, nr - 1))
        nm = int(rng.integers(max(1, 2 - o), nr - o + 1)) if o >= 0 else int(rng.integers(2 - o, nr - o + 1))
        if nm > 9:
            continue
        ev.append(dict(k="compare", o=o, nm=nm, nr=nr, ref=sorted(float(x) for x in rng.choice(60, nr, replace=False))))
    for e in ev:
        e["ref"] = [int(x) for x in e["ref"]]
    c.evs("TracePaths", compared, ev)
    # interpolation on periodic grids
    ev = []
    fine = c.n(10, 40)
    for i in range(c.n(80, 1600)):
        _, A, _, (name, gens, inv) = gr.pick(rng, ["line"] if i < fine else None)
        dim = len(A)
        nosym = rng.random() < 0.35
        if nosym:
            name, gens, inv = "-", [], False
            n = [int(x) for x in (rng.integers(3, 7, dim) if dim < 3 else rng.integers(3, 5, dim))]
            off = [int(x) for x in rng.integers(0, 2, dim)]
        else:
            n = [int(rng.integers(3, 7 if dim < 3 else 5))] * dim
            ops = gr.np_ops(gens, inv, dim)
            off = [0] * dim
            if all(np.all((o @ np.ones(dim, int)) % 2 == 1) for o in ops) and rng.random() < 0.4:
                off = [1] * dim
        if i < fine:  # fine grids
            n = [int(rng.integers(50, 250))]
        ops = gr.np_ops(gens, inv, dim)
        nodes = [tuple(2 * np.array(j) + off) for j in np.ndindex(*n)]
        n2 = 2 * np.array(n)
        seen, pts = set(), []
        for j in rng.permutation(len(nodes)):
            p = nodes[j]
            orb = {tuple((o @ np.array(p)) % n2) for o in ops}
            if tuple(np.array(p) % n2) in seen:
                continue
            seen |= orb
            img = np.array(sorted(orb)[int(rng.integers(len(orb)))])
            shift = rng.integers(-1, 2, dim) * n2 if rng.random() < 0.3 else -n2 * (img >= np.array(n)) if rng.random() < 0.5 else 0
            pts.append((img + shift).tolist())
        nbd = int(rng.integers(1, 4))
        vals = rng.integers(-9, 10, (len(pts), nbd)).tolist()
        method = "linear" if rng.random() < 0.6 else "cubic"
        u = rng.integers(-8, 4 * np.array(n) + 8, (8, dim))
        if method == "cubic":
            u = u // 4 * 4
        sym = None if nosym else gr.crystal_group(gens, inv, dim)
        twice = [[int(j), rng.integers(-1, 2, dim).tolist(), int(rng.integers(1, 6))] for j in rng.choice(len(pts), min(len(pts), 2), replace=False)] if rng.random() < 0.3 else []
        E = dict(k="interp", twice=twice, group=name, n=n, off=off, pts=pts, vals=vals, u=u.tolist(), method=method, grid=bool(nosym and len(set(n)) > 1 or rng.random() < 0.3), _sym=sym,
                 ops=[np.eye(dim, dtype=int).tolist()] if nosym else qint(sym.S), inv=False if nosym else bool(sym.inversion))
        ev.append(E)
    c.evs("TracePaths", interp_event, ev)
    ev = []
    for i in range(c.n(40, 1000)):
        dim = int(rng.integers(1, 4))
        n = [int(x) for x in rng.integers(2, 6 if dim < 3 else 4, dim)]
        method = "linear"
        if rng.random() < 0.4:
            method, n = "cubic", [int(x) for x in rng.integers(4, 6, dim)]
        if i < c.n(4, 20):
            n = [int(rng.integers(100, 300))]
            dim, method = 1, "linear"
        xs = [np.cumsum(rng.integers(1, 5, m)) - 6 for m in n]
        vals = rng.integers(-9, 10, (int(np.prod(n)), 2))
        if method == "cubic":
            # affine data on a uniform grid is reproduced by the splines
            xs = [np.arange(m) * int(rng.integers(1, 4)) - 4 for m in n]
            a = rng.integers(-3, 4, (dim, 2))
            vals = np.array([np.array(j) @ a for j in np.ndindex(*n)])
        u = np.array([[int(rng.integers(0, 4 * (m - 1) + 1)) for m in n] for _ in range(8)])
        order = rng.permutation(int(np.prod(n)))
        ev.append(dict(k="open", n=n, xs=[x.tolist() for x in xs], vals=vals.tolist(), u=u.tolist(), method=method, _order=order))
    c.evs("TracePaths", lambda **e: open_event(**dict(e, order=e["_order"])), ev)
    ev = []
    for i in range(c.n(30, 800)):
        name, gens, inv = (gr.CUBIC + gr.SQ2 + gr.ONE)[int(rng.integers(len(gr.CUBIC) + len(gr.SQ2) + 2))]
        dim = 1 if name[0] == "1" else 2 if name[0] == "2" else 3
        sym = gr.crystal_group(gens, inv, dim) if rng.random() < 0.8 else None
        ops = gr.np_ops(gens, inv, dim) if sym is not None else [np.eye(dim, dtype=int)]
        pts, seen = [], set()
        for _ in range(int(rng.integers(1, 7))):
            p = rng.integers(-3, 4, dim)
            if tuple(p) not in seen:
                pts.append(p.tolist())
                seen |= {tuple(o @ p) for o in ops}
        q = [(ops[int(rng.integers(len(ops)))] @ np.array(pts[int(rng.integers(len(pts)))])).tolist() for _ in range(4)] + rng.integers(-4, 5, (4, dim)).tolist()
        ev.append(dict(k="scatter", group=name, pts=pts, vals=rng.integers(-9, 10, (len(pts), 2)).tolist(), q=q, _shift=float(rng.choice([0, 0, 0.01, -0.01])), _sym=sym,
                       ops=[np.eye(dim, dtype=int).tolist()] if sym is None else qint(sym.S), inv=False if sym is None else bool(sym.inversion)))
    c.evs("TracePaths", lambda **e: scatter_event(**dict(e, shift=e["_shift"])), ev)
    c.evs("TracePaths", reject_event, [dict(k="reject", what=w, want=w != "good") for w in
          ["missing point", "missing point sym", "wrong grid", "count", "dimension", "dimension unstructured", "out of range", "wedge with hole", "4d", "flat k", "label", "good"]])
    # special points
    ev = [dict(k="points", kind="sc", _par=[3], _keys=["G", "X", "M", "R"]), dict(k="points", kind="sc", _par=[2], _keys=["G2d", "X2d", "X12d", "M2d"]),
          dict(k="points", kind="sc", _par=[1], _keys=["G1d", "X1d"]), dict(k="points", kind="fcc", _par=[], _keys=["O", "X2", "K", "L", "W", "U"]),
          dict(k="points", kind="bcc", _par=[], _keys=["G", "H", "H1", "N", "P"])]
    ev[3]["_keys"] = ["G"] + ev[3]["_keys"][1:]
    for cc in [0.5, 0.62, 0.75, 0.9, 1.1, 1.25, 1.4, 1.5, 1.8, 2.2] + [float(x) for x in rng.uniform(0.5, 2.2, c.n(4, 40))]:
        if abs(cc - 1) > 0.08 and abs(cc - 2**.5) > 0.0:
            ev.append(dict(k="points", kind="tetra", _par=[cc], _keys=[]))
    for al in [50, 60, 65, 75, 85, 95, 100, 105, 110, 114] + [float(x) for x in rng.uniform(45, 115, c.n(4, 40))]:
        if abs(al - 90) > 3:
            for mx in (False, True):
                ev.append(dict(k="points", kind="trigonal", _par=[float(np.radians(al)), mx], _keys=[]))
    for r, h in [(1.0, 1.0), (0.8, 0.6), (1.2, 0.5)] + [(float(a), float(b)) for a, b in rng.uniform(0.5, 1.5, (c.n(3, 20), 2))]:
        ev.append(dict(k="points", kind="hex", _par=[r, h], _keys=[]))
    ev.append(dict(k="points", kind="one", _par=[], _keys=["G", "H", "H1", "N", "P"]))
    ev += [dict(e) for e in ev[:5]]      # the default points, again after all the others
    c.evs("TracePaths", lambda **e: points_event(**dict(e, par=e["_par"], keys=e["_keys"])), ev)
    c.validate("TracePaths", min_events=300)
    c.coverage["rational_points_explored"] = "waypoints in eighths, grids up to 6 nodes per direction, quarter steps between nodes"
    c.assumptions.append("cubic interpolation is judged at the nodes and on affine data only; the special points are judged with a tolerance of 1e-3")


if __name__ == "__main__":
    main("P14", body)
