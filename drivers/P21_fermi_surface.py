"""P21: Fermi surfaces: which bands, where, and how they are exported and plotted."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *  # noqa
import matplotlib.pyplot as plt
import mpl_toolkits.mplot3d.art3d as art3d
from tight_binding_redweasel import fermi_surface as fs

U = 10000


class Table:
    """a model that is given by its values (times 2) on a regular grid; vals[band][node]"""

    def __init__(self, n, k0, k1, vals2, mu2, z=None):
        self.n, self.k0, self.k1, self.z = n, k0, k1, z
        self.e = (np.array(vals2) + mu2) / 2
        self.asked, self.heights = [], []

    def nodes(self, k):
        k = np.asarray(k, dtype=float)
        if k.ndim != 2 or k.shape[1] != 3:
            raise ProjErr("the model was not called with a list of points")
        g = (k[:, :len(self.n)] - self.k0) / (self.k1 - self.k0) * (np.array(self.n) - 1)
        g = np.array(qint(g, 1, 1e-7)).reshape(len(k), len(self.n))
        if np.any(g < 0) or np.any(g >= self.n):
            raise ProjErr("a point outside of the range")
        self.asked += g.tolist()
        if len(self.n) == 2:
            self.heights += qint(k[:, 2], 8)
        return np.ravel_multi_index(tuple(g.T), self.n)

    def __call__(self, k):
        return self.e[:, self.nodes(k)].T


class Matrix(Table):
    """two bands as a complex matrix [[a, i c], [-i c, b]]"""

    def __init__(self, n, k0, k1, parts2, mu2):
        self.p = np.array(parts2) / 2
        self.mu = mu2 / 2
        super().__init__(n, k0, k1, parts2[:1], mu2)

    def f(self, k):
        i = self.nodes(k)
        p = self.p[:, i]
        h = np.zeros((len(i), 2, 2), complex)
        h[:, 0, 0], h[:, 1, 1], h[:, 0, 1], h[:, 1, 0] = p[0] + self.mu, p[1] + self.mu, 1j * p[2], -1j * p[2]
        return h

    def __call__(self, k):
        return np.linalg.eigvalsh(self.f(k))


class Single(Table):
    def f(self, k):
        return self(k)[:, :, None].astype(complex)


def select(k, shape, vals, mu2, scale, **_):
    pts = np.array([[i, 2 * i + 1, -i] for i in range(int(np.prod(shape)))]) / 16
    e = (np.array(vals) / scale + mu2 / 2).T

    def model(kk):
        if np.ndim(kk) != 2:
            raise ProjErr("the model was not called with a list of points")
        return e[np.array(qint(np.asarray(kk)[:, 0], 16), dtype=int).reshape(-1)]
    ksm = pts.reshape(tuple(shape) + (3,))
    vol, idx = fs.fermi_surface(model, mu2 / 2, ksm if scale == 1 else ksm.tolist())
    return {"idx": [int(i) for i in idx], "vol": [qint(np.ravel(v), scale) for v in vol], "shapes": [list(np.shape(v)) for v in vol]}


def parse_obj(file, cwd):
    groups, mats = [], []
    mtl = False
    for line in open(file + ".mtl"):
        w = line.split()
        if w and w[0] == "newmtl":
            mats.append(w[1])
    for line in open(file + ".obj"):
        w = line.split()
        if not w or w[0] in ("#", "o", "s", "vn", "vt"):
            continue
        if w[0] == "mtllib":
            mtl = os.path.exists(os.path.join(os.path.dirname(os.path.abspath(file)), line.split(None, 1)[1].strip()))
        elif w[0] == "g":
            groups.append({"band": int(re.sub(r"\D", "", w[1])), "material": "", "v": [], "f": []})
        elif w[0] == "usemtl":
            groups[-1]["material"] = w[1]
        elif w[0] == "v":
            groups[-1]["v"].append(qfix([float(x) for x in w[1:4]], U))
        elif w[0] == "f":
            groups[-1]["f"].append([int(x.split("/")[0]) for x in w[1:]])
        else:
            raise ProjErr("unknown line " + line)
    return {"groups": groups, "materials": mats, "mtl": mtl}


def export(k, n, vals, mu2, range, _where, **_):
    k0, k1 = range[0] / 8, range[1] / 8
    m = Table(n, k0, k1, vals, mu2)
    old = os.getcwd()
    with tempfile.TemporaryDirectory(prefix="vp-fs-") as d:
        try:
            os.chdir(d)
            os.mkdir("sub")
            file = {"abs": os.path.join(d, "sub", "x"), "rel": "x", "dir": "sub/x"}[_where]
            if mu2 % 2:      # over the files of an earlier export
                for end in (".obj", ".mtl"):
                    with open(file + end, "w") as f:
                        f.write("newmtl old\n" * 30 if end == ".mtl" else "v 9 9 9\n" * 3000 + "f 1 2 3\n" * 100)
            if range == [-4, 4] and n[0] % 2:
                fs.export_3D_fermi_surface(file, m, mu2 / 2, n[0])
            else:
                fs.export_3D_fermi_surface(file, m, mu2 / 2, N=n[0], k_range=[k0, k1])
            out = parse_obj(file, d)
        finally:
            os.chdir(old)
    out.update(asked=m.asked, same=True)
    return out


def plot(k, n, vals, mu2, range, _where, **_):
    out = export("export", n, vals, mu2, range, _where)
    k0, k1 = range[0] / 8, range[1] / 8
    m = Table(n, k0, k1, vals, mu2)
    seen = []
    real = art3d.Poly3DCollection

    class Recorder(real):
        def __init__(self, verts, *a, **kw):
            seen.append(np.array(verts))
            super().__init__(verts, *a, **kw)
    art3d.Poly3DCollection = Recorder
    try:
        if _where == "abs":
            old = plt.show
            plt.show = lambda *a, **kw: None
            try:
                fs.plot_3D_fermi_surface(m, mu2 / 2, N=n[0], k_range=[k0, k1])
            finally:
                plt.show = old
            ax = plt.gcf().axes[0]
        else:
            ax = plt.figure().add_subplot(111, projection="3d")
            fs.plot_3D_fermi_surface_to_ax(ax, m, mu2 / 2, n[0], [k0, k1])
        lim = [qint(x, 8, 1e-6) for x in (ax.get_xlim(), ax.get_ylim(), ax.get_zlim())]
    finally:
        art3d.Poly3DCollection = real
        plt.close("all")
    tri = np.concatenate([s.reshape(-1, 3, 3) for s in seen]) if seen else np.zeros((0, 3, 3))
    g = (tri - k0) / (k1 - k0) * (np.array(n) - 1)
    out.update(tri=qfix(np.sum(g, axis=1), U), lim=lim, asked=m.asked)
    return out


def contour(k, n, vals, mu2, range, z, _models, _kind, **_):
    k0, k1 = range[0] / 8, range[1] / 8
    if _kind == "matrix":
        models = [Matrix(n, k0, k1, _models[0], mu2)]
    else:
        models = [(Single if _kind == "single" else Table)(n, k0, k1, v, mu2) for v in _models]
    got = []

    def show():
        ax = plt.gca()
        pts, sets = [], 0
        for c in ax.collections:
            vs = [p.vertices for p in c.get_paths() if len(p.vertices)]
            sets += bool(vs)
            for v in vs:
                pts += qfix((v - k0) / (k1 - k0) * (np.array(n) - 1), U)
        pts = [list(p) for p in sorted({tuple(p) for p in pts})]
        got.append({"pts": pts, "sets": sets, "lim": [qint(ax.get_xlim(), 8, 1e-6), qint(ax.get_ylim(), 8, 1e-6)],
                    "asked": [list(m.asked) for m in models], "heights": [list(m.heights) for m in models]})
        for m in models:
            m.asked, m.heights = [], []
        plt.close("all")
    plt.close("all")
    zs = [0.375, z / 8]
    fs.plot_2D_fermi_surface(models if len(models) > 1 else models[0], mu2 / 2, z=zs, N=n[0], show=show, k_range=[k0, k1],
                             accelerate=_kind != "bands")
    if len(got) != 2:
        raise ProjErr(f"{len(got)} plots instead of 2")
    g = got[1]
    if any(a != g["asked"][0] for a in g["asked"]) or any(set(h) != {z} for h in g["heights"]):
        raise ProjErr("the models were asked at different points, or at another height")
    return {"pts": g["pts"], "sets": g["sets"], "lim": g["lim"], "asked": g["asked"][0], "height": g["heights"][0][0]}


def volume(rng, n, kind):
    """odd values, twice the energy relative to the Fermi energy"""
    cnt = int(np.prod(n))
    if kind == 0:     # noise, all ambiguous cells
        v = rng.integers(-4, 4, cnt) * 2 + 1
    elif kind == 1:   # a smooth surface
        x = np.stack(np.meshgrid(*[np.arange(a) for a in n], indexing="ij"), -1).reshape(-1, len(n))
        c, g = rng.integers(0, n), rng.integers(-3, 4, len(n))
        v = 2 * (np.sum((x - c) ** 2, axis=1) + x @ g - int(rng.integers(0, 8))) + 1
    elif kind == 2:   # does not cross
        v = (rng.integers(0, 6, cnt) * 2 + 1) * int(rng.choice([-1, 1]))
    else:             # a single point
        v = np.full(cnt, 3)
        v[int(rng.integers(cnt))] = -5
        v = v * int(rng.choice([-1, 1]))
    return v.astype(int).tolist()


RANGES = [[-4, 4], [-4, 4], [0, 8], [-8, 8], [-2, 6], [1, 3]]


def body(c):
    c.model("FermiMC", "CONSTANTS Bands = %d NX = %d\nINIT Init\nNEXT Next\nINVARIANTS EvenCells OwnVertices Complete Separates\n" % ((2, 3) if c.thorough else (2, 2)),
            min_states=6000, name="crossings of bands on all small grids, written into one file")
    rng = c.rng
    ev = []
    for _ in range(c.n(120, 1500)):
        dim = int(rng.integers(1, 4))
        shape = [int(x) for x in rng.integers(1, 5, dim)]
        nb = int(rng.integers(1, 6))
        vals = rng.integers(-2, 3, (nb, int(np.prod(shape))))
        for b in range(nb):
            if rng.random() < 0.5:
                vals[b] = np.abs(vals[b]) * int(rng.choice([-1, 1]))
        ev.append(dict(k="select", shape=shape, vals=vals.tolist(), mu2=int(rng.integers(-5, 6)), scale=int(rng.choice([1, 4, 1000]))))
    c.evs("TraceFermi", select, ev)
    ev = []
    for i in range(c.n(90, 900)):
        n = [int(rng.integers(2, 6))] * 3
        nb = int(rng.integers(1, 5))
        if i % 20 == 18:
            n, nb = [int(rng.integers(7, 10))] * 3, 1
        elif i % 20 == 15:
            n, nb = [3] * 3, int(rng.integers(10, 14))
        if i % 10 == 7:
            n, nb = [2] * 3, 13
        vals = [volume(rng, n, int(rng.choice([0, 1, 1, 2, 3])) if n[0] < 5 else int(rng.choice([1, 2, 3]))) for _ in range(nb)]
        ev.append(dict(k="export" if i % 3 else "plot", n=n, vals=vals, mu2=int(rng.integers(-5, 6)), range=RANGES[int(rng.integers(len(RANGES)))],
                       _where=["abs", "rel", "dir"][int(rng.integers(3))]))
    for e, f in (("export", export), ("plot", plot)):
        c.evs("TraceFermi", f, [x for x in ev if x["k"] == e])
    ev = []
    for i in range(c.n(90, 900)):
        n = [int(rng.integers(3, 8)) if i % 12 else 20] * 2
        kind = ["bands", "bands", "bands", "single", "matrix"][i % 5]
        mu2 = int(rng.integers(-5, 6))
        if kind == "matrix":
            p = [volume(rng, n, 1), volume(rng, n, 2), (rng.integers(0, 2, n[0] * n[0]) * 2).tolist()]
            models = [p]
            vals = [[a * b - x * x for a, b, x in zip(*p)]]
        else:
            models = [[volume(rng, n, int(rng.choice([0, 1, 1, 2, 3]))) for _ in range(int(rng.integers(1, 4)) if kind == "bands" else 1)]
                      for _ in range(int(rng.integers(1, 4)) if kind == "bands" else 1)]
            vals = [v for m in models for v in m]
        ev.append(dict(k="contour", n=n, vals=vals, mu2=mu2, range=RANGES[int(rng.integers(len(RANGES)))], z=int(rng.choice([0, 4, -3, 8])),
                       _models=models, _kind=kind))
    c.evs("TraceFermi", contour, ev)
    c.validate("TraceFermi", min_events=250)


main("P21", body)
