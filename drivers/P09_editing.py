"""P09: editing a model changes exactly what it says: TLC-generated histories replayed on both model classes."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *  # noqa
from models import *  # noqa

BS = {"permute", "transform", "scale", "shift", "double"}


def snap(m, asym):
    return (np.array(m.H.neighbors), np.array(m.H.H_r), np.array(m.S.neighbors), np.array(m.S.H_r)) if asym else (np.array(m.neighbors), np.array(m.params))


def same(a, b):
    return all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(a, b))


def history(k, cls, nb, H, cmds, q, **_):
    asym = cls == "asym"
    n = len(H[0])
    if asym:
        m = AsymTightBindingModel(HermitianFourierSeries(nb, cH(H)))
    else:
        m = BandStructureModel.init_tight_binding(Symmetry.none(len(nb[0])), nb, n, cos_reduced="c" in cls, exp="e" in cls)
        m.set_params_complex(cH(H))
    witness = m.copy()          # a copy made at the start never changes (the neighbors of BandStructureModel copies are documented as shared)
    w0 = snap(witness, asym)
    kk = points(q)
    obs = []
    for c in cmds:
        t, removed, old = c["c"], 0, None
        if t == "permute":
            m.permute([i - 1 for i in c["ord"]])
        elif t == "transform":
            m.transform(np.array(c["B"]))
        elif t == "scale":
            old, s0 = m, snap(m, asym)
            m = m * float(c["f"])
        elif t == "shift":
            old, s0 = m, snap(m, asym)
            m = m + float(c["x"])
        elif t == "double":
            old, s0 = m, snap(m, asym)
            m = m + m.copy()
        elif t == "limit":
            removed = m.H.limit_neighbors(c["l2"]**.5)
        elif t == "cleanup":
            removed = m.H.cleanup_neighbors((c["n2"] - 0.5)**.5)
        elif t == "add":
            m.H.add_neighbors(np.array(c["new"], float))
        elif t == "readd":
            st, _v = call(m.H.add_neighbors, np.array([m.H.neighbors[-1], m.H.neighbors[-1] + 17.0]))
            if st == "ok":
                raise ProjErr("duplicate neighbors were accepted")
        elif t == "copy":
            m = m.copy()
        elif t == "roundtrip" and not asym:
            m.set_params_complex(m.params_complex())
        elif t == "roundtrip":
            m.set_from_complex(m.params_complex())
        untouched = old is None or same(s0, snap(old, asym))
        if asym:
            untouched = untouched and same(w0, snap(witness, asym))
        else:
            untouched = untouched and np.array_equal(w0[1], witness.params)
        b = m.bands(kk)
        obs.append({"nb": qint(m.H.neighbors if asym else m.neighbors), "H": gint(m.params_complex(), tol=1e-4), "bs": sums(b, b.shape[-1]),
                    "removed": int(removed), "untouched": bool(untouched)})
    return {"obs": obs}


def count(k, nb, H, n, **_):
    s = HermitianFourierSeries(nb, cH(H))
    r = s.limit_neighbor_count(n)
    return {"onb": qint(s.neighbors), "oH": gint(s.H_r), "removed": int(r)}


def norm(k, cls, nb, H, snb, S, q, **_):
    kk = points(q)
    det = np.round(np.real(np.linalg.det(hk(snb, cH(S), kk)))).astype(int)
    if cls == "asym":
        m = AsymTightBindingModel(HermitianFourierSeries(nb, cH(H)), HermitianFourierSeries(snb, cH(S)))
        m.normalize()
        z = np.zeros((1, len(nb[0])))
        H0, S0, onb = m.H.f(z)[0], m.S.f(z)[0], m.H.neighbors
    else:
        m = BandStructureModel.init_tight_binding(Symmetry.none(len(nb[0])), nb, len(H[0]), cos_reduced="c" in cls, exp="e" in cls)
        m.set_params_complex(cH(H))
        m.normalize()
        H0, S0, onb = m.params[0], np.eye(len(H[0])), m.neighbors
    return {"det": det.tolist(), "bs": sums(m.bands(kk), len(H[0]), det), "H0": gfix(H0, 1e6), "S0": gint(S0), "onb": qint(onb)}


def block(k, nb, H, block, q, **_):
    m = AsymTightBindingModel(HermitianFourierSeries(nb, cH(H)))
    m.normalize()
    kk = points(q)
    sub = AsymTightBindingModel(HermitianFourierSeries(nb, m.H.H_r[:, :block, :block]))
    return {"bs": sums(m.bands(kk), len(H[0])), "bs1": sums(sub.bands(kk), block), "oH": gfix(m.H.H_r, 1e6),
            "H0": gfix(m.H.f(np.zeros((1, len(nb[0]))))[0], 1e6)}


def random(k, cls, nb, H, snb, S, keep, rs, real, sigma, seed, **_):
    """random changes: which parameters are changed, and by how much (in percent of sigma)"""
    np.random.seed(seed)
    asym = cls == "asym"
    if asym:
        f = (lambda x: cH(x).real.copy()) if real else cH
        m = AsymTightBindingModel(HermitianFourierSeries(nb, f(H)), HermitianFourierSeries(snb, f(S)) if snb else None)
        s = HermitianFourierSeries(nb, f(H)) if not snb else m.S
    else:
        m = BandStructureModel.init_tight_binding(Symmetry.none(len(nb[0])), nb, len(H[0]), cos_reduced="c" in cls, exp="e" in cls)
        m.set_params_complex(cH(H))
    a = snap(m, asym)
    a = tuple(np.array(x) for x in a)
    w = m.copy()
    w0 = snap(w, asym)
    if asym:
        m.randomize(sigma / 100, keep_zeros=keep, randomize_S=True) if rs else m.randomize(sigma / 100, keep)
    else:
        m.randomize(sigma / 100, keep)
    b = snap(m, asym)

    def part(x, y):
        d = y - x
        used = np.abs(d[(np.abs(x) > 1e-9) | (not keep)])
        return {"zeros": [[int(v) for v in np.ravel(np.abs(t) < 1e-9)] for t in x], "changed": [[int(v) for v in np.ravel(np.abs(t) > 0)] for t in d],
                "size": qfix(np.sqrt(np.mean(used**2)) / sigma * 100, 100) if len(used) else 141, "count": len(used)}
    return {"H": part(a[1], b[1]), "S": part(a[3], b[3]) if asym else {"zeros": [], "changed": [], "size": 0, "count": 0},
            "nbsame": bool(np.array_equal(a[0], b[0]) and (not asym or np.array_equal(a[2], b[2]))), "copysame": bool(same(w0, snap(w, asym)))}


def dsum(k, nb, H, H2, other, via, **_):
    a, b = HermitianFourierSeries(nb, cH(H)), HermitianFourierSeries(np.array(nb) * (2 if other else 1), cH(H2))
    s0 = (a.H_r.copy(), b.H_r.copy())
    st, r = call(a.direct_sum, b) if via == "method" else call(lambda: a + b)
    if st != "ok":
        return {"refused": True, "onb": [], "oH": [], "same": True}
    return {"refused": False, "onb": qint(r.neighbors), "oH": gint(r.H_r), "same": bool(np.array_equal(s0[0], a.H_r) and np.array_equal(s0[1], b.H_r))}


def build(cls, nb, H):
    if cls == "asym":
        return AsymTightBindingModel(HermitianFourierSeries(nb, H))
    m = BandStructureModel.init_tight_binding(Symmetry.none(len(nb[0])), nb, H.shape[1], cos_reduced="c" in cls, exp="e" in cls)
    m.set_params_complex(H)
    return m


def edits(m, kk, rng):
    """edits of a large model which keep the bands at the (moved) points"""
    n = m.band_count()
    for t in rng.permutation(["normalize", "permute", "transform", "copy", "scale", "shift", "cleanup"])[:int(rng.integers(1, 5))]:
        if t == "normalize":
            m.normalize()
        elif t == "permute":
            m.permute(rng.permutation(n))
        elif t == "transform":
            B = np.triu(rng.integers(-1, 2, (kk.shape[1],) * 2), 1) + np.diag(rng.choice([-1, 1, 2], kk.shape[1]))
            m.transform(B)
            kk = kk @ np.linalg.inv(B)
        elif t == "copy":
            m = m.copy()
        elif t == "scale":
            m = (m * -2.0) * -0.5
        elif t == "shift":
            m = (m + 7.0) + -7.0
        elif t == "cleanup" and isinstance(m, AsymTightBindingModel):
            m.H.cleanup_neighbors(1e-9)
    return m, kk


def body(c):
    c.model("ModelsMC", "CONSTANTS Depth = %d\nSmall = TRUE\nINIT Init\nNEXT Next\nVIEW View\n"
            "INVARIANTS ZeroFirst Hermitian PermuteKeeps TransformPulls ScaleSums ShiftSums DoubleSums AddKeeps\n" % c.n(2, 4), min_states=200, name="editing laws")
    beh = c.behaviours("ModelsMC", "CONSTANTS Depth = 6\nSmall = TRUE\nINIT Init\nNEXT NextSim\n", num=c.n(160, 1500), depth=7, name="editing histories")
    rng = c.rng
    hi, co, no, bl = [], [], [], []
    for i, b in enumerate(beh):
        cls = ["asym", "asym", "asym", "b", "be", "bce", "bc"][i % 7]
        dim, n, nb, H = random_model(rng, dim=b["d"], n=1, count=int(rng.integers(1, 5)), mx=2)
        cmds, unknown, lnb, nmul, nsh = [], False, [tuple(x) for x in nb], 0, 0
        # the commands of the behaviour, made applicable to this model (number of bands and neighbors)
        n = int(rng.integers(1, 3))
        H = coeffs(rng, n, len(nb) - 1, 1 if n > 1 else 2)
        cur = n
        for x in b["h"]:
            x = dict(x)
            if cls != "asym" and x["c"] not in BS:
                x = {"c": ["copy", "roundtrip"][int(rng.integers(2))]}
            if x["c"] == "permute":
                x["ord"] = (rng.permutation(cur) + 1).tolist()
            elif x["c"] == "double":
                if cur * 2 > 4 or nmul + nsh > 2:
                    x = {"c": "copy"}
                else:
                    cur *= 2
            elif x["c"] == "scale":
                nmul += 1
                if nmul > 1:
                    x["f"] = -1
            elif x["c"] == "shift":
                nsh += 1
                if nsh > 2 or cur > 2:
                    x = {"c": "copy"}
            elif x["c"] == "transform":
                lnb = [tuple((np.array(x["B"]) @ np.array(r)).tolist()) for r in lnb]
            elif x["c"] == "limit":
                lnb = [r for r in lnb if sum(t * t for t in r) <= x["l2"]]
            elif x["c"] == "cleanup":
                unknown = True   # which neighbors are left is not tracked here: nothing is added any more
            elif x["c"] == "add":
                v = tuple(x["new"][0])
                if unknown or v in lnb or tuple(-t for t in v) in lnb:
                    x = {"c": "roundtrip"}
                else:
                    lnb.append(v)
            if x["c"] == "copy" and cls == "asym" and rng.random() < 0.3:
                x = {"c": "readd"}
            cmds.append(x)
        hi.append(dict(k="hist", cls=cls, nb=nb, H=jH(H), cmds=cmds, q=probes(rng, dim, 3)))
    for i in range(c.n(40, 400)):
        dim, n, nb, H = random_model(rng, count=int(rng.integers(0, 9)), reach=2)
        p = [0] + (rng.permutation(len(nb) - 1) + 1).tolist()
        nb, H = [nb[j] for j in p], H[p]
        co.append(dict(k="count", nb=nb, H=jH(H), n=int(rng.integers(1, len(nb) + 2))))
    while len(no) < c.n(60, 500):
        cls = ["asym", "asym", "asym", "be", "bce", "b"][len(no) % 6]
        dim, n, nb, H = random_model(rng, n=int(rng.integers(1, 3)), mx=1)
        snb, S = overlap(rng, dim, n) if cls == "asym" else ([[0] * dim], np.array([np.eye(n, dtype=complex)]))
        no.append(dict(k="norm", cls=cls, nb=nb, H=jH(H), snb=snb, S=jH(S), q=probes(rng, dim)))
    while len(bl) < c.n(40, 300):
        dim, n, nb, _ = random_model(rng, n=1, mx=1)
        a, b_ = int(rng.integers(1, 3)), int(rng.integers(1, 3))
        A, B = coeffs(rng, a, len(nb) - 1, 1), coeffs(rng, b_, len(nb) - 1, 1)
        H = np.zeros((len(nb), a + b_, a + b_), complex)
        H[:, :a, :a], H[:, a:, a:] = A, B
        e = np.linalg.eigvalsh(hk(nb, H, np.zeros((1, dim))))[0]
        if np.min(np.diff(e)) < 0.05:
            continue
        bl.append(dict(k="block", nb=nb, H=jH(H), block=a, q=probes(rng, dim)))
    c.evs("TraceModels", lambda **e: history(**e), hi)
    c.evs("TraceModels", lambda **e: count(**e), co)
    c.evs("TraceModels", lambda **e: norm(**e), no)
    c.evs("TraceModels", lambda **e: block(**e), bl)
    ra, ds = [], []
    for i in range(c.n(60, 500)):
        cls = ["asym", "asym", "be", "bce", "b"][i % 5]
        dim, n, nb, H = random_model(rng, n=int(rng.integers(2, 4)), mx=1)
        H = cH(H) if isinstance(H, list) else H
        H = H * (rng.random(H.shape[1:]) < 0.7)
        H[0] = np.triu(H[0], 1) + np.triu(H[0], 1).conj().T + np.diag(np.diag(H[0]))
        if i % 3 == 0:
            H = H.real + 0j
        snb, S = overlap(rng, dim, n) if cls == "asym" and i % 2 else ([], np.zeros((0, n, n)))
        ra.append(dict(k="random", cls=cls, nb=nb, H=jH(H), snb=snb, S=jH(S), keep=bool(rng.random() < 0.5), rs=bool(cls == "asym" and rng.random() < 0.6),
                       real=bool(i % 3 == 0 and not np.any(np.imag(S))), sigma=int(rng.choice([1, 50, 300])), seed=int(rng.integers(2**31))))
    for i in range(c.n(30, 200)):
        dim, n, nb, H = random_model(rng, n=int(rng.integers(1, 3)), mx=2)
        H2 = coeffs(rng, int(rng.integers(1, 3)), len(nb) - 1, 2)
        ds.append(dict(k="dsum", nb=nb, H=jH(H), H2=jH(H2), other=bool(i % 5 == 4 and len(nb) > 1), via=["method", "plus"][i % 2]))
    c.evs("TraceModels", lambda **e: random(**e), ra)
    c.evs("TraceModels", lambda **e: dsum(**e), ds)
    c.evs("TraceModels", lambda **e: wide_event(build, False, post=edits, **e), [wide_input(rng, ["asym", "asymS", "asym", "b", "be", "bc", "bce"], 30) for i in range(c.n(28, 120))])
    c.assumptions.append("the neighbors of a BandStructureModel copy are documented as shared with the original: only its parameters are required to be independent")
    c.validate("TraceModels", min_events=250)


main("P09", body)
