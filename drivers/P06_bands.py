"""P06: the Hamiltonian series and the bands of tight binding models."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *  # noqa
from models import *  # noqa


def build(cls, nb, H, split=None):
    if cls in ("tb", "tbi"):
        return tb_model(nb, H, split, fourier=len(nb) % 2 == 0)
    if cls == "asym":
        return AsymTightBindingModel(HermitianFourierSeries(nb, H))
    if cls == "asym_new":
        m = AsymTightBindingModel.new(nb, H.shape[1])
        m.set_from_complex(H)
        return m
    m = BandStructureModel.init_tight_binding(Symmetry.none(len(nb[0])), nb, H.shape[1], cos_reduced="c" in cls, exp="e" in cls)
    m.set_params_complex(H)
    return m


def evaluate(k, cls, nb, H, q, form, split=None, **_):
    m = build(cls, nb, cH(H), split)
    if cls in ("tb", "tbi") and form == "single":
        m = m.copy()
    kk = used(m, points(q))
    n = len(H[0])
    f = m.H.f if cls.startswith("asym") else m.f
    Hk = f(kk)
    if form == "single" and cls != "tbi":      # one point at a time
        Hk1 = np.array([f(x) for x in kk])
        if not np.allclose(Hk, Hk1, atol=1e-9):
            raise ProjErr("a single point gives another matrix than a list of points")
    elif form == "grid" and cls != "tbi":      # arbitrary leading shape
        Hk1 = f(np.stack([kk, kk]))
        if Hk1.shape != (2,) + Hk.shape or not (np.allclose(Hk, Hk1[0], atol=1e-9) and np.allclose(Hk, Hk1[1], atol=1e-9)):
            raise ProjErr("a grid of points gives other matrices than a list of points")
    b = m.bands(kk) if form != "call" else m(kk)
    if b.shape != (len(kk), n):
        raise ProjErr("shape of the bands")
    return {"Hk": gint(Hk), "bands": qfix(b, 1e4), "bs": sums(b, n), "n": int(m.band_count()), "d": int(m.H.dim() if cls.startswith("asym") else m.dim() if cls.startswith("tb") else len(nb[0]))}


def geneval(k, nb, H, snb, S, q, **_):
    m = AsymTightBindingModel(HermitianFourierSeries(nb, cH(H)), HermitianFourierSeries(snb, cH(S)))
    kk = used(m, points(q))
    det = np.round(np.real(np.linalg.det(hk(snb, cH(S), kk)))).astype(int)
    b = m.bands(kk)
    return {"Hk": gint(m.H.f(kk)), "Sk": gint(m.S.f(kk)), "det": det.tolist(), "bands": qfix(b, 1e4), "bs": sums(b, len(H[0]), det)}


def table(k, cls, nb, H, ks, f, tol, split=None, **_):
    m = build(cls, nb, cH(H), split)
    kk = np.array(ks)
    s = m.H if cls.startswith("asym") else m
    b = m.bands(kk)
    import math
    ph = [[[round(f * math.cos(2 * math.pi * float(np.dot(x, r)))), round(f * math.sin(2 * math.pi * float(np.dot(x, r))))] for r in nb] for x in ks]
    return {"ph": ph, "Hk": gfix(s.f(kk), f), "dHk": gfix(s.df(kk) / (2 * np.pi), f), "ddHk": gfix(s.ddf(kk) / (2 * np.pi)**2, f),
            "tr": qfix(b.sum(-1), f), "bands": qfix(b, 1e4)}


CLASSES = ["asym", "asym", "asym_new", "b", "be", "bc", "bce", "tb", "tbi"]


def symm(rng, cls, nb, H):
    """inversion is only separate from the other operations in odd dimensions"""
    if cls != "tbi" or len(nb[0]) == 2:
        return ("tb" if cls == "tbi" else cls), H, None
    split = int(rng.choice([0, H.shape[1]])) if rng.random() < 0.3 else int(rng.integers(0, H.shape[1] + 1))
    return cls, inv_blocks(H, split), split


def body(c):
    c.model("ModelsMC", "CONSTANTS Depth = %d\nSmall = TRUE\nINIT Init\nNEXT Next\nVIEW View\n"
            "INVARIANTS ZeroFirst Hermitian Periodic AddKeeps TransformPulls\n" % c.n(2, 3), min_states=200, name="series laws under editing")
    rng = c.rng
    ev, ge, ta = [], [], []
    for i in range(c.n(240, 2000)):
        dim, n, nb, H = random_model(rng, mirror=rng.random() < 0.15)
        cls, H, split = symm(rng, CLASSES[i % len(CLASSES)], nb, H)
        ev.append(dict(k="eval", cls=cls, _split=split, nb=nb, H=jH(H), q=probes(rng, dim), form=["list", "single", "grid", "call"][int(rng.integers(4))]))
    for i in range(c.n(100, 800)):
        dim, n, nb, H = random_model(rng, n=int(rng.integers(1, 3)), count=int(rng.integers(0, 4)), mx=1)
        snb, S = overlap(rng, dim, n)
        ge.append(dict(k="geval", nb=nb, H=jH(H), snb=snb, S=jH(S), q=probes(rng, dim)))
    for i in range(c.n(100, 800)):
        dim, n, nb, H = random_model(rng)
        f = 100000
        cls, H, split = symm(rng, CLASSES[i % len(CLASSES)], nb, H)
        ta.append(dict(k="table", cls=cls, _split=split, nb=nb, H=jH(H), f=f, tol=int(4 + 4 * len(nb) * 2),
                       _ks=[[float(x) for x in k] for k in np.round(rng.uniform(-1.5, 1.5, (3, dim)), 3)]))
    c.evs("TraceModels", lambda **e: evaluate(split=e.pop("_split"), **e), ev)
    c.evs("TraceModels", lambda **e: geneval(**e), ge)
    c.evs("TraceModels", lambda **e: table(ks=e.pop("_ks"), split=e.pop("_split"), **e), ta)
    c.evs("TraceModels", lambda **e: wide_event(build, False, **e), [wide_input(rng, ["asym", "asymS", "b", "be", "bc", "bce", "tb"], int(rng.choice([40, 70, 130]))) for i in range(c.n(14, 60))])
    c.validate("TraceModels", min_events=250)


main("P06", body)
