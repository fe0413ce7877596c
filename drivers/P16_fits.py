"""P16: fits: protocol, log, interruption at any point, what has to stay and what has to be reached."""
import contextlib
import io
import os
import sys
import tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *  # noqa
from models import *  # noqa
import groups as gr
from tight_binding_redweasel import tight_binding_asym
from tight_binding_redweasel.hamiltonian_symmetry import HamiltonianSymmetry
from tight_binding_redweasel.logger import OptimisationLogger

FX = 10**6


def ql(x):
    """losses in fixed point; Gauss-Newton steps are undamped, so a fit may diverge: losses above 100 are not compared any further"""
    return qfix(min(float(x), 100.0), FX)


class Recorder(OptimisationLogger):
    """compares every reported loss with that of the model at that moment"""

    def __init__(self, probe=None, **kw):
        super().__init__(**kw)
        self.probe, self.during, self.data = probe, [], 0

    def add_data(self, iteration, loss, max_err):
        super().add_data(iteration, loss, max_err)
        self.data += 1
        if self.probe is not None:
            self.during.append([ql(loss), ql(self.probe())])


def half(nb):
    out = []
    for v in nb:
        if tuple(-x for x in v) not in out:
            out.append(tuple(v))
    return out


def b_mask(n):
    b = np.zeros((n, n))
    b[:n - 1, :n - 1] = 1
    b[n - 1, n - 1] = 1
    return b


def make(e, rng):
    """model, k points, reference bands; everything follows from the event"""
    n, dim = e["nbands"], e["dim"]
    symz = None
    if e["symmetrized"]:
        sym = gr.crystal_group(*e["_group"], dim)
        nb = sym.complete_neighbors([[0] * dim] + [[1] + [0] * (dim - 1)])
        h = HamiltonianSymmetry(sym)
        h.append_s(np.zeros(dim), "A")
        h.append_p(np.zeros(dim), "A")
        n = h.dim()
        symz = h.symmetrizer(nb)
    else:
        nb = np.array(half([tuple(x) for x in e["nb"]]))

    def rnd():
        H = rng.normal(size=(len(nb), n, n)) + 1j * rng.normal(size=(len(nb), n, n))
        if e["real"]:
            H = H.real + 0j
        H[0] = (H[0] + H[0].conj().T) / 2
        if e["hermitian"]:
            H = (H + np.conj(np.swapaxes(H, 1, 2))) / 2
        if e["keep"]:
            H = H * b_mask(n)
        if e["pattern"]:   # zeros that are not those of the normalized model
            H = H * (np.random.default_rng(e["seed"] + 7).random(H.shape) < 0.6)
            H[0] = (H[0] + H[0].conj().T) / 2
            if e["hermitian"]:
                H = (H + np.conj(np.swapaxes(H, 1, 2))) / 2
        H[0] += np.diag(np.arange(n) * 3.0)
        H[1:] *= 0.5
        if e["overlap"] == "train":   # the steps of H and S add up to a factor of 1 + E^2
            H *= 0.07
        return H

    def overlap():
        """identity plus something small, such that all overlaps are positive definite"""
        g = np.random.default_rng(e["seed"] + 3)
        snb = nb if e["snb"] == "same" else np.array([[0] * dim, [0] * (dim - 1) + [1], [1] * dim])[:3 if dim > 1 else 2]
        S = g.normal(size=(len(snb), n, n)) + 1j * g.normal(size=(len(snb), n, n))
        if e["keep"]:
            S = S * b_mask(n)
        S[0] = S[0] + S[0].conj().T
        S *= 0.25 / len(snb) / np.linalg.norm(S, axis=(1, 2), keepdims=True)
        S[0] += np.eye(n)
        return HermitianFourierSeries(snb, S)

    def model(H):
        if e["cls"] == "asym":
            return AsymTightBindingModel(HermitianFourierSeries(nb, H), overlap()) if e["overlap"] else AsymTightBindingModel(HermitianFourierSeries(nb, H))
        m = BandStructureModel.init_tight_binding(Symmetry.inv(dim) if e["inv"] else Symmetry.none(dim), nb, n, cos_reduced="c" in e["cls"], exp="e" in e["cls"])
        if symz is not None:
            m.symmetrizer = symz
            H = symz(H)
        if len(m.params) == len(H):
            m.params = H
        else:
            m.set_params_complex(H)
        return m
    m = model(rnd())
    k = np.round(rng.uniform(-0.5, 0.5, (e["nk"], dim)), 4)
    k[0] = 0
    off, nr = e["off"], e["nr"]
    target = model(rnd()).bands(k)
    if e["perfect"] or e["near"]:
        target = m.bands(k)
    ref = target[:, off:off + nr].copy()
    if not (e["exact"] or e["perfect"]):
        ref = ref + rng.normal(size=ref.shape) * (0.3 if not e["near"] else 0.01 if e["overlap"] else 1e-4)
    return m, k, ref, nb


def params(m):
    return m.H.H_r if isinstance(m, AsymTightBindingModel) else m.params


def run(m, e, k, ref, w, log, n):
    kw = dict(e["_kw"])
    if e["method"] == "gd":
        return m.optimize(k, 1.0, ref, w, e["off"], n, log=log, **kw)
    if e["cls"] == "asym":
        return m.optimize_cg(k, ref, w, e["off"], n, log=log, **kw)
    return m.optimize_cg(k, 1.0, ref, w, e["off"], n, log=log, **kw)


def encode(stream):
    out = []
    for s in stream:
        if isinstance(s, str):
            out.append({"t": "msg", "m": s if s in ("converged", "aborted") else "info"})
        else:
            out.append({"t": "data", "i": int(s[0]), "loss": ql(s[1])})
    return out


def weights(e):
    w = np.array(e["_w"], float) if e["_w"] else 1.0
    return w, np.broadcast_to(w, (e["nr"],))


def fit(**e):
    rng = np.random.default_rng(e["seed"])
    m, k, ref, nb = make(e, rng)
    w, wv = weights(e)
    c = m.copy()
    c.normalize()
    reg = e["_kw"].get("regularization", 1.0)
    if reg != 1.0:
        params(c)[1:] *= reg
    start = c.loss(k, ref, wv, e["off"])
    gamma = m.bands(np.zeros((1, e["dim"])))
    nz0 = int(np.sum(np.abs(params(m)) > 1e-14))

    def probe():
        c = m.copy()
        c.normalize()
        return c.loss(k, ref, wv, e["off"])
    late = e["cls"] == "asym" and e["method"] == "cg"
    mode = e["logmode"]
    log = Recorder(None if late else probe, print_loss=mode == "print", verbose=mode == "print") if mode in ("print", "quiet") else mode == "true"
    k0, r0, w0 = k.copy(), ref.copy(), np.array(w, copy=True)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        g = run(m, e, k, ref, w, log, e["n"])
    if mode == "false" and buf.getvalue():
        raise ProjErr("something was printed")
    if mode == "true" and "loss" not in buf.getvalue():
        raise ProjErr("nothing was printed")
    l, err = m.error(k, ref, wv, e["off"])
    last = g.stream[-1]
    p = params(m)
    symok = True
    if e["symmetrized"]:
        symok = np.allclose(m.symmetrizer(p), p, atol=1e-8)
        S = gr.np_ops(*e["_group"], e["dim"])
        q = rng.uniform(-0.5, 0.5, e["dim"])
        b = m.bands(np.array([s @ q for s in S]))
        symok = symok and np.allclose(b, b[:1], atol=1e-7)
    H0 = p[0]
    return {"samelog": g is log if mode in ("print", "quiet") else isinstance(g, OptimisationLogger), "stream": encode(g.stream), "aborted": bool(g.aborted), "cut": 0,
            "startloss": ql(start), "endloss": ql(l), "during": g.during if mode in ("print", "quiet") else [],
            "errok": bool(np.allclose(last[2], err, atol=1e-7)) and g.last_loss() == last[1], "finite": bool(np.all(np.isfinite(p))) and (e["cls"] != "asym" or bool(np.all(np.isfinite(m.S.H_r)))),
            "herm": bool(np.allclose(H0, H0.conj().T, atol=1e-9)), "symok": bool(symok), "nonzeros0": nz0, "nonzeros": int(np.sum(np.abs(p) > 1e-9)),
            "nbsame": bool(np.array_equal(np.array(m.H.neighbors if e["cls"] == "asym" else m.neighbors), nb)),
            "argsame": bool(np.array_equal(k, k0) and np.array_equal(ref, r0) and np.array_equal(w, w0)),
            "gammaok": bool(np.allclose(gamma, m.bands(np.zeros((1, e["dim"]))), atol=1e-7)) if e["_kw"].get("train_k0", True) is False else True,
            "tol": 10 + int(FX * 1e-7 * max(start, 1)), "exacttol": 200, "neartol": 10 + (3 if e["overlap"] else 50) * ql(start)}


class Cut:
    """raises KeyboardInterrupt at the n-th line executed inside the package (without the logger)"""

    def __init__(self, at, only=False):
        self.at, self.count, self.hit, self.only = at, 0, None, only

    def local(self, frame, event, arg):
        if event == "line":
            self.count += 1
            if self.count == self.at:
                self.hit = True
                raise KeyboardInterrupt()
        return self.local

    def glob(self, frame, event, arg):
        f = frame.f_code.co_filename
        if f.startswith(SRC) and not f.endswith("logger.py") and (not self.only or frame.f_code.co_name.startswith("optimize")):
            return self.local
        return None


def cut(**e):
    losses = []
    for n in range(e["n"] + 1):
        rng = np.random.default_rng(e["seed"])
        m, k, ref, nb = make(e, rng)
        w, wv = weights(e)
        run(m, e, k, ref, w, OptimisationLogger(print_loss=False, verbose=False), n)
        losses.append(ql(m.loss(k, ref, wv, e["off"])))
    # how many lines does the run have
    counts = []
    for at in (-1, None):
        rng = np.random.default_rng(e["seed"])
        m, k, ref, nb = make(e, rng)
        w, wv = weights(e)
        if at is None:
            at = 1 + int(e["_where"] * counts[0])
        log = Recorder(None, print_loss=False, verbose=False)
        t = Cut(at, e['_only'])
        logged = [0]
        old = sys.gettrace()

        caught = True
        sys.settrace(t.glob)
        try:
            run(m, e, k, ref, w, log, e["n"])
        except KeyboardInterrupt:
            caught = False
        finally:
            sys.settrace(old)
        counts.append(t.count)
    if not t.hit:
        raise MachineryError("no interrupt")
    # the entry of the end of an interrupted run is not one of the loop
    logged = log.data - (1 if caught else 0)
    p = params(m)
    return {"losses": losses, "caught": caught, "logged": logged, "aborted": bool(log.aborted), "stream": encode(log.stream), "every": 1,
            "endloss": ql(m.loss(k, ref, wv, e["off"])) if caught else 0, "finite": bool(np.all(np.isfinite(p))), "tol": 20 + int(1e-6 * max(losses))}


def tmake(e, rng):
    """TightBindingModel: start, k points, reference bands"""
    dim, n, split = e["dim"], e["nbands"], e["split"]
    u = None
    if e["group"]:
        sym = gr.crystal_group(*e["_group"], dim)
        nb = np.array(half([tuple(int(y) for y in x) for x in np.round(sym.complete_neighbors(e["nb"]))]))
        u = UnitaryRepresentation(sym, n)
        u.U[:, 1:, 1:] = sym.S
        u.inv_split = 1
    else:
        nb = np.array(e["nb"])

    def model(mul):
        H = rng.normal(size=(len(nb), n, n)) + 1j * rng.normal(size=(len(nb), n, n))
        H[0] = (H[0] + H[0].conj().T) / 2 + np.diag(np.arange(n) * 3.0)
        if u is not None:
            H = (H + np.conj(np.swapaxes(H, 1, 2))) / 2
            m = TightBindingModel(u, nb, H)
            m.normalize()
            return m
        return tb_model(nb.tolist(), H if split < 0 else inv_blocks(H, split), None if split < 0 else split)
    m, t = model(1), model(1)
    if e["perfect"] or e["near"]:
        t = m.copy()
        if e["near"]:
            t.params = t.params + 3e-3 * model(1).params / np.max(np.abs(m.params))
            t.normalize()
    k = np.round(rng.uniform(-0.5, 0.5, (e["nk"], dim)), 4)
    k[0] = 0
    ref = t.bands(k)[:, e["off"]:e["off"] + e["nr"]].copy()
    if not (e["perfect"] or e["near"] or e["exact"]):
        ref += rng.normal(size=ref.shape) * 0.3
    return m, k, ref, nb


def trun(m, e, k, ref, w, n):
    return m.optimize(k, e["_kw"].get("kw", 1.0), ref, w, e["off"], n, **{x: y for x, y in e["_kw"].items() if x != "kw"})


def tfit(**e):
    rng = np.random.default_rng(e["seed"])
    m, k, ref, nb = tmake(e, rng)
    w, wv = weights(e)
    start = m.loss(k, ref, wv, e["off"])
    gamma = m.bands(np.zeros((1, e["dim"])))
    p_before = m.params
    p_copy = p_before.copy()
    k0, r0, w0 = k.copy(), ref.copy(), np.array(w, copy=True)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        trun(m, e, k, ref, w, e["n"])
    del p_before, p_copy
    l = m.loss(k, ref, wv, e["off"])
    texts = [x for x in buf.getvalue().replace("\r", "\n").split("\n") if x]
    shown = [float(x.split(":")[1]) for x in texts]
    q = rng.uniform(-0.5, 0.5, e["dim"])
    S = gr.np_ops(*e["_group"], e["dim"]) if e["group"] else [np.eye(e["dim"])] + ([-np.eye(e["dim"])] if e["split"] >= 0 else [])
    b = m.bands(np.array([s @ q for s in S]))
    p = m.params
    if e["split"] < 0 and not e["group"]:
        herm = np.allclose(p, np.conj(np.swapaxes(p, 1, 2)), atol=1e-9)
    else:
        H = m.f(q[None])[0]
        herm = np.allclose(H, H.conj().T, atol=1e-9)
    return {"shown": [qfix(min(x, 100.0), FX) for x in shown], "last": texts[-1].split(":")[0] if texts else "", "startloss": ql(start), "endloss": ql(l),
            "finite": bool(np.all(np.isfinite(p))), "herm": bool(herm), "symok": bool(np.allclose(m.symmetrizer(p), p, atol=1e-8) and np.allclose(b, b[:1], atol=1e-7)),
            "nbsame": bool(np.array_equal(m.neighbors, nb)), "argsame": bool(np.array_equal(k, k0) and np.array_equal(ref, r0) and np.array_equal(w, w0)),
            "gammaok": bool(np.allclose(gamma, m.bands(np.zeros((1, e["dim"]))), atol=1e-7)) if e["_kw"].get("train_k0", True) is False else True,
            "tol": 10 + int(FX * 1e-7 * max(start, 1)), "showtol": 2 + ql(l) // 50, "exacttol": 200, "neartol": 10 + 6 * ql(start)}


def tcut(**e):
    losses = []
    quiet = contextlib.redirect_stdout(io.StringIO())
    for n in range(e["n"] + 1):
        m, k, ref, nb = tmake(e, np.random.default_rng(e["seed"]))
        w, wv = weights(e)
        with quiet:
            trun(m, e, k, ref, w, n)
        losses.append(ql(m.loss(k, ref, wv, e["off"])))
    counts = []
    for at in (-1, None):
        m, k, ref, nb = tmake(e, np.random.default_rng(e["seed"]))
        w, wv = weights(e)
        t = Cut(1 + int(e["_where"] * counts[0]) if at is None else at, e["_only"])
        old, caught, buf = sys.gettrace(), True, io.StringIO()
        sys.settrace(t.glob)
        try:
            with contextlib.redirect_stdout(buf):
                trun(m, e, k, ref, w, e["n"])
        except KeyboardInterrupt:
            caught = False
        finally:
            sys.settrace(old)
        counts.append(t.count)
    if not t.hit:
        raise MachineryError("no interrupt")
    return {"losses": losses, "caught": caught, "said": "aborted" in buf.getvalue(), "finished": "final loss" in buf.getvalue(),
            "endloss": ql(m.loss(k, ref, wv, e["off"])) if caught else 0, "finite": bool(np.all(np.isfinite(m.params))), "tol": 20 + int(1e-6 * max(losses))}


def tstart(k, dim, nr, add, order, split, gamma, group, seed, **_):
    """the start of a TightBindingModel has the bands of the data at k = 0, and those added below"""
    e = _
    np.random.seed(seed % 2**32)
    rng = np.random.default_rng(seed)
    n = nr + add
    nb = np.array([[0] * dim, [1] + [0] * (dim - 1)])
    if group:
        sym = gr.crystal_group(*e["_group"], dim)
        nb = np.array(half([tuple(int(y) for y in x) for x in np.round(sym.complete_neighbors(nb))]))
        u = UnitaryRepresentation(sym, n)
        u.U[:, 1:, 1:] = sym.S
        u.inv_split = 1
    else:
        u = UnitaryRepresentation(Symmetry.inv(dim) if split >= 0 else Symmetry.none(dim), n)
        u.inv_split = max(split, 0)
    kk = np.round(rng.uniform(-0.5, 0.5, (5, dim)), 3)
    kk[2] = 0
    ref = np.sort(rng.integers(-9, 10, (5, nr)), axis=1).astype(float)
    ref[2] = gamma
    k0, r0 = kk.copy(), ref.copy()
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        m = TightBindingModel.init_from_ref(u, nb, kk, ref, use_repr_order=order, verbose=e["verbose"])
    b = m.bands(np.zeros((1, dim)))[0]
    small = (max(gamma) - min(gamma) + 0.01) * 0.003
    far = m.bands(rng.uniform(-0.5, 0.5, (4, dim)))
    return {"at0": qfix(b, 100), "dev": bool(np.max(np.abs(b * 100 - np.round(b * 100))) < 1e-6), "terms": len(m.params), "nb": len(nb), "half": bool(split >= 0 or group),
            "small": bool(np.max(np.abs(m.params[1:]), initial=0) <= small), "flat": bool(np.max(np.abs(far - b)) < small * 8 * len(nb) * n),
            "symok": bool(np.allclose(m.symmetrizer(m.params), m.params, atol=1e-9)), "silent": buf.getvalue() == "", "nonzero": bool(len(nb) == 1 or np.max(np.abs(m.params[1:])) > 0),
            "argsame": bool(np.array_equal(kk, k0) and np.array_equal(ref, r0))}


def tone(rng, kind):
    dim = int(rng.integers(1, 4))
    group = bool(rng.random() < 0.25)
    exact, perfect, near = kind == "exact", kind == "perfect", kind == "near"
    nbands = 1 if exact else int(rng.integers(1, 4))
    if group:
        dim, nbands, split = 3, 4, 1
    else:
        split = -1 if dim == 2 or rng.random() < 0.5 else int(rng.integers(0, nbands + 1))
    g = [x for x in gr.CUBIC if x[0] == "Oh"][0]
    nb = [[0] * dim] + ([] if group else [list(x) for x in half(list(dict.fromkeys(tuple(v) for v in rng.integers(-1, 2, (3, dim)).tolist()))) if any(x)])
    if group:
        nb.append([1, 0, 0])
    nr = 1 if exact and not group else int(rng.integers(1, nbands + 1))
    off = int(rng.integers(0, nbands - nr + 1))
    if exact and group or near:
        nr, off = nbands, 0
    kw = {}
    if rng.random() < 0.3 and kind not in ("cut", "exact", "near"):
        kw["batch_div"] = 2
    if rng.random() < 0.3 and kind not in ("exact",):
        kw["learning_rate"] = 0.5
    if rng.random() < 0.3 and kind in ("fit", "perfect"):
        kw["train_k0"] = False
    if rng.random() < 0.3:
        kw["kw"] = 2.0
    if exact and group:
        near, exact = True, False
    w = [] if rng.random() < 0.5 or exact or near else [float(x) for x in rng.choice([0.5, 1, 2], nr)]
    n = 2500 if exact else int(rng.integers(2, 6)) if kind == "cut" else int(rng.choice([0, 1, 3, 101, 150]))
    return dict(k="tcut" if kind == "cut" else "tfit", dim=dim, nbands=nbands, nb=nb, split=split, group=group, perfect=perfect, near=near, exact=exact, nr=nr, off=off, nk=14 + 3 * len(nb) + (10 if exact else 0), n=n,
                seed=int(rng.integers(10**9)), _kw=kw, _w=w, _group=(g[1], g[2]), _where=float(rng.random()), _only=bool(rng.random() < 0.7), note=str(kw))


def start(k, dim, nb, cls, nr, add, off, ref, sym, kind, **_):
    kk = np.round(np.random.default_rng(1).uniform(-0.5, 0.5, (len(ref), dim)), 3)
    kk[1] = 0
    r = np.array(ref, float)
    if kind == "asym":
        m = AsymTightBindingModel.init_from_ref(np.array(nb), kk, r, cls == "s")
        p = m.H.H_r
        at0 = m.H.f(np.zeros((1, dim)))[0]
        # normalized: diagonal at Gamma, where the overlap is the identity
        if np.max(np.abs(at0 - np.diag(np.diag(at0)))) > 1e-9 or np.max(np.abs(m.S.f(np.zeros((1, dim)))[0] - np.eye(nr))) > 1e-9:
            raise ProjErr("the model is not normalized")
        nbs, onsite, spread = m.H.neighbors, np.sort(np.diag(at0).real), float(r[1].max() - r[1].min())
        if len(m.S.H_r) > 1 and np.max(np.abs(m.S.H_r[1:])) > 0:
            raise ProjErr("overlap is not the identity")
        spread = max(spread, 1e-3)
        onsite = np.where(np.abs(onsite - np.sort(r[1])) < 0.02 * spread * len(nb) * nr, np.sort(r[1]), onsite)
    else:
        g = Symmetry.inv(dim) if sym == "inv" else Symmetry.none(dim)
        kw = dict(cos_reduced="c" in cls, exp="e" in cls)
        m = BandStructureModel.init_tight_binding(g, nb, nr + add, **kw) if kind == "zero" else BandStructureModel.init_tight_binding_from_ref(g, nb, kk, r, off, add, **kw)
        p, nbs, spread = m.params, m.neighbors, 10.0
        H0 = p[0]
        if np.max(np.abs(H0 - np.diag(np.diag(H0)))) > 1e-12:
            raise ProjErr("onsite matrix is not diagonal")
        onsite = np.diag(H0)
        if [bool(m.cos_reduced), bool(m.exp)] != ["c" in cls, "e" in cls] or (m.sym != g):
            raise ProjErr("other options than given")
    # far from Gamma as well the bands are those of the onsite matrix up to the small random rest
    q = np.round(np.random.default_rng(2).uniform(-0.5, 0.5, (5, dim)), 3)
    dev = np.abs(m.bands(q) - np.sort(np.real(onsite))[None, :])
    big = float(np.max(np.abs(p[1:]), initial=0))
    return {"bands": int(m.band_count()), "onsite": qint(onsite), "gamma": qint(r[1]), "small": bool(big <= 0.003 * spread),
            "zero": bool(big == 0), "terms": len(p), "flat": bool(np.max(dev) < 0.02 * spread * len(nb) * (nr + add)),
            "nbsame": bool(np.array_equal(np.array(nbs), np.array(nb)))}


def auto(k, dim, src, below, above, first, seed, **_):
    rng = np.random.default_rng(seed)
    np.random.seed(seed % 2**32)
    sym = Symmetry.square() if dim == 2 else Symmetry.none(1)
    g = np.stack(np.meshgrid(*[np.arange(5) / 5] * dim, indexing="ij"), -1).reshape(-1, dim)
    g = (g + 0.5) % 1 - 0.5
    g = g[rng.permutation(len(g))]
    ref = -np.cos(2 * np.pi * g).sum(1, keepdims=True) * 2 + 1
    g0, r0 = g.copy(), ref.copy()
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                tb = tight_binding_asym.autofit_asym("x", src, g, ref, [1.0], sym, start_neighbors_count=first, add_bands_below=below, add_bands_above=above,
                                                     randomize=False, restarts=1)
            have = sorted(os.listdir(d))
            want = sorted(["asym_x_start.json"] + [f"asym_x_{i}.json" for i in range(first + 1, len(src) + 1) if first + 1 < len(src)])
            lastf = f"asym_x_{len(src)}.json" if first + 1 < len(src) else "asym_x_start.json"
            o = AsymTightBindingModel.load(lastf) if lastf in have else None
        finally:
            os.chdir(cwd)
    same = o is not None and np.allclose(o.bands(g), tb.bands(g), atol=1e-9)
    return {"bands": int(tb.band_count()), "files": have == want, "lastfile": bool(same), "nr": 1,
            "nbcount": len(tb.H.neighbors), "wantnb": len(sym.complete_neighbors(src)), "argsame": bool(np.array_equal(g, g0) and np.array_equal(ref, r0)),
            "endloss": qfix(tb.loss(g, ref, [1.0], below), FX), "exacttol": 2000}


def options(rng, cls, method, perfect=False, cutting=False):
    kw = {}
    if method == "gd":
        if rng.random() < 0.3 and not cutting:
            kw["batch_div"] = int(rng.integers(2, 4))
        if rng.random() < 0.4:
            kw["use_pinv"] = False
        if rng.random() < 0.2 and not cutting and not perfect:
            kw["regularization"] = 0.95
        if rng.random() < 0.3:
            kw["learning_rate"] = 0.5
        if cls == "asym" and rng.random() < 0.3 and not perfect:
            kw["use_lstsq_stepsize"] = True
    else:
        if rng.random() < 0.3:
            kw["precond"] = False
        if rng.random() < 0.3:
            kw["max_cg_iterations"] = 2
    return kw


def one(rng, kind, i, c):
    cls = str(rng.choice(["asym", "", "c", "e", "ce"]))
    method = "gd" if rng.random() < 0.5 else "cg"
    dim = int(rng.integers(1, 4))
    nbands = int(rng.integers(1, 4))
    perfect, exact = kind == "perfect", kind == "exact"
    near = kind == "near"
    overlap = ""
    if kind == "over":    # overlap matrices: fixed or fitted as well
        cls, overlap = "asym", "fix"
        if method == "gd" and rng.random() < 0.6:
            overlap, near = "train", True
        exact = bool(method == "cg" and rng.random() < 0.4)
        perfect = bool(not exact and rng.random() < 0.5)
        kind = "fit"
    elif kind == "cut" and cls == "asym" and rng.random() < 0.5:
        overlap = "fix" if method == "cg" or rng.random() < 0.3 else "train"
        near = overlap == "train"
    symmetrized = not overlap and kind in ("fit", "cut", "perfect") and rng.random() < 0.2
    if symmetrized:
        cls, dim = "e", 2 if rng.random() < 0.7 else 3
    if exact:
        nbands = 1
    nb = [[0] * dim]
    for _ in range(int(rng.integers(1, 4))):
        v = rng.integers(-1, 2, dim).tolist()
        if v not in nb and [-x for x in v] not in nb:
            nb.append(v)
    kw = options(rng, cls, method, perfect, kind == "cut")
    keep = bool(kind == "fit" and not symmetrized and not exact and nbands == 3 and rng.random() < 0.7)
    pattern = bool(kind == "near" and rng.random() < 0.6)
    if keep or pattern:
        kw["keep_zeros"] = True
    hermitian = bool(cls in ("", "c") or rng.random() < 0.3)
    if kind == "fit" and cls == "c" and method == "gd" and not keep and rng.random() < 0.6:
        kw["train_k0"] = False
        kw.pop("regularization", None)
    if exact:
        kw = {"use_pinv": True} if method == "gd" else {}
    if symmetrized:
        nbands = 1 + dim
    nr = int(rng.integers(1, nbands + 1))
    off = int(rng.integers(0, nbands - nr + 1))
    n = int(rng.integers(0, 6)) if kind != "cut" else int(rng.integers(2, 5))
    if exact:
        n, nr, off = 80, 1, 0
    if near:
        kw.pop("regularization", None)
    if overlap == "train":
        kw["train_S"] = True
        kw.pop("use_lstsq_stepsize", None)
    if kind == "cut" or (kind == "fit" and rng.random() < 0.5):
        kw["convergence_threshold"] = 0.0
        kw["loss_threshold"] = 0.0
    w = [] if rng.random() < 0.5 or exact else [float(x) for x in rng.choice([0.5, 1, 2], nr)]
    group = [("C4", [[[0, 1], [-1, 0]]], False), ("D4", [[[0, 1], [-1, 0]], [[-1, 0], [0, 1]]], True)][int(rng.integers(2))] if dim == 2 else \
        [g for g in gr.CUBIC if g[0] in ("O", "Oh", "T")][int(rng.integers(3))]
    return dict(k="cut" if kind == "cut" else "fit", cls=cls, method=method, dim=dim, nbands=nbands, nb=nb, symmetrized=bool(symmetrized), keep=keep, hermitian=hermitian, near=near, pattern=pattern, overlap=overlap, snb=str(rng.choice(["same", "other"])),
                inv=False, real=bool(rng.random() < 0.3), perfect=perfect, exact=exact, off=off, nr=nr, nk=int(rng.integers(3, 6)) + 3 * (2 * len(nb) + 1) * (3 if dim == 3 and symmetrized else 1),
                n=n, every=100 if kw.get("batch_div", 1) != 1 else 1, seed=int(rng.integers(10**9)), logmode=str(rng.choice(["quiet", "quiet", "print", "true", "false"])),
                _kw=kw, _w=w, _group=(group[1], group[2]), _where=float(rng.random()), _only=bool(rng.random() < 0.7), note=str(kw))


def body(c):
    for n, p in ((0, 1), (1, 2), (3, 3), (c.n(4, 8), c.n(4, 8))):
        c.model("FitMC", f"CONSTANTS Iterations = {n}\nParts = {p}\nAtomic = TRUE\nINIT Init\nNEXT Next\nINVARIANTS Protocol NoTornModel LossOfResult AbortedFlag IterationsRise\n",
                min_states=5, name=f"optimizer protocol with interrupts, {n} iterations of {p} parts")
    rng = c.rng
    for kind, count in (("fit", c.n(150, 1500)), ("perfect", c.n(60, 500)), ("exact", c.n(50, 300)), ("near", c.n(60, 400)), ("over", c.n(80, 500))):
        c.evs("TraceFit", fit, [one(rng, kind, i, c) for i in range(count)])
    c.evs("TraceFit", cut, [one(rng, "cut", i, c) for i in range(c.n(600, 5000))])
    for kind, count in (("fit", c.n(40, 400)), ("perfect", c.n(24, 200)), ("near", c.n(24, 200)), ("exact", c.n(10, 60))):
        c.evs("TraceFit", tfit, [tone(rng, kind) for i in range(count)])
    c.evs("TraceFit", tcut, [tone(rng, "cut") for i in range(c.n(80, 800))])
    ev = []
    g = [x for x in gr.CUBIC if x[0] == "Oh"][0]
    for i in range(c.n(30, 200)):
        dim, nr, add = int(rng.integers(1, 4)), int(rng.integers(1, 5)), int(rng.integers(0, 3))
        group, order = bool(i % 5 == 0), bool(rng.random() < 0.5)
        gamma = np.sort(rng.choice(np.arange(-9, 10), nr, replace=False)).tolist()
        if group:
            dim, nr, add = 3, 4, 0
            a, b = sorted(rng.choice(np.arange(-9, 10), 2, replace=False).tolist())
            gamma = [a, b, b, b] if order or rng.random() < 0.5 else [a, a, a, b]
        ev.append(dict(k="tstart", dim=dim, nr=nr, add=add, order=order, split=-1 if group or dim == 2 or rng.random() < 0.5 else int(rng.integers(0, nr + add + 1)), gamma=gamma, group=group,
                       verbose=bool(rng.random() < 0.3), seed=int(rng.integers(10**8)), _group=(g[1], g[2])))
    c.evs("TraceFit", tstart, ev)
    ev = []
    for i in range(c.n(60, 400)):
        dim, nr = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        kind = ("ref", "ref", "zero", "asym")[i % 4]
        add = int(rng.integers(0, 3)) if kind == "ref" else 0
        nb = half([tuple(x) for x in rng.integers(-2, 3, (int(rng.integers(0, 4)), dim)).tolist()])
        nb = [[0] * dim] + [list(v) for v in nb if any(v)]
        cls = str(rng.choice(["", "c", "e", "ce"])) if kind != "asym" else str(rng.choice(["", "s"]))
        ev.append(dict(k="start", kind=kind, sym=str(rng.choice(["none", "inv"])) if kind != "asym" else "asym", dim=dim, nb=nb, cls=cls, expo="e" in cls, nr=nr, add=add, off=int(rng.integers(0, add + 1)),
                       ref=np.sort(rng.integers(-9, 10, (4, nr)), axis=1).tolist()))
    c.evs("TraceFit", start, ev)
    ev = []
    for i in range(c.n(8, 24)):
        dim = 1 + i % 2
        src = [[0], [1], [2]] if dim == 1 else [[0, 0], [1, 0], [1, 1]]
        ev.append(dict(k="auto", dim=dim, src=src, below=int(rng.integers(0, 2)), above=int(rng.integers(0, 2)), first=1 + int(i % 4 == 3), seed=int(rng.integers(10**6))))
    c.evs("TraceFit", auto, ev, chunk=1)
    c.validate("TraceFit", min_events=400)
    c.coverage["rational_points_explored"] = "random models with up to 4 bands, interrupts at random executed lines"
    c.assumptions.append("losses are compared in fixed point (1e-6) with a tolerance of 1e-5; one band models have to reach exact data within 1e-4")


if __name__ == "__main__":
    main("P16", body)
