"""P11: files keep models: json, python and wannier90 formats."""
import json
import os
import sys
import tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *  # noqa
from models import *  # noqa
import groups as gr
from tight_binding_redweasel import json_tb_format, wannier90_tb_format


def popts():
    return {k: v for k, v in np.get_printoptions().items()}


def make(cls, nb, H, sym=None):
    if cls == "asym":
        return AsymTightBindingModel(HermitianFourierSeries(nb, H))
    m = BandStructureModel.init_tight_binding(sym or Symmetry.none(len(nb[0])), nb, H.shape[1], cos_reduced="c" in cls, exp="e" in cls)
    m.set_params_complex(H)
    return m


def parts(m):
    return (m.H.neighbors, m.H.H_r) if isinstance(m, AsymTightBindingModel) else (m.neighbors, m.params_complex())


def round_trip(k, cls, cls2, fmt, nb, H, q, real, explicit, **_):
    with tempfile.TemporaryDirectory() as d:
        Hc = cH(H)
        if real:
            Hc = Hc.real.copy()
        m = make(cls, nb, Hc)
        fn = os.path.join(d, "model.dump" if explicit else "model." + ("json" if fmt == "json" else "repr"))
        if len(nb) % 2:      # over the file of another, larger model that was loaded before
            n = len(nb[0])
            make("be" if fmt == "python" else "asym", [[0] * n] + (np.eye(n, dtype=int) * 7).tolist(), np.tile(np.full((6, 6), 1 / 3 + 0j), (n + 1, 1, 1))).save(fn, **({"format": fmt} if explicit else {}))
            (AsymTightBindingModel if cls2 == "asym" else BandStructureModel).load(fn, **({"format": fmt} if explicit else {}))
        p0 = popts()
        m.save(fn, **({"format": fmt} if explicit else {}))
        popt = popts() == p0
        L = AsymTightBindingModel if cls2 == "asym" else BandStructureModel
        kw = {"format": fmt} if explicit else {}
        if cls2 != "asym":
            kw.update(cos_reduced="c" in cls2, exp="e" in cls2)
        o = L.load(fn, **kw)
        onb, oH = parts(o)
        return {"onb": qint(onb), "oH": gint(oH), "bs": sums(o.bands(np.array(q) / 4), len(H[0])), "sorted": fmt == "json", "popt": bool(popt),
                "form": bool(cls2 == "asym" or fmt != "json" or ((o.cos_reduced, o.exp) == ("c" in cls2, "e" in cls2)))}


def overlap_round(k, nb, H, snb, S, **_):
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, "m.json")
        m = AsymTightBindingModel(HermitianFourierSeries(nb, cH(H)), HermitianFourierSeries(snb, cH(S)))
        m.save(fn)
        o = AsymTightBindingModel.load(fn)
        st, v = call(BandStructureModel.load, fn)
        kk = np.arange(3 * len(nb[0])).reshape(3, -1) / 7
        return {"onb": qint(o.H.neighbors), "oH": gint(o.H.H_r), "osnb": qint(o.S.neighbors), "oS": gint(o.S.H_r), "raised": v.split(":")[0] if st == "exc" else "none",
                "close": bool(np.allclose(o.bands(kk), m.bands(kk), atol=1e-9))}


def json_written(k, cls, nb, H, **_):
    """the content of the file as any other program reads it"""
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, "m.json")
        make(cls, nb, cH(H)).save(fn)
        with open(fn) as f:
            data = json.load(f)
    if set(data) != {"band_count", "params", "neighbors"} or any(set(p) != {"v", "dim", "data"} for p in data["params"]):
        raise ProjErr("unknown keys")
    return {"n": data["band_count"], "onb": qint(data["neighbors"]), "dims": [p["dim"] for p in data["params"]], "v": [p["v"] for p in data["params"]],
            "data": [qint(p["data"]) for p in data["params"]]}


def json_read(k, cls, nb, H, real, indent, order, **_):
    """a file as other programs write it, in any order"""
    nb, H = [nb[j] for j in order], [H[j] for j in order]
    n = len(H[0])
    if real:
        pr = [{"v": 1, "dim": [n, n], "data": [x[0] for row in m for x in row]} for m in H]
    else:
        pr = [{"v": 1, "dim": [n, n], "data": [x for row in m for x in row]} for m in H]
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, "m.json")
        with open(fn, "w") as f:
            json.dump({"neighbors": nb, "params": pr, "band_count": n}, f, indent=indent)
        onb, oH = json_tb_format.load(fn) if cls == "raw" else parts((AsymTightBindingModel if cls == "asym" else BandStructureModel).load(fn))
        return {"onb": qint(onb), "oH": gint(np.array(oH, complex))}


def sym_round(k, cls, nb, H, group, q, **_):
    gens, inv = group
    sym = gr.crystal_group(gens, inv, len(nb[0]))
    with tempfile.TemporaryDirectory() as d:
        m = make(cls, nb, cH(H), sym)
        fn = os.path.join(d, "model.repr")
        p0 = popts()
        m.save(fn)
        popt = popts() == p0
        o = BandStructureModel.load(fn)
        return {"ops": qint(sym.S), "inv": bool(sym.inversion), "oops": qint(o.sym.S), "oinv": bool(o.sym.inversion), "onb": qint(o.neighbors),
                "oH": gint(o.params_complex(), tol=1e-4), "bs": sums(o.bands(np.array(q) / 4), len(H[0])), "popt": bool(popt)}


def tok(x):
    x = np.asarray(x, dtype=np.float64).ravel() + 0.0
    v = x.view(np.int64)
    return [[int(a >> 32), int((a & 0xffffffff) - 2**31)] if a else [0, 0] for a in v]


def bits(k, cls, values, nb, n, **_):
    v = np.array(values)
    H = (v[0::2] + 1j * v[1::2]).reshape(len(nb), n, n)
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, "m.json" if cls != "repr" else "m.repr")
        if cls == "json":
            json_tb_format.save(fn, np.array(nb, float), H)
            onb, oH = json_tb_format.load(fn)
        elif cls == "asym":
            make("asym", nb, H).save(fn)
            onb, oH = parts(AsymTightBindingModel.load(fn))
        else:
            make("be", nb, H).save(fn)
            onb, oH = parts(AsymTightBindingModel.load(fn))
        idx = [int(np.argmin(np.abs(onb - np.array(r)).sum(-1))) for r in nb]
        oH = oH[idx].astype(complex)
        out = np.stack([oH.real, oH.imag], -1).ravel()
        tiny = (np.abs(v) < 1e-14) & (cls != "repr")
        return {"tok": tok(v), "out": tok(out), "tiny": [bool(t) for t in tiny]}


def write_w90(fn, kind, A, n, R, F, deg, rp, rng_fmt):
    dl = "".join("".join(f"{x:5d}" for x in deg[i:i + 15]) + "\n" for i in range(0, len(deg), 15))
    with open(fn, "w") as f:
        f.write(" written on 19Nov2026 at 10:00:00\n")
        if kind == "tb":
            for row in A:
                f.write("  " + "  ".join(f"{x:18.12f}" for x in row) + "\n")
        f.write(f"{n:12d}\n{len(R):12d}\n" + dl)
        if kind == "hr":
            for r, M in zip(R, F):
                for j in range(n):
                    for i in range(n):
                        f.write("".join(f"{x:5d}" for x in r) + f"{i + 1:5d}{j + 1:5d}{M[i][j][0]:12.6f}{M[i][j][1]:12.6f}\n")
            return
        for r, M in zip(R, F):
            f.write("\n" + "".join(f"{x:5d}" for x in r) + "\n")
            for j in range(n):
                for i in range(n):
                    f.write(f"{i + 1:5d}{j + 1:5d}   {M[i][j][0]:15.8E} {M[i][j][1]:15.8E}\n")
        for r, P in zip(R, rp):
            f.write("\n" + "".join(f"{x:5d}" for x in r) + "\n")
            for j in range(n):
                for i in range(n):
                    f.write(f"{i + 1:5d}{j + 1:5d}   " + " ".join(f"{P[a][i][j][0]:15.8E} {P[a][i][j][1]:15.8E}" for a in range(3)) + "\n")


def w90(k, kind, cls, A, n, R, F, deg, rp, f, q, **_):
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, "x_" + kind + ".dat")
        write_w90(fn, kind, A, n, R, F, deg, rp, None)
        oA, orp, bs, bsok, form = A, [], [[0] * len(q)] * n, False, True
        if cls == "raw":
            if kind == "hr":
                onb, oH = wannier90_tb_format.load_hr(fn)
            else:
                onb, oH, orp, _deg, oA = wannier90_tb_format.load_tb(fn)
                oA = qint(oA)
                orp = gint(np.moveaxis(orp, -1, 1), f, tol=1e-4)
        else:
            L = AsymTightBindingModel if cls == "asym" else BandStructureModel
            kw = {"cos_reduced": len(R) % 4 < 2, "exp": n % 2 == 0} if cls == "be" and len(R) % 8 else {}
            o = L.load(fn, **kw)
            onb, oH = parts(o)
            form = cls == "asym" or (o.cos_reduced, o.exp) == (kw.get("cos_reduced", False), kw.get("exp", True))
            bs = sums(o.bands(np.array(q) / 4) * f, n)
            bsok = True
        return {"onb": qint(onb), "oH": gint(oH, f, tol=1e-4), "oA": oA, "orp": orp, "bs": bs, "bsok": bsok, "form": bool(form)}


def reject(k, what, want, **_):
    with tempfile.TemporaryDirectory() as d:
        p0 = popts()
        m = make("asym" if what.startswith("asym") else "be", [[0, 0], [1, 0]], np.ones((2, 1, 1), complex))
        fn = os.path.join(d, "m.xyz")
        L = type(m)
        if what.endswith("save"):
            st, v = call(m.save, fn)
        elif what.endswith("saveformat"):
            st, v = call(m.save, fn, format="xml")
        elif what.endswith("load"):
            m.save(os.path.join(d, "m.json"))
            os.rename(os.path.join(d, "m.json"), fn)
            st, v = call(L.load, fn)
            os.remove(fn)
        elif what.endswith("loadformat"):
            m.save(os.path.join(d, "m.json"))
            st, v = call(L.load, os.path.join(d, "m.json"), format="xml")
        elif what.endswith("missing"):
            st, v = call(L.load, os.path.join(d, "none.json"))
        elif what.endswith("nodir"):
            st, v = call(m.save, os.path.join(d, "no", "m.json"))
        elif what.endswith("custom"):
            m = BandStructureModel(lambda k, i: np.ones(len(k)), lambda k, i: 0 * np.array(k), np.ones((1, 1, 1)))
            st, v = call(m.save, os.path.join(d, "c.json"))
            fn = os.path.join(d, "c.json")
        elif what.endswith("name"):      # a good file under a name which says nothing of its format
            fn = os.path.join(d, "x" + what.split("_")[1])
            write_w90(fn, "hr", None, 1, [[0, 0, 0]], [[[[1, 0]]]], [1], None, None)
            st, v = call(L.load, fn)
            os.remove(fn)
        raised = v.split(":")[0] if st == "exc" else "none"
        return {"raised": raised, "popt": popts() == p0, "nofile": not os.path.exists(fn)}


def big(k, fmt, count, n, **_):
    rng = np.random.default_rng(5)
    nb = np.array([[i, 0, 0] for i in range(count)])
    H = rng.normal(size=(count, n, n)) + 1j * rng.normal(size=(count, n, n))
    H[0] += H[0].conj().T
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, "m." + fmt)
        m = make("be", nb, H)
        m.save(fn)
        o = AsymTightBindingModel.load(fn)
        return {"same": bool(np.array_equal(o.H.neighbors, nb) and np.allclose(o.H.H_r, H, rtol=0, atol=1e-12))}


def through_file(m, kk, rng):
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, "model." + ("json" if isinstance(m, AsymTightBindingModel) or rng.random() < 0.5 else "repr"))
        m.save(fn)
        if rng.random() < 0.5:
            return AsymTightBindingModel.load(fn), kk
        return BandStructureModel.load(fn, cos_reduced=bool(rng.random() < 0.5), exp=bool(rng.random() < 0.5)), kk


def body(c):
    c.model("FilesMC", "INIT Init\nNEXT Next\nINVARIANTS Read Ok\n", min_states=30, name="wannier90 reader, all block orders")
    rng = c.rng
    ro, sy, bi, w9, re_ = [], [], [], [], []
    combos = [("asym", "asym", "json"), ("asym", "be", "json"), ("b", "asym", "json"), ("bc", "bce", "json"), ("be", "b", "json"), ("bce", "asym", "python"),
              ("b", "b", "python"), ("be", "asym", "python"), ("bc", "b", "python")]
    for i in range(c.n(90, 700)):
        cls, cls2, fmt = combos[i % len(combos)]
        dim, n, nb, H = random_model(rng)
        p = [0] + (rng.permutation(len(nb) - 1) + 1).tolist()
        real = bool(cls == "asym" and rng.random() < 0.3)
        if real:
            H = H.real + 0j
            H[0] = (H[0] + H[0].T)
        ro.append(dict(k="round", cls=cls, cls2=cls2, fmt=fmt, nb=[nb[j] for j in p], H=jH(H[p]), q=probes(rng, dim, 3), real=real, explicit=bool(rng.random() < 0.3)))
    for i in range(c.n(40, 300)):
        _, A, _, (name, gens, inv) = gr.pick(rng)
        dim = len(A)
        order = len(gr.np_ops(gens, inv, dim))
        sym = gr.crystal_group(gens, inv, dim)
        _, n, nb, H = random_model(rng, dim=dim, n=int(rng.integers(1, 3)), count=int(rng.integers(0, 3)), hermitian=bool(sym.inversion), mx=2 if order < 8 else 1)
        sy.append(dict(k="symround", cls=["b", "be", "bc", "bce"][i % 4], group=name, nb=nb, H=jH(H), q=probes(rng, dim, 3), _group=(gens, inv)))
    for i in range(c.n(30, 200)):
        n, cnt = int(rng.integers(1, 3)), int(rng.integers(1, 4))
        v = rng.normal(size=2 * n * n * cnt) * 10.0**rng.integers(-9, 9, 2 * n * n * cnt)
        v[rng.random(len(v)) < 0.2] = rng.choice([3e-15, -9e-15, 0.0, 1e-300, 1e-13, -2e-14, 1 / 3])
        bi.append(dict(k="bits", cls=["json", "asym", "repr"][i % 3], values=[repr(float(x)) for x in v], nb=half_neighbors(rng, 3, cnt - 1), n=n))
    for i in range(c.n(60, 500)):
        kind = ["hr", "tb"][i % 2]
        n = int(rng.integers(1, 4))
        half = half_neighbors(rng, 3, int(rng.integers(0, 9)), 2)
        if i % 10 > 7:      # larger files
            n, half = int(rng.integers(4, 8)), half_neighbors(rng, 3, int(rng.integers(9, 38)), 3)
        H = coeffs(rng, n, len(half) - 1, 4)
        f = 12
        R, F, deg, rp = [], [], [], []
        for j, r in enumerate(half):
            dg = int(rng.choice([1, 1, 2, 3, 4, 6])) if j else 1
            P = [gauss(rng, n, n, 3) for _ in range(3)]
            R.append(r), F.append(jH(H[j])), deg.append(dg), rp.append([jH(x) for x in P])
            if j:
                R.append([-x for x in r]), F.append(jH(H[j].conj().T)), deg.append(dg), rp.append([jH(x.conj().T) for x in P])
        p = rng.permutation(len(R)).tolist() if rng.random() < 0.8 else np.argsort([tuple(r) for r in R], axis=0)[:, 0].tolist()
        w9.append(dict(k="w90", kind=kind, cls=["raw", "raw", "asym", "be"][(i // 2) % 4] if n < 4 else "raw", A=rng.integers(-5, 6, (3, 3)).tolist(), n=n, R=[R[j] for j in p], F=[F[j] for j in p],
                       deg=[deg[j] for j in p], rp=[rp[j] for j in p], f=f, q=probes(rng, 3, 2)))
    V = "ValueError"
    for w in ["asym_save", "asym_saveformat", "asym_load", "asym_loadformat", "bs_save", "bs_saveformat", "bs_load", "bs_loadformat", "bs_custom"] + [
            f"{L}_{x}_name" for L in ("asym", "bs") for x in (".txt", ".dat", "")]:
        re_.append(dict(k="reject", what=w, want=V))
    for w in ["asym_missing", "bs_missing", "asym_nodir", "bs_nodir"]:
        re_.append(dict(k="reject", what=w, want="FileNotFoundError"))
    c.evs("TraceFiles", lambda **e: round_trip(**e), ro)
    so = []
    for i in range(c.n(24, 200)):
        dim, n, nb, H = random_model(rng)
        snb, S = overlap(rng, dim, n)
        if np.any(S[1:]) or not np.array_equal(S[0], np.eye(n)):
            so.append(dict(k="sround", nb=nb, H=jH(H), snb=snb, S=jH(S)))
    c.evs("TraceFiles", lambda **e: overlap_round(**e), so)
    jw, jr = [], []
    for i in range(c.n(24, 200)):
        dim, n, nb, H = random_model(rng)
        jw.append(dict(k="jsonw", cls=["asym", "b", "be", "bc"][i % 4], nb=nb, H=jH(H)))
        real = bool(rng.random() < 0.4)
        if real:
            H = (H.real + 0j)
            H[0] = H[0] + H[0].T
        p = rng.permutation(len(nb))
        jr.append(dict(k="jsonr", cls=["raw", "asym", "be"][i % 3], nb=nb, H=jH(H), order=p.tolist(), real=real, indent=2 if rng.random() < 0.3 else 0))
    c.evs("TraceFiles", lambda **e: json_written(**e), jw)
    c.evs("TraceFiles", lambda **e: json_read(**e), jr)
    c.evs("TraceFiles", lambda **e: sym_round(**dict(e, group=e["_group"])), sy)
    c.evs("TraceFiles", lambda **e: bits(**dict(e, values=[float(x) for x in e["values"]])), bi)
    c.evs("TraceFiles", lambda **e: w90(**e), w9)
    c.evs("TraceFiles", lambda **e: reject(**e), re_)
    c.evs("TraceFiles", lambda **e: big(**e), [dict(k="big", fmt=f, count=cnt, n=n) for f in ["repr", "json"] for cnt, n in [(3, 4), (1001, 10)]])
    c.evs("TraceModels", lambda **e: wide_event(make, False, post=through_file, **e), [wide_input(rng, ["asym", "b", "be", "bc", "bce"], 10) for i in range(c.n(20, 80))])
    c.validate("TraceModels", min_events=20)
    c.validate("TraceFiles", min_events=200)


main("P11", body)
