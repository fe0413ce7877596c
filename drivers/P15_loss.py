"""P15: loss functions are exact, the log records exactly what was reported."""
import contextlib
import io
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *  # noqa
from models import *  # noqa
from tight_binding_redweasel import loss as loss_mod
from tight_binding_redweasel.logger import OptimisationLogger


def diag_model(cls, energies):
    """a model with the given (integer) bands at k=0 and k=1/2 .. along the first direction (no coupling between the bands)"""
    E = np.array(energies)   # (2, n): E(0), E(1/2); H0 = mean, H1 = difference / 4
    H0 = np.diag((E[0] + E[1]) / 2).astype(complex)
    H1 = np.diag((E[0] - E[1]) / 4).astype(complex)
    if cls == "asym":
        return AsymTightBindingModel(HermitianFourierSeries([[0], [1]], np.array([H0, H1])))
    if cls == "tbm":
        return tb_model([[0], [1]], np.array([H0, H1]))
    m = BandStructureModel.init_tight_binding(Symmetry.none(1), [[0], [1]], len(H0), cos_reduced="c" in cls, exp="e" in cls)
    m.set_params_complex(np.array([H0, H1]))
    return m


def sq(x, nk):
    v = float(x)**2 * nk
    return qint(v, 1, tol=1e-5 + 1e-6 * v)


def numbers(x, n):
    """the (integer) values as arrays of different kinds"""
    t = [float, float, int, np.float32, "F", "ro", "strided"][(n + len(x)) % 7]
    a = np.array(x, float)
    if t == "F":
        return np.asfortranarray(a)
    if t == "ro":
        a.flags.writeable = False
        return a
    if t == "strided":
        b = np.zeros([2 * s for s in a.shape])
        b[tuple(slice(None, None, 2) for s in a.shape)] = a
        return b[tuple(slice(None, None, 2) for s in a.shape)]
    return a.astype(t)


def loss_event(k, B, R, w, off, via, **_):
    b, r, ww = numbers(B, 0), numbers(R, abs(R[0][0])), numbers(w, 0)
    b0, r0, w0 = b.copy(), r.copy(), ww.copy()
    if via == "fn":
        l = loss_mod.model_loss(b, r, ww, off)
        e, me = loss_mod.model_error(b, r, ww, off)
    else:
        m = diag_model(via, B)
        ks = np.array([[0.0], [0.5]])
        l = m.loss(ks, r, ww, off)
        e, me = m.error(ks, r, ww, off)
    return {"l2": sq(l, len(R)), "e2": sq(e, len(R)), "maxerr": qint(me), "same": bool(np.array_equal(b, b0) and np.array_equal(r, r0) and np.array_equal(ww, w0))}


def window_event(k, B, R, lo, hi, skip, via, **_):
    b, r = numbers(B, 1), numbers(R, abs(R[0][0]))
    b0, r0 = b.copy(), r.copy()
    if via == "fn":
        l = loss_mod.model_windowed_loss(b, r, lo, hi, **({"allow_skipped_bands": True} if skip else {}))
    else:
        l = diag_model(via, B).windowed_loss(np.array([[0.0], [0.5]]), r, lo, hi, **({"allow_skipped_bands": True} if skip else {}))
    return {"l2": sq(l, len(R)), "same": bool(np.array_equal(b, b0) and np.array_equal(r, r0))}


def hist_event(k, B, R, n, skip, **_):
    b, r = numbers(B, 1), numbers(R, abs(R[0][0]))
    b0, r0 = b.copy(), r.copy()
    c, v = loss_mod.model_error_hist(b, r, N=n, **({"allow_skipped_bands": True} if skip else {}))
    return {"c": qint(np.array(c) * (n - 1)), "v": qint(v), "same": bool(np.array_equal(b, b0) and np.array_equal(r, r0))}


def report_event(k, B, R, w, off, via, prefix, tolog, scalar, **_):
    """the printed report of a model: loss with the weights scaled to a mean of one, and the largest error per band"""
    r = np.array(R, float)
    ww = float(w[0]) if scalar else np.array(w, float)
    w0, r0 = np.array(ww).copy(), r.copy()
    m = diag_model(via, B)
    log = OptimisationLogger(verbose=False) if tolog else None
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        m.print_error(np.array([[0.0], [0.5]]), r, ww, off, **({"prefix": prefix} if prefix else {}), **({"log": log} if tolog else {}))
    out = buf.getvalue()
    if tolog:
        if len(log.stream) != 1 or log.loss or out:
            raise ProjErr("not one message in the log")
        out = log.stream[0]
    if not out.startswith(prefix):
        raise ProjErr("no prefix")
    out = out[len(prefix):].replace("\n", " ")
    nums = [float(x) for x in re.findall(r"[-+]?[0-9]+\.?[0-9]*(?:[eE][-+]?[0-9]+)?", out)]
    tot = float(np.sum(w)) if not scalar else float(len(R[0]))
    return {"l2": int(min(round(1000 * (nums[0] * tot)**2 * len(R)), 2 * 10**9)), "maxerr": qint(nums[1:], 1, tol=1e-5),
            "same": bool(np.array_equal(ww, w0) and np.array_equal(r, r0))}


def norms_event(k, via, mats, **_):
    m = BandStructureModel.init_tight_binding(Symmetry.none(1), [[i] for i in range(len(mats))], len(mats[0]), exp="e" in via, cos_reduced="c" in via)
    P = np.array(mats, float)[..., 0] + 1j * np.array(mats, float)[..., 1]
    if len(m.params) != len(P) and len(m.params) != 2 * len(P) - 1:
        raise ProjErr("number of parameters")
    P = np.concatenate([P, P])[:len(m.params)]
    m.params = P.copy()
    if "g" in via:
        m.neighbors = None
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        m.print_model_norms()
    lines = buf.getvalue().strip().split("\n")
    if not np.array_equal(m.params, P):
        raise ProjErr("the model was changed")
    return {"n2": [qint(float(x.rsplit(":", 1)[1])**2, 1, tol=1e-5) for x in lines]}


def plotloss_event(k, ops, **_):
    import matplotlib
    matplotlib.use("Agg")
    from matplotlib import pyplot as plt
    g = OptimisationLogger(print_loss=False, verbose=False)
    for o in ops:
        g.add_data(o["i"], float(o["loss"]), np.ones(2))
    plt.close("all")
    g.plot_loss("x-")
    ax = plt.gca()
    if len(ax.lines) != 1:
        raise ProjErr("not one line")
    ln = ax.lines[0]
    res = {"x": qint(ln.get_xdata()), "y": qint(ln.get_ydata()), "log": ax.get_yscale() == "log" and ax.get_xscale() == "linear", "style": ln.get_marker() == "x",
           "xlim": qint(ax.get_xlim())}
    plt.close("all")
    return res


def reject_event(k, what, **_):
    z = np.zeros
    fn = {"points loss": lambda: loss_mod.model_loss(z((3, 2)), z((2, 2)), z(2), 0),
          "points error": lambda: loss_mod.model_error(z((3, 2)), z((2, 2)), z(2), 0),
          "points window": lambda: loss_mod.model_windowed_loss(z((3, 2)), z((2, 2)), -1, 1),
          "points hist": lambda: loss_mod.model_error_hist(z((3, 2)), z((2, 2))),
          "weights": lambda: loss_mod.model_loss(z((2, 2)), z((2, 2)), z(3), 0),
          "weights error": lambda: loss_mod.model_error(z((2, 2)), z((2, 2)), z(3), 0),
          "one dimensional": lambda: loss_mod.model_loss(z(2), z((2, 2)), z(2), 0),
          "too few bands": lambda: loss_mod.model_loss(z((2, 2)), z((2, 3)), z(3), 0),
          "good": lambda: loss_mod.model_loss(z((2, 2)), z((2, 2)), z(2), 0)}[what]
    st, v = call(fn)
    return {"raised": st == "exc"}


def log_event(k, ops, printing, verbose, line, **_):
    g = OptimisationLogger(print_loss=printing, update_line=line, verbose=verbose)
    seen = []
    for o in ops:
        buf = io.StringIO()
        raised = False
        with contextlib.redirect_stdout(buf):
            if o["op"] == "msg":
                g.add_message(o["m"])
            elif o["op"] == "data":
                g.add_data(o["i"], float(o["loss"]), np.array(o["err"], float))
            elif o["op"] == "count":
                g.count = o["v"]
            else:
                try:
                    g.abort()
                except ValueError:
                    raised = True
        out = buf.getvalue()
        stream = []
        for s in g.stream:
            stream.append({"t": "msg", "m": s} if isinstance(s, str) else {"t": "data", "i": int(s[0]), "loss": qint(s[1])})
        bars, line_nums = [], []
        if o["op"] == "data" and printing:
            bar = out[out.rindex("[") + 1:out.rindex("]")]
            f = re.search(r"(\d+): loss *([-+.0-9e]+?e[-+]\d\d) *([-+.0-9e]+?)×", out)
            line_nums = [int(f.group(1)), int(round(float(f.group(2)) * 1000)), int(round(float(f.group(3)) * 1000))]
            bars = [0 if ch == " " else ord(ch) - 0x2580 for ch in bar]
        seen.append({"its": qint(g.iterations), "loss": qint(g.loss), "aborted": bool(g.aborted), "last": int(g.iteration_count()), "stream": stream, "raised": raised,
                     "lastloss": qint(g.last_loss()) if g.loss else 0, "out": out if o["op"] == "data" and not printing else "", "shown": o["op"] == "msg" and o["m"] in out, "bars": bars, "nums": line_nums})
    return {"seen": seen}


def body(c):
    c.model("FitMC", "CONSTANTS Iterations = 3\nParts = 3\nAtomic = TRUE\nINIT Init\nNEXT Next\nINVARIANTS Protocol LossOfResult IterationsRise\n",
            min_states=40, name="log and loss laws")
    rng = c.rng
    ev = []
    for i in range(c.n(120, 1500)):
        via = "fn" if rng.random() < 0.6 else str(rng.choice(["asym", "c", "e", "", "tbm"]))
        nk = 2 if via != "fn" else int(rng.integers(1, 6))
        nb, nr = int(rng.integers(1, 6)), int(rng.integers(1, 5))
        nr = min(nb, nr)
        if i % 8 == 7:     # long tables with many bands
            via, nk, nb, nr = "fn", int(rng.integers(20, 80)), int(rng.integers(8, 20)), int(rng.integers(4, 9))
        B = np.sort(rng.integers(-9, 10, (nk, nb)), axis=1)
        ev.append(dict(k="loss", B=B.tolist(), R=rng.integers(-9, 10, (nk, nr)).tolist(), w=rng.integers(0, 4, nr).tolist(), off=int(rng.integers(0, nb - nr + 1)), via=via))
    c.evs("TraceFit", loss_event, ev)
    ev = []
    for i in range(c.n(140, 1500)):
        via = "fn" if rng.random() < 0.6 else str(rng.choice(["asym", "c", "e", "", "tbm"]))
        nk = 2 if via != "fn" else int(rng.integers(1, 4))
        nb, nr = int(rng.integers(1, 5)), int(rng.integers(1, 5))
        if i % 10 == 9:
            via, nk, nb, nr = "fn", int(rng.integers(8, 30)), int(rng.integers(5, 9)), int(rng.integers(2, 5))
            nb, nr = (nb, nr) if rng.random() < 0.6 else (nr, nb)
        B, R = np.sort(rng.integers(-9, 10, (nk, nb)), axis=1), np.sort(rng.integers(-9, 10, (nk, nr)), axis=1)
        lo = int(rng.integers(-10, 4))
        ev.append(dict(k="window", B=B.tolist(), R=R.tolist(), lo=lo, hi=lo + int(rng.integers(0, 15)), skip=bool(rng.random() < 0.5), via=via))
    for i in range(c.n(150, 1500)):   # many offsets, narrow windows
        n, m = int(rng.integers(1, 3)), int(rng.integers(4, 7))
        B, R = np.sort(rng.integers(-6, 7, (2, m)), 1).tolist(), np.sort(rng.integers(-6, 7, (2, n)), 1).tolist()
        if rng.random() < 0.5:
            B, R = R, B
        lo = int(rng.integers(-6, 5))
        ev.append(dict(k="window", B=B, R=R, lo=lo, hi=lo + int(rng.integers(0, 5)), skip=False, via="fn"))
    c.evs("TraceFit", window_event, ev)
    ev = []
    for i in range(c.n(120, 1200)):
        nk, nb, nr = int(rng.integers(1, 5)), int(rng.integers(1, 5)), int(rng.integers(1, 5))
        if i % 10 == 9:
            nk, nb, nr = int(rng.integers(8, 30)), int(rng.integers(2, 8)), int(rng.integers(2, 6))
        B, R = np.sort(rng.integers(-9, 10, (nk, nb)), axis=1), np.sort(rng.integers(-9, 10, (nk, nr)), axis=1)
        if rng.random() < 0.4 and nb != nr:   # the same bands, one set is larger
            m = min(nb, nr)
            o = int(rng.integers(0, abs(nb - nr) + 1))
            if nb < nr:
                B = R[:, o:o + m] + rng.integers(-1, 2, (nk, m))
            else:
                R = B[:, o:o + m] + rng.integers(-1, 2, (nk, m))
        ev.append(dict(k="hist", B=B.tolist(), R=R.tolist(), n=int(rng.integers(2, 12)), skip=bool(rng.random() < 0.4)))
    c.evs("TraceFit", hist_event, ev)
    c.evs("TraceFit", reject_event, [dict(k="reject", what=w, want=w != "good") for w in
          ["points loss", "points error", "points window", "points hist", "weights", "weights error", "one dimensional", "too few bands", "good"]])
    ev = []
    for i in range(c.n(60, 600)):
        ops = []
        for j in range(int(rng.integers(1, 9))):
            x = rng.random()
            if x < 0.55:
                err = rng.integers(0, 33, int(rng.integers(1, 6)))
                if rng.random() < 0.2:
                    err[:] = 0
                ops.append({"op": "data", "i": int(rng.integers(0, 100)), "loss": int(rng.integers(0, 50)), "err": err.tolist()})
            elif x < 0.75:
                ops.append({"op": "msg", "m": f"message {j}"})
            elif x < 0.88:
                ops.append({"op": "abort"})
            else:
                ops.append({"op": "count", "v": bool(rng.random() < 0.7)})
        ev.append(dict(k="log", ops=ops, printing=bool(rng.random() < 0.6), verbose=bool(rng.random() < 0.5), line=bool(rng.random() < 0.5)))
    c.evs("TraceFit", log_event, ev)
    ev = []
    for i in range(c.n(60, 600)):
        nb, nr = int(rng.integers(1, 6)), int(rng.integers(1, 5))
        nr = min(nb, nr)
        w = rng.integers(0, 4, nr)
        w[int(rng.integers(nr))] += 1
        ev.append(dict(k="report", B=np.sort(rng.integers(-9, 10, (2, nb)), axis=1).tolist(), R=rng.integers(-9, 10, (2, nr)).tolist(), w=w.tolist(), off=int(rng.integers(0, nb - nr + 1)),
                       via=str(rng.choice(["asym", "c", "e", ""])), prefix=str(rng.choice(["", "start ", "end: "])), tolog=bool(rng.random() < 0.5), scalar=bool(rng.random() < 0.3)))
    for e in ev:
        if e["scalar"]:
            e["w"] = [e["w"][0] + 1] * len(e["w"])
    c.evs("TraceFit", report_event, ev)
    c.evs("TraceFit", norms_event, [dict(k="norms", via=str(rng.choice(["", "e", "c", "g", "eg"])), mats=rng.integers(-3, 4, (int(rng.integers(1, 5)), n := int(rng.integers(1, 4)), n, 2)).tolist())
                                    for i in range(c.n(20, 200))])
    ev = []
    for i in range(c.n(8, 40)):
        its = sorted(set(rng.integers(0, 60, int(rng.integers(2, 7))).tolist()) | {0, 61})
        ev.append(dict(k="plotloss", ops=[{"i": int(x), "loss": int(rng.integers(1, 90))} for x in its]))
    c.evs("TraceFit", plotloss_event, ev)
    c.validate("TraceFit", min_events=300)
    c.coverage["rational_points_explored"] = "integer bands as numbers of several types, up to 5 k points and 5 bands (80 points and 20 bands in long tables), all offsets and windows"
    c.assumptions.append("in error histograms, values exactly on the edge of a bin may count for either side")


if __name__ == "__main__":
    main("P15", body)
