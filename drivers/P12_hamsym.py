"""P12: hamiltonian symmetries: the symmetrization is the group mean, operations transform H(k), orbits of H(k)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *  # noqa
from reps import *  # noqa

UR = UnitaryRepresentation
INV = "Idempotent HermitianZero Symmetric Orthogonal ApplyLaw Reps_"


def build(group, dim, orbs, unit):
    """orbs: list of [kind, odd, pos]"""
    gens, inv = group
    sym = gr.crystal_group(gens, inv, dim)
    h = HamiltonianSymmetry(sym)
    for i, (kind, odd, pos) in enumerate(orbs):
        p = np.array(pos) / unit
        if i and (len(orbs) + sum(pos)) % 2:     # a symmetry that was used before it was complete
            n = h.dim()
            nb0 = np.zeros((1, dim))
            h.symmetrize(np.ones((1, n, n)) + 0j, nb0), h.symmetrizer(nb0)(np.ones((1, n, n)) + 0j)
            h.apply(np.full(dim, 0.25), np.ones((n, n)), len(h.sym.S) - 1)
            h.realize_symmetric(np.full((1, dim), 0.25), np.ones((1, n, n)))
            h.get_band_name(n - 1)
        if kind == "s":
            h.append_s(p, f"o{i}")
        elif kind == "p":
            h.append_p(p, f"o{i}")
        elif kind == "d2":
            h.append_d2(p, f"o{i}")
        elif kind == "d3":
            h.append_d3(p, f"o{i}")
        elif kind[0] == "c":    # complex: exp(2 pi i power / order) for the generator of a cyclic group
            u, n, gen = UR(sym, 1), len(sym.S), np.array(gens[0])
            w = [next(m for m in range(n) if np.allclose(np.linalg.matrix_power(gen, m), s)) for s in sym.S]
            u.U = np.round(np.exp(2j * np.pi * int(kind[1:]) / n * np.array(w)), 12)[:, None, None]
            u.inv_split = 0 if odd else 1
            h.append(u, p, f"o{i}")
        elif kind[0] == "g":    # p orbitals with other phases
            u = UR(sym, dim)
            u.U = np.array(sym.S)
            u.inv_split = 0 if odd else dim
            h.append(gauge(u, [int(x) for x in kind[1:]]), p, f"o{i}")
        elif kind == "pe":   # p matrices, even under inversion
            u = UR(sym, dim)
            u.U = np.array(sym.S)
            u.inv_split = dim
            h.append(u, p, f"o{i}")
        else:
            h.append(one_dim_rep(sym, kind, odd), p, f"o{i}")
    return h


def describe(h, orbs):
    out, at = [], 0
    cx = any(np.iscomplexobj(u.U) for u in h.U)
    for u, p, (kind, odd, pos) in zip(h.U, h.pos, orbs):
        d = jrep(u, 2 if kind == "d2" else 1, cx)
        d["pos"], d["at"] = pos, at
        at += len(d["U"][0])
        out.append(d)
    return out


def hsym(k, group, dim, orb, unit, nb, H, real, **_):
    h = build(group, dim, orb, unit)
    nbf = np.array(nb) / unit
    Hc = np.array(H, float)[..., 0] + 1j * np.array(H, float)[..., 1]
    if real:
        Hc = Hc.real.copy()
    before = Hc.copy()
    f = h.symmetrizer(nbf)
    if len(nb) % 2:     # the array, and the function, of another question
        X = Hc[::-1] * 2 + 1
        h.symmetrize(X, nbf), f(X), h.symmetrize(X[:1], np.zeros((1, dim)))
        X[...] = Hc
        a = h.symmetrize(X, nbf)
        b = f(X)
    else:
        a = h.symmetrize(Hc, nbf)
        b = f(Hc)
    c = h.copy().symmetrizer(nbf)(Hc)
    again = f(f(Hc))
    if not np.array_equal(before, Hc):
        raise ProjErr("the input was changed")
    cx = realify if any(np.iscomplexobj(u.U) for u in h.U) else np.asarray
    return {"ops": ops(h.sym), "inv": bool(h.sym.inversion), "orbs": describe(h, orb),
            "H": gint(cx(Hc)), "out": [gfix(cx(x), 1000) for x in (a, b, c, again)]}


def happly(k, group, dim, orb, unit, kq, M, si, sign, **_):
    h = build(group, dim, orb, unit)
    Mc = np.array(M, float)[..., 0] + 1j * np.array(M, float)[..., 1]
    b = Mc.copy()
    if si % 2:
        h.apply(np.array(kq) / 4 + 0.25, Mc * 2, 0, sign < 0), h.apply(np.array(kq) / 4, Mc + 1, si, sign > 0)
    o = h.apply(np.array(kq) / 4, Mc, si, sign < 0)
    if not np.array_equal(b, Mc):
        raise ProjErr("the input was changed")
    return {"ops": ops(h.sym), "inv": bool(h.sym.inversion), "orbs": describe(h, orb), "s": si + 1, "out": gfix(o, 1000)}


def hreal(k, group, dim, orb, unit, ks, Ms, **_):
    h = build(group, dim, orb, unit)
    Mc = np.array(Ms, float)[..., 0] + 1j * np.array(Ms, float)[..., 1]
    ok, oM, order = h.realize_symmetric(np.array(ks) / 4, Mc)
    return {"ops": ops(h.sym), "inv": bool(h.sym.inversion), "orbs": describe(h, orb), "outk": qint(ok, 4), "out": gfix(oM, 1000), "order": [int(i) + 1 for i in order]}


def orbital(k, name, odd, group, dim, app, **_):
    h = build(group, dim, [[app, odd, [0] * dim]], 1)
    return {"ops": ops(h.sym), "inv": bool(h.sym.inversion), "out": jrep(h.U[0], 2 if app == "d2" else 1)}


def diamond(k, group, names, pos, **_):
    h = HamiltonianSymmetry(gr.crystal_group(group[0], group[1], 3))
    out, named, at = [], True, 0
    for n in names:
        {"s": h.append_diamond_s, "p": h.append_diamond_p, "d3": h.append_diamond_d3}[n](np.array(pos) / 2, n)
        us = h.U[at:]
        named = named and sum(u.dim() for u in us) == (2 if n == "s" else 6) and h.names[at:] == ([n + "0", n + "1"] if len(us) == 2 else [n]) and all(np.allclose(p, np.array(pos) / 2) for p in h.pos[at:])
        out.append({"name": n, "reps": [jrep(u) for u in us]})
        at = len(h.U)
    return {"ops": ops(h.sym), "inv": bool(h.sym.inversion), "out": out, "named": bool(named)}


def reject(k, what, group, dim, **_):
    h = build(group, dim, [["s", False, [0] * dim]], 1)
    before = (len(h.U), h.dim(), list(h.names))
    u = UR(h.sym, 2)
    if what == "pos":
        st, v = call(h.append, u, [0] * (dim + 1), "x")
    elif what == "mixed":
        u.inv_split = 1
        st, v = call(h.append, u, [0] * dim, "x")
    elif what == "group":
        other = gr.crystal_group([], not h.sym.inversion if dim % 2 else False, dim)
        if dim % 2 == 0 or len(h.sym.S) == 1:
            other = gr.crystal_group([np.diag([-1] + [1] * (dim - 1)).tolist()], False, dim) if dim > 1 else gr.crystal_group([], not h.sym.inversion, dim)
        st, v = call(h.append, UR(other, 2), [0] * dim, "x")
    elif what == "name":
        st, v = call(h.get_band_name, 1)
    return {"raised": st == "exc" and v.split(":")[0] in ("ValueError", "IndexError"), "same": before == (len(h.U), h.dim(), list(h.names))}


def facts(k, what, group, dim, orb, **_):
    h = build(group, dim, orb, 2)
    if what == "names":
        want = []
        for i, u in enumerate(h.U):
            want += [f"o{i}"] if u.dim() == 1 else [f"o{i}{j}" for j in range(u.dim())]
        return {"res": [h.get_band_name(i) for i in range(h.dim())] == want and len(h) == len(h.sym)}
    if what == "copy":
        o = h.copy()
        dims, n = (h.dim(), len(h.U)), [u.U.copy() for u in h.U]
        ok = o.dim() == h.dim() and o.sym == h.sym and all(np.array_equal(a.U, b.U) and a.inv_split == b.inv_split for a, b in zip(o.U, h.U)) \
            and all(np.array_equal(a, b) for a, b in zip(o.pos, h.pos)) and o.names == h.names
        o.append_s([0] * dim, "new")
        o.U[0].U *= 2
        o.pos[0] = o.pos[0] + 1
        return {"res": bool(ok and (h.dim(), len(h.U)) == dims and all(np.array_equal(a, b.U) for a, b in zip(n, h.U)) and len(h.names) == len(h.pos) == dims[1])}


def np_images(group, dim):
    gens, inv = group
    return gr.np_ops(gens, inv, dim)


def make_nb(rng, group, dim, orb, unit, maxn):
    """0 (mostly), and the orbits of some vectors for some of the pairs of orbitals, sometimes with a hole"""
    G = np_images(group, dim)
    nb = [tuple([0] * dim)] if rng.random() < 0.9 else []
    seen = set(nb)

    def add(v):
        v = tuple(int(x) for x in v)
        if v not in seen and tuple(-x for x in v) not in seen and len(nb) < maxn:
            if rng.random() < 0.5:
                v = tuple(-x for x in v)
            nb.append(v)
            seen.add(v)
    for _ in range(int(rng.integers(1, 4))):
        r = rng.integers(-1, 2, dim) * unit
        i, j = rng.integers(len(orb), size=2)
        d = np.array(orb[j][2]) - np.array(orb[i][2])
        imgs = [g @ (r + d) - d for g in G]
        if all((x % unit == 0).all() for x in imgs) and len({tuple(x) for x in imgs}) + len(nb) <= maxn + 3:
            for x in imgs:
                add(x)
        else:
            add(r)
    if len(nb) > 2 and rng.random() < 0.35:
        nb.pop(int(rng.integers(1, len(nb))))
    if not nb:
        nb = [tuple([0] * dim)]
    order = rng.permutation(len(nb))
    return [list(nb[i]) for i in order]


def rand_orbs(rng, sym, nm, maxdim, unit, dim):
    cart = nm in ("cubic", "cubic2", "square", "line")
    orb, n = [], 0
    base = [[0] * dim, [unit // 2] * dim, [unit // 2] + [0] * (dim - 1)]
    if unit == 4:
        base += [[1] * dim]
    while True:
        kinds = ["s", "det", "odd"] + (["p", "pe"] if cart and dim > 1 else [])
        k = kinds[int(rng.integers(len(kinds)))]
        odd = bool(rng.random() < 0.5) if k in ("det", "odd") else k == "p"
        d = dim if k in ("p", "pe") else 1
        if n + d > maxdim:
            break
        pos = base[int(rng.integers(len(base)))] if rng.random() < 0.8 else rng.integers(-unit, unit + 1, dim).tolist()
        orb.append([k, odd, list(pos)])
        n += d
        if len(orb) > 1 and rng.random() < 0.5:
            break
    return orb, n


def body(c):
    c.model("RepsMC", "CONSTANT KSet = %s\nINIT Init\nNEXT Next\nINVARIANTS %s\n" % ("{2}" if not c.thorough else "{0, 2, 4}", INV), min_states=300,
            name="symmetrization is the orthogonal projection on the symmetric operators (all unit matrices)")
    rng = c.rng
    ins = []
    for i in range(c.n(220, 2500)):
        nm, g, sym = rand_group(rng, ["cubic", "hex", "square", "hex2", "line", "cubic"])
        dim = sym.dim()
        order = len(sym)
        unit = int(rng.choice([2, 2, 4]))
        orb, n = rand_orbs(rng, sym, nm, 4 if order > 8 else 5, unit, dim)
        if not orb:
            continue
        nb = make_nb(rng, (g[1], g[2]), dim, orb, unit, 7 if order > 12 else 9)
        H = rint(rng, (len(nb), n, n), 3)
        real = bool(rng.random() < 0.2)
        if real:
            H = H.real + 0j
        ins.append(dict(k="hsym", _group=0, group=[g[1], g[2]], dim=dim, orb=orb, unit=unit, nb=nb, H=gint(H), real=real))
    # partial orbits: the images under inversion are missing for one of the equivalent vectors
    for i in range(c.n(12, 100)):
        dim = 3
        orb = [["s", False, [0, 0, 0]], ["s", False, [1, 0, 0]]]
        nb = [[0, 0, 0], [2, 2, 0], [2, -2, 0], [4, 2, 0]] if i % 2 == 0 else [[2, 0, 2], [2, 0, -2], [-4, 0, -2], [0, 2, 0]]
        ax = [[[1, 0, 0], [0, -1, 0], [0, 0, -1]]]
        ins.append(dict(k="hsym", group=[ax, True], dim=dim, orb=orb, unit=2, nb=nb, H=gint(rint(rng, (4, 2, 2), 3)), real=False))
    # complex representations
    for i in range(c.n(24, 200)):
        dim, gens, inv = [(3, [gr.R4], True), (3, [gr.R4], False), (2, [[[0, -1], [1, 0]]], False)][i % 3]
        if i % 4 == 3:
            orb = [["g" + "".join(str(int(x)) for x in rng.integers(0, 4, dim)), bool(rng.random() < 0.5), [int(rng.integers(0, 2))] * dim]]
            orb += [[["s", "c1"][int(rng.integers(2))], bool(rng.random() < 0.5), [0] * dim]]
        else:
            orb = [[f"c{int(rng.integers(4))}", bool(rng.random() < 0.5), [int(rng.integers(0, 2))] * dim] for _ in range(3)] + [["s", False, [0] * dim]]
        n = sum(dim if o[0][0] == "g" else 1 for o in orb)
        nb = make_nb(rng, (gens, inv), dim, orb, 2, 7)
        ins.append(dict(k="hsym", group=[np.array(gens).tolist(), inv], dim=dim, orb=orb, unit=2, nb=nb, H=gint(rint(rng, (len(nb), n, n), 3)), real=False))
    # d orbitals
    for i in range(c.n(6, 40)):
        orb = [["d2", False, [0, 0, 0]], [["s", "p", "d3"][i % 3], i % 3 == 1, [1, 1, 1] if i % 2 else [0, 0, 0]]]
        n = 2 + (1 if i % 3 == 0 else 3)
        nb = [[0, 0, 0], [2, 0, 0], [0, 2, 0], [0, 0, 2]] + ([[2, 2, 0], [2, 0, 2], [0, 2, 2], [2, 2, 2]] if i % 2 else [])
        ins.append(dict(k="hsym", group=[[gr.R4, gr.C3D], bool(i % 4 < 2)], dim=3, orb=orb, unit=2, nb=nb, H=gint(rint(rng, (len(nb), n, n), 3)), real=False))
    c.evs("TraceReps", hsym, [{k: v for k, v in e.items() if k != "_group"} for e in ins])
    ins = []
    for i in range(c.n(120, 1200)):
        nm, g, sym = rand_group(rng, ["cubic", "hex", "square", "hex2", "line"])
        dim = sym.dim()
        unit = int(rng.choice([1, 2, 4]))
        orb, n = rand_orbs(rng, sym, nm, 5, max(unit, 2), dim)
        if not orb:
            continue
        unit = max(unit, 2)
        kq = (rng.integers(-3, 4, dim) * unit).tolist() if rng.random() < 0.8 else rng.integers(-3, 4, dim).tolist()
        if any(x % unit for x in kq):
            orb = [[o[0], o[1], [unit * int(rng.integers(0, 2))] * dim] for o in orb]
        ins.append(dict(k="happly", group=[g[1], g[2]], dim=dim, orb=orb, unit=unit, kq=kq, M=gint(rint(rng, (n, n), 4)),
                        si=int(rng.integers(len(sym.S))), sign=int(rng.choice([1, -1])) if sym.inversion else 1))
    c.evs("TraceReps", happly, ins)
    ins = []
    for i in range(c.n(50, 500)):
        nm, g, sym = rand_group(rng, ["cubic", "hex", "square", "hex2", "line"])
        dim = sym.dim()
        unit = 2
        orb, n = rand_orbs(rng, sym, nm, 4, unit, dim)
        if not orb:
            continue
        G = np_images((g[1], g[2]), dim)
        seen, ks = set(), []
        for _ in range(int(rng.integers(1, 4))):
            q = rng.integers(-2, 3, dim) * unit
            if tuple(q) in seen:
                continue
            ks.append(q.tolist())
            seen |= {tuple(np.round(np.linalg.inv(s).T @ q).astype(int)) for s in G}
        ins.append(dict(k="hreal", group=[g[1], g[2]], dim=dim, orb=orb, unit=unit, ks=ks, Ms=gint(rint(rng, (len(ks), n, n), 4))))
    c.evs("TraceReps", hreal, ins)
    ins = []
    for nm in ("cubic", "square", "line"):
        A, _, pool = gr.LATTICES[nm]
        for _, gens, inv in pool:
            for name, odd in [("s", False), ("p", True)] + ([("d3", False)] if nm == "cubic" else []):
                ins.append(dict(k="orbital", name=name, odd=odd, group=[gens, inv], dim=len(A), app=name))
    for inv in (True, False):
        ins.append(dict(k="orbital", name="E", odd=False, group=[[gr.R4, gr.C3D], inv], dim=3, app="d2"))
    c.evs("TraceReps", orbital, ins)
    ins = [dict(k="diamond", group=[gens, inv], names=[["s", "p", "d3"], ["d3", "s"], ["p", "s"], ["s"]][int(rng.integers(4))], pos=rng.integers(-2, 3, 3).tolist()) for _, gens, inv in gr.LATTICES["cubic"][2] for _ in range(2)]
    for e in ins:    # the signs of d orbitals under improper operations are those of an axial vector with append_d3, and those of p orbitals here
        if np.any(np.linalg.det(gr.crystal_group(e["group"][0], e["group"][1], 3).S) < 0):
            e["names"] = ["s", "p"]
    c.evs("TraceReps", diamond, ins)
    c.evs("TraceReps", reject, [dict(k="reject", what=w, group=[g[1], g[2]], dim=d) for w in ("pos", "mixed", "group", "name")
                                for g, d in ((gr.CUBIC[16], 3), (gr.CUBIC[1], 3), (gr.SQ2[2], 2))])
    c.evs("TraceReps", facts, [dict(k="true", what=w, group=[g[1], g[2]], dim=3, orb=o) for w in ("names", "copy") for g in gr.CUBIC[10:17]
                               for o in ([["s", False, [0, 0, 0]]], [["p", True, [1, 0, 0]], ["s", False, [0, 0, 1]]])])
    c.assumptions.append("positions in units of 1/2 or 1/4 and k such that the phases are powers of i; orbital d3 as documented (axial vector); the append_diamond functions are marked as unfinished and not claimed")
    c.validate("TraceReps", min_events=300)


main("P12", body)
