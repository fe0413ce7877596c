"""P13: unitary representations: construction, algebra, checks, and symmetrization of matrices with them."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *  # noqa
from reps import *  # noqa
import contextlib
import io

UR = UnitaryRepresentation
BUILTIN = ["o3", "so3", "o3ri", "o3r", "d3-", "d3+", "A1g", "A1u", "A2g", "A2u"]


def builtin(name, inversion=True):
    if name in ("o3", "so3", "o3ri", "o3r"):
        return getattr(UR, name)()
    if inversion and name in ("d3+", "A1g", "A2u"):      # the default
        return UR.d3(False) if name == "d3+" else UR.one_dim(name[1] == "2", name[2] == "u")
    if name.startswith("d3"):
        return UR.d3(name == "d3-", inversion)
    return UR.one_dim(name[1] == "2", name[2] == "u", inversion)


def make(spec):
    """[builtin, inversion] | ["group", gens, inv, dim, kind, mult, split]"""
    if spec[0] == "group":
        _, gens, inv, dim, kind, split = spec
        sym = gr.crystal_group(gens, inv, dim)
        if kind == "p":
            u = UR(sym, dim)
            u.U = np.array(sym.S)
        elif kind == "det":
            u = one_dim_rep(sym, "det", False)
        elif kind == "pdet":      # direct sum of S and det S
            u = UR(sym, dim + 1)
            u.U[:, :dim, :dim] = sym.S
            u.U[:, dim, dim] = np.linalg.det(sym.S)
        else:
            u = UR(sym, int(kind))
        u.inv_split = split
        return u
    if spec[0] == "gauge":
        return gauge(make(spec[1]), spec[2])
    if spec[0] == "cyclic":      # a complex representation of dimension one for each of the powers
        _, gen, inv, powers, split = spec
        n, p = 1, np.array(gen)
        while not np.array_equal(p, np.eye(len(p))):
            n, p = n + 1, p @ np.array(gen)
        sym = gr.crystal_group([gen], inv, len(gen))
        u = UR(sym, len(powers))
        w = [next(m for m in range(n) if np.allclose(np.linalg.matrix_power(np.array(gen), m), s)) for s in sym.S]
        u.U = np.array([np.diag(np.round(np.exp(2j * np.pi * m / n * np.array(powers)) * 4) / 4) for m in w])
        u.inv_split = split
        return u
    if spec[0] == "sum":
        return make(spec[1]) + make(spec[2])
    return builtin(*spec)


def quiet(fn, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a)


def frozen(*us):
    return [(u.U.copy(), u.inv_split, u.sym.S.copy()) for u in us]


def same(fr, *us):
    return all(np.array_equal(a, u.U) and s == u.inv_split and np.array_equal(S, u.sym.S) for (a, s, S), u in zip(fr, us))


def rep(k, op, sa, sb, n, order, **_):
    a, b = make(sa), make(sb)
    fr = frozen(a, b)
    if op == "sum":
        o = a + b
    elif op == "prod":
        o = a * b
    elif op == "times":
        o = a * n
    elif op == "permute":
        o = a.copy()
        o.permute([i - 1 for i in order])
    elif op == "copy":
        o = a.copy()
    st = same(fr, a, b)
    out = jrep(o, 4)
    res = {"ops": ops(o.sym), "inv": bool(o.sym.inversion), "a": jrep(a, 4), "b": jrep(b, 4), "out": out}
    if ops(a.sym) != res["ops"] or (op in ("sum", "prod") and sorted(ops(b.sym)) != sorted(res["ops"])):
        raise ProjErr("the group was changed")
    if op in ("sum", "prod"):   # the spec compares in the order of the result
        idx = [ops(b.sym).index(s) for s in res["ops"]]
        res["b"]["U"] = [res["b"]["U"][i] for i in idx]
    o.U *= 2                   # results share nothing with the operands
    st = st and same(fr, a, b)
    res["same"] = bool(st)
    return res


def match(k, sa, perm, **_):
    a = make(sa)
    res = {"a": jrep(a, 4), "ops": ops(a.sym)}
    S = a.sym.S[[0] + [i for i in perm if i != 0]]
    t = type(a.sym)(np.array(S), a.sym.inversion)
    o = a.copy()
    o.match_sym(t)
    res.update(target=qint(S), out=jrep(o, 4), outops=ops(o.sym))
    return res


def gen(k, gens, U, inversion, neg, den, **_):
    g = [tuple(map(tuple, s)) for s in gens]
    u = [tuple(tuple((x[0] + x[1] * S3) / den for x in row) for row in m) for m in U]
    o = UR.from_generator(g, u, inversion, neg)
    return {"ops": ops(o.sym), "inv": bool(o.sym.inversion), "out": jrep(o, den), "gU": U}


def orbital(k, name, odd, sa, **_):
    o = make(sa)
    return {"ops": ops(o.sym), "inv": bool(o.sym.inversion), "out": jrep(o, 2)}


def check(k, sa, edit, **_):
    a = make(sa)
    if edit[0] == "swap":
        i, j = edit[1] % len(a.U), edit[2] % len(a.U)
        a.U = np.array(a.U)
        a.U[[i, j]] = a.U[[j, i]]
    elif edit[0] == "sign":
        a.U = np.array(a.U)
        a.U[edit[1] % len(a.U)] *= -1
    elif edit[0] == "split":
        a.inv_split = edit[1] % (a.dim() + 1)
    elif edit[0] == "entry":
        a.U = np.array(a.U) * 1.0
        a.U[edit[1] % len(a.U), 0, edit[2] % a.dim()] += 1
    return {"ops": ops(a.sym), "inv": bool(a.sym.inversion), "a": jrep(a, 4), "res": bool(quiet(a.check))}


def usym(k, sa, nb, H, **_):
    a = make(sa)
    Hc = np.array(H, float)[..., 0] + 1j * np.array(H, float)[..., 1]
    b = Hc.copy()
    if len(nb) % 2:
        z = np.zeros((1, len(nb[0])))
        a.symmetrize(Hc[:1].copy(), z), a.symmetrizer(z)(Hc[:1].copy())
    s = a.symmetrizer(np.array(nb, float))
    if len(nb) % 3:
        s(Hc * 2 + 1), a.symmetrize(Hc * 2 + 1, np.array(nb, float))
    o = [a.symmetrize(Hc.copy(), np.array(nb, float)), s(Hc), s(s(Hc))]
    if not np.array_equal(b, Hc):
        raise ProjErr("the input was changed")
    cx = realify if np.iscomplexobj(a.U) else np.asarray
    return {"ops": ops(a.sym), "inv": bool(a.sym.inversion), "a": jrep(a, 4), "H": gint(cx(Hc)), "out": [gfix(cx(x), 1000) for x in o]}


def little(k, sa, pts, M, q, **_):
    a = make(sa)
    Mc = np.array(M, float)[..., 0] + 1j * np.array(M, float)[..., 1]
    b = Mc.copy()
    if len(pts) % 2:
        a.symmetrize2(np.array(pts) / q, Mc * 2), a.symmetrize2(np.array(pts) / q + 0.5, Mc)
    o = a.symmetrize2(np.array(pts) / q, Mc)
    if not np.array_equal(b, Mc):
        raise ProjErr("the input was changed")
    cx = realify if np.iscomplexobj(a.U) else np.asarray
    return {"ops": ops(a.sym), "inv": bool(a.sym.inversion), "a": jrep(a, 4), "M": gint(cx(Mc)), "out": gfix(cx(o), 1000)}


def ureal(k, sa, ks, M, q, inverse, srt, **_):
    a = make(sa)
    Mc = np.array(M, float)[..., 0] + 1j * np.array(M, float)[..., 1]
    if len(ks) % 2:
        a.realize_symmetric_matrices(np.array(ks) / q, Mc * 2, sorted=srt, inverse=not inverse)
    fk, fm = a.realize_symmetric_matrices(np.array(ks) / q, Mc, sorted=srt, inverse=inverse)
    cx = realify if np.iscomplexobj(a.U) else np.asarray
    return {"ops": ops(a.sym), "inv": bool(a.sym.inversion), "a": jrep(a, 4), "M": gint(cx(Mc)), "outk": qint(fk, q), "out": gfix(cx(fm), 1000)}


def uchk(k, sa, nb, H, **_):
    a = make(sa)
    Hc = np.array(H, float)[..., 0] + 1j * np.array(H, float)[..., 1]
    nbf = np.array(nb, float)

    def f(ks):
        return np.einsum("kr,rij->kij", np.exp(2j * np.pi * np.asarray(ks) @ nbf.T), Hc)
    return {"ops": ops(a.sym), "inv": bool(a.sym.inversion), "a": jrep(a, 4), "res": bool(quiet(a.check_symmetry, f))}


def subs(k, sa, **_):
    a = make(sa)
    g, n = a.subspaces()
    return {"ops": ops(a.sym), "inv": bool(a.sym.inversion), "a": jrep(a, 4), "groups": [[bool(x) for x in r] for r in g], "counts": [int(x) for x in n]}


def reject(k, what, **_):
    mixed = builtin("o3") + builtin("A1g")
    mixed2 = builtin("so3") + builtin("A1u")
    fr = frozen(mixed, mixed2)
    if what == "sum":
        st, v = call(lambda: mixed + mixed2)
    elif what == "prod":
        st, v = call(lambda: mixed * mixed2)
    elif what == "permute":
        st, v = call(mixed.permute, [3, 1, 2, 0])
    elif what == "float":
        st, v = call(lambda: mixed * 1.5)
    elif what == "group":
        st, v = call(lambda: mixed + builtin("A1g", False))
    elif what == "groupdim":
        st, v = call(mixed.match_sym, gr.crystal_group([[[0, 1], [-1, 0]]], False, 2))
    elif what == "groupother":
        st, v = call(builtin("o3").match_sym, gr.crystal_group([gr.H6, gr.HM], True, 3))
    elif what == "groupsub":
        st, v = call(mixed.match_sym, gr.crystal_group([gr.R4], True, 3))
    elif what == "gen":     # not a representation: R4 -> 3-cycle
        P = ((0., 1., 0.), (0., 0., 1.), (1., 0., 0.))
        st, v = call(UR.from_generator, [tuple(map(tuple, np.eye(3))), tuple(map(tuple, gr.R4))], [tuple(map(tuple, np.eye(3))), P])
    elif what == "geninf":
        S = ((1, 1), (0, 1))
        st, v = call(UR.from_generator, [((1, 0), (0, 1)), S], [((1.,),), ((1.,),)], timeout=60)
    elif what == "nbs":     # neighbors that do not fit the symmetry
        st, v = call(builtin("o3").symmetrizer, [[0, 0, 0], [1, 0, 0], [0, 1, 0]])
    return {"raised": st == "exc" and v.split(":")[0] in ("ValueError", "AssertionError", "TypeError"), "same": bool(same(fr, mixed, mixed2))}


def body(c):
    c.model("RepsMC", "CONSTANT KSet = %s\nINIT Init\nNEXT Next\nINVARIANTS %s\n" % ("{0}" if not c.thorough else "{0, 2, 4}", "Reps_ Idempotent HermitianZero" + (" Symmetric Orthogonal ApplyLaw" if c.thorough else "")),
            min_states=300, name="representations and projections")
    rng = c.rng
    B = [[b, True] for b in BUILTIN]

    def grp(big=True):
        nm, A, gram, g = gr.pick(rng, ["cubic", "square", "line", "cubic"] if big else ["cubic", "square", "line", "hex", "hex2"])
        dim = len(A)
        sym = gr.crystal_group(g[1], g[2], dim)
        kinds = (["p", "pdet"] if nm in ("cubic", "square") else []) + ["det", "1", "2", "3"]
        kind = kinds[int(rng.integers(len(kinds)))]
        d = {"p": dim, "pdet": dim + 1, "det": 1}.get(kind) or int(kind)
        # inversion: mixed only where the blocks allow it
        splits = [0, d] + ([1] if kind in ("2", "3") else [dim] if kind == "pdet" else []) + ([2] if kind == "3" else [])
        return ["group", g[1], g[2], dim, kind, int(splits[int(rng.integers(len(splits)))])]
    def cplx(u0=None):
        """a representation with complex matrices: a real one with other phases of the basis states, or one of a cyclic group"""
        if rng.random() < 0.5:
            s = u0 or (B[int(rng.integers(len(B)))] if rng.random() < 0.3 else grp(False))
            return ["gauge", s, [int(x) for x in rng.integers(0, 4, make(s).dim())]]
        gen, inv = [(gr.R4, True), (gr.R4, False), ([[0, -1], [1, 0]], False)][int(rng.integers(3))]
        p = [int(x) for x in rng.integers(0, 4, int(rng.integers(1, 4)))]
        return ["cyclic", np.array(gen).tolist(), inv, p, int(rng.integers(0, len(p) + 1))]
    ins = []
    one = [1]
    for i in range(c.n(36, 300)):
        a, b = (B[int(rng.integers(len(B)))] for _ in range(2))
        if rng.random() < 0.3:
            a = ["sum", a, B[int(rng.integers(len(B)))]]
        ins.append(dict(k="rep", op="prod" if i % 3 else "sum", sa=a if i % 2 else b, sb=b if i % 2 else a, n=1, order=one))
    for i in range(c.n(16, 100)):   # mixed parity times uniform parity
        b1, b2, b3 = B[[0, 2, 4, 7, 9][int(rng.integers(5))]], B[[1, 3, 5, 6, 8][int(rng.integers(5))]], B[int(rng.integers(len(B)))]
        m = ["sum", b1, b2]
        ins.append(dict(k="rep", op="prod" if i % 4 else "sum", sa=m if i % 2 else b3, sb=b3 if i % 2 else m, n=1, order=one))
    for i in range(c.n(90, 700)):
        g = grp()
        h = list(g)
        h[4], h[5] = [("1", 1), ("1", 0), ("2", 2), ("2", 0), ("det", 1), ("det", 0)][int(rng.integers(6))]
        x, y = (g, h) if i % 2 else (h, g)
        op = ["sum", "prod", "times", "copy", "permute"][i % 5]
        order = one
        if op == "permute":
            u = make(x)
            s = u.inv_split
            order = [int(v) + 1 for v in rng.permutation(s)] + [int(v) + 1 + s for v in rng.permutation(u.dim() - s)]
        ins.append(dict(k="rep", op=op, sa=x, sb=y, n=int(rng.integers(1, 4)), order=order))
    for i in range(c.n(18, 150)):
        ins.append(dict(k="rep", op=["times", "copy"][i % 2], sa=cplx(), sb=B[6], n=int(rng.integers(1, 4)), order=one))
    for i in range(c.n(18, 150)):
        x = cplx()
        s_ = x
        while s_[0] == "gauge":
            s_ = s_[1]
        if s_[0] in ("group", "cyclic"):      # one of the two has to be even or odd as a whole
            s_[5 if s_[0] == "group" else 4] = make(s_).dim() * (i % 2)
        y = ["cyclic"] + x[1:3] + [[int(v) for v in rng.integers(0, 4, 2)], int(rng.integers(3))] if x[0] == "cyclic" else ["gauge", x[1], [int(v) for v in rng.integers(0, 4, len(x[2]))]]
        ins.append(dict(k="rep", op="sum", sa=x, sb=y, n=1, order=one))
    c.evs("TraceReps", rep, ins)
    ins = []
    for i in range(c.n(40, 200)):
        s = cplx() if i % 5 == 4 else B[int(rng.integers(len(B)))] if i % 3 == 0 else grp(False)
        ins.append(dict(k="match", sa=s, perm=[int(x) for x in rng.permutation(len(make(s).U))]))
    c.evs("TraceReps", match, ins)
    # builtin irreps against their definition
    ins = []
    for b, (nm, odd) in {"o3": ("p", True), "so3": ("p", False), "o3ri": ("T2", True), "o3r": ("T2", False), "d3-": ("E", True), "d3+": ("E", False),
                         "A1g": ("s", False), "A1u": ("s", True), "A2g": ("A2", False), "A2u": ("A2", True)}.items():
        for inv in (True, False):
            if inv or b[:2] in ("d3", "A1", "A2"):
                ins.append(dict(k="orbital", name=nm, odd=odd, sa=[b, inv]))
    c.evs("TraceReps", orbital, ins)
    # generators
    ins = []
    E3 = np.eye(3, dtype=int).tolist()
    for i in range(c.n(24, 200)):
        nm, A, gram, g = gr.pick(rng, ["cubic", "hex", "square", "hex2"])
        dim = len(A)
        gens = [np.eye(dim, dtype=int).tolist()] + [np.array(x).tolist() for x in g[1]]
        # random products as further generators
        for _ in range(int(rng.integers(0, 2))):
            gens.append((np.array(gens[int(rng.integers(len(gens)))]) @ np.array(gens[int(rng.integers(len(gens)))])).tolist())
        uniq = []
        for x in gens:
            if x not in uniq:
                uniq.append(x)
        inversion = bool(rng.random() < 0.5) and dim % 2 == 1 and all(round(np.linalg.det(np.array(x))) == 1 for x in uniq)
        den = 1
        if rng.random() < 0.5:
            U = [[[[int(x), 0] for x in row] for row in s] for s in uniq] if nm in ("cubic", "square") else [[[[int(round(np.linalg.det(np.array(s)))), 0]]] for s in uniq]
        else:
            d = [int(round(np.linalg.det(np.array(s)))) for s in uniq]
            U = [[[[1, 0], [0, 0]], [[0, 0], [x, 0]]] for x in d]
        # improper operations without inversion may contain -1: the library then separates it, not a case for from_generator
        full = gr.np_ops(uniq[1:], False, dim)
        if dim % 2 == 1 and any((x == -np.eye(dim)).all() for x in full):
            continue
        ins.append(dict(k="gen", gens=uniq, U=U, inversion=inversion, neg=bool(rng.random() < 0.5), den=den))
    c.evs("TraceReps", gen, ins)
    ins = []
    for i in range(c.n(60, 400)):
        s = B[int(rng.integers(len(B)))] if i % 4 == 0 else grp(False)
        if i % 8 == 4:
            s = ["sum", ["o3", True], B[int(rng.integers(len(B)))]]
        if i % 6 == 1:
            s = cplx()
        e = [["none"], ["swap", int(rng.integers(48)), int(rng.integers(48))], ["sign", int(rng.integers(48))], ["split", int(rng.integers(8))],
             ["entry", int(rng.integers(48)), int(rng.integers(4))]][int(rng.integers(5))]
        ins.append(dict(k="check", sa=s, edit=e))
    c.evs("TraceReps", check, ins)

    def orbit_nb(s, n_orb, full):
        """0 and complete orbits; one of r and -r (full: every vector by itself)"""
        u = make(s)
        dim = u.sym.dim()
        G = [x.round().astype(int) for x in u.sym.S] + ([-x.round().astype(int) for x in u.sym.S] if u.sym.inversion else [])
        nb, seen = ([tuple([0] * dim)] if rng.random() < 0.85 else []), {tuple([0] * dim)}
        for _ in range(n_orb):
            r = rng.integers(-1, 2, dim) * (1 if rng.random() < 0.7 else 2)
            im = {tuple(int(v) for v in x @ r) for x in G}
            if len(im) + len(nb) > 14 or im & seen:
                continue
            if not u.sym.inversion and not full and any(tuple(-v for v in x) in im for x in im):
                continue
            for x in sorted(im):
                if x in seen:
                    continue
                nb.append(tuple(-v for v in x) if u.sym.inversion and rng.random() < 0.5 else x)
                seen |= {x, tuple(-v for v in x)} if u.sym.inversion else {x}
        if not nb:
            nb = [tuple([0] * dim)]
        return [list(nb[i]) for i in rng.permutation(len(nb))], u
    ins = []
    for i in range(c.n(110, 900)):
        s = B[int(rng.integers(len(B)))] if i % 5 == 0 else ["sum", B[int(rng.integers(len(B)))], B[6 + int(rng.integers(4))]] if i % 10 == 1 else cplx() if i % 5 == 2 else grp(False)
        nb, u = orbit_nb(s, int(rng.integers(1, 4)), False)
        H = rint(rng, (len(nb), u.dim(), u.dim()), 3)
        ins.append(dict(k="usym", sa=s, nb=nb, H=gint(H)))
    c.evs("TraceReps", usym, ins)
    ins = []
    for i in range(c.n(60, 500)):
        s = B[int(rng.integers(len(B)))] if i % 5 == 0 else cplx() if i % 5 == 2 else grp(False)
        u = make(s)
        pts = rng.integers(-2, 3, (int(rng.integers(1, 5)), u.sym.dim()))
        if rng.random() < 0.5:
            pts[0] = 0
        ins.append(dict(k="little", sa=s, pts=pts.tolist(), M=gint(rint(rng, (len(pts), u.dim(), u.dim()), 4)), q=int(rng.integers(1, 5))))
    c.evs("TraceReps", little, ins)
    ins = []
    for i in range(c.n(50, 400)):
        s = B[int(rng.integers(len(B)))] if i % 8 == 0 else cplx() if i % 5 == 2 else grp(False)
        u = make(s)
        G = [x.round().astype(int) for x in u.sym.S] + ([-x.round().astype(int) for x in u.sym.S] if u.sym.inversion else [])
        ks, seen = [], set()
        for _ in range(int(rng.integers(1, 3))):
            q = rng.integers(-2, 3, u.sym.dim())
            if tuple(q) not in seen:
                ks.append(q.tolist())
                seen |= {tuple(x @ q) for x in G}
        ins.append(dict(k="ureal", sa=s, ks=ks, M=gint(rint(rng, (len(ks), u.dim(), u.dim()), 4)), q=int(rng.integers(1, 5)), inverse=bool(i % 3 == 0), srt=bool(i % 2)))
    c.evs("TraceReps", ureal, ins)
    # symmetric operators, and nearly symmetric ones (orthogonal groups: k and r transform alike)
    ins = []
    for i in range(c.n(60, 400)):
        while True:
            s = B[int(rng.integers(len(B)))] if i % 6 == 0 else grp(True)
            u = make(s)
            if u.dim() <= 4 and len(u.sym) <= (48 if i % 6 == 0 else 16):
                break
        G = [(x.round().astype(int), m) for x, m in zip(u.sym.S, u.U)]
        if u.sym.inversion:
            I = np.diag([1] * u.inv_split + [-1] * (u.dim() - u.inv_split))
            G += [(-x, m @ I) for x, m in G]
        r = rng.integers(-1, 2, u.sym.dim())
        A = {tuple(int(v) for v in x @ r): 0 for x, _ in G}
        A[tuple([0] * u.sym.dim())] = 0
        M = rint(rng, (u.dim(), u.dim()), 2)
        sc = 4 if s[0] in ("d3-", "d3+") else 1
        for x, m in G:
            p = tuple(int(v) for v in x @ r)
            A[p] = A[p] + sc * (m @ M @ m.T)
        if sc > 1 and np.abs(np.array(list(map(np.asarray, A.values())), dtype=object).size) and any(np.abs(np.real(v) - np.round(np.real(v))).max() > 1e-9 or np.abs(np.imag(v) - np.round(np.imag(v))).max() > 1e-9 for v in A.values() if not np.isscalar(v)):
            continue
        nb = list(A)
        H = np.array([np.zeros((u.dim(), u.dim()), complex) + A[p] for p in nb])
        if not u.sym.inversion and rng.random() < 0.3 or rng.random() < 0.45:
            H[int(rng.integers(len(nb))), int(rng.integers(u.dim())), int(rng.integers(u.dim()))] += rng.choice([1, 1j])
        ins.append(dict(k="uchk", sa=s, nb=[list(p) for p in nb], H=gint(H)))
    c.evs("TraceReps", uchk, ins)
    ins = [dict(k="subspaces", sa=s) for s in [["sum", a, b] for a in B[:8] for b in B[6:]][:: c.n(3, 1)] + B]
    c.evs("TraceReps", subs, ins)
    c.evs("TraceReps", reject, [dict(k="reject", what=w) for w in ("sum", "prod", "permute", "float", "group", "groupdim", "groupother", "groupsub", "gen", "geninf", "nbs")])
    c.assumptions.append("representation matrices over Z[sqrt 3]/4 (exact); symmetrized matrices compared to the exact group mean with 2e-3")
    c.validate("TraceReps", min_events=400)


main("P13", body)
