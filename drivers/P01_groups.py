"""P01: symmetry groups behave as the set of their operations."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *  # noqa
from tight_binding_redweasel.symmetry import Symmetry


def build(regs, c, dim):
    S = Symmetry
    if c["c"] == "ctor":
        n, inv, nm = c["n"], c["inv"], c["name"]
        return {"none": lambda: S.none(dim), "inv": lambda: S.inv(dim), "o1": lambda: S.o1(inv),
                "o2": lambda: S.o2(n), "square": lambda: S.square(), "cyclic": lambda: S.cyclic(n, inv),
                "dihedral": lambda: S.dihedral(n, inv), "cubic": lambda: S.cubic(inv),
                "perm3": lambda: S.perm3(inv), "even_perm3": lambda: S.even_perm3(inv),
                "mirror3": lambda: S.mirror3(inv), "mirror_x": lambda: S.mirror_x(inv, dim),
                "mirror_xy": lambda: S.mirror_xy(inv, dim), "tetrahedral": lambda: S.tetrahedral(inv)}[nm]()
    if c["c"] == "gen":
        return S.from_generator(c["mats"], c["inv"])
    a = regs[c["i"] - 1]
    if c["c"] == "mul":
        return a * regs[c["j"] - 1]
    if c["c"] == "copy":
        return a.copy()
    if c["c"] == "transpose":
        return a.transpose()
    if c["c"] == "dual":
        return a.dual()
    if c["c"] == "transform":
        return a.transform(np.array(c["B"]))
    if c["c"] == "subgroup":
        f = {"det": lambda s: np.linalg.det(s), "trace": lambda s: np.trace(s),
             "abstrace": lambda s: abs(np.trace(s))}[c["f"]]
        return a.subgroup(f)
    if c["c"] == "rerep":
        # the same group, written down with other representatives of the +- pairs
        ops = sorted(qint(a.get_symmetry_operations()))
        eye = np.eye(dim, dtype=int).tolist()
        neg = (-np.eye(dim, dtype=int)).tolist()
        ops.remove(eye)
        if c["bits"] == 0 or neg not in ops:
            return S([eye] + ops, False)
        keep, i = [eye], 0
        for o in ops:
            m = (-np.array(o)).tolist()
            if o == neg or m in keep or o in keep:
                continue
            keep.append(o if (c["bits"] + i) % 2 else m)
            i += 1 + c["bits"] // 2
        return S(keep, True)
    raise MachineryError(c)


def observe(s, regs, dim, rng):
    o = {"ops": qint(s.get_symmetry_operations()), "len": len(s), "inv": bool(s.inversion),
         "check": bool(s.check()), "orth": bool(s.is_orthogonal()), "eq": [], "sub": [], "sup": [], "quot": [],
         "classes": []}
    if len(o["ops"]) <= 24 or rng.random() < 0.2:
        o["classes"] = [qint(c) for c in s.conjugacy_classes()]
    for r in regs:
        o["eq"].append(bool(s == r))
        o["sub"].append(bool(s in r))
        o["sup"].append(bool(r in s))
        if len(s) < len(r) or (len(s) > 12 and rng.random() < 0.6):
            o["quot"].append({"ok": False, "ops": []})
            continue
        q, v = call(lambda: s / r)
        o["quot"].append({"ok": q == "ok", "ops": qint(v.get_symmetry_operations()) if q == "ok" else []})
    return o


def run_history(cmds, dim, rng):
    regs, obs = [], []
    for c in cmds:
        before = [r.get_symmetry_operations().tolist() for r in regs]
        st, s = call(build, regs, c, dim)
        if st != "ok":
            obs.append({"ok": False, "why": s})
            continue
        st2, o = call(observe, s, regs, dim, rng)
        if st2 != "ok":
            obs.append({"ok": False, "why": o})
        else:
            o["ok"] = True
            if c["c"] == "copy":
                t = s.copy()
                t.S[...] = 7.0   # a copy has to be independent
                del t
            o["untouched"] = before == [r.get_symmetry_operations().tolist() for r in regs]
            obs.append(o)
        regs.append(s)
    return obs


def cayley(s):
    ops = s.get_symmetry_operations()
    n = len(ops)
    prod = np.einsum("aij,bjk->abik", ops, ops).reshape(n * n, -1)
    d = np.linalg.norm(prod[:, None, :] - ops.reshape(1, n, -1), axis=-1)
    j = np.argmin(d, axis=1)
    ok = d[np.arange(n * n), j] < 1e-6
    # every operation has to be listed once
    self_d = np.linalg.norm(ops.reshape(n, 1, -1) - ops.reshape(1, n, -1), axis=-1) + np.eye(n) * 9
    ok &= bool(self_d.min() > 1e-6)
    mul = np.where(ok, j + 1, 0).reshape(n, n)
    return {"n": n, "len": len(s), "mul": mul.tolist(), "det": qint(np.linalg.det(ops)), "check": bool(s.check())}


def body(c):
    for d, depth in ((1, 3), (2, c.n(2, 3)), (3, c.n(2, 2))):
        c.model("GroupsGen", f"CONSTANTS D = {d}\nDepth = {depth}\nSmall = TRUE\nINIT Init\nNEXT NextAll\nVIEW View\n"
                "INVARIANTS GroupLaws Lagrange Classes DualDual\n", min_states=3, name=f"group algebra dim {d}")
    inputs = []
    for d, num in ((1, c.n(10, 40)), (2, c.n(60, 500)), (3, c.n(60, 600))):
        beh = c.behaviours("GroupsGen", f"CONSTANTS D = {d}\nDepth = 5\nSmall = FALSE\nINIT Init\nNEXT NextSim\n",
                           num=num, depth=6, name=f"dim {d}")
        # rejecting an infinite group takes the library seconds: keep only a few histories that try
        inf = [b for b in beh if any(not x["fin"] and x["c"] in ("gen", "mul") for x in b)]
        slow = [b for b in inf if any(not x["fin"] and (x["c"] == "mul" or len(x["mats"]) > 1) for x in b)]
        beh = [b for b in beh if b not in inf] + [b for b in inf if b not in slow][:10] + slow[:c.n(0, 8) if d == 2 else c.n(1, 8)]
        inputs += [{"k": "hist", "dim": d, "cmds": cmds} for cmds in beh]
    # all pairs of named groups: equality, containment, quotients
    names = [("none", False), ("inv", False), ("cubic", False), ("cubic", True), ("perm3", False), ("perm3", True),
             ("even_perm3", False), ("mirror3", False), ("mirror3", True), ("mirror_x", False), ("mirror_x", True),
             ("mirror_xy", False), ("mirror_xy", True), ("tetrahedral", False), ("tetrahedral", True),
             ("cyclic", False), ("dihedral", True)]
    ctor = [{"c": "ctor", "name": n, "n": 4, "inv": i} for n, i in names]
    for i in range(0, len(ctor), 1):
        for j in c.rng.permutation(len(ctor))[:c.n(4, 17)]:
            cmds = [ctor[i], ctor[int(j)], {"c": "rerep", "i": 1, "bits": int(c.rng.integers(1, 4))}, {"c": "mul", "i": 1, "j": 2}]
            inputs.append({"k": "hist", "dim": 3, "cmds": cmds})
    c.evs("TraceGroups", lambda k, dim, cmds: {"obs": run_history(cmds, dim, np.random.default_rng(len(cmds)))}, inputs, chunk=2)
    # lists of operations that need not be groups
    pool = Symmetry.cubic(True).get_symmetry_operations()
    pool = [np.array(qint(p)) for p in pool]
    for _ in range(c.n(40, 300)):
        k = int(c.rng.integers(1, 5))
        mats = [np.eye(3, dtype=int)] + [pool[int(i)] for i in c.rng.choice(len(pool), k, replace=False)]
        if c.rng.random() < 0.4:
            g = Symmetry.from_generator(mats[:2], False)
            mats = [np.array(x) for x in qint(g.get_symmetry_operations())]
            if len(mats) > 2 and c.rng.random() < 0.5:
                del mats[int(c.rng.integers(1, len(mats)))]
        mats = [m.tolist() for m in mats]
        uniq = [m for i, m in enumerate(mats) if m not in mats[:i]]
        inv = bool(c.rng.random() < 0.3)
        if inv:
            uniq = [m for i, m in enumerate(uniq) if (-np.array(m)).tolist() not in uniq[:i]]
        c.ev("TraceGroups", lambda: {"check": bool(Symmetry(uniq, inv).check())}, k="check", dim=3, mats=uniq, inv=inv)
    # irrational groups
    for name, cnts in (("cyclic", (1, 2, 3, 5, 6, 7, 8)), ("dihedral", (1, 2, 3, 5, 6)), ("o2", (1, 3, 5, 6, 8))):
        for cnt in cnts:
            for inv in ((False, True) if name != "o2" else (False,)):
                f = {"cyclic": lambda: Symmetry.cyclic(cnt, inv), "dihedral": lambda: Symmetry.dihedral(cnt, inv),
                     "o2": lambda: Symmetry.o2(cnt)}[name]
                if name == "dihedral" and inv and cnt > 5 and not c.thorough:
                    continue
                c.ev("TraceGroups", lambda: cayley(f()), k="table", name=name, count=cnt, inv=inv)
    for inv in (False, True) if c.thorough else (False,):
        c.ev("TraceGroups", lambda: cayley(Symmetry.icosahedral(inv)), k="table", name="icosahedral", count=5, inv=inv)
    q = np.linalg.qr(c.rng.normal(size=(3, 3)))[0]
    for s, n in ((Symmetry.cubic(False), 24), (Symmetry.dihedral(3, True), 12), (Symmetry.mirror3(True), 8)):
        c.ev("TraceGroups", lambda: cayley(s.transform(q)), k="table", name="transformed", count=0, inv=False, expect=n)
        c.ev("TraceGroups", lambda: cayley(s.transform(q * [[1, 2, 3]]).dual()), k="table", name="transformed", count=0, inv=False, expect=n)
        c.ev("TraceGroups", lambda: cayley(s * s.transform(np.diag([-1, 1, 1]))), k="table", name="transformed", count=0, inv=False, expect=n)
    # space groups
    def view(s):
        return {"ops": qint(s.get_symmetry_operations()), "len": len(s), "inv": bool(s.inversion), "proj": bool(s.projective),
                "dim": s.dim(), "sdim": s.space_dim(), "str": str(s)}

    def affine(mats, dim, B, plain):
        s = Symmetry.space_group(mats, dim=dim)
        before = s.get_symmetry_operations().tolist()
        o = {"self": view(s), "ignore": view(s.ignore_translation()), "remove": view(s.remove_translation()),
             "point": view(Symmetry.point_group(mats, dim=dim)), "strict": view(Symmetry.strict_point_group(mats, dim=dim)),
             "transpose": view(s.transpose()), "dual": view(s.dual()), "copy": view(s.copy()),
             "transform": view(s.transform(np.array(B))), "ident": view(s.subgroup(lambda m: np.linalg.norm(m - np.eye(dim + 1)))),
             "eq": [bool(s == s.copy()), bool(s == s.transpose().transpose()), bool(s.dual().dual() == s)],
             "plain_views": [view(f(plain, dim=dim)) for f in (Symmetry.space_group, Symmetry.point_group, Symmetry.strict_point_group)]}
        o["untouched"] = before == s.get_symmetry_operations().tolist()
        return o

    for i in range(c.n(36, 180)):
        dim = (3, 2, 3, 1)[i % 4]
        pl = pool if dim == 3 else [np.array(qint(p)) for p in (Symmetry.square() if dim == 2 else Symmetry.o1(True)).get_symmetry_operations()]
        g = Symmetry.from_generator([pl[int(i)] for i in c.rng.choice(len(pl), 2)], False)
        ops = [np.array(x) for x in qint(g.get_symmetry_operations())]
        mats = []
        sub = int(c.rng.integers(0, 3))
        for m in ops:
            a = np.eye(dim + 1, dtype=int)
            a[:dim, :dim] = m
            # translations (the code only looks whether they vanish)
            if (sub == 0 and not np.array_equal(m, np.eye(dim))) or (sub == 1 and round(np.linalg.det(m)) < 0):
                a[int(c.rng.integers(0, dim)), dim] = int(c.rng.choice([-1, 1, 2]))
            mats.append(a.tolist())
        if c.rng.random() < 0.3:    # a cell with more than one lattice point: the operations also come with another translation
            t = c.rng.integers(3, 5, dim)
            mats += [(np.array(m) + np.pad(np.zeros((dim, dim), dtype=int), ((0, 1), (0, 1))) +
                      np.array([[t[r] if (r < dim and q == dim) else 0 for q in range(dim + 1)] for r in range(dim + 1)])).tolist() for m in mats]
        if c.rng.random() < 0.5:    # the same for k: translations in the last row
            mats = [np.array(m).T.tolist() for m in mats]
        mats = [mats[0]] + [mats[1 + int(q)] for q in c.rng.permutation(len(mats) - 1)] if mats[0] == np.eye(dim + 1).tolist() else \
            sorted(mats, key=lambda m: m != np.eye(dim + 1, dtype=int).tolist())
        B = np.eye(dim, dtype=int)
        for _ in range(2 if dim > 1 else 0):
            r, q = (int(x) for x in c.rng.choice(dim, 2, replace=False))
            B[r] += int(c.rng.choice([-1, 1])) * B[q]
        c.ev("TraceGroups", lambda: affine(mats, dim, B, [o.tolist() for o in sorted(ops, key=lambda m: not np.array_equal(m, np.eye(dim)))]),
             k="affine", mats=mats, dim=dim, B=B.tolist(), plain=[o.tolist() for o in ops])
    # functions of space that do or do not have the symmetry
    polys = [[[1, [2, 0, 0]], [1, [0, 2, 0]], [1, [0, 0, 2]]], [[1, [1, 1, 1]]], [[1, [1, 0, 0]]], [[1, [2, 0, 0]]],
             [[1, [2, 0, 0]], [1, [0, 2, 0]]], [[1, [1, 1, 0]]], [[1, [0, 0, 1]]], [[1, [1, 0, 0]], [1, [0, 1, 0]], [1, [0, 0, 1]]],
             [[3, [0, 0, 0]]], [[1, [3, 0, 0]], [1, [0, 3, 0]], [1, [0, 0, 3]]]]
    for s in (Symmetry.none(), Symmetry.inv(), Symmetry.mirror_x(False), Symmetry.mirror_x(True), Symmetry.cubic(False),
              Symmetry.cubic(True), Symmetry.mirror3(True), Symmetry.perm3(False), Symmetry.perm3(True),
              Symmetry.tetrahedral(False), Symmetry.cyclic(4, False), Symmetry.cyclic(4, True)):
        for p in polys:
            f = lambda x: sum(a * x[0]**e[0] * x[1]**e[1] * x[2]**e[2] for a, e in p)  # noqa
            c.ev("TraceGroups", lambda: {"res": bool(s.check_symmetry(f, verbose=False))}, k="func",
                 mats=qint(s.get_symmetry_operations()), inv=False, terms=p)
    c.validate("TraceGroups", min_events=200)


main("P01", body)
