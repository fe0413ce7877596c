"""P04: completion and checking of neighbor lists."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *  # noqa
import groups as gr
from tight_binding_redweasel.symmetry import neighbor_function, try_neighbor_function


def make(A, gens, inv, dim, cart):
    return gr.cart_group(A, gens, inv) if cart else gr.crystal_group(gens, inv, dim)


def accepts(sym, x):
    st, v = call(sym.check_neighbors, x)
    if st == "ok":
        return True
    if v.startswith("ValueError: neighbors"):
        return False
    raise ProjErr(v)


def neighbors(k, dim, gens, inv, pts, cart, A, **_):
    A = np.array(A)
    sym = make(A, gens, inv, dim, cart)
    x = gr.used(sym, kinds((A @ np.array(pts).T).T))
    x0 = np.array(x)
    out, src = sym.complete_neighbors(x, return_order=True)
    out2 = sym.complete_neighbors(x)
    if not np.array_equal(x, x0):
        raise ProjErr("the input points were changed")
    if not np.array_equal(np.array(out2), np.array(out)):
        raise ProjErr("the result depends on return_order")
    acc = accepts(sym, out) if dim == 3 else True
    o = (np.linalg.inv(A) @ np.asarray(out).T).T
    return {"out": qint(o), "src": [int(j) + 1 for j in src], "accepted": acc}


def checkn(k, dim, gens, inv, pts, cart, A, **_):
    A = np.array(A)
    sym = make(A, gens, inv, dim, cart)
    return {"accepted": accepts(sym, gr.used(sym, kinds((A @ np.array(pts).T).T)))}


def finder(k, dim, pts, query, soft, A, **_):
    A = np.array(A)
    x = (A @ np.array(pts).T).T
    f = try_neighbor_function(x) if soft else neighbor_function(x)
    ans = []
    for r in query:
        st, v = call(f, A @ np.array(r) + 1e-6)
        if st == "ok" and v[0] is not None:
            ans.append([int(v[0]) + 1, int(bool(v[1]))])
        elif (st == "ok" and soft) or (st != "ok" and not soft and v.startswith("ValueError")):
            ans.append([0, 0])
        else:
            ans.append([-1, -1])
    return {"ans": ans}


def body(c):
    c.model("OrbitsMC", "CONSTANTS D = 2\nQ = 3\nINIT Init\nNEXT Next\nINVARIANTS RoundTrip Partition OrbitStabilizer WeightSum CompleteIdem\n",
            min_states=100, name="orbit expansion/reduction/completion, dim 2")
    rng = c.rng
    nb, ck, fi = [], [], []
    for i in range(c.n(160, 1500)):
        nm, A, gram, (gname, gens, inv) = gr.pick(rng)
        dim = len(A)
        cart = bool(rng.random() < 0.7)
        if not cart:
            A, gram = np.eye(dim), np.eye(dim, dtype=int)
        pts = rng.integers(-3, 4, (int(rng.integers(1, 6)), dim))
        if rng.random() < 0.5:
            pts[rng.integers(0, len(pts)), int(rng.integers(0, dim)):] = 0
        if rng.random() < 0.7:
            pts[0] = 0
        if rng.random() < 0.2:
            pts = np.concatenate([pts, -pts])
        _, idx = np.unique(pts, axis=0, return_index=True)
        pts = pts[np.sort(idx)]
        inp = dict(dim=dim, gens=gens, inv=inv, cart=cart, gram=gram.tolist(), lattice=nm, group=gname, _A=A.tolist())
        nb.append(dict(inp, k="neighbors", pts=pts.tolist()))
        if dim == 3:
            # half lists: complete ones, and ones with a point missing, moved or added
            ops = gr.np_ops(gens, inv, 3)
            R = ops if cart else [o.T for o in ops]
            full = {tuple(o @ p) for o in R for p in pts}
            half = []
            for p in full:
                if tuple(-np.array(p)) not in half or p == (0, 0, 0):
                    half.append(p if rng.random() < 0.5 else tuple((-np.array(p)).tolist()))
            half = list(dict.fromkeys(tuple(int(v) for v in p) for p in half))
            half = [p for i, p in enumerate(half) if tuple(-v for v in p) not in half[:i] or not any(p)]
            if rng.random() < 0.6 and len(half) > 1:
                j = int(rng.integers(len(half)))
                if rng.random() < 0.5:
                    del half[j]
                else:
                    p = list(half[j])
                    p[int(rng.integers(3))] += 1
                    p = tuple(p)
                    if p not in half and tuple(-v for v in p) not in half:
                        half[j] = p
            half = [half[int(j)] for j in rng.permutation(len(half))]
            ck.append(dict(inp, k="checkn", pts=[list(p) for p in half]))
        q = rng.integers(-3, 4, (12, dim))
        q[:len(pts)] = pts[:12] * rng.choice([-1, 1])
        fi.append(dict(k="finder", dim=dim, pts=pts.tolist(), query=q.tolist(), soft=bool(rng.random() < 0.5), _A=A.tolist()))
    # sets that look right when only the number of nearest points is counted
    for gens, pts in (([gr.R4], [[0, 0, 0], [10, 0, 0], [1, 10, 0]]), ([gr.R4], [[0, 0, 0], [10, 0, 1], [0, 10, 0]]),
                      ([gr.R2Z], [[3, 0, 1]]), ([gr.C3D], [[5, 0, 0], [0, 5, 1], [0, 0, 5]])):
        for inv in (False, True):
            ck.append(dict(dim=3, gens=gens, inv=inv, cart=True, gram=np.eye(3, dtype=int).tolist(), lattice="cubic", group="x", _A=np.eye(3).tolist(),
                           k="checkn", pts=pts))
    for f, inp in ((neighbors, nb), (checkn, ck), (finder, fi)):
        c.evs("TraceOrbits", (lambda fn: lambda **e: fn(**{("A" if n == "_A" else n): v for n, v in e.items()}))(f), inp)
    c.validate("TraceOrbits", min_events=300)


main("P04", body)
