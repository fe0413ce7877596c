"""P05: symmetrizing tensors is the group mean."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *  # noqa
import groups as gr


def tensor(k, dim, gens, inv, rank, pseudo, tensor, order, conj, **_):
    sym = gr.crystal_group(gens, inv, dim)
    t = np.array(tensor, dtype=np.int64 if conj else np.float64).reshape((dim,) * sum(rank))
    t0 = t.copy()
    kw = {} if (rank == [1, 1] and not pseudo) else {"rank": tuple(rank), "pseudo_tensor": pseudo}
    if np.sum(t) % 2:      # the same array, with other numbers in it, and tensors of another kind
        t[...] = t[..., ::-1] * 3 - 1
        sym.symmetrize(t, **kw)
        sym.symmetrize(np.ones((dim, dim)), pseudo_tensor=not pseudo)
        t[...] = t0
    m = sym.symmetrize(t, **kw)
    a = sym.symmetrize(m, **kw)
    return {"mean": qint(np.ravel(m), order), "again": qint(np.ravel(a), order), "untouched": bool(np.array_equal(t, t0))}


def body(c):
    c.model("TensorMC", "INIT Init\nNEXT Next\nINVARIANTS Fixed Homomorphism Parity\n", min_states=20, name="group means, exhaustive")
    rng = c.rng
    inp = []
    ranks = [(1, 0), (0, 1), (1, 1), (0, 2), (2, 0), (0, 3), (2, 1), (1, 2), (3, 0)]
    for i in range(c.n(110, 1200)):
        nm, A, gram, (gname, gens, inv) = gr.pick(rng)
        dim = len(A)
        rk = ranks[int(rng.integers(len(ranks)))]
        if sum(rk) == 3 and dim == 3 and len(gr.np_ops(gens, inv, dim)) > 16 and rng.random() < 0.6:
            rk = ranks[int(rng.integers(5))]
        n = len(gr.np_ops(gens, inv, dim))
        t = rng.integers(-20, 21, dim**sum(rk))
        if rng.random() < 0.2:
            t = 0 * t
            t[int(rng.integers(len(t)))] = 7
        inp.append(dict(k="tensor", dim=dim, gens=gens, inv=inv, rank=list(rk), pseudo=bool(rng.random() < 0.5), tensor=t.tolist(),
                        order=n, conj=bool(rng.random() < 0.3), lattice=nm, group=gname))
    c.evs("TraceOrbits", tensor, inp)
    c.validate("TraceOrbits", min_events=100)


main("P05", body)
