"""P08: all parameter representations of a BandStructureModel describe the same Hamiltonian."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *  # noqa
from models import *  # noqa
import groups as gr

TP = 2 * np.pi


def represent(k, nb, H, group, chain, q, n_copy, norm, split, **_):
    gens, inv = group
    dim = len(nb[0])
    sym = gr.crystal_group(gens, inv, dim)
    Hc = cH(H)
    pc = Hc
    for cos, exp in chain:
        if cos == 2:   # through the other model class
            m = tb_model(nb, pc, None if exp == 2 else split, fourier=exp == 4)
            before = np.array(m.params)
            pc = m.params_complex()
            if not np.array_equal(before, m.params):
                raise ProjErr("params_complex changed the model")
            continue
        m = BandStructureModel.init_tight_binding(sym, nb, Hc.shape[1], cos_reduced=cos, exp=exp)
        pin = np.array(pc)
        m.set_params_complex(pc)
        if not np.array_equal(pin, pc):
            raise ProjErr("set_params_complex changed its argument")
        before = np.array(m.params)
        pc = m.params_complex()
        if not np.array_equal(before, m.params):
            raise ProjErr("params_complex changed the model")
        if len(pc) != len(nb):
            raise ProjErr("number of coefficients")
    kk = used(m, points(q))
    Hk, dH, ddH = m.f(kk), m.df(kk), m.ddf(kk)
    if n_copy:
        m = m.copy()
    if norm:
        m.normalize()
    b = m.bands(kk)
    return {"ops": qint(sym.S), "inv": bool(sym.inversion), "pc": gint(pc, tol=1e-4), "Hk": gint(Hk), "dHk": gint(dH / TP), "ddHk": gint(ddH / TP**2),
            "bs": sums(b, len(H[0]))}


def body(c):
    c.model("ModelsMC", "CONSTANTS Depth = 1\nSmall = TRUE\nINIT Init\nNEXT Next\nVIEW View\nINVARIANTS ZeroFirst Hermitian Periodic\n",
            min_states=30, name="series laws")
    rng = c.rng
    ev = []
    for i in range(c.n(300, 2500)):
        _, A, _, (name, gens, inv) = gr.pick(rng)
        if rng.random() < 0.35:
            name, gens, inv = "1", [], bool(rng.random() < 0.5)
        dim = len(A)
        order = len(gr.np_ops(gens, inv, dim))
        n = int(rng.integers(1, 4)) if order < 8 else int(rng.integers(1, 3))
        count = int(rng.integers(0, 5)) if order < 20 else int(rng.integers(0, 3))
        sym = gr.crystal_group(gens, inv, dim)
        _, _, nb, H = random_model(rng, dim=dim, n=n, count=count, hermitian=bool(sym.inversion), mx=2 if order < 8 else 1)
        chain = [[bool(rng.random() < 0.5), bool(rng.random() < 0.5)] for _ in range(int(rng.integers(1, 4)))]
        if order == 1 and not sym.inversion and rng.random() < 0.7:
            chain.insert(int(rng.integers(0, len(chain) + 1)), [2, 2])
        split = 0
        if order == 1 and not sym.inversion and dim != 2 and rng.random() < 0.7:
            split = int(rng.integers(0, n + 1))
            H = inv_blocks(H, split)
            chain.insert(int(rng.integers(0, len(chain) + 1)), [2, int(rng.choice([3, 4]))])
        ev.append(dict(k="repr", group=name, nb=nb, H=jH(H), chain=chain, q=probes(rng, dim, 3), n_copy=bool(rng.random() < 0.3), norm=bool(rng.random() < 0.4), split=split,
                       _group=(gens, inv)))
    c.evs("TraceModels", lambda **e: represent(**dict(e, group=e["_group"])), ev)
    c.validate("TraceModels", min_events=150)


main("P08", body)
