"""Representations for the checks: exact projection of matrices over Z[sqrt 3], reference orbitals."""
import numpy as np
from vlib import *  # noqa
import groups as gr
from tight_binding_redweasel.unitary_representations import UnitaryRepresentation
from tight_binding_redweasel.hamiltonian_symmetry import HamiltonianSymmetry

S3 = 3**.5


def q3(x, den, maxb=None):
    """x * den = a + b sqrt 3 with small integers, as <<a, b>>"""
    x = np.asarray(x, dtype=float) * den
    maxb = maxb or den
    out = np.zeros(x.shape + (2,), dtype=int)
    done = np.zeros(x.shape, dtype=bool)
    for b in sorted(range(-maxb, maxb + 1), key=abs):
        a = x - b * S3
        hit = (np.abs(a - np.round(a)) < 1e-6) & ~done
        out[hit] = np.stack([np.round(a[hit]), np.full(hit.sum(), b)], -1)
        done |= hit
    if not done.all():
        raise ProjErr(f"{x[~done].flat[0] / den} is not in Z[sqrt 3]/{den}")
    return out.tolist()


def jrep(u, den=1, cx=False):
    if cx or np.iscomplexobj(u.U):
        return {"U": q3(realify(u.U), den), "den": den, "split": 2 * int(u.inv_split)}
    return {"U": q3(u.U, den), "den": den, "split": int(u.inv_split)}


def realify(A):
    """complex matrices as real ones of twice the size: x + iy is [[x, -y], [y, x]].  Sums, products and adjoints are kept, so the
    specification (which has real representations only) judges complex representations in this form"""
    A = np.asarray(A)
    return np.stack([np.stack([A.real, -A.imag], -1), np.stack([A.imag, A.real], -1)], -3).reshape(A.shape[:-2] + (2 * A.shape[-2], 2 * A.shape[-1]))


def gauge(u, phases):
    """the same representation in the basis i^phases"""
    v = 1j**np.array(phases)
    u.U = np.conj(v)[:, None] * u.U * v
    return u


def ops(sym):
    return qint(sym.S)


def rand_group(rng, names, maxorder=48):
    while True:
        nm, A, gram, g = gr.pick(rng, names)
        sym = gr.crystal_group(g[1], g[2], len(A))
        if len(sym) <= maxorder:
            return nm, g, sym


def one_dim_rep(sym, kind, odd):
    u = UnitaryRepresentation(sym, 1)
    if kind == "det":
        u.U = np.linalg.det(sym.S)[:, None, None] * np.ones((1, 1, 1))
    u.inv_split = 0 if odd else 1
    return u


def herm0(H):
    return H + H.conj().T


def rint(rng, shape, mx):
    return rng.integers(-mx, mx + 1, shape) + 1j * rng.integers(-mx, mx + 1, shape)
