"""Pools of groups (generators as integer matrices in crystal coordinates) and lattices (metric + basis)."""
import numpy as np
from tight_binding_redweasel.symmetry import Symmetry

R4 = [[0, 1, 0], [-1, 0, 0], [0, 0, 1]]
C3D = [[0, 1, 0], [0, 0, 1], [1, 0, 0]]
MX = [[-1, 0, 0], [0, 1, 0], [0, 0, 1]]
MZ = [[1, 0, 0], [0, 1, 0], [0, 0, -1]]
R2Z = [[-1, 0, 0], [0, -1, 0], [0, 0, 1]]
R2X = [[1, 0, 0], [0, -1, 0], [0, 0, -1]]
PXY = [[0, 1, 0], [1, 0, 0], [0, 0, 1]]
# hexagonal, crystal coordinates of a1=(1,0), a2=(-1/2, sqrt3/2): rotation by 120 and 60 degrees
H3 = [[0, -1, 0], [1, -1, 0], [0, 0, 1]]
H6 = [[1, -1, 0], [1, 0, 0], [0, 0, 1]]
HM = [[0, 1, 0], [1, 0, 0], [0, 0, 1]]
# (name, generators, inversion)
CUBIC = [("C1", [], False), ("Ci", [], True), ("Cs", [MX], False), ("C2h", [MX], True), ("C2", [R2Z], False),
         ("C4", [R4], False), ("C4h", [R4], True), ("C4v", [R4, MX], False), ("D4h", [R4, MX], True), ("D2", [R2Z, R2X], False),
         ("D2h", [R2Z, R2X], True), ("C3", [C3D], False), ("S6", [C3D], True), ("T", [R2Z, C3D], False), ("Th", [R2Z, C3D], True),
         ("O", [R4, C3D], False), ("Oh", [R4, C3D], True), ("Td", [R2Z, C3D, PXY], False), ("Csd", [PXY], False),
         ("S4", [[[0, 1, 0], [-1, 0, 0], [0, 0, -1]]], False), ("C3v", [C3D, PXY], False)]
HEX = [("hC3", [H3], False), ("hS6", [H3], True), ("hC6", [H6], False), ("hC6h", [H6], True), ("hC3v", [H3, HM], False),
       ("hD6h", [H6, HM], True), ("hC3h", [H3, MZ], False), ("hC1", [], False), ("hCi", [], True)]
SQ2 = [("2C1", [], False), ("2Ci", [], True), ("2C4", [[[0, 1], [-1, 0]]], False), ("2D4", [[[0, 1], [-1, 0]], [[-1, 0], [0, 1]]], False),
       ("2m", [[[-1, 0], [0, 1]]], False), ("2mi", [[[-1, 0], [0, 1]]], True)]
HEX2 = [("2C3", [[[0, -1], [1, -1]]], False), ("2C6", [[[1, -1], [1, 0]]], False), ("2C3v", [[[0, -1], [1, -1]], [[0, 1], [1, 0]]], False)]
ONE = [("1C1", [], False), ("1Ci", [], True)]
# lattices: basis (columns), integer Gram matrix, groups given in crystal coordinates of this basis
HEXA = np.array([[1, -0.5, 0], [0, 3**.5 / 2, 0], [0, 0, 1.5]])
LATTICES = {
    "cubic": (np.eye(3), np.eye(3, dtype=int), CUBIC),
    "cubic2": (np.eye(3) * 2.5, np.eye(3, dtype=int), CUBIC),
    "hex": (HEXA, np.array([[4, -2, 0], [-2, 4, 0], [0, 0, 9]]), HEX),
    "square": (np.eye(2), np.eye(2, dtype=int), SQ2),
    "hex2": (HEXA[:2, :2], np.array([[2, -1], [-1, 2]]), HEX2),
    "line": (np.eye(1), np.eye(1, dtype=int), ONE),
}


def crystal_group(gens, inv, dim):
    return Symmetry.from_generator([np.eye(dim)] + [np.array(g) for g in gens], inv)


def cart_group(A, gens, inv):
    return crystal_group(gens, inv, len(A)).transform(A)


def pick(rng, names=None):
    names = names or list(LATTICES)
    nm = names[int(rng.integers(len(names)))]
    A, gram, pool = LATTICES[nm]
    g = pool[int(rng.integers(len(pool)))]
    return nm, A, gram, g


def np_ops(gens, inv, dim):
    """all operations, as integer matrices, computed without the library"""
    ops = [np.eye(dim, dtype=int)]
    gens = [np.array(g) for g in gens] + ([-np.eye(dim, dtype=int)] if inv else [])
    i = 0
    while i < len(ops):
        for g in gens:
            p = ops[i] @ g
            if not any(np.array_equal(p, o) for o in ops):
                ops.append(p)
        i += 1
    return ops


def used(sym, x):
    """the symmetry has answered other questions before, some of them with the array of the next one; returns the points of the next one"""
    a = np.asarray(x, float)
    c = int(abs(np.sum(a)) * 7) + a.size
    if c % 2 or a.ndim != 2 or not len(a):
        return x
    dim = a.shape[1]
    buf = x
    if isinstance(x, np.ndarray) and x.flags.writeable:
        buf = x.copy()
        buf[...] = x[::-1] * 2 + 1
    other = np.array(buf)[:1 + c % 3]
    jobs = [lambda y: sym.realize_symmetric(y), lambda y: sym.k_weight(y), lambda y: sym.r_class_size(y), lambda y: sym.complete_neighbors(y),
            lambda y: sym.symmetrize(np.outer(y[0], y[-1])), lambda y: sym.symmetrize(y[0], rank=(1, 0), pseudo_tensor=True), lambda y: sym.get_symmetry_operations(), lambda y: sym.copy(),
            lambda y: sym.realize_symmetric_data(y, np.arange(len(y))[:, None])]
    if sym.is_orthogonal():
        jobs += [lambda y: sym.find_classes(y), lambda y: sym.reduce_symmetric_data(y, np.arange(len(y)), checked=False)]
    if np.array_equal(sym.S, np.round(sym.S)):
        jobs.append(lambda y: sym.realize_symmetric(y, unit_cell=True))
    for j in range(4):
        jobs[(c // 2 + 3 * j) % len(jobs)](buf if j % 2 else other)
    if buf is not x:
        jobs[c % 2](buf), jobs[(c // 2) % len(jobs)](buf)
        buf[...] = x
    return buf
