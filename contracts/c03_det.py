from engine.registry import contract
from contracts.util import *

O2 = "gconv.geometry.groups.o2."
O3 = "gconv.geometry.groups.o3."


@contract("C03 C12 C13", O3 + "det")
def o3_det(c):
    b = c.batch("b", (0, 1, 2, 3))
    x = mb(c, c.o3("x", *b))
    d = c.call(c.g.o3.det, x)
    c.shape_is(d, *b, 1)
    D, X = c.E(d), c.E(x)
    c.forall("reported determinant is the sign", b, lambda *i: c.eq(D[i + (0,)], X[i + (0,)]))
    c.forall("plus or minus one", b, lambda *i: c.eq(D[i + (0,)] * D[i + (0,)], 1))


@contract("C03", [O3 + "det", O3 + "left_apply_to_R3"])
def o3_det_of_map(c):
    """determinant of the map applied to the basis vectors"""
    n = c.dim("n", 1)
    x = c.o3("x", n)
    D = c.E(c.call(c.g.o3.det, x))
    basis = c.torch.eye(3).view(3, 1, 1, 3)
    O = c.E(c.call(c.g.o3.left_apply_to_R3, x, basis))
    c.forall("determinant of the applied map", (n,), lambda k: c.eq(det3([[O[k, j, 0, 0, i] for j in range(3)] for i in range(3)]), D[k, 0]))


@contract("C03", [O3 + "det", O3 + "left_apply_O3", O3 + "left_apply_to_O3", O3 + "inverse"])
def o3_det_laws(c):
    o3 = c.g.o3
    n, m = c.dim("n", 1), c.dim("m", 1)
    x, y, z = c.o3("x", n), c.o3("y", n), c.o3("z", m)
    dx, dy, dz = (c.E(c.call(o3.det, t)) for t in (x, y, z))
    p = c.call(o3.det, c.call(o3.left_apply_O3, x, y))
    c.shape_is(p, n, 1)
    q = c.call(o3.det, c.call(o3.left_apply_to_O3, x, z))
    c.shape_is(q, n, m, 1)
    v = c.call(o3.det, c.call(o3.inverse, x))
    c.shape_is(v, n, 1)
    P, Q, V = c.E(p), c.E(q), c.E(v)
    c.forall("multiplicative", (n,), lambda i: c.eq(P[i, 0], dx[i, 0] * dy[i, 0]))
    c.forall("multiplicative over pairs", (n, m), lambda i, j: c.eq(Q[i, j, 0], dx[i, 0] * dz[j, 0]))
    c.forall("invariant under inversion", (n,), lambda i: c.eq(V[i, 0], dx[i, 0]))


@contract("C03 C12 C13", O2 + "det")
def o2_det(c):
    b = c.batch("b", (0, 1, 2, 3))
    x = mb(c, c.o2("x", *b))
    d = c.call(c.g.o2.det, x)
    c.shape_is(d, *b, 1)
    D, X = c.E(d), c.E(x)
    c.forall("reported determinant is the coefficient", b, lambda *i: c.eq(D[i + (0,)], X[i + (0,)]))
    c.forall("plus or minus one", b, lambda *i: c.eq(D[i + (0,)] * D[i + (0,)], 1))


@contract("C03", [O2 + "det", O2 + "left_apply_angle", O2 + "left_apply_to_angle", O2 + "inverse"])
def o2_det_laws(c):
    o2 = c.g.o2
    n, m = c.dim("n", 1), c.dim("m", 1)
    x, y, z = c.o2("x", n), c.o2("y", n), c.o2("z", m)
    dx, dy, dz = (c.E(c.call(o2.det, t)) for t in (x, y, z))
    p = c.call(o2.det, c.call(o2.left_apply_angle, x, y))
    c.shape_is(p, n, 1)
    q = c.call(o2.det, c.call(o2.left_apply_to_angle, x, z))
    c.shape_is(q, n, m, 1)
    v = c.call(o2.det, c.call(o2.inverse, x))
    c.shape_is(v, n, 1)
    P, Q, V = c.E(p), c.E(q), c.E(v)
    c.forall("multiplicative", (n,), lambda i: c.eq(P[i, 0], dx[i, 0] * dy[i, 0]))
    c.forall("multiplicative over pairs", (n, m), lambda i, j: c.eq(Q[i, j, 0], dx[i, 0] * dz[j, 0]))
    c.forall("invariant under inversion", (n,), lambda i: c.eq(V[i, 0], dx[i, 0]))


@contract("C03", [O2 + "det", O2 + "left_apply_to_R2"])
def o2_det_of_map_rotations(c):
    """rotations: the reported determinant is that of the applied map"""
    n = c.dim("n", 1)
    a = c.tensor("a", n, 1)
    x = c.torch.cat((c.torch.ones(n, 1), a), -1)
    D = c.E(c.call(c.g.o2.det, x))
    O = c.E(c.call(c.g.o2.left_apply_to_R2, x, c.torch.eye(2).view(2, 1, 2)))
    c.forall("determinant of the applied map", (n,), lambda k: c.eq(O[k, 0, 0, 0] * O[k, 1, 0, 1] - O[k, 1, 0, 0] * O[k, 0, 0, 1], D[k, 0]))


@contract("C03", [O2 + "det", O2 + "left_apply_to_R2"])
def o2_det_of_map_reflections(c):
    """reflections (known finding: the map applied for coefficient -1 is minus a rotation)"""
    n = c.dim("n", 1)
    a = c.tensor("a", n, 1)
    x = c.torch.cat((-c.torch.ones(n, 1), a), -1)
    D = c.E(c.call(c.g.o2.det, x))
    O = c.E(c.call(c.g.o2.left_apply_to_R2, x, c.torch.eye(2).view(2, 1, 2)))
    d = lambda k: O[k, 0, 0, 0] * O[k, 1, 0, 1] - O[k, 1, 0, 0] * O[k, 0, 0, 1]
    c.forall("the map is a symmetry of the plane", (n,), lambda k: c.eq(d(k) * d(k), 1))
    c.forall("reflection: determinant of the applied map is the reported one", (n,), lambda k: c.eq(d(k), D[k, 0]))
