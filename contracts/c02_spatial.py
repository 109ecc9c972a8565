from engine.registry import contract
from contracts.util import *

SO3 = "gconv.geometry.groups.so3."
O3 = "gconv.geometry.groups.o3."


@contract("C02", SO3 + "quat_inverse")
def quat_inverse(c):
    b = c.batch("b", (0, 1, 2, 3))
    q = mb(c, c.quat("q", *b))
    out = c.call(c.g.so3.quat_inverse, q)
    c.shape_is(out, *b, 4)
    Q, O = c.E(q), c.E(out)
    c.forall("conjugate", b, lambda *i: eqv(c, vec(O, i, 4), qconj(vec(Q, i, 4))))
    c.forall("two-sided inverse", b, lambda *i: eqv(c, qmul(vec(O, i, 4), vec(Q, i, 4)), [1, 0, 0, 0]) + eqv(c, qmul(vec(Q, i, 4), vec(O, i, 4)), [1, 0, 0, 0]))
    c.forall("inverse matrix", b, lambda *i: eqm(c, c.quat_entries(vec(O, i, 4)), tr(c.quat_entries(vec(Q, i, 4)))))


@contract("C02", SO3 + "left_apply_quat")
def left_apply_quat(c):
    b = c.batch("b", (0, 1, 2, 3))
    p, q = mb(c, c.quat("p", *b)), mb(c, c.quat("q", *b), "lay2")
    out = c.call(c.g.so3.left_apply_quat, p, q)
    c.shape_is(out, *b, 4)
    A, B, O = c.E(p), c.E(q), c.E(out)
    c.forall("quaternion product", b, lambda *i: eqv(c, vec(O, i, 4), qmul(vec(A, i, 4), vec(B, i, 4))))
    c.forall("closed", b, lambda *i: c.eq(dot(vec(O, i, 4), vec(O, i, 4)), 1))
    c.forall("same rotation as the matrix product", b, lambda *i: eqm(c, c.quat_entries(vec(O, i, 4)), mm(c.quat_entries(vec(A, i, 4)), c.quat_entries(vec(B, i, 4)))))


@contract("C02", [SO3 + "left_apply_quat", SO3 + "quat_inverse"])
def quat_group_laws(c):
    b = c.batch("b", (0, 1))
    p, q, r = c.quat("p", *b), c.quat("q", *b), c.quat("r", *b)
    P = lambda u, v: c.call(c.g.so3.left_apply_quat, u, v)
    x, y = c.E(P(P(p, q), r)), c.E(P(p, P(q, r)))
    inv = c.call(c.g.so3.quat_inverse, p)
    l, m = c.E(P(inv, p)), c.E(P(p, inv))
    c.forall("associative", b, lambda *i: eqv(c, vec(x, i, 4), vec(y, i, 4)))
    c.forall("inverse", b, lambda *i: eqv(c, vec(l, i, 4), [1, 0, 0, 0]) + eqv(c, vec(m, i, 4), [1, 0, 0, 0]))


@contract("C02 C12 C13", [SO3 + "matrix_inverse", SO3 + "left_apply_matrix"])
def matrix_group_laws(c):
    so3 = c.g.so3
    b = c.batch("b", (0, 1, 2, 3))
    R, S, T = mb(c, c.rotmat("R", *b)), mb(c, c.rotmat("S", *b), "lay2"), c.rotmat("T", *b)
    inv = c.call(so3.matrix_inverse, R)
    c.shape_is(inv, *b, 3, 3)
    P = lambda u, v: c.call(so3.left_apply_matrix, u, v)
    out = P(R, S)
    c.shape_is(out, *b, 3, 3)
    r, s, I, O = c.E(R), c.E(S), c.E(inv), c.E(out)
    c.forall("inverse is the transpose", b, lambda *i: eqm(c, mat(I, i), tr(mat(r, i))))
    c.forall("two-sided inverse", b, lambda *i: eqm(c, mm(mat(I, i), mat(r, i)), ID3) + eqm(c, mm(mat(r, i), mat(I, i)), ID3))
    c.forall("matrix product", b, lambda *i: eqm(c, mat(O, i), mm(mat(r, i), mat(s, i))))
    x, y = c.E(P(out, T)), c.E(P(R, P(S, T)))
    c.forall("associative", b, lambda *i: eqm(c, mat(x, i), mat(y, i)))


@contract("C02", SO3 + "left_apply_matrix", trials=60)
def matrix_closed(c):
    """products of rotation matrices are rotation matrices"""
    R, S = c.rotmat("R"), c.rotmat("S")
    O = mat(c.E(c.call(c.g.so3.left_apply_matrix, R, S)), ())
    c.check("orthogonal", lambda: eqm(c, mm(O, tr(O)), ID3))
    c.check("determinant one", lambda: c.eq(det3(O), 1))


@contract("C02", SO3 + "left_apply_matrix")
def left_apply_matrix_broadcast(c):
    n, m = c.dim("n", 1), c.dim("m", 1)
    R, S = c.rotmat("R", n, 1), c.rotmat("S", m)
    out = c.call(c.g.so3.left_apply_matrix, R, S)
    c.shape_is(out, n, m, 3, 3)
    r, s, O = c.E(R), c.E(S), c.E(out)
    c.forall("matrix product", (n, m), lambda i, j: eqm(c, mat(O, (i, j)), mm(mat(r, (i, 0)), mat(s, (j,)))))


@contract("C02 C12 C13", SO3 + "left_apply_to_matrix")
def left_apply_to_matrix(c):
    n, m = c.dim("n", 1), c.dim("m", 1)
    R, S = mb(c, c.rotmat("R", n)), mb(c, c.rotmat("S", m), "lay2")
    out = c.call(c.g.so3.left_apply_to_matrix, R, S)
    c.shape_is(out, n, m, 3, 3)
    r, s, O = c.E(R), c.E(S), c.E(out)
    c.forall("pairwise product", (n, m), lambda i, j: eqm(c, mat(O, (i, j)), mm(mat(r, (i,)), mat(s, (j,)))))


@contract("C02 C12", SO3 + "left_apply_to_R3")
def so3_apply_to_grid(c):
    b = c.batch("b", (0, 1, 2))
    g = tuple(c.dim(n) for n in "xyz")
    R, G = mb(c, c.rotmat("R", *b)), c.tensor("g", *g, 3, lay=lay(c, "glay"))
    out = c.call(c.g.so3.left_apply_to_R3, R, G)
    c.shape_is(out, *b, *g, 3)
    r, V, O = c.E(R), c.E(G), c.E(out)
    k = len(b)
    c.forall("rotated vector", b + g, lambda *i: eqv(c, vec(O, i, 3), mv(mat(r, i[:k]), vec(V, i[k:], 3))))
    c.forall("length preserved", b + g, lambda *i: c.eq(dot(vec(O, i, 3), vec(O, i, 3)), dot(vec(V, i[k:], 3), vec(V, i[k:], 3))))


@contract("C02", [SO3 + "left_apply_to_R3", SO3 + "left_apply_matrix", SO3 + "matrix_inverse"])
def so3_action(c):
    so3 = c.g.so3
    n = c.dim("n", 1)
    g = tuple(c.dim(d) for d in "xyz")
    R, S, G = c.rotmat("R", n), c.rotmat("S"), c.tensor("g", *g, 3)
    act = lambda r, v: c.call(so3.left_apply_to_R3, r, v)
    l = c.E(act(c.call(so3.left_apply_matrix, R, S), G))
    r = c.E(act(R, act(S, G)))
    c.forall("homomorphism", (n,) + g, lambda *i: eqv(c, vec(l, i, 3), vec(r, i, 3)))
    back, V = c.E(act(c.call(so3.matrix_inverse, S), act(S, G))), c.E(G)
    c.forall("inverse undoes", g, lambda *i: eqv(c, vec(back, i, 3), vec(V, i, 3)))


@contract("C02 C16", O3 + "left_apply_O3")
def left_apply_O3(c):
    b = c.batch("b", (0, 1, 2, 3))
    x, y = mb(c, c.o3("x", *b)), mb(c, c.o3("y", *b), "lay2")
    out = c.call(c.g.o3.left_apply_O3, x, y)
    c.shape_is(out, *b, 10)
    X, Y, O = c.E(x), c.E(y), c.E(out)
    c.forall("signs multiply", b, lambda *i: c.eq(O[i + (0,)], X[i + (0,)] * Y[i + (0,)]))
    c.forall("rotations multiply", b, lambda *i: eqm(c, o3mat(O, i), mm(o3mat(X, i), o3mat(Y, i))))


@contract("C02 C16", O3 + "left_apply_O3")
def left_apply_O3_broadcast(c):
    """one element (1, 10) moves a whole grid (m, 10)"""
    m = c.dim("m", 1)
    x, y = c.o3("x", 1), c.o3("y", m)
    out = c.call(c.g.o3.left_apply_O3, x, y)
    c.shape_is(out, m, 10)
    X, Y, O = c.E(x), c.E(y), c.E(out)
    c.forall("product", (m,), lambda i: [c.eq(O[i, 0], X[0, 0] * Y[i, 0])] + eqm(c, o3mat(O, (i,)), mm(o3mat(X, (0,)), o3mat(Y, (i,)))))


@contract("C02 C12 C13", O3 + "left_apply_to_O3")
def left_apply_to_O3(c):
    n, m = c.dim("n", 1), c.dim("m", 1)
    x, y = mb(c, c.o3("x", n)), mb(c, c.o3("y", m), "lay2")
    out = c.call(c.g.o3.left_apply_to_O3, x, y)
    c.shape_is(out, n, m, 10)
    X, Y, O = c.E(x), c.E(y), c.E(out)
    c.forall("pairwise product", (n, m), lambda i, j: [c.eq(O[i, j, 0], X[i, 0] * Y[j, 0])] + eqm(c, o3mat(O, (i, j)), mm(o3mat(X, (i,)), o3mat(Y, (j,)))))


@contract("C02 C03 C12 C13", [O3 + "inverse", O3 + "left_apply_O3"])
def o3_group_laws(c):
    o3 = c.g.o3
    b = c.batch("b", (0, 1, 2))
    x, y, z = mb(c, c.o3("x", *b)), c.o3("y", *b), c.o3("z", *b)
    P = lambda u, v: c.call(o3.left_apply_O3, u, v)
    inv = c.call(o3.inverse, x)
    c.shape_is(inv, *b, 10)
    I, X, l, r = c.E(inv), c.E(x), c.E(P(inv, x)), c.E(P(x, inv))
    c.forall("inverse element", b, lambda *i: [c.eq(I[i + (0,)], X[i + (0,)])] + eqm(c, o3mat(I, i), tr(o3mat(X, i))))
    c.forall("two-sided inverse", b, lambda *i: [c.eq(l[i + (0,)], 1), c.eq(r[i + (0,)], 1)] + eqm(c, o3mat(l, i), ID3) + eqm(c, o3mat(r, i), ID3))
    u, v = c.E(P(P(x, y), z)), c.E(P(x, P(y, z)))
    c.forall("associative", b, lambda *i: [c.eq(u[i + (0,)], v[i + (0,)])] + eqm(c, o3mat(u, i), o3mat(v, i)))


@contract("C02 C12 C03", O3 + "left_apply_to_R3")
def o3_apply_to_grid(c):
    b = c.batch("b", (0, 1, 2))
    g = tuple(c.dim(n) for n in "xyz")
    x, G = mb(c, c.o3("x", *b)), c.tensor("g", *g, 3, lay=lay(c, "glay"))
    out = c.call(c.g.o3.left_apply_to_R3, x, G)
    c.shape_is(out, *b, *g, 3)
    X, V, O = c.E(x), c.E(G), c.E(out)
    k = len(b)
    c.forall("sign times rotated vector", b + g, lambda *i: eqv(c, vec(O, i, 3), [X[i[:k] + (0,)] * t for t in mv(o3mat(X, i[:k]), vec(V, i[k:], 3))]))
    c.forall("length preserved", b + g, lambda *i: c.eq(dot(vec(O, i, 3), vec(O, i, 3)), dot(vec(V, i[k:], 3), vec(V, i[k:], 3))))


@contract("C02", [O3 + "left_apply_to_R3", O3 + "left_apply_O3", O3 + "inverse"])
def o3_action(c):
    o3 = c.g.o3
    n = c.dim("n", 1)
    g = tuple(c.dim(d) for d in "xyz")
    R, S, G = c.o3("R", n), c.o3("S"), c.tensor("g", *g, 3)
    act = lambda r, v: c.call(o3.left_apply_to_R3, r, v)
    l = c.E(act(c.call(o3.left_apply_O3, R, S), G))
    r = c.E(act(R, act(S, G)))
    c.forall("homomorphism", (n,) + g, lambda *i: eqv(c, vec(l, i, 3), vec(r, i, 3)))
    back, V = c.E(act(c.call(o3.inverse, S), act(S, G))), c.E(G)
    c.forall("inverse undoes", g, lambda *i: eqv(c, vec(back, i, 3), vec(V, i, 3)))
