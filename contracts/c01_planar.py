from engine.registry import contract

from contracts.util import *

SO2 = "gconv.geometry.groups.so2."
O2 = "gconv.geometry.groups.o2."


def lay(c, name="lay"):
    return c.choice(name, ["c", "perm"])


def rot2(c, t):
    return [[c.cos(t), -c.sin(t)], [c.sin(t), c.cos(t)]]


@contract("C01 C09 C12 C13", SO2 + "left_apply_angle")
def so2_left_apply_angle(c):
    so2 = c.g.so2
    b = c.batch("b")
    x, y = c.tensor("x", *b), c.tensor("y", *b)
    out = c.call(so2.left_apply_angle, x, y)
    c.shape_is(out, *b)
    X, Y, O = c.E(x), c.E(y), c.E(out)
    c.forall("product angle", b, lambda *i: [c.eq_fmod(O[i], X[i] + Y[i], 2 * c.pi), c.le(0, O[i]), c.lt(O[i], 2 * c.pi)])


@contract("C01", SO2 + "left_apply_angle")
def so2_left_apply_angle_broadcast(c):
    """(n, 1, 1) times (m, 1): usual broadcasting"""
    so2 = c.g.so2
    n, m = c.dim("n", 1), c.dim("m", 1)
    x, y = c.tensor("x", n, 1, 1), c.tensor("y", m, 1)
    out = c.call(so2.left_apply_angle, x, y)
    c.shape_is(out, n, m, 1)
    X, Y, O = c.E(x), c.E(y), c.E(out)
    c.forall("product angle", (n, m), lambda i, j: [c.eq_fmod(O[i, j, 0], X[i, 0, 0] + Y[j, 0], 2 * c.pi)])


@contract("C01 C12 C13", SO2 + "left_apply_to_angle")
def so2_left_apply_to_angle(c):
    so2 = c.g.so2
    n, m = c.dim("n", 1), c.dim("m", 1)
    x, y = c.tensor("x", n, 1, lay=lay(c)), c.tensor("y", m, 1, lay=lay(c, "lay2"))
    out = c.call(so2.left_apply_to_angle, x, y)
    c.shape_is(out, n, m, 1)
    X, Y, O = c.E(x), c.E(y), c.E(out)
    c.forall("pairwise product", (n, m), lambda i, j: [c.eq_fmod(O[i, j, 0], X[i, 0] + Y[j, 0], 2 * c.pi),
                                                       c.le(0, O[i, j, 0]), c.lt(O[i, j, 0], 2 * c.pi)])


@contract("C01", [SO2 + "left_apply_angle", SO2 + "inverse_angle"])
def so2_group_laws(c):
    so2 = c.g.so2
    b = c.batch("b", (1, 2))
    x, y, z = c.tensor("x", *b), c.tensor("y", *b), c.tensor("z", *b)
    P = lambda u, v: c.call(so2.left_apply_angle, u, v)
    a1, a2 = c.E(P(P(x, y), z)), c.E(P(x, P(y, z)))
    inv = c.call(so2.inverse_angle, x)
    c.shape_is(inv, *b)
    X, I = c.E(x), c.E(inv)
    l, r = c.E(P(inv, x)), c.E(P(x, inv))
    e = c.E(P(x, x * 0))
    # angles near a full turn count as angles near zero
    c.forall("associative", b, lambda *i: c.eq_angle(a1[i], a2[i]))
    c.forall("two-sided inverse", b, lambda *i: [c.eq_angle(l[i], 0), c.eq_angle(r[i], 0), c.eq_angle(I[i], -X[i])])
    c.forall("identity", b, lambda *i: c.eq_angle(e[i], X[i]))


@contract("C01 C03 C09 C12", SO2 + "angle_to_matrix")
def so2_angle_to_matrix(c):
    so2 = c.g.so2
    b = c.batch("b", (0, 1, 2, 3))
    x = c.tensor("x", *b, 1, lay=lay(c))
    out = c.call(so2.angle_to_matrix, x)
    c.shape_is(out, *b, 2, 2)
    X, O = c.E(x), c.E(out)

    def g(*i):
        M = rot2(c, X[i + (0,)])
        return [c.eq(O[i + (p, q)], M[p][q]) for p in range(2) for q in range(2)]
    c.forall("rotation matrix", b, g)


@contract("C01 C05 C08", SO2 + "angle_to_euclid")
def so2_angle_to_euclid(c):
    so2 = c.g.so2
    b = c.batch("b", (0, 1, 2, 3))
    x = c.tensor("x", *b, 1, lay=lay(c))
    out = c.call(so2.angle_to_euclid, x)
    c.shape_is(out, *b, 2)
    X, O = c.E(x), c.E(out)
    c.forall("unit vector of the angle", b, lambda *i: [c.eq(O[i + (0,)], c.cos(X[i + (0,)])), c.eq(O[i + (1,)], c.sin(X[i + (0,)]))])
    M = c.call(so2.angle_to_matrix, x)
    # the matrix carries the vector of angle zero to the vector of the angle
    e = c.E(M)
    c.forall("matrix and vector agree", b, lambda *i: [c.eq(e[i + (0, 0)], O[i + (0,)]), c.eq(e[i + (1, 0)], O[i + (1,)])])


@contract("C01 C03", SO2 + "inverse_matrix")
def so2_inverse_matrix(c):
    so2 = c.g.so2
    b = c.batch("b")
    x = c.tensor("x", *b, 1)
    M = c.call(so2.angle_to_matrix, x)
    out = c.call(so2.inverse_matrix, M)
    c.shape_is(out, *b, 2, 2)
    m, o = c.E(M), c.E(out)

    def g(*i):
        r = []
        for p in range(2):
            for q in range(2):
                r.append(c.eq(sum(m[i + (p, k)] * o[i + (k, q)] for k in range(2)), 1 if p == q else 0))
                r.append(c.eq(sum(o[i + (p, k)] * m[i + (k, q)] for k in range(2)), 1 if p == q else 0))
        return r
    c.forall("two-sided inverse", b, g)


@contract("C01 C12", [SO2 + "left_apply_angle_to_R2", SO2 + "left_apply_matrix_to_R2"])
def so2_apply_to_grid(c):
    so2 = c.g.so2
    n, w, h = c.dim("n", 1), c.dim("w", 1), c.dim("h", 1)
    x, g = c.tensor("x", n, 1, lay=lay(c)), c.tensor("g", w, h, 2, lay=lay(c, "glay"))
    out = c.call(so2.left_apply_angle_to_R2, x, g)
    c.shape_is(out, n, w, h, 2)
    X, V, O = c.E(x), c.E(g), c.E(out)

    def f(k, i, j):
        M = rot2(c, X[k, 0])
        return [c.eq(O[k, i, j, p], M[p][0] * V[i, j, 0] + M[p][1] * V[i, j, 1]) for p in range(2)]
    c.forall("rotated vector", (n, w, h), f)
    c.forall("length preserved", (n, w, h), lambda k, i, j: c.eq(O[k, i, j, 0] * O[k, i, j, 0] + O[k, i, j, 1] * O[k, i, j, 1],
                                                                V[i, j, 0] * V[i, j, 0] + V[i, j, 1] * V[i, j, 1]))


@contract("C01", SO2 + "left_apply_matrix_to_R2")
def so2_apply_matrix_to_grid(c):
    so2 = c.g.so2
    n, w, h = c.dim("n", 1), c.dim("w", 1), c.dim("h", 1)
    R, g = c.tensor("R", n, 2, 2, lay=lay(c)), c.tensor("g", w, h, 2, lay=lay(c, "glay"))
    out = c.call(so2.left_apply_matrix_to_R2, R, g)
    c.shape_is(out, n, w, h, 2)
    M, V, O = c.E(R), c.E(g), c.E(out)
    c.forall("matrix times vector", (n, w, h), lambda k, i, j: [c.eq(O[k, i, j, p], M[k, p, 0] * V[i, j, 0] + M[k, p, 1] * V[i, j, 1]) for p in range(2)])


@contract("C01", [SO2 + "left_apply_angle_to_R2", SO2 + "left_apply_angle", SO2 + "inverse_angle"])
def so2_action(c):
    """product = one after the other, inverse undoes"""
    so2 = c.g.so2
    n, w, h = c.dim("n", 1), c.dim("w", 1), c.dim("h", 1)
    x, y, g = c.tensor("x", n, 1), c.tensor("y", 1, 1), c.tensor("g", w, h, 2)
    act = lambda r, v: c.call(so2.left_apply_angle_to_R2, r, v)
    lhs = c.E(act(c.call(so2.left_apply_angle, x, y), g))
    rhs = c.E(act(x, act(y, g)[0]))
    c.forall("homomorphism", (n, w, h), lambda k, i, j: [c.eq(lhs[k, i, j, p], rhs[k, i, j, p]) for p in range(2)])
    V = c.E(g)
    back = c.E(act(c.call(so2.inverse_angle, y), act(y, g)[0]))
    c.forall("inverse undoes", (w, h), lambda i, j: [c.eq(back[0, i, j, p], V[i, j, p]) for p in range(2)])
    pw = c.E(c.call(so2.left_apply_to_angle, x, y))
    one = c.E(c.call(so2.left_apply_angle, x, y))
    c.forall("pairwise agrees", (n,), lambda k: c.eq(pw[k, 0, 0], one[k, 0]))


@contract("C01 C12 C13", O2 + "left_apply_angle")
def o2_left_apply_angle(c):
    o2 = c.g.o2
    b = c.batch("b", (0, 1, 2, 3))
    x, y = c.o2("x", *b), c.o2("y", *b)
    out = c.call(o2.left_apply_angle, x, y)
    c.shape_is(out, *b, 2)
    X, Y, O = c.E(x), c.E(y), c.E(out)
    c.forall("coefficients multiply", b, lambda *i: c.eq(O[i + (0,)], X[i + (0,)] * Y[i + (0,)]))
    c.forall("angles add", b, lambda *i: [c.eq_fmod(O[i + (1,)], X[i + (1,)] + Y[i + (1,)], 2 * c.pi), c.le(0, O[i + (1,)]), c.lt(O[i + (1,)], 2 * c.pi)])


@contract("C01 C12 C13", O2 + "left_apply_to_angle")
def o2_left_apply_to_angle(c):
    o2 = c.g.o2
    n, m = c.dim("n", 1), c.dim("m", 1)
    x, y = c.o2("x", n), c.o2("y", m)
    if c.choice("lay", [0, 1]):
        x, y = c.permuted(x), c.permuted(y)
    out = c.call(o2.left_apply_to_angle, x, y)
    c.shape_is(out, n, m, 2)
    X, Y, O = c.E(x), c.E(y), c.E(out)
    c.forall("pairwise product", (n, m), lambda i, j: [c.eq(O[i, j, 0], X[i, 0] * Y[j, 0]), c.eq_fmod(O[i, j, 1], X[i, 1] + Y[j, 1], 2 * c.pi),
                                                       c.le(0, O[i, j, 1]), c.lt(O[i, j, 1], 2 * c.pi)])


@contract("C01 C03 C12 C13", [O2 + "inverse", O2 + "left_apply_angle"])
def o2_group_laws(c):
    o2 = c.g.o2
    b = c.batch("b")
    x, y, z = c.o2("x", *b), c.o2("y", *b), c.o2("z", *b)
    P = lambda u, v: c.call(o2.left_apply_angle, u, v)
    inv = c.call(o2.inverse, x)
    c.shape_is(inv, *b, 2)
    a1, a2 = c.E(P(P(x, y), z)), c.E(P(x, P(y, z)))
    l, r, X, I = c.E(P(inv, x)), c.E(P(x, inv)), c.E(x), c.E(inv)
    c.forall("associative", b, lambda *i: [c.eq(a1[i + (0,)], a2[i + (0,)]), c.eq_angle(a1[i + (1,)], a2[i + (1,)])])
    c.forall("two-sided inverse", b, lambda *i: [c.eq(l[i + (0,)], 1), c.eq_angle(l[i + (1,)], 0), c.eq(r[i + (0,)], 1), c.eq_angle(r[i + (1,)], 0)])
    c.forall("inverse element", b, lambda *i: [c.eq(I[i + (0,)], X[i + (0,)]), c.eq_angle(I[i + (1,)], -X[i + (1,)])])


@contract("C01 C03 C12", O2 + "left_apply_to_R2")
def o2_apply_to_grid(c):
    o2 = c.g.o2
    n, w, h = c.dim("n", 1), c.dim("w", 1), c.dim("h", 1)
    x, g = c.o2("x", n), c.tensor("g", w, h, 2, lay=lay(c, "glay"))
    if c.choice("lay", [0, 1]):
        x = c.permuted(x)
    out = c.call(o2.left_apply_to_R2, x, g)
    c.shape_is(out, n, w, h, 2)
    X, V, O = c.E(x), c.E(g), c.E(out)

    def f(k, i, j):
        M = rot2(c, X[k, 1])
        return [c.eq(O[k, i, j, p], X[k, 0] * (M[p][0] * V[i, j, 0] + M[p][1] * V[i, j, 1])) for p in range(2)]
    c.forall("coefficient times rotated vector", (n, w, h), f)
    c.forall("length preserved", (n, w, h), lambda k, i, j: c.eq(O[k, i, j, 0] * O[k, i, j, 0] + O[k, i, j, 1] * O[k, i, j, 1],
                                                                V[i, j, 0] * V[i, j, 0] + V[i, j, 1] * V[i, j, 1]))


@contract("C01", [O2 + "left_apply_to_R2", O2 + "left_apply_angle", O2 + "inverse"])
def o2_action(c):
    o2 = c.g.o2
    n, w, h = c.dim("n", 1), c.dim("w", 1), c.dim("h", 1)
    x, y, g = c.o2("x", n), c.o2("y", 1), c.tensor("g", w, h, 2)
    act = lambda r, v: c.call(o2.left_apply_to_R2, r, v)
    lhs = c.E(act(c.call(o2.left_apply_angle, x, y), g))
    rhs = c.E(act(x, act(y, g)[0]))
    c.forall("homomorphism", (n, w, h), lambda k, i, j: [c.eq(lhs[k, i, j, p], rhs[k, i, j, p]) for p in range(2)])
    V = c.E(g)
    back = c.E(act(c.call(o2.inverse, y), act(y, g)[0]))
    c.forall("inverse undoes", (w, h), lambda i, j: [c.eq(back[0, i, j, p], V[i, j, p]) for p in range(2)])
