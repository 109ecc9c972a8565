from engine.registry import contract
from contracts.util import *

S2 = "gconv.geometry.groups.s2."


def near(c, x, y):
    """equal up to the rounding of euler_to_matrix (1e-6)"""
    return [c.le(x - y, 1e-6), c.le(y - x, 1e-6)]


def point(c, b, g):
    return [c.sin(b) * c.cos(g), c.sin(b) * c.sin(g), c.cos(b)]


@contract("C06", S2 + "spherical_to_euclid")
def spherical_to_euclid(c):
    b = c.batch("b", (0, 1, 2, 3))
    g = mb(c, c.tensor("g", *b, 2))
    x = c.call(c.g.s2.spherical_to_euclid, g)
    c.shape_is(x, *b, 3)
    G, X = c.E(g), c.E(x)
    c.forall("point of the angles", b, lambda *i: eqv(c, vec(X, i, 3), point(c, G[i + (0,)], G[i + (1,)])))
    c.forall("unit length", b, lambda *i: c.eq(dot(vec(X, i, 3), vec(X, i, 3)), 1))


@contract("C06", S2 + "euclid_to_spherical", trials=80)
def euclid_to_spherical(c):
    b = c.batch("b", (0, 1, 2, 3))
    x = mb(c, c.unit("x", *b, 3))
    g = c.call(c.g.s2.euclid_to_spherical, x)
    c.shape_is(g, *b, 2)
    X, G = c.E(x), c.E(g)
    c.forall("polar angle in [0, pi]", b, lambda *i: [c.le(0, G[i + (0,)]), c.le(G[i + (0,)], c.pi)])
    c.forall("azimuth within a full turn", b, lambda *i: [c.le(-2 * c.pi, G[i + (1,)]), c.le(G[i + (1,)], 2 * c.pi)])
    c.forall("angles of the point", b, lambda *i: eqv(c, point(c, G[i + (0,)], G[i + (1,)]), vec(X, i, 3), 2e-3))
    c.well_defined()


@contract("C06", [S2 + "euclid_to_spherical", S2 + "spherical_to_euclid"], trials=80)
def sphere_round_trips(c):
    b = c.batch("b", (0, 1, 2))
    s2 = c.g.s2
    x = c.unit("x", *b, 3)
    y = c.call(s2.spherical_to_euclid, c.call(s2.euclid_to_spherical, x))
    c.shape_is(y, *b, 3)
    X, Y = c.E(x), c.E(y)
    c.forall("vector to angles and back", b, lambda *i: eqv(c, vec(Y, i, 3), vec(X, i, 3), 2e-3))
    g = c.tensor("g", *b, 2)
    h = c.call(s2.euclid_to_spherical, c.call(s2.spherical_to_euclid, g))
    c.shape_is(h, *b, 2)
    G, H = c.E(g), c.E(h)
    c.forall("angles to vector and back", b, lambda *i: eqv(c, point(c, H[i + (0,)], H[i + (1,)]), point(c, G[i + (0,)], G[i + (1,)]), 2e-3))


@contract("C06", S2 + "random_s2")
def random_s2(c):
    sh = c.batch("s", (1, 2, 3))
    g = c.call(c.g.s2.random_s2, sh)
    c.shape_is(g, *sh, 2)
    G = c.E(g)
    c.forall("polar angle in [0, pi]", sh, lambda *i: [c.le(0, G[i + (0,)]), c.le(G[i + (0,)], c.pi)])
    c.forall("azimuth within a full turn", sh, lambda *i: [c.le(-2 * c.pi, G[i + (1,)]), c.le(G[i + (1,)], 2 * c.pi)])


@contract("C06", [S2 + "spherical_to_euler", S2 + "spherical_to_euler_neg_gamma"])
def lifting(c):
    n = c.dim("n", 1)
    g = mb(c, c.tensor("g", n, 2))
    neg = c.choice("neg", [0, 1])
    s2 = c.g.s2
    e = c.call(s2.spherical_to_euler_neg_gamma if neg else s2.spherical_to_euler, g)
    c.shape_is(e, n, 3)
    G, E = c.E(g), c.E(e)
    c.forall("Euler angles", (n,), lambda i: eqv(c, vec(E, (i,), 3), [-G[i, 1] if neg else 0, G[i, 0], G[i, 1]]))


@contract("C06", [S2 + "spherical_to_euler", S2 + "spherical_to_euler_neg_gamma", "gconv.geometry.groups.so3.euler_to_matrix", "gconv.geometry.groups.so3.euler_to_quat"])
def north_pole(c):
    n = c.dim("n", 1)
    s2, so3 = c.g.s2, c.g.so3
    g = c.tensor("g", n, 2)
    neg = c.choice("neg", [0, 1])
    e = c.call(s2.spherical_to_euler_neg_gamma if neg else s2.spherical_to_euler, g)
    R = c.call(so3.euler_to_matrix, e)
    x = c.call(s2.spherical_to_euclid, g)
    R, X = c.E(R), c.E(x)
    c.forall("the rotation carries the north pole to the point", (n,), lambda i: [g for k in range(3) for g in near(c, R[i, k, 2], X[i, k])])


def repulsed(c):
    """contract of repulsion (C21): same shape; with the in-place option the given tensor itself holds arbitrary new elements"""
    def f(grid, *a, in_place=False, **k):
        t = grid if in_place else grid.clone()
        return c.havoc(t, "moved").detach()
    return c.summary(c.g.repulsion, "repulse", f)


@contract("C06", [S2 + "uniform_grid_s2", S2 + "random_s2"], trials=40)
def uniform_grid_s2(c):
    s2, so3 = c.g.s2, c.g.so3
    n = c.dim("n", 1)
    par = c.choice("par", ["spherical", "euclidean", "matrix", "quat", "euler", "Matrix", None])
    neg = c.choice("neg", [False, True])
    kw = {} if par is None else {"parameterization": par}
    par = (par or "euclidean").lower()
    if neg:
        kw["set_alpha_as_neg_gamma"] = True
    # the Euler conversions are known by their contracts (C04): the rotation of the angles
    with repulsed(c), c.stub(so3, "euler_to_quat", 1, 4), c.stub(so3, "euler_to_matrix", 1, 3, 3):
        t = c.call(s2.uniform_grid_s2, n, steps=2, show_pbar=False, **kw)
        if par in ("quat", "matrix") and c.symbolic:
            c.shape_is(t, n, *((4,) if par == "quat" else (3, 3)))
            m = c.havoc(c.torch.empty(n, 2), "moved")
            want = c.quiet(so3.euler_to_quat if par == "quat" else so3.euler_to_matrix, c.quiet(s2.spherical_to_euler_neg_gamma if neg else s2.spherical_to_euler, m))
            Q, W = c.E(t.reshape(n, -1)), c.E(want.reshape(n, -1))
            c.forall("rotation of the sphere point", (n,), lambda i: [c.eq(Q[i, k], W[i, k]) for k in range(4 if par == "quat" else 9)])
            return
    c.shape_is(t, n, *dict(spherical=(2,), euclidean=(3,), matrix=(3, 3), quat=(4,), euler=(3,))[par])
    X = c.E(t)
    if par == "spherical":
        c.forall("finite angles", (n,), lambda i: [c.le(-1e6, X[i, k]) for k in (0, 1)] if not c.symbolic else [])
    if par == "euclidean":
        c.forall("unit vectors", (n,), lambda i: c.eq(dot(vec(X, (i,), 3), vec(X, (i,), 3)), 1))
    if par == "euler":
        c.forall("first angle", (n,), lambda i: c.eq(X[i, 0], -X[i, 2] if neg else 0))
    if par in ("matrix", "quat"):
        R = lambda i: mat(X, (i,)) if par == "matrix" else c.quat_entries(vec(X, (i,), 4))
        c.forall("rotation", (n,), lambda i: eqm(c, mm(tr(R(i)), R(i)), ID3, 1e-3))
        c.forall("proper", (n,), lambda i: c.eq(det3(R(i)), 1, 1e-3))
        c.forall("first Euler angle", (n,), lambda i: [c.eq(R(i)[2][0], -R(i)[0][2], 1e-3), c.eq(R(i)[2][1], -R(i)[1][2], 1e-3)] if neg else c.eq(R(i)[2][1], 0, 1e-3))


@contract("C06", S2 + "uniform_grid_s2", trials=10)
def uniform_grid_s2_invalid(c):
    n = c.dim("n", 1)
    p = c.choice("p", ["angle", "", "quaternion", "eul"])
    with repulsed(c):
        c.raises(ValueError, "unsupported parameterization is rejected", c.g.s2.uniform_grid_s2, n, p, steps=1, show_pbar=False)


@contract("C06", [S2 + "uniform_grid_s2", "gconv.geometry.repulsion.repulse"], kind="bounded", trials=12,
          note="complete generation of a sphere grid, real repulsion steps, finite elements")
def uniform_grid_s2_runs(c):
    n = c.choice("n", [1, 2, 3, 7, 20])
    par = c.choice("par", ["spherical", "euclidean", "matrix", "quat", "euler"])
    k = c.choice("steps", [0, 1, 3])
    t = c.call(c.g.s2.uniform_grid_s2, n, par, steps=k, show_pbar=False)
    c.is_value("finite", bool(c.torch.isfinite(t).all()), True)
    c.is_value("number of elements", t.shape[0], n)
    c.is_value("no gradient", t.requires_grad, False)
