from engine.registry import contract
from contracts.util import *

SO2 = "gconv.geometry.groups.so2."
SO3 = "gconv.geometry.groups.so3."
S2 = "gconv.geometry.groups.s2."


def clamp(c, x, lo, hi):
    return c.ite(c.cond_lt(x, lo), lo, c.ite(c.cond_lt(hi, x), hi, x))


def dists(c):
    """(name, function, dimension, range maximum, default eps, cosine of the true angle from the entries)"""
    so2, so3, s2 = c.g.so2, c.g.so3, c.g.s2
    k = c.choice("metric", ["so2", "so2e", "so3", "s2"])
    ab = lambda x, y: c.abs(dot(x, y))
    return dict(so2=(k, so2.geodesic_distance, 1, c.pi, 1e-12, lambda x, y: c.cos(x[0] - y[0])),
                so2e=(k, so2.geodesic_distance_euclid, 2, c.pi, 1e-7, dot),
                so3=(k, so3.geodesic_distance, 4, c.pi / 2, 1e-7, ab),
                s2=(k, s2.geodesic_distance_s2, 3, c.pi, 1e-7, dot))[k]


def elements(c, name, k, n, *b):
    return c.tensor(name, *b, 1) if k == "so2" else c.unit(name, *b, n)


ALL = [SO2 + "geodesic_distance", SO2 + "geodesic_distance_euclid", SO2 + "angle_to_euclid", SO3 + "geodesic_distance", S2 + "geodesic_distance_s2"]


@contract("C05 C08 C14 C21 C06", ALL, trials=80, split={"metric": 4})
def distance_formula(c):
    """the distance is the angle between the arguments, clamped"""
    k, f, n, mx, eps, cosine = dists(c)
    b = c.batch("b", (0, 1, 2, 3))
    x, y = elements(c, "x", k, n, *b), elements(c, "y", k, n, *b)
    e = c.choice("eps", [None, 1e-4])
    d = c.call(f, mb(c, x), y) if e is None else c.call(f, mb(c, x), y, eps=e)
    c.shape_is(d, *b)
    X, Y, D = c.E(x), c.E(y), c.E(d)
    eps = e or eps
    # the angle itself is ill-conditioned at the ends: absolute tolerance on it in floating point
    c.forall("clamped angle", b, lambda *i: c.eq(D[i], c.acos(clamp(c, cosine(vec(X, i, n), vec(Y, i, n)), -1 + eps, 1 - eps)), tol=1e-3))
    c.forall("in range", b, lambda *i: [c.le(0, D[i]), c.le(D[i], mx)])


@contract("C05 C08 C14 C07", ALL)
def distance_pairwise(c):
    """broadcasting: all pairs"""
    k, f, n, mx, eps, cosine = dists(c)
    N, M = c.dim("N", 1), c.dim("M", 1)
    x, y = elements(c, "x", k, n, N), elements(c, "y", k, n, M)
    d = c.call(f, x[:, None], y)
    c.shape_is(d, N, M)
    X, Y, D = c.E(x), c.E(y), c.E(d)
    c.forall("clamped angle", (N, M), lambda i, j: c.eq(D[i, j], c.acos(clamp(c, cosine(vec(X, (i,), n), vec(Y, (j,), n)), -1 + eps, 1 - eps)), tol=1e-3))


@contract("C05", ALL, trials=80)
def distance_laws(c):
    k, f, n, mx, eps, cosine = dists(c)
    b = c.batch("b", (0, 1))
    x, y, z = (elements(c, s, k, n, *b) for s in "xyz")
    d = c.call(f, x, y)
    s = c.call(f, y, x)
    o = c.call(f, x, x)
    w = c.call(f, x, z)
    X, Y, Z, D, S_, O, W = (c.E(t) for t in (x, y, z, d, s, o, w))
    cs = lambda i, U: cosine(vec(X, i, n), vec(U, i, n))
    c.forall("symmetric", b, lambda *i: c.eq(D[i], S_[i]))
    c.forall("smallest on equal elements", b, lambda *i: [c.le(O[i], D[i], tol=1e-3), c.le(O[i], 1e-3)] if not c.symbolic else c.le(O[i], D[i]))
    c.forall("vanishes only for equal elements", b, lambda *i: c.implies(c.cond_lt(cs(i, Y), 1 - 1e-4), lambda: c.lt(O[i], D[i]) if c.symbolic else c.true(D[i] > 1e-3)))
    c.forall("grows with the true angle", b, lambda *i: c.implies(c.cond_lt(cs(i, Y), cs(i, Z)), lambda: c.le(W[i], D[i])))


@contract("C05", ALL[:3] + [SO2 + "left_apply_angle"])
def so2_distance_invariance(c):
    so2 = c.g.so2
    n = c.dim("n", 1)
    x, y, t = c.tensor("x", n, 1), c.tensor("y", n, 1), c.tensor("t", n, 1)
    d = c.E(c.call(so2.geodesic_distance, x, y))
    full = [c.E(c.call(so2.geodesic_distance, x + k * 2 * c.pi, y)) for k in (1, -1, 3)]
    moved = c.E(c.call(so2.geodesic_distance, c.call(so2.left_apply_angle, t, x), c.call(so2.left_apply_angle, t, y)))
    added = c.E(c.call(so2.geodesic_distance, x + t, y + t))
    c.forall("full turns do not matter", (n,), lambda i: [c.eq(F[i], d[i], tol=2e-3) for F in full])
    c.forall("invariant under rotation", (n,), lambda i: [c.eq(moved[i], d[i], tol=2e-3), c.eq(added[i], d[i], tol=2e-3)])


@contract("C05", [SO3 + "geodesic_distance", SO3 + "left_apply_quat"])
def so3_distance_invariance(c):
    so3 = c.g.so3
    n = c.dim("n", 1)
    x, y, t = c.quat("x", n), c.quat("y", n), c.quat("t", n)
    d = c.E(c.call(so3.geodesic_distance, x, y))
    neg = [c.E(c.call(so3.geodesic_distance, u, v)) for u, v in ((-x, y), (x, -y), (-x, -y))]
    left = c.E(c.call(so3.geodesic_distance, c.call(so3.left_apply_quat, t, x), c.call(so3.left_apply_quat, t, y)))
    right = c.E(c.call(so3.geodesic_distance, c.call(so3.left_apply_quat, x, t), c.call(so3.left_apply_quat, y, t)))
    c.forall("sign of the quaternion does not matter", (n,), lambda i: [c.eq(F[i], d[i], tol=2e-3) for F in neg])
    c.forall("invariant under rotation", (n,), lambda i: [c.eq(left[i], d[i], tol=2e-3), c.eq(right[i], d[i], tol=2e-3)])


@contract("C05", S2 + "geodesic_distance_s2")
def s2_distance_invariance(c):
    n = c.dim("n", 1)
    x, y, R = c.unit("x", n, 3), c.unit("y", n, 3), c.rotmat("R")
    d = c.E(c.call(c.g.s2.geodesic_distance_s2, x, y))
    m = c.E(c.call(c.g.s2.geodesic_distance_s2, x @ R.mT, y @ R.mT))
    c.forall("invariant under rotation", (n,), lambda i: c.eq(m[i], d[i], tol=2e-3))


@contract("C05 C14", SO2 + "nearest_neighbour_distance")
def so2_nearest_neighbour_distance(c):
    so2 = c.g.so2
    n = c.dim("n", 1)
    g = mb(c, c.tensor("g", n, 1))
    out = c.call(so2.nearest_neighbour_distance, g)
    c.shape_is(out, n)
    G, O = c.E(g), c.E(out)
    d = lambda i, j: c.acos(clamp(c, c.cos(G[i, 0] - G[j, 0]), -1 + 1e-12, 1 - 1e-12))
    c.forall("smallest distance to another element", (n,), lambda i: c.eq(O[i], c.min_over(n, lambda j: c.ite(c.cond_eq(i, j), c.inf, d(i, j))), tol=1e-3))


@contract("C05 C14", SO3 + "nearest_neighbour_distance")
def so3_nearest_neighbour_distance(c):
    so3 = c.g.so3
    n = c.dim("n", 1)
    q = mb(c, c.quat("q", n))
    out = c.call(so3.nearest_neighbour_distance, q)
    c.shape_is(out, n)
    Q, O = c.E(q), c.E(out)
    d = lambda i, j: c.acos(clamp(c, c.abs(dot(vec(Q, (i,), 4), vec(Q, (j,), 4))), -1 + 1e-7, 1 - 1e-7))
    c.forall("smallest distance to another element", (n,), lambda i: c.eq(O[i], c.min_over(n, lambda j: c.ite(c.cond_eq(i, j), c.inf, d(i, j))), tol=1e-3))


@contract("C05 C14", [SO3 + "nearest_neighbour_distance", SO3 + "matrix_to_quat"])
def so3_nearest_neighbour_distance_matrix(c):
    """rotation matrices: the distances of their quaternions"""
    so3 = c.g.so3
    n = c.dim("n", 1)
    R = mb(c, c.rotmat("R", n))
    with c.stub(so3, "matrix_to_quat", 2, 4):
        out = c.call(so3.nearest_neighbour_distance, R)
        Q = c.E(c.quiet(so3.matrix_to_quat, R))
    c.shape_is(out, n)
    O = c.E(out)
    d = lambda i, j: c.acos(clamp(c, c.abs(dot(vec(Q, (i,), 4), vec(Q, (j,), 4))), -1 + 1e-7, 1 - 1e-7))
    c.forall("smallest distance to another element", (n,), lambda i: c.eq(O[i], c.min_over(n, lambda j: c.ite(c.cond_eq(i, j), c.inf, d(i, j))), tol=1e-3))


def rodrigues(c, u, t):
    C, S = c.torch.cos(t)[..., None, None], c.torch.sin(t)[..., None, None]
    z = u[..., 0] * 0
    K = c.torch.stack([z, -u[..., 2], u[..., 1], u[..., 2], z, -u[..., 0], -u[..., 1], u[..., 0], z], -1).unflatten(-1, (3, 3))
    return c.torch.eye(3) * C + (1 - C) * (u[..., :, None] * u[..., None, :]) + S * K


@contract("C05", SO3 + "so3_log", trials=80)
def so3_log(c):
    """rotation by an angle t in (0, pi) around a unit axis, away from both ends by the clamping tolerance"""
    b = c.batch("b", (0, 1, 2))
    u = c.unit("u", *b, 3)
    t = c.tensor("t", *b, range=(0.01, 2.99))
    R = mb(c, rodrigues(c, u, t))
    out = c.call(c.g.so3.so3_log, R)
    c.shape_is(out, *b, 3)
    U, A, O = c.E(u), c.E(t), c.E(out)
    c.forall("axis times angle", b, lambda *i: c.implies(c.band(c.cond_lt(c.cos(A[i]), 1 - 1e-6), c.cond_lt(-0.98, c.cos(A[i]))),
                                                        lambda: [c.eq(O[i + (k,)], A[i] * U[i + (k,)], 2e-3) for k in range(3)]))


@contract("C05", SO3 + "so3_log", kind="bounded", trials=120, note="logarithm near the identity and near and at half turns, within tolerance")
def so3_log_ends(c):
    b = c.batch("b", (0, 1, 2))
    u = c.unit("u", *b, 3)
    k = c.choice("kind", ["small", "zero", "near_pi", "pi", "any"])
    e = c.tensor("e", *b, range=(0, 1))
    t = {"small": 1e-3 * e, "zero": 0 * e, "near_pi": c.pi - 10 ** (-1 - 7 * e), "pi": c.pi + 0 * e, "any": c.pi * e}[k]
    R = mb(c, rodrigues(c, u, t))
    out = c.call(c.g.so3.so3_log, R)
    c.shape_is(out, *b, 3)
    U, A, O = c.E(u), c.E(t), c.E(out)

    def f(*i):
        o, w = vec(O, i, 3), [A[i] * U[i + (k,)] for k in range(3)]
        if A[i] > c.pi - 1e-4 and dot(o, w) < 0:
            w = [-x for x in w]
        return eqv(c, o, w, 2e-3)
    c.forall("axis times angle", b, f)


@contract("C05", SO3 + "quaternion_log")
def quaternion_log(c):
    n = c.dim("n", 1)
    q = mb(c, c.tensor("q", n, 4))
    out = c.call(c.g.so3.quaternion_log, q)
    c.shape_is(out, n, 4)
    Q, O = c.E(q), c.E(out)

    def f(i):
        w, v = Q[i, 0], [Q[i, k] for k in (1, 2, 3)]
        nq, nv = c.sqrt(w * w + dot(v, v)), c.sqrt(dot(v, v))
        def goal():
            if not c.symbolic and nv < 1e-2 * nq:
                return []
            return [c.eq(O[i, 0], c.log(nq), 2e-3)] + [c.eq(O[i, k + 1], c.div(c.acos(c.div(w, nq)) * v[k], nv), 2e-3) for k in range(3)]
        return c.implies(c.band(c.cond_lt(1e-6, nv), c.cond_lt(1e-6, nq)), goal)
    c.forall("logarithm", (n,), f)


@contract("C05", SO3 + "quaternion_log", kind="bounded", trials=60, note="real quaternions: vanishing vector part")
def quaternion_log_real(c):
    n = c.dim("n", 1)
    w = c.tensor("w", n, 1, range=(0.1, 3))
    out = c.call(c.g.so3.quaternion_log, c.torch.cat((w, c.torch.zeros(n, 3)), -1))
    c.shape_is(out, n, 4)
    W, O = c.E(w), c.E(out)
    c.forall("logarithm of a positive number", (n,), lambda i: [c.eq(O[i, 0], c.log(W[i, 0]), 1e-3)] + [c.eq(O[i, k], 0) for k in (1, 2, 3)])
