import warnings
from engine.registry import contract
from contracts.util import *

SO3 = "gconv.geometry.groups.so3."


def euler_mat(c, g):
    """extrinsic ZYZ: first alpha about z, then beta about y, then gamma about z"""
    (a, b, d) = g
    Rz = lambda t: [[c.cos(t), -c.sin(t), 0], [c.sin(t), c.cos(t), 0], [0, 0, 1]]
    Ry = lambda t: [[c.cos(t), 0, c.sin(t)], [0, 1, 0], [-c.sin(t), 0, c.cos(t)]]
    return mm(Rz(d), mm(Ry(b), Rz(a)))


@contract("C04 C09", [SO3 + "matrix_x", SO3 + "matrix_y", SO3 + "matrix_z"])
def axis_matrices(c):
    so3 = c.g.so3
    b = c.batch("b", (0, 1, 2))
    t = c.tensor("t", *b, lay=lay(c))
    T = c.E(t)
    C, S = lambda i: c.cos(T[i]), lambda i: c.sin(T[i])
    for f, M in ((so3.matrix_x, lambda i: [[1, 0, 0], [0, C(i), -S(i)], [0, S(i), C(i)]]),
                 (so3.matrix_y, lambda i: [[C(i), 0, S(i)], [0, 1, 0], [-S(i), 0, C(i)]]),
                 (so3.matrix_z, lambda i: [[C(i), -S(i), 0], [S(i), C(i), 0], [0, 0, 1]])):
        out = c.call(f, t)
        c.shape_is(out, *b, 3, 3)
        O = c.E(out)
        c.forall(f"counter-clockwise rotation {'xyz'[(so3.matrix_x, so3.matrix_y, so3.matrix_z).index(f)]}", b, lambda *i: eqm(c, mat(O, i), M(i)))


@contract("C04 C02 C06 C09", SO3 + "quat_to_matrix")
def quat_to_matrix(c):
    b = c.batch("b", (0, 1, 2, 3))
    q = mb(c, c.quat("q", *b))
    out = c.call(c.g.so3.quat_to_matrix, q)
    c.shape_is(out, *b, 3, 3)
    Q, O = c.E(q), c.E(out)
    c.forall("matrix of the quaternion", b, lambda *i: eqm(c, mat(O, i), c.quat_entries(vec(Q, i, 4))))


@contract("C04 C02 C05 C08 C09 C14", SO3 + "matrix_to_quat", cost=4, split={"b_rank": 4})
def matrix_to_quat(c):
    b = c.batch("b", (0, 1, 2, 3))
    R = mb(c, c.rotmat("R", *b))
    out = c.call(c.g.so3.matrix_to_quat, R)
    c.shape_is(out, *b, 4)
    r, O = c.E(R), c.E(out)
    c.well_defined()
    c.forall("unit norm", b, lambda *i: c.eq(dot(vec(O, i, 4), vec(O, i, 4)), 1))
    c.forall("same rotation", b, lambda *i: eqm(c, c.quat_entries(vec(O, i, 4)), mat(r, i)))


@contract("C04 C06 C09", SO3 + "euler_to_matrix", cost=3, split={"b_rank": 4})
def euler_to_matrix(c):
    b = c.batch("b", (0, 1, 2, 3))
    g = mb(c, c.tensor("g", *b, 3))
    eps = c.choice("eps", [None, 1e-6, 1e-3])
    out = c.call(c.g.so3.euler_to_matrix, g) if eps is None else c.call(c.g.so3.euler_to_matrix, g, eps=eps)
    c.shape_is(out, *b, 3, 3)
    G, O = c.E(g), c.E(out)

    def f(*ix):
        i, p, q = ix[:-2], ix[-2], ix[-1]
        d = O[ix] - euler_mat(c, vec(G, i, 3))[c.pyint(p)][c.pyint(q)]
        return [c.le(d, eps or 1e-6), c.le(-d, eps or 1e-6)]
    c.forall("rotation up to the tolerance", b + (3, 3), f)


@contract("C04", SO3 + "euler_to_matrix")
def euler_to_matrix_exact(c):
    """entries outside the tolerance are exact, others are rounded to zero"""
    b = c.batch("b", (1,))
    g = c.tensor("g", *b, 3)
    out = c.call(c.g.so3.euler_to_matrix, g)
    G, O = c.E(g), c.E(out)

    def f(*i):
        M = euler_mat(c, vec(G, i, 3))
        return [c.implies(c.bor(c.cond_lt(2e-6, M[p][q]), c.cond_lt(M[p][q], -2e-6)), lambda p=p, q=q: c.eq(O[i + (p, q)], M[p][q]))
                for p in range(3) for q in range(3)]
    c.forall("exact outside the tolerance", b, f)


@contract("C04 C09", SO3 + "matrix_to_euler", cost=6, trials=80, split={"b_rank": 3, "lay": 2})
def matrix_to_euler(c):
    b = c.batch("b", (0, 1, 2))
    R = mb(c, c.rotmat("R", *b))
    out = c.call(c.g.so3.matrix_to_euler, R, no_warn=True)
    c.shape_is(out, *b, 3)
    r, O = c.E(R), c.E(out)

    def away(*i):
        """not within the gimbal tolerance"""
        s = c.sqrt(r[i + (0, 2)] * r[i + (0, 2)] + r[i + (1, 2)] * r[i + (1, 2)])
        x = c.atan2(s, r[i + (2, 2)])
        return c.band(c.cond_lt(1e-5, x), c.cond_lt(x, c.pi - 1e-5))
    c.forall("within one turn", b + (3,), lambda *i: [c.le(O[i], 2 * c.pi), c.le(-2 * c.pi, O[i])])
    c.forall("same rotation away from gimbal lock", b, lambda *i: c.implies(away(*i), lambda: eqm(c, euler_mat(c, vec(O, i, 3)), mat(r, i), 2e-3)))


@contract("C04 C09", SO3 + "matrix_to_euler", cost=1)
def matrix_to_euler_gimbal(c):
    """exact gimbal lock: beta = 0 or pi"""
    b = c.batch("b", (0, 1, 2))
    up = c.choice("up", [1, -1])
    a = c.tensor("a", *b)
    C, S = c.torch.cos(a), c.torch.sin(a)
    z = C * 0
    R = c.torch.stack([c.torch.stack([C * up, -S * up, z], -1), c.torch.stack([S, C, z], -1), c.torch.stack([z, z, z + up], -1)], -2)
    out = c.call(c.g.so3.matrix_to_euler, R, no_warn=True)
    c.shape_is(out, *b, 3)
    r, O = c.E(R), c.E(out)
    c.forall("same rotation", b, lambda *i: eqm(c, euler_mat(c, vec(O, i, 3)), mat(r, i), 2e-3))
    c.forall("within one turn", b, lambda *i: [g for k in range(3) for g in (c.le(O[i + (k,)], 2 * c.pi), c.le(-2 * c.pi, O[i + (k,)]))])


@contract("C04", SO3 + "quat_to_euler", cost=6, trials=80, split={"b_rank": 3})
def quat_to_euler(c):
    b = c.batch("b", (0, 1, 2))
    q = c.quat("q", *b)
    out = c.call(c.g.so3.quat_to_euler, q)
    c.shape_is(out, *b, 3)
    Q, O = c.E(q), c.E(out)

    def away(*i):
        r = c.quat_entries(vec(Q, i, 4))
        s = c.sqrt(r[0][2] * r[0][2] + r[1][2] * r[1][2])
        x = c.atan2(s, r[2][2])
        return c.band(c.cond_lt(1e-5, x), c.cond_lt(x, c.pi - 1e-5))
    c.forall("same rotation away from gimbal lock", b, lambda *i: c.implies(away(*i), lambda: eqm(c, euler_mat(c, vec(O, i, 3)), c.quat_entries(vec(Q, i, 4)), 2e-3)))


@contract("C04 C06 C09", [SO3 + "euler_to_quat", SO3 + "euler_to_matrix", SO3 + "matrix_to_quat"], cost=1)
def euler_to_quat(c):
    """the composition of the two conversions (each under its own contract)"""
    so3 = c.g.so3
    b = c.batch("b", (0, 1, 2))
    g = mb(c, c.tensor("g", *b, 3))
    eps = c.choice("eps", [None, 1e-3])
    with c.stub(so3, "matrix_to_quat", 2, 4), c.stub(so3, "euler_to_matrix", 1, 3, 3):
        out = c.call(so3.euler_to_quat, g) if eps is None else c.call(so3.euler_to_quat, g, eps=eps)
        c.shape_is(out, *b, 4)
        ref = c.quiet(so3.matrix_to_quat, c.quiet(so3.euler_to_matrix, g, eps or 1e-6))
    O, R = c.E(out), c.E(ref)
    c.forall("quaternion of the matrix of the angles", b + (4,), lambda *i: c.eq(O[i], R[i]))


@contract("C04 C06 C09", [SO3 + "euler_to_quat", SO3 + "quat_to_euler", SO3 + "matrix_to_euler", SO3 + "euler_to_matrix"], kind="bounded", trials=150,
          note="every conversion and round trip, near and at gimbal lock and half turns, within tolerance (the solver cannot bound the rounding to zero of small matrix entries)")
def conversions_within_tolerance(c):
    so3, torch = c.g.so3, c.torch
    b = c.batch("b", (0, 1, 2, 3))
    kind = c.choice("kind", ["any", "near0", "nearpi", "exact", "half"])
    if kind == "any":
        R = c.rotmat("R", *b)
    elif kind == "half":
        u = c.unit("u", *b, 3)
        R = 2 * u[..., :, None] * u[..., None, :] - torch.eye(3)
    else:
        a, d = c.tensor("a", *b), c.tensor("d", *b)
        e = {"near0": 1e-4, "nearpi": 1e-4, "exact": 0.0}[kind] * c.tensor("e", *b, range=(-1, 1))
        bt = e + (c.pi if kind == "nearpi" or (kind == "exact" and c.choice("up", [0, 1])) else 0)
        Rz = lambda t: torch.stack([torch.cos(t), -torch.sin(t), 0 * t, torch.sin(t), torch.cos(t), 0 * t, 0 * t, 0 * t, 1 + 0 * t], -1).unflatten(-1, (3, 3))
        Ry = torch.stack([torch.cos(bt), 0 * bt, torch.sin(bt), 0 * bt, 1 + 0 * bt, 0 * bt, -torch.sin(bt), 0 * bt, torch.cos(bt)], -1).unflatten(-1, (3, 3))
        R = Rz(d) @ Ry @ Rz(a)
    R = mb(c, R)
    r = c.E(R)
    q = c.call(so3.matrix_to_quat, R)
    g = c.call(so3.matrix_to_euler, R, no_warn=True)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        g2 = c.call(so3.quat_to_euler, q)
    q2 = c.call(so3.euler_to_quat, g)
    c.shape_is(g, *b, 3), c.shape_is(q, *b, 4), c.shape_is(g2, *b, 3), c.shape_is(q2, *b, 4)
    G, Q, G2, Q2 = c.E(g), c.E(q), c.E(g2), c.E(q2)
    M, M2 = c.E(c.call(so3.quat_to_matrix, q2)), c.E(c.call(so3.euler_to_matrix, g2))
    tol = 2e-3
    c.forall("matrix_to_quat", b, lambda *i: eqm(c, c.quat_entries(vec(Q, i, 4)), mat(r, i), tol) + [c.eq(dot(vec(Q, i, 4), vec(Q, i, 4)), 1)])
    c.forall("matrix_to_euler", b, lambda *i: eqm(c, euler_mat(c, vec(G, i, 3)), mat(r, i), tol))
    c.forall("quat_to_euler", b, lambda *i: eqm(c, euler_mat(c, vec(G2, i, 3)), mat(r, i), tol))
    c.forall("euler_to_quat", b, lambda *i: eqm(c, c.quat_entries(vec(Q2, i, 4)), mat(r, i), tol))
    c.forall("round trips", b, lambda *i: eqm(c, mat(M, i), mat(r, i), tol) + eqm(c, mat(M2, i), mat(r, i), tol))
    c.forall("within one turn", b, lambda *i: [x for k in range(3) for x in (c.le(G[i + (k,)], 2 * c.pi), c.le(-2 * c.pi, G[i + (k,)]))])
