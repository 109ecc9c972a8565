from engine.registry import contract
from contracts.util import *
from contracts.c06_sphere import repulsed

G = "gconv.geometry.groups."
SO2, O2, SO3, O3 = (G + f"{g}." for g in ("so2", "o2", "so3", "o3"))


def sizes(c, ranks=(0, 1, 2)):
    """a size given as an int or as a tuple"""
    b = c.batch("b", ranks)
    if len(b) == 1 and c.choice("int size", [0, 1]):
        return b, b[0]
    return b, tuple(b)


@contract("C09 C12 C13 C14", SO2 + "uniform_grid")
def so2_uniform_grid(c):
    """exactly n angles, equally spaced from zero, below a full turn"""
    n = c.dim("n")
    out = c.call(c.g.so2.uniform_grid, n)
    c.shape_is(out, n, 1)
    O = c.E(out)
    c.forall("equally spaced from zero", (n,), lambda i: [c.eq(O[i, 0], c.div(2 * c.pi * c.int(i), n)), c.le(0, O[i, 0]), c.lt(O[i, 0], 2 * c.pi)])
    c.well_defined()


@contract("C09", SO2 + "random_grid")
def so2_random_grid(c):
    n = c.dim("n")
    out = c.call(c.g.so2.random_grid, n)
    c.shape_is(out, n, 1)
    O = c.E(out)
    c.forall("angles", (n,), lambda i: [c.le(0, O[i, 0]), c.lt(O[i, 0], 2 * c.pi)])


@contract("C09 C12 C13 C14", O2 + "uniform_grid")
def o2_uniform_grid(c):
    """the requested number of rotations first, then the requested number of reflections, each equally spaced from zero"""
    a, b = c.dim("a"), c.dim("b")
    out = c.call(c.g.o2.uniform_grid, (a, b))
    c.shape_is(out, a + b, 2)
    O = c.E(out)
    c.forall("rotations", (a,), lambda i: [c.eq(O[i, 0], 1), c.eq(O[i, 1], c.div(2 * c.pi * c.int(i), a))])
    c.forall("reflections", (b,), lambda i: [c.eq(O[a + i, 0], -1), c.eq(O[a + i, 1], c.div(2 * c.pi * c.int(i), b))])
    c.forall("angles", (a + b,), lambda i: [c.le(0, O[i, 1]), c.lt(O[i, 1], 2 * c.pi)])


@contract("C09", O2 + "random_grid")
def o2_random_grid(c):
    n = c.dim("n")
    out = c.call(c.g.o2.random_grid, n)
    c.shape_is(out, n, 2)
    O = c.E(out)
    c.forall("valid elements", (n,), lambda i: [c.eq(O[i, 0] * O[i, 0], 1), c.le(0, O[i, 1]), c.lt(O[i, 1], 2 * c.pi)])


@contract("C09 C16", SO3 + "random_quat")
def random_quat(c):
    """unit quaternions of the requested shape"""
    b, size = sizes(c)
    out = c.call(c.g.so3.random_quat, size)
    c.shape_is(out, *b, 4)
    O = c.E(out)
    c.forall("unit norm", b, lambda *i: c.eq(sum(O[i + (k,)] * O[i + (k,)] for k in range(4)), 1))


def random_unit(c):
    so3 = c.g.so3
    return c.summary(so3, "random_quat", lambda shape, device=None: c.quat("rq", *(shape if type(shape) is tuple else (shape,))))


@contract("C09 C16", SO3 + "random_matrix")
def random_matrix(c):
    """proper rotation matrices of the requested shape"""
    b, size = sizes(c)
    with random_unit(c):
        out = c.call(c.g.so3.random_matrix, size)
    c.shape_is(out, *b, 3, 3)
    O = c.E(out)
    c.forall("orthogonal", b, lambda *i: eqm(c, mm(tr(mat(O, i)), mat(O, i)), ID3))
    c.forall("proper", b, lambda *i: c.eq(det3(mat(O, i)), 1))


@contract("C09", SO3 + "random_euler")
def random_euler(c):
    """Euler angles of the requested shape: those of a random rotation"""
    b, size = sizes(c)
    so3 = c.g.so3
    if c.symbolic:
        with random_unit(c), c.stub(so3, "matrix_to_euler", 2, 3):
            out = c.call(so3.random_euler, size)
            want = c.quiet(so3.matrix_to_euler, c.quiet(so3.quat_to_matrix, c.quat("rq", *b)))
        W = c.E(want)
    else:
        out = c.call(so3.random_euler, size)
    c.shape_is(out, *b, 3)
    O = c.E(out)
    if c.symbolic:
        c.forall("angles of a random rotation", b, lambda *i: [c.eq(O[i + (k,)], W[i + (k,)]) for k in range(3)])
    else:
        c.forall("within one full turn", b, lambda *i: [c.true(-2 * c.pi - 1e-4 <= O[i + (k,)] <= 2 * c.pi + 1e-4) for k in range(3)])
    c.is_value("no gradient", out.requires_grad, False)


@contract("C09 C16", O3 + "random_grid")
def o3_random_grid(c):
    """valid O(3) elements of the requested shape"""
    b, size = sizes(c)
    with random_unit(c):
        out = c.call(c.g.o3.random_grid, size)
    c.shape_is(out, *b, 10)
    O = c.E(out)
    c.forall("coefficient", b, lambda *i: c.eq(O[i + (0,)] * O[i + (0,)], 1))
    c.forall("rotation", b, lambda *i: eqm(c, mm(tr(o3mat(O, i)), o3mat(O, i)), ID3) + [c.eq(det3(o3mat(O, i)), 1)])


def cache_contract(c, was=None):
    """contract of the cache (C10): the requested number of valid rotations in exactly the requested parameterization, or KeyError"""
    gc = c.mod("gconv.geometry.groups._grid_cache")

    def load(size, grid_type, parameterization):
        p = parameterization.lower()
        if grid_type.lower() != "so3" or p not in ("quat", "matrix", "euler") or not c.choice("cached", [1, 0]):
            raise KeyError(size)
        if was is not None:
            was["cached"] = True
        nm = f"cached_{p}"
        return c.quat(nm, size) if p == "quat" else c.rotmat(nm, size) if p == "matrix" else c.tensor(nm, size, 3)
    return c.summary(gc, "load_grid", load)


@contract("C09 C10 C14 C12 C13", SO3 + "uniform_grid", trials=30)
def so3_uniform_grid(c):
    """exactly n rotations in the requested parameterization, from the cache or by repulsion"""
    so3 = c.g.so3
    n = c.dim("n", 1) if c.symbolic else c.choice("n", [1, 2, 3, 5, 8, 12, 31, 60, 61, 100, 200])
    par = c.choice("par", ["quat", "matrix", "euler", "QUAT", "Matrix", None])
    kw = {} if par is None else {"parameterization": par}
    par = (par or "quat").lower()
    stored = []
    gc = c.mod("gconv.geometry.groups._grid_cache")
    if c.symbolic:
        was = {}
        with cache_contract(c, was), repulsed(c), c.stub(so3, "euler_to_quat", 1, 4), c.stub(so3, "euler_to_matrix", 1, 3, 3), c.stub(so3, "matrix_to_euler", 2, 3), \
                c.summary(gc, "save_grid", lambda *a, **k: stored.append((a, k))):
            t = c.call(so3.uniform_grid, n, show_pbar=False, **kw)
            c.shape_is(t, n, *dict(quat=(4,), matrix=(3, 3), euler=(3,))[par])
            if was.get("cached"):
                want = {"quat": c.quat, "matrix": c.rotmat, "euler": lambda nm, n: c.tensor(nm, n, 3)}[par](f"cached_{par}", n)
            else:
                m = c.havoc(c.torch.empty(n, 3), "moved")
                want = c.quiet(dict(quat=so3.euler_to_quat, matrix=so3.euler_to_matrix, euler=lambda x: so3.matrix_to_euler(so3.euler_to_matrix(x)))[par], m)
        k = dict(quat=4, matrix=9, euler=3)[par]
        O, W = c.E(t.reshape(n, k)), c.E(want.reshape(n, k))
        c.forall("cached grid or repulsed grid converted to the requested form", (n,), lambda i: [c.eq(O[i, j], W[i, j]) for j in range(k)])
        c.is_value("nothing is stored unless asked for", len(stored), 0)
        return
    t = c.call(so3.uniform_grid, n, show_pbar=False, steps=2, **kw)
    c.shape_is(t, n, *dict(quat=(4,), matrix=(3, 3), euler=(3,))[par])
    valid_rotations(c, t, par)


def valid_rotations(c, t, par):
    n = t.shape[0]
    X = c.E(t)
    if par == "quat":
        c.forall("unit quaternions", (n,), lambda i: c.eq(sum(X[i, k] * X[i, k] for k in range(4)), 1, 1e-3))
    elif par == "matrix":
        c.forall("rotation matrices", (n,), lambda i: eqm(c, mm(tr(mat(X, (i,))), mat(X, (i,))), ID3, 1e-3) + [c.eq(det3(mat(X, (i,))), 1, 1e-3)])
    else:
        c.forall("angles within one full turn", (n,), lambda i: [c.true(-2 * c.pi - 1e-3 <= X[i, k] <= 2 * c.pi + 1e-3) for k in range(3)])


@contract("C09", SO3 + "uniform_grid", trials=10)
def so3_uniform_grid_invalid(c):
    """unsupported parameterizations are rejected"""
    n = c.dim("n", 1)
    p = c.choice("p", ["angle", "", "quaternion", "eul"])
    if c.symbolic:
        with cache_contract(c), repulsed(c):
            c.raises(ValueError, "unsupported parameterization", c.g.so3.uniform_grid, n, p, steps=1, show_pbar=False)
    else:
        c.raises(ValueError, "unsupported parameterization", c.g.so3.uniform_grid, n, p, steps=1, show_pbar=False)


@contract("C09 C12 C13 C14", O3 + "uniform_grid", trials=30)
def o3_uniform_grid(c):
    """the requested number of rotations first, then the requested number of reflections"""
    o3, so3 = c.g.o3, c.g.so3
    p = c.choice("parts", ["both", "rotations", "reflections"])
    a = c.dim("a", 1) if p != "reflections" else 0
    b = c.dim("b", 1) if p != "rotations" else 0
    only = c.choice("matrix_only", [False, True])
    grids = lambda size, parameterization="quat", *q, **k: (c.rotmat("uniform", size) if parameterization == "matrix" else c.quat("uniform", size)) if not (isinstance(size, int) and size == 0) else c.torch.Tensor([])
    with c.summary(so3, "uniform_grid", grids):
        out = c.call(o3.uniform_grid, (a, b), **({"matrix_only": True} if only else {}))
        R1, R2 = (c.E(c.quiet(so3.uniform_grid, x, "matrix")) if not (isinstance(x, int) and x == 0) else None for x in (a, b))
    if only:
        c.shape_is(out, a + b, 3, 3)
        O = c.E(out)
        M = lambda i: mat(O, (i,))
    else:
        c.shape_is(out, a + b, 10)
        O = c.E(out)
        M = lambda i: o3mat(O, (i,))
        c.forall("rotations first", (a,), lambda i: c.eq(O[i, 0], 1))
        c.forall("then reflections", (b,), lambda i: c.eq(O[a + i, 0], -1))
    if R1 is not None:
        c.forall("uniform rotations", (a,), lambda i: eqm(c, M(i), mat(R1, (i,))))
    if R2 is not None:
        c.forall("uniform reflections", (b,), lambda i: eqm(c, M(a + i), mat(R2, (i,))))


def group_checks(c, q, n):
    """distinct rotations, identity, closure, inverses (up to sign)"""
    c.shape_is(q, n, 4)
    q = q.double()
    c.is_value("unit quaternions", bool(((q * q).sum(-1) - 1).abs().max() < 1e-5), True)
    d = lambda a, b: (a[:, None] * b[None]).sum(-1).abs()
    D = d(q, q)
    D.fill_diagonal_(0)
    c.is_value("distinct elements", bool((D < 1 - 1e-6).all()) if n > 1 else True, True)
    c.is_value("identity", bool(q[:, 0].abs().max() > 1 - 1e-5), True)
    w, x, y, z = q.T
    P = c.torch.stack(qmul([k[:, None] for k in (w, x, y, z)], [k[None] for k in (w, x, y, z)]), -1).reshape(-1, 4)
    c.is_value("closed under product", bool(d(P, q).max(-1)[0].min() > 1 - 1e-5), True)
    inv = q * c.torch.tensor([1., -1, -1, -1])
    c.is_value("closed under inverse", bool(d(inv, q).max(-1)[0].min() > 1 - 1e-5), True)


@contract("C09", [SO3 + f for f in ("identity", "klein_group", "tetrahedral", "octahedral", "icosahedral")], kind="exhaustive", trials=12, note="the five constant groups, all pairs of elements")
def finite_groups(c):
    f, n = c.choice("group", [("identity", 1), ("klein_group", 4), ("tetrahedral", 12), ("octahedral", 24), ("icosahedral", 60)])
    group_checks(c, c.call(getattr(c.g.so3, f)), n)


AXES = {"x": 0, "y": 1, "z": 2}


@contract("C09", [SO3 + f for f in ("cyclic", "cyclic_x", "cyclic_y", "cyclic_z")])
def cyclic(c):
    """element k is the rotation about the axis by k / n of a full turn (hence a group of n distinct rotations)"""
    so3 = c.g.so3
    n = c.dim("n", 1)
    ax = c.choice("axis", ["x", "y", "z", "X", "Y", "Z"])
    direct = c.choice("direct", [0, 1])
    with c.stub(so3, "matrix_to_quat", 2, 4):
        out = c.call(getattr(so3, "cyclic_" + ax.lower()), n) if direct else c.call(so3.cyclic, n, ax)
        c.shape_is(out, n, 4)
        a = AXES[ax.lower()]
        p, q = (a + 1) % 3, (a + 2) % 3

        def R(i, x, y):
            t = c.div(2 * c.pi * c.int(i), n)
            return c.cos(t) if x == y and x != a else 1 if x == y else -c.sin(t) if (x, y) == (p, q) else c.sin(t) if (x, y) == (q, p) else 0
        M = c.build((n, 3, 3), R)
        want = c.quiet(so3.matrix_to_quat, M)
    O, W = c.E(out), c.E(want)
    if c.symbolic:
        c.forall("rotation by k / n turns about the axis", (n,), lambda i: [c.eq(O[i, k], W[i, k]) for k in range(4)])
    else:
        c.forall("rotation by k / n turns about the axis", (n,), lambda i: c.eq(abs(sum(O[i, k] * W[i, k] for k in range(4))), 1))


@contract("C09", [SO3 + "cyclic"], kind="bounded", trials=40, note="cyclic groups of up to 24 elements, all pairs")
def cyclic_groups(c):
    n = c.choice("n", list(range(1, 25)))
    group_checks(c, c.call(c.g.so3.cyclic, n, c.choice("axis", ["x", "y", "z"])), n)


@contract("C09", [SO3 + f for f in ("cyclic_x", "cyclic_y", "cyclic_z")] + [SO2 + "uniform_grid", O2 + "uniform_grid"], kind="exhaustive", trials=40, note="number of elements and spacing in floating point, sizes 1 to 300")
def floating_point_sizes(c):
    part = c.choice("tens", list(range(15)))
    for n in range(20 * part + 1, 20 * part + 21):
        for ax, (p, q) in zip("xyz", ((2, 3), (3, 1), (1, 2))):
            g = c.call(getattr(c.g.so3, "cyclic_" + ax), n)
            ok = tuple(g.shape) == (n, 4)
            if ok:
                t = c.torch.arange(n, dtype=c.torch.float64) * (c.pi / n)
                a = {"x": 1, "y": 2, "z": 3}[ax]
                ok = bool(((g[:, 0] * t.cos() + g[:, a] * t.sin()).abs() > 1 - 1e-3).all())
            c.is_value(f"cyclic group of order {n} about {ax}", ok, True)
        g = c.call(c.g.so2.uniform_grid, n)
        h = c.call(c.g.o2.uniform_grid, (n, n + 1))
        w = c.torch.arange(n)[:, None] * (2 * c.pi / n)
        c.is_value(f"planar grid of size {n}", tuple(g.shape) == (n, 1) and bool((g - w).abs().max() < 1e-4) and bool((g < 2 * c.pi).all()), True)
        c.is_value(f"planar signed grid of size {n}", tuple(h.shape) == (2 * n + 1, 2) and bool((h[:n, 1:] - w).abs().max() < 1e-4) and h[:, 0].tolist() == [1] * n + [-1] * (n + 1), True)


@contract("C09", SO3 + "cyclic", trials=6)
def cyclic_invalid(c):
    c.raises(ValueError, "unknown axis", c.g.so3.cyclic, c.dim("n", 1), c.choice("axis", ["w", "", "xy"]))


@contract("C09 C10", "gconv.geometry.groups._grid_cache.load_grid", kind="exhaustive", trials=1, note="every entry of the table that ships with the library")
def cached_entries(c):
    so3, gc = c.g.so3, c.mod("gconv.geometry.groups._grid_cache")
    tables = [(n, d) for n, d in vars(gc).items() if isinstance(d, dict) and not n.startswith("__") and "so3" in d]
    if not tables:
        c.assume(False)
    for _, table in tables:
        for par, grids in table["so3"].items():
            for n in grids:
                t = c.call(so3.uniform_grid, n, par, show_pbar=False)
                c.shape_is(t, n, *dict(quat=(4,), matrix=(3, 3), euler=(3,))[par])
                valid_rotations(c, t, par)
                c.is_value("finite", bool(c.torch.isfinite(t).all()), True)
