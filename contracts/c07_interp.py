from engine.registry import contract
from contracts.util import *

IP = "gconv.geometry.interpolation."


@contract("C07 C08", IP + "RBF_gauss", trials=60)
def rbf_gauss(c):
    """a Gaussian that is one at zero and one half at the width (constant up to 1e-5)"""
    b = c.batch("b", (0, 1, 2, 3))
    x = mb(c, c.tensor("x", *b))
    w = c.num("w", lo=0.05, hi=5)
    out = c.call(c.g.interpolation.RBF_gauss, x, w)
    c.shape_is(out, *b)
    X, O = c.E(x), c.E(out)
    W = c.E(c.build((), lambda: w))[()]
    q = lambda i: c.div(X[i] * X[i], W * W)
    c.forall("gaussian", b, lambda *i: [c.le(c.exp(-0.69315 * q(i)), O[i]), c.le(O[i], c.exp(-0.69314 * q(i)))])
    c.forall("at most one", b, lambda *i: [c.lt(0, O[i]) if c.symbolic else c.le(0, O[i]), c.le(O[i], 1)])
    c.well_defined()


def rbf_of(c, ip):
    """the default Gaussian basis or an arbitrary one"""
    k = c.choice("rbf", ["default", "given"])
    if k == "default":
        return ip.RBF_gauss, {}
    if c.symbolic:
        f = lambda d, w: c.build(tuple(d.shape), lambda *i: c.func("basis")(d._rd()(tuple(i)), w)) if False else _opaque(c, d, w)
        return f, {"rbf": f}
    f = lambda d, w: 1 / (1 + (d / w) ** 2)
    return f, {"rbf": f}


def _opaque(c, d, w):
    rd = d._rd()
    g = c.func("basis")
    return c.build(tuple(d.shape), lambda *i: g(rd(tuple(i)), w))


def setting(c, lo=1):
    N, K, L, S = c.dim("N", 1), c.dim("K"), c.dim("L", lo), c.dim("S")
    D = c.choice("D", [1, 3, 4])
    nodes, grid, sig = c.tensor("nodes", N, K, D), c.tensor("grid", N, L, D), c.tensor("sig", N, L, S)
    f, e = c.rowfn("dist")
    return N, K, L, S, D, nodes, grid, sig, f, e


def solvable(c, N, L, D, rbf, d, grid, w):
    """concrete runs only: the system at the reference nodes is well conditioned"""
    if c.numel(N, L):
        Gd = c.E(grid)
        M = rbf(c.build((N, L, L), lambda n, i, l: d(vec(Gd, (n, i), D), vec(Gd, (n, l), D))), w)
        c.assume(float(c.torch.linalg.cond(M.double()).max()) < 100)


@contract("C07 C08", IP + "interpolate_RBF", trials=60, split={"D": 3})
def interpolate_RBF(c):
    """the combination of the basis functions with the coefficients that solve the system at the reference nodes"""
    ip = c.g.interpolation
    N, K, L, S, D, nodes, grid, sig, dist, d = setting(c)
    rbf, kw = rbf_of(c, ip)
    w = c.num("w", pos=True)
    if not c.symbolic:
        solvable(c, N, L, D, rbf, d, grid, w)
    out = c.call(ip.interpolate_RBF, mb(c, nodes), mb(c, grid), mb(c, sig), dist_fn=dist, width=w, **kw)
    c.shape_is(out, N, K, S)
    Nd, Gd = c.E(nodes), c.E(grid)
    M = c.quiet(rbf, c.build((N, L, L), lambda n, i, l: d(vec(Gd, (n, i), D), vec(Gd, (n, l), D))), w)
    p = c.E(c.quiet(rbf, c.build((N, K, L), lambda n, k, l: d(vec(Nd, (n, k), D), vec(Gd, (n, l), D))), w))
    co = c.E(c.torch.linalg.solve(M, sig))
    O = c.E(out)
    c.forall("combination of the coefficients", (N, K, S), lambda n, k, s: c.eq(O[n, k, s], c.sum(L, lambda l: p[n, k, l] * co[n, l, s]), tol=1e-3))


@contract("C07 C08", IP + "interpolate_RBF", trials=60, split={"D": 3})
def interpolate_RBF_nodes(c):
    """the value stored at a reference node is returned there"""
    ip = c.g.interpolation
    N, K, L, S, D, nodes, grid, sig, dist, d = setting(c)
    rbf, kw = rbf_of(c, ip)
    w = c.num("w", pos=True)
    if not c.symbolic:
        solvable(c, N, L, D, rbf, d, grid, w)
    out = c.call(ip.interpolate_RBF, grid, grid, sig, dist_fn=dist, width=w, **kw)
    c.shape_is(out, N, L, S)
    O, V = c.E(out), c.E(sig)
    c.forall("stored value", (N, L, S), lambda n, l, s: c.eq(O[n, l, s], V[n, l, s], tol=1e-3))


@contract("C07", IP + "interpolate_RBF", trials=40)
def interpolate_RBF_linear(c):
    """linear in the signal"""
    ip = c.g.interpolation
    N, K, L, S, D, nodes, grid, sig, dist, d = setting(c)
    w, a = c.num("w", pos=True), c.num("a")
    sig2 = c.tensor("sig2", N, L, S)
    r = lambda s: c.call(ip.interpolate_RBF, nodes, grid, s, dist_fn=dist, width=w)
    if not c.symbolic and c.numel(N, L):
        Gd = c.E(grid)
        M = ip.RBF_gauss(c.build((N, L, L), lambda n, i, l: d(vec(Gd, (n, i), D), vec(Gd, (n, l), D))), w)
        c.assume(float(c.torch.linalg.cond(M.double()).max()) < 100)
    A, B, C_ = c.E(r(sig)), c.E(r(sig2)), c.E(r(sig + a * sig2))
    c.forall("linear", (N, K, S), lambda n, k, s: c.eq(C_[n, k, s], A[n, k, s] + a * B[n, k, s], tol=1e-3))


@contract("C07 C08", IP + "interpolate_NN", trials=80, split={"D": 3})
def interpolate_NN(c):
    """the complete row of a reference node at the smallest distance"""
    ip = c.g.interpolation
    N, K, L, S, D, nodes, grid, sig, dist, d = setting(c)
    out = c.call(ip.interpolate_NN, mb(c, nodes), mb(c, grid), mb(c, sig), dist_fn=dist)
    c.shape_is(out, N, K, S)
    Nd, Gd, V, O = c.E(nodes), c.E(grid), c.E(sig), c.E(out)
    dn = lambda n, k: lambda l: d(vec(Nd, (n, k), D), vec(Gd, (n, l), D))
    nearest_row(c, "row of a nearest node", (N, K), L, S, dn, lambda n, k: lambda l, s: V[n, l, s], lambda n, k: lambda s: O[n, k, s])


@contract("C07", IP + "interpolate_RBF", kind="bounded", trials=40, note="independence of the order of the reference nodes; follows from the proved contract by uniqueness of the solution")
def interpolate_RBF_order(c):
    ip = c.g.interpolation
    N, K, L, S, D, nodes, grid, sig, dist, d = setting(c)
    w = c.num("w", pos=True)
    p = c.torch.randperm(L)
    Gd = c.E(grid)
    M = ip.RBF_gauss(c.build((N, L, L), lambda n, i, l: d(vec(Gd, (n, i), D), vec(Gd, (n, l), D))), w)
    c.assume(float(c.torch.linalg.cond(M.double()).max()) < 100)
    A, B = c.E(c.call(ip.interpolate_RBF, nodes, grid, sig, dist_fn=dist, width=w)), c.E(c.call(ip.interpolate_RBF, nodes, grid[:, p], sig[:, p], dist_fn=dist, width=w))
    c.forall("order does not matter", (N, K, S), lambda n, k, s: c.eq(A[n, k, s], B[n, k, s], tol=1e-3))


def bcc_setting(c):
    N, K, L, S = c.dim("N", 1), c.dim("K"), c.dim("L", 3), c.dim("S")
    D = c.choice("D", [3, 4])
    nodes, grid, sig = c.tensor("nodes", N, K, D), c.tensor("grid", N, L, D), c.tensor("sig", N, L, S)
    dist, d = c.rowfn("dist")
    return N, K, L, S, D, nodes, grid, sig, dist, d


@contract("C07", IP + "interpolate_BCC", trials=60)
def interpolate_BCC(c):
    """an affine combination of the rows: weights that sum to one and do not depend on the signal"""
    ip = c.g.interpolation
    N, K, L, S, D, nodes, grid, sig, dist, d = bcc_setting(c)
    out = c.call(ip.interpolate_BCC, nodes, grid, sig, dist_fn=dist)
    c.shape_is(out, N, K, S)
    one = c.E(c.call(ip.interpolate_BCC, nodes, grid, sig * 0 + 1, dist_fn=dist))
    c.forall("weights sum to one", (N, K, S), lambda n, k, s: c.eq(one[n, k, s], 1, 1e-3))
    a = c.num("a")
    O, Q = c.E(out), c.E(c.call(ip.interpolate_BCC, nodes, grid, a * sig, dist_fn=dist))
    c.forall("linear", (N, K, S), lambda n, k, s: c.eq(a * O[n, k, s], Q[n, k, s], 1e-3))


def distinct(c, nodes, grid, dist):
    """no ties between the nearest nodes"""
    x = dist(nodes[..., None, :], grid[..., None, :, :]).sort(-1)[0]
    return x.numel() == 0 or bool((x[..., 1:] - x[..., :-1]).min() > 1e-4)


@contract("C07", IP + "interpolate_BCC", kind="bounded", trials=80, note="sign of the weights, the stored value of a coinciding node and the irrelevance of all but the three nearest rows, for Euclidean distances without ties")
def interpolate_BCC_weights(c):
    """a blend of the three nearest rows"""
    ip = c.g.interpolation
    N, K, L, S, D, nodes, grid, sig, dist, d = bcc_setting(c)
    if K and L and c.choice("coinciding", [0, 1]):
        nodes = c.torch.cat([grid[:, :1], nodes[:, 1:]], 1)
    c.assume(distinct(c, nodes, grid, dist))
    out = c.call(ip.interpolate_BCC, nodes, grid, sig, dist_fn=dist)
    pos = c.E(c.call(ip.interpolate_BCC, nodes, grid, sig * sig, dist_fn=dist))
    c.forall("weights are not negative", (N, K, S), lambda n, k, s: c.le(0, pos[n, k, s]))
    Nd, Gd, V, O = c.E(nodes), c.E(grid), c.E(sig), c.E(out)
    dn = lambda n, k: lambda l: d(vec(Nd, (n, k), D), vec(Gd, (n, l), D))
    c.forall("stored value of a coinciding node", (N, K, S), lambda n, k, s: c.implies(
        c.cond_le(dn(n, k)(c.argsort_over(L, dn(n, k), 0)), 5e-7), lambda: c.eq(O[n, k, s], V[n, c.argsort_over(L, dn(n, k), 0), s])))
    if K:
        nodes = nodes[:, :1]
        near = lambda n, l: c.bor(*[c.cond_eq(l, c.argsort_over(L, dn(n, 0), j)) for j in range(3)])
        only = c.build((N, L, S), lambda n, l, s: c.ite(near(n, l), V[n, l, s], 0))
        A, B = (c.E(c.call(ip.interpolate_BCC, nodes, grid, x, dist_fn=dist)) for x in (sig, only))
        c.forall("only the three nearest rows matter", (N, 1, S), lambda n, k, s: c.eq(A[n, k, s], B[n, k, s], 1e-3))


@contract("C07", IP + "interpolate_BCC", kind="bounded", trials=60, note="every query coincides with a node, geodesic distances of sphere points and of quaternions up to sign; positive weights reproduce interior points")
def interpolate_BCC_nodes(c):
    ip = c.g.interpolation
    N, L, S = c.dim("N", 1), c.dim("L", 3), c.dim("S")
    k = c.choice("metric", ["s2", "quat", "quat-"])
    g = c.unit("g", N, L, 3) if k == "s2" else c.quat("g", N, L)
    sig = c.tensor("sig", N, L, S)
    f = c.g.s2.geodesic_distance_s2 if k == "s2" else c.g.so3.geodesic_distance
    c.assume(all(float(f(g[:, i], g[:, j]).min()) > 1e-2 for i in range(L) for j in range(i)))
    out = c.call(ip.interpolate_BCC, -g if k == "quat-" else g, g, sig, dist_fn=f)
    c.shape_is(out, N, L, S)
    O, V = c.E(out), c.E(sig)
    c.forall("stored value", (N, L, S), lambda *i: c.eq(O[i], V[i], 1e-3))
