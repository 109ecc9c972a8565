from engine.registry import contract
from contracts.util import *

SO2, O2, SO3, O3 = (f"gconv.geometry.groups.{g}.grid_sample" for g in ("so2", "o2", "so3", "o3"))


def mode_of(c):
    return c.choice("mode", ["rbf", "nearest"])


def interp(c, mode, q, ref, sig, dist, width):
    """the chosen interpolation of one batch entry (interpolate_RBF and interpolate_NN are under contract themselves)"""
    ip = c.g.interpolation
    if mode == "rbf":
        return c.quiet(ip.interpolate_RBF, q[None], ref[None], sig[None], dist_fn=dist, width=width)[0]
    return c.quiet(ip.interpolate_NN, q[None], ref[None], sig[None], dist_fn=dist)[0]


def solvable(c, M):
    if not c.symbolic and M.numel():
        c.assume(float(c.torch.linalg.cond(M.double()).max()) < 1e4)


def conditioned(c, mode, ref, dist, width):
    """concrete runs: keep away from singular systems (their solution is noise)"""
    if not c.symbolic and mode == "rbf" and ref.shape[0]:
        solvable(c, c.g.interpolation.RBF_gauss(dist(ref[:, None], ref[None]), width))


def rows(c, name, out, exp, N, S):
    O, X = c.E(out), c.E(exp)
    c.forall(name, (N, S), lambda n, s: c.eq(O[n, s], X[n, s], 1e-3))


@contract("C08 C13", SO2)
def so2_grid_sample(c):
    """one interpolated row per query, in query order, under the planar geodesic distance"""
    so2 = c.g.so2
    N, L, S = c.dim("N"), c.dim("L", 1), c.dim("S")
    q, ref, sig = c.tensor("q", N, 1), c.tensor("ref", L, 1), c.tensor("sig", L, S)
    w, mode = c.num("w", lo=0.05, hi=2), mode_of(c)
    conditioned(c, mode, ref, so2.geodesic_distance, w)
    out = c.call(so2.grid_sample, mb(c, q), mb(c, sig), mb(c, ref), mode=mode, width=w)
    c.shape_is(out, N, S)
    rows(c, "interpolation of the reference signal", out, interp(c, mode, q, ref, sig, so2.geodesic_distance, w), N, S)


@contract("C08 C13", SO3, split={"form": 2})
def so3_grid_sample(c):
    """one interpolated row per query, in query order, under the spatial geodesic distance"""
    so3 = c.g.so3
    N, L, S = c.dim("N"), c.dim("L", 1), c.dim("S")
    mk = lambda k, n: c.quat(n + k, N if n == "q" else L) if k == "quat" else c.rotmat(n + k, N if n == "q" else L)
    form = c.choice("form", ["quat", "matrix"])
    fr = c.choice("reference form", ["quat", "matrix"])
    q, ref, sig = mk(form, "q"), mk(fr, "ref"), c.tensor("sig", L, S)
    w, mode = c.num("w", lo=0.05, hi=2), mode_of(c)
    with c.stub(so3, "matrix_to_quat", 2, 4):
        toq = lambda f, x: x if f == "quat" else c.quiet(so3.matrix_to_quat, x)
        conditioned(c, mode, toq(fr, ref), so3.geodesic_distance, w)
        out = c.call(so3.grid_sample, mb(c, q), mb(c, sig), mb(c, ref), mode=mode, width=w)
        c.shape_is(out, N, S)
        rows(c, "interpolation of the reference signal", out, interp(c, mode, toq(form, q), toq(fr, ref), sig, so3.geodesic_distance, w), N, S)


@contract("C08", [SO2, SO3, O2, O3], trials=40)
def other_modes(c):
    """any other mode is rejected"""
    bad = c.choice("bad", ["bilinear", "RBF", "", "linear", None, "bcc"])
    k = c.choice("group", ["so2", "so3", "so3m", "o2", "o3"])
    g = getattr(c.g, k.rstrip("m"))
    N, L, S = c.dim("N", 1), c.dim("L", 1), c.dim("S")
    mk = {"so2": lambda n, m: c.tensor(n, m, 1), "so3": c.quat, "so3m": c.rotmat, "o2": c.o2, "o3": c.o3}[k]
    q, ref, sig = mk("q", N), mk("ref", L), c.tensor("sig", L, S)
    extra = {"signal_grid_size": (L, 0)} if k in ("o2", "o3") else {}
    if extra:
        side = c.choice("reflections only", [0, 1])
        if side:
            extra = {"signal_grid_size": (0, L)}
    with c.stub(c.g.so3, "matrix_to_quat", 2, 4):
        c.raises(ValueError, "other modes rejected", g.grid_sample, q, sig, ref, mode=bad, **extra)


def parts(c):
    """sizes of the reference parts: both, rotations only (then no reflection is asked for), reflections only"""
    return c.choice("parts", ["both", "rotations", "reflections"])


def on_sample(c, group, mk, dist, pick):
    N, S, p = c.dim("N"), c.dim("S"), parts(c)
    a = c.dim("A", 1) if p != "reflections" else 0
    b = c.dim("B", 1) if p != "rotations" else 0
    q = mk("q", N, sign={"both": None, "rotations": 1, "reflections": -1}[p])
    # the reference lists its rotations first and its reflections afterwards (its coefficients play no part)
    ref, sig = mk("ref", a + b), c.tensor("sig", a + b, S)
    w1, w2, mode = c.num("w1", lo=0.05, hi=2), c.num("w2", lo=0.05, hi=2), mode_of(c)
    x, r = pick(q), pick(ref)
    if a:
        conditioned(c, mode, r[:a], dist, w1)
    if b:
        conditioned(c, mode, r[a:], dist, w2)
    out = c.call(group.grid_sample, mb(c, q), mb(c, sig), mb(c, ref), (a, b), mode=mode, rotation_width=w1, reflection_width=w2)
    c.shape_is(out, N, S)
    rot = c.E(interp(c, mode, x, r[:a], sig[:a], dist, w1)) if a else None
    mir = c.E(interp(c, mode, x, r[a:], sig[a:], dist, w2)) if b else None
    O, Q = c.E(out), c.E(q)
    if p == "rotations":
        c.forall("rotations use the rotation part", (N, S), lambda n, s: c.eq(O[n, s], rot[n, s], 1e-3))
    elif p == "reflections":
        c.forall("reflections use the reflection part", (N, S), lambda n, s: c.eq(O[n, s], mir[n, s], 1e-3))
    else:
        c.forall("each query uses its own part", (N, S), lambda n, s: c.eq(O[n, s], c.ite(c.cond_eq(Q[n, 0], 1), rot[n, s], mir[n, s]), 1e-3))


@contract("C08 C13", O2, split={"parts": 3})
def o2_grid_sample(c):
    """each query uses only the part of its own component, with that part's width, in query order"""
    on_sample(c, c.g.o2, c.o2, c.g.so2.geodesic_distance, lambda g: g[:, 1:])


@contract("C08 C13", O3, split={"parts": 3})
def o3_grid_sample(c):
    """each query uses only the part of its own component, with that part's width, in query order"""
    so3 = c.g.so3
    with c.stub(so3, "matrix_to_quat", 2, 4):
        on_sample(c, c.g.o3, c.o3, so3.geodesic_distance, lambda g: c.quiet(so3.matrix_to_quat, g[:, 1:].unflatten(-1, (3, 3))))
