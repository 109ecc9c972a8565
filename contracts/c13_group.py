from engine.registry import contract
from contracts.util import *
from contracts.kernel_ops import *
from contracts.c12_lifting import KE, custom_setup, channels, elem_shape


def kwargs_of(c):
    both = c.choice("kw", [0, 1])
    return ({"shift": c.num("shift")}, {"width": c.num("width", pos=True)}) if both else ({}, {})


def moved(c, ops, X, V, h, p):
    e = ops.ent(X, h)
    hi = [ops.inv_e(e, j) for j in range(len(e))]
    return [ops.act_e(hi, vec(V, p, ops.d), j) for j in range(ops.d)]


def relative(ops, X, Y, a, b):
    """(inverse of the output element a) times (input element b)"""
    e, b = ops.ent(X, a), ops.ent(Y, b)
    inv = [ops.inv_e(e, j) for j in range(len(e))]
    return [ops.prod_e(inv, b, j) for j in range(len(e))]


def layouts(c, weight, G, ci, out, K=()):
    """the stored group signal of a channel pair: either layout of the parameters uses every parameter for exactly one pair"""
    W = c.E(weight)
    V = c.E(weight.reshape(G, ci, out, *K))
    return [lambda g, o, i, q=(): W[(g, o, i) + tuple(q)], lambda g, o, i, q=(): V[(g, i, o) + tuple(q)]]


def setup(c):
    d, ops, g, ci, out, K, mask, det, grid = custom_setup(c)
    kn, kh = kwargs_of(c)
    G = c.dim("G", 1)
    ref = ops.elements("ref", G)
    n, m = c.dim("n", 1), c.dim("m", 1)
    return d, ops, g, ci, out, K, mask, det, grid, kn, kh, G, ref, n, m


@contract("C13", [KE + "GKernel.forward", KE + "GKernel.__init__", KE + "GroupKernel.__init__"], trials=60, split={"d": 2, "element": 3})
def full_kernel(c):
    """group signal of the channel pair at the relative element, spatial part at positions moved by the inverse output element"""
    d, ops, g, ci, out, K, mask, det, grid, kn, kh, G, ref, n, m = setup(c)
    k = c.quiet(c.mod("gconv.gnn.kernels.kernel").GKernel, g * ci, out, K, (G,), ref, grid, groups=g, mask=mask, det_H=det, inverse_H=ops.inverse,
                left_apply_to_H=ops.product, left_apply_to_Rn=ops.act, sample_H=ops.sample_H, sample_Rn=ops.sample_Rn, sample_H_kwargs=kh, sample_Rn_kwargs=kn)
    Hi, Ho = ops.elements("Hi", m), ops.elements("Ho", n)
    w = c.call(k, mb(c, Hi), mb(c, Ho))
    c.shape_is(w, out, n, ci, m, *K)
    c.shape_is(k.weight, G, out, ci, *K, name="one group signal per channel pair and kernel position")
    O, X, Y, V, R = c.E(w), c.E(Ho), c.E(Hi), c.E(grid), c.E(ref)
    M = c.E(mask) if mask is not None else None

    def spec(L):
        def f(o, a, i, b, *p):
            h = relative(ops, X, Y, a, b)
            sig = lambda *q: ops.h_e(G, lambda t: L(t, o, i, q), lambda t: ops.ent(R, t), h, kh)
            r = ops.rn_e(K, sig, moved(c, ops, X, V, a, p), kn)
            if M is not None:
                r = M[p] * r
            return c.eq(O[(o, a, i, b) + p], r if det is None else c.div(r, ops.det_e(ops.ent(X, a))), 1e-4)
        return f
    c.either("sampled group and spatial part", (out, n, ci, m) + K, [spec(L) for L in layouts(c, k.weight, G, ci, out, K)])


@contract("C13", [KE + "GSeparableKernel.forward", KE + "GSeparableKernel.__init__", KE + "GroupKernel.__init__"], trials=60, split={"d": 2, "element": 3})
def separable_kernel(c):
    """group part per channel pair at the relative element, spatial part per output channel"""
    d, ops, g, ci, out, K, mask, det, grid, kn, kh, G, ref, n, m = setup(c)
    k = c.quiet(c.mod("gconv.gnn.kernels.kernel").GSeparableKernel, g * ci, out, K, (G,), ref, grid, groups=g, mask=mask, det_H=det, inverse_H=ops.inverse,
                left_apply_to_H=ops.product, left_apply_to_Rn=ops.act, sample_H=ops.sample_H, sample_Rn=ops.sample_Rn, sample_H_kwargs=kh, sample_Rn_kwargs=kn)
    Hi, Ho = ops.elements("Hi", m), ops.elements("Ho", n)
    wh, w = c.call(k, mb(c, Hi), mb(c, Ho))
    c.shape_is(wh, out, n, ci, m, *([1] * d))
    c.shape_is(w, out, n, 1, *K)
    c.shape_is(k.weight_H, G, out, ci, name="one group signal per channel pair")
    c.shape_is(k.weight, out, 1, *K, name="one spatial kernel per output channel")
    A, O, W, X, Y, V, R = c.E(wh), c.E(w), c.E(k.weight), c.E(Ho), c.E(Hi), c.E(grid), c.E(ref)
    M = c.E(mask) if mask is not None else None
    z = (0,) * d
    c.either("group part", (out, n, ci, m), [lambda o, a, i, b, L=L: c.eq(A[(o, a, i, b) + z], ops.h_e(G, lambda t: L(t, o, i), lambda t: ops.ent(R, t), relative(ops, X, Y, a, b), kh), 1e-4)
                                             for L in layouts(c, k.weight_H, G, ci, out)])

    def f(o, a, *p):
        r = ops.rn_e(K, lambda *q: W[(o, 0) + q], moved(c, ops, X, V, a, p), kn)
        if M is not None:
            r = M[p] * r
        return c.eq(O[(o, a, 0) + p], r if det is None else c.div(r, ops.det_e(ops.ent(X, a))), 1e-4)
    c.forall("spatial part", (out, n) + K, f)


@contract("C13", [KE + "GSubgroupKernel.forward", KE + "GSubgroupKernel.__init__", KE + "GroupKernel.__init__"], trials=60, split={"element": 3})
def subgroup_kernel(c):
    """group signal of the channel pair at the relative element"""
    d = c.choice("d", [2, 3])
    ops = Custom(c, d, elem_shape(c))
    g, ci, out = channels(c)
    _, kh = kwargs_of(c)
    G, n, m = c.dim("G", 1), c.dim("n", 1), c.dim("m", 1)
    ref = ops.elements("ref", G)
    k = c.quiet(c.mod("gconv.gnn.kernels.kernel").GSubgroupKernel, g * ci, out, (1,) * d, (G,), ref, groups=g, inverse_H=ops.inverse,
                left_apply_to_H=ops.product, sample_H=ops.sample_H, sample_H_kwargs=kh)
    Hi, Ho = ops.elements("Hi", m), ops.elements("Ho", n)
    w = c.call(k, mb(c, Hi), mb(c, Ho))
    c.shape_is(w, out, n, ci, m, *([1] * d))
    c.shape_is(k.weight, G, out, ci, name="one group signal per channel pair")
    A, X, Y, R = c.E(w), c.E(Ho), c.E(Hi), c.E(ref)
    z = (0,) * d
    c.either("group part", (out, n, ci, m), [lambda o, a, i, b, L=L: c.eq(A[(o, a, i, b) + z], ops.h_e(G, lambda t: L(t, o, i), lambda t: ops.ent(R, t), relative(ops, X, Y, a, b), kh), 1e-4)
                                             for L in layouts(c, k.weight, G, ci, out)])
