from engine.registry import contract
from contracts.util import *
from contracts.kernel_ops import *

KE = "gconv.gnn.kernels.kernel."


def kernel_sizes(c, d):
    """spatial size of a kernel (a separate size per axis)"""
    return tuple(c.dim(f"k{j}", 1, 3) if c.symbolic is False else c.dim(f"k{j}", 1) for j in range(d))


def channels(c):
    """(input channels per channel group, channel groups, output channels)"""
    g, i, o = c.dim("g", 1, 2) if not c.symbolic else c.dim("g", 1), c.dim("ci", 1), c.dim("co", 1)
    return g, i, g * o


def elem_shape(c):
    return c.choice("element", [(1,), (2,), (3, 3)])


def custom_setup(c, need_H=False):
    d = c.choice("d", [2, 3])
    ops = Custom(c, d, elem_shape(c))
    g, ci, out = channels(c)
    K = kernel_sizes(c, d)
    mask = c.tensor("mask", *K) if c.choice("mask", [0, 1]) else None
    det = ops.det if c.choice("det", [0, 1]) else None
    grid = c.tensor("grid_Rn", *K, d)
    return d, ops, g, ci, out, K, mask, det, grid


@contract("C12", [KE + "GLiftingKernel.forward", KE + "GLiftingKernel.__init__", KE + "GroupKernel.__init__"], trials=60, split={"d": 2, "element": 3})
def lifting_kernel(c):
    """the base kernel sampled at positions moved by the inverse element, masked, divided by the determinant"""
    d, ops, g, ci, out, K, mask, det, grid = custom_setup(c)
    n = c.dim("n", 1)
    kw = {"shift": c.num("shift")} if c.choice("kw", [0, 1]) else {}
    ref = ops.elements("ref", c.dim("m", 1))
    k = c.quiet(c.mod("gconv.gnn.kernels.kernel").GLiftingKernel, g * ci, out, K, (ref.shape[0],), ref, grid, groups=g, mask=mask, det_H=det, inverse_H=ops.inverse,
                left_apply_to_Rn=ops.act, sample_Rn=ops.sample_Rn, sample_Rn_kwargs=kw)
    H = ops.elements("H", n)
    w = c.call(k, mb(c, H))
    c.shape_is(w, out, n, ci, *K)
    c.shape_is(k.weight, out, ci, *K, name="one base kernel per channel pair")
    O, W, X, V = c.E(w), c.E(k.weight), c.E(H), c.E(grid)
    M = c.E(mask) if mask is not None else None

    def f(o, h, i, *p):
        e = ops.ent(X, h)
        hi = [ops.inv_e(e, j) for j in range(len(e))]
        v = [ops.act_e(hi, vec(V, p, d), j) for j in range(d)]
        r = ops.rn_e(K, lambda *q: W[(o, i) + q], v, kw)
        if M is not None:
            r = M[p] * r
        return c.eq(O[(o, h, i) + p], r if det is None else c.div(r, ops.det_e(e)), 1e-4)
    c.forall("moved base kernel", (out, n, ci) + K, f)
