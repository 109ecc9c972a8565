"""Equivariance (C17): the kernels are unchanged when elements and positions move together, and a convolution with such
kernels moves its output like its input; shifts; global pooling."""
import itertools

from engine.registry import contract
from contracts.util import *
from contracts.groups import GROUPS, SO2, SO3, O2, O3
from contracts.layer_ops import stub_kernel
from contracts.c14_kernels import KS, BASE, Sampled, base_options, cases, cls, double, group_options, reference, HOW
from contracts.c18_pool import size

MO, MP = "gconv.gnn.modules.gconv.", "gconv.gnn.modules.pooling."
R2 = [[0, -1], [1, 0]]
RZ = [[0, -1, 0], [1, 0, 0], [0, 0, 1]]
RX = [[1, 0, 0], [0, 0, -1], [0, 1, 0]]
NEG = [[-1, 0, 0], [0, -1, 0], [0, 0, -1]]
ORDER = {2: (0, 1), 3: (2, 1, 0)}  # array axis of every coordinate (C11)


def make(name, props, funcs, f, **kw):
    f.__name__ = f.__qualname__ = name
    f.__module__ = __name__
    globals()[name] = contract(props, funcs, **kw)(f)


def generators(c, gr):
    """(element, its matrix on coordinates, determinant): products of these are all symmetries of the coordinate grid"""
    flat = lambda M: [x for r in M for x in r]
    return {"so2": [([c.pi / 2], R2, 1)], "o2": [([1, c.pi / 2], R2, 1)],
            "so3": [(flat(RZ), RZ, 1), (flat(RX), RX, 1)],
            "o3": [([1] + flat(RZ), RZ, 1), ([1] + flat(RX), RX, 1), ([-1] + flat(ID3), NEG, -1)]}[gr.mod]


def moved_index(M, p, n):
    """index of the position that M moves the position p to, in a cube of side n"""
    d = len(M)
    q = [None] * d
    for r in range(d):
        k = next(j for j in range(d) if M[r][j])
        i = p[ORDER[d][k]]
        q[ORDER[d][r]] = i if M[r][k] > 0 else n - 1 - i
    return tuple(q)


def inverse(M):
    return tr(M)


def moved(c, gr, g, H):
    """every element of the list H multiplied by g from the left"""
    X = c.E(H)

    def f(n, *j):
        e = gr.prod(g, gr.ent(X, n))
        k = 0
        for s, i in zip(gr.hs, j):
            k = k * s + i
        try:
            return e[int(k)]
        except TypeError:
            return sum(c.ind(c.cond_eq(k, q)) * e[q] for q in range(len(e)))
    return c.build((H.shape[0],) + gr.hs, f)


@contract("C17", ["gconv.gnn.functional.grid.create_grid_R2", "gconv.gnn.functional.grid.create_grid_R3",
                  "gconv.gnn.functional.mask.create_spherical_mask_R2", "gconv.gnn.functional.mask.create_spherical_mask_R3"])
def grid_symmetry(c):
    """the symmetries permute the coordinate grid and leave the mask unchanged"""
    d = c.choice("d", [2, 3])
    M = c.choice("generator", [R2] if d == 2 else [RZ, RX, NEG])
    n = 1 if c.choice("one", [0, 1]) else c.dim("n", 2)
    F = c.mod("gconv.gnn.functional")
    V, B = c.E(c.call(getattr(F, f"create_grid_R{d}"), n)), c.E(c.call(getattr(F, f"create_spherical_mask_R{d}"), n))
    c.forall("grid", (n,) * d, lambda *p: eqv(c, vec(V, moved_index(M, p, n), d), mv(M, vec(V, p, d))))
    c.forall("mask", (n,) * d, lambda *p: c.eq(B[moved_index(M, p, n)], B[p]))


def spatial(k, pre):
    return {} if k == 0 else {pre + "sampling_padding_mode": "zeros", "mask": False} if k == 1 else {pre + "sampling_padding_mode": "reflection"}


def kernel(kind, G):
    def f(c):
        """the same weights when all elements and the positions are moved by one symmetry, up to the sign of its determinant"""
        gr = G(c)
        g, M, det = c.choice("generator", generators(c, gr))
        so, how, one, gg, go = cases(c, 6, spatial=[0, 1, 2], grid=HOW[gr.reflections], one=[0, 1], groups=[1, 0], group=[2, 0, 2])
        ch, o1, ci, out = base_options(c, gg)
        opts = spatial(so, "" if kind == "Lifting" else "spatial_")
        ks = 1 if one else size(c, "k", 2, 3)
        gopts = {} if kind == "Lifting" else group_options(c, gr, go)
        with gr.patches():
            o2, grid, parts = reference(c, gr, how, few=kind == "Lifting")
            if gr.reflections and "group_kernel_size" not in o2 and kind == "Separable":
                o2["group_kernel_size"] = 1
            k = c.call(cls(c, f"G{kind}Kernel" + G.maps), *ch, ks, **o1, **o2, **opts, **gopts)
            grid = double(c, grid() if callable(grid) else grid)
            k = double(c, k)
            if kind != "Lifting":
                Sampled(c, gr, grid, parts, gopts).conditioned()
            n, m = c.dim("n", 1), c.dim("m", 1)
            full = not gr.reflections or 0 not in parts
            Ho = gr.elements("Ho", n, **({} if full else {"sign": 1 if parts[0] else -1}))
            Hi = gr.elements("Hi", m, **({} if full else {"sign": 1}))
            args = (Ho,) if kind == "Lifting" else (Hi, Ho)
            a = c.call(k, *args)
            b = c.call(k, *[moved(c, gr, g, H) for H in args])
            d = gr.d
            tol = 1e-3
            if kind == "Separable":
                (ah, a), (bh, b) = a, b
                c.shape_is(bh, *ah.shape, name="group part")
                A, B = c.E(ah), c.E(bh)
                c.forall("group part", tuple(ah.shape), lambda *i: c.eq(A[i], B[i], tol))
            c.shape_is(b, *a.shape)
            A, B = c.E(a), c.E(b)
            c.forall("moved kernel", tuple(a.shape), lambda *i: c.eq(det * A[i], B[i[:-d] + moved_index(M, i[-d:], ks)], tol))
    make(f"kernel_{kind.lower() or 'full'}_{G.maps.lower()}", "C17", [KS[G.maps] + f"G{kind}Kernel{G.maps}.__init__", BASE + f"G{kind}Kernel.forward"], f, trials=20, split={"case": 6})


for _G in GROUPS:
    for _k in ("Lifting", "Separable", ""):
        kernel(_k, _G)


def rearranged(c, t, M, lead):
    """the same values with the positions moved by M"""
    E = c.E(t)
    n, d, I = t.shape[-1], len(M), inverse(M)
    return c.build(tuple(t.shape), lambda *i: E[tuple(i[:lead]) + moved_index(I, i[lead:], n)])


def conv_layer(kind, d):
    def f(c):
        """with moved kernels, moved maps give moved output maps"""
        M = c.choice("generator", [R2] if d == 2 else [RZ, RX, NEG])
        case = c.choice("case", list(range(6)))
        k = [1, 2, 3, 2, 3, 3][case] if d == 2 or kind == "Lifting" else [1, 2, 2, 2, 1, 2][case]
        if not c.symbolic:
            k = c.choice("kernel size", [1, 2, 3])
        p = [0, size(c, "p", 0, 2), size(c, "p", 0, 2), "valid", "same" if k % 2 else 0, size(c, "p", 0, 1)][case]
        pm = ["zeros", "zeros", "zeros", "zeros", "zeros", "circular"][case] if c.symbolic else c.choice("mode", ["zeros", "circular", "replicate"])
        dil = [1, 1, 1, 2, 1, 1][case]
        g, ci, co = size(c, "g", 1, 2), size(c, "ci", 1, 2), size(c, "co", 1, 2)
        out, N, n, m = g * co, size(c, "N", 1, 2), size(c, "n", 1, 2), size(c, "m", 1, 2)
        X = size(c, "X", 1, 3) + dil * (k - 1)
        if pm != "zeros":
            X = X + (p if not isinstance(p, str) else 2)
        K, z = (k,) * d, (1,) * d
        bias = case % 2 == 0
        Hi, Ho, gHi, gHo = c.tensor("Hi", m, 1), c.tensor("Ho", n, 1), c.tensor("gHi", m, 1), c.tensor("gHo", n, 1)
        if kind == "Separable":
            wh, w = c.tensor("wH", out, n, ci, m, *z), c.tensor("w", out, n, 1, *K)
            ws, gws = (wh, w), (wh, rearranged(c, w, M, 3))
        elif kind == "":
            w = c.tensor("w", out, n, ci, m, *K)
            ws, gws = (w,), (rearranged(c, w, M, 4),)
        else:
            w = c.tensor("w", out, n, ci, *K)
            ws, gws = (w,), (rearranged(c, w, M, 3),)
        x = c.tensor("x", N, g * ci, *(() if kind == "Lifting" else (m,)), *(X,) * d)
        gx = rearranged(c, x, M, len(x.shape) - d)
        kern = two_faced(c, K, (out, ci) + K, ws, gws)
        o = {"padding": p, "dilation": dil, "groups": g, "bias": bias}
        if pm != "zeros":
            o["padding_mode"] = pm
        L = c.quiet(getattr(c.mod("gconv.gnn.modules.gconv"), f"G{kind}Conv{d}d"), g * ci, out, k, n, kern, **o)
        y, _ = c.call(L, x, *((Ho,) if kind == "Lifting" else (Hi, Ho)))
        kern.second = True
        gy, _ = c.call(L, gx, *((gHo,) if kind == "Lifting" else (gHi, gHo)))
        c.shape_is(gy, *y.shape)
        P = y.shape[-1]
        c.shape_is(y, *y.shape[:3], *(P,) * d, name="cubic output")
        A, B = c.E(y), c.E(gy)
        c.forall("moved output", tuple(y.shape), lambda *i: c.eq(A[i], B[i[:3] + moved_index(M, i[3:], P)], 1e-4))
    make(f"conv_{kind.lower() or 'full'}_{d}d", "C17", [MO + f"G{kind}Conv{d}d.__init__", MO + f"G{kind}ConvNd.forward", MO + f"GroupConvNd._conv{d}d_forward"], f, trials=40, cost=2, split={"generator": 1 if d == 2 else 3, "case": 6})


def two_faced(c, K, fan, ws, gws):
    """known by its contract only: the kernel returns the first weights and, for the moved elements, the moved ones"""
    class Kernel(c.nn.Module):
        def __init__(self):
            super().__init__()
            self.kernel_size = K
            self.weight = c.nn.Parameter(c.torch.empty(*fan))
            self.second = False

        def reset_parameters(self):
            pass

        def forward(self, *H):
            r = gws if self.second else ws
            return r[0] if len(r) == 1 else r
    return Kernel()


for _d in (2, 3):
    for _k in ("Lifting", "Separable", ""):
        conv_layer(_k, _d)


def shifted(c, x, y, s, lead):
    """the maps x moved by s, with arbitrary values y where nothing moved in"""
    X, Y = c.E(x), c.E(y)

    def f(*i):
        q = [p - t for p, t in zip(i[lead:], s)]
        inside = c.band(*[c.cond_le(0, p) for p in q])
        return c.ite(inside, X[tuple(i[:lead]) + tuple(c.ite(c.cond_le(0, p), p, 0) for p in q)], Y[i])
    return c.build(tuple(x.shape), f)


def shift(kind, d):
    def f(c):
        """a shifted input gives the shifted output wherever the kernel stays inside the map"""
        case = c.choice("case", [0, 1, 2])
        K = tuple(((1, 2, 2) if case == 0 else (2, 1, 1) if case == 1 else (3, 1, 1))[:d]) if c.symbolic else tuple(size(c, f"k{j}", 1, 3) for j in range(d))
        s, p = [size(c, f"s{j}", 0, 2) for j in range(d)], [size(c, f"p{j}", 0, 2) for j in range(d)]
        g, ci, co = size(c, "g", 1, 2), size(c, "ci", 1, 2), size(c, "co", 1, 2)
        out, N, n, m = g * co, size(c, "N", 1, 2), size(c, "n", 1, 2), size(c, "m", 1, 2)
        X = tuple(size(c, f"X{j}", 1, 3) + K[j] - 1 for j in range(d))
        Hi, Ho = c.tensor("Hi", m, 1), c.tensor("Ho", n, 1)
        w = c.tensor("w", *{"Lifting": (out, n, ci), "": (out, n, ci, m), "Separable": (out, n, 1)}[kind], *K)
        ws = (c.tensor("wH", out, n, ci, m, *(1,) * d), w) if kind == "Separable" else (w,)
        lead = (N, g * ci) + (() if kind == "Lifting" else (m,))
        x, r = c.tensor("x", *lead, *X), c.tensor("r", *lead, *X)
        kern = two_faced(c, K, (out, ci) + K, ws, ws)
        L = c.quiet(getattr(c.mod("gconv.gnn.modules.gconv"), f"G{kind}Conv{d}d"), g * ci, out, K, n, kern, padding=tuple(p), groups=g, bias=case == 1)
        args = (Ho,) if kind == "Lifting" else (Hi, Ho)
        A, B = c.E(c.call(L, x, *args)[0]), c.E(c.call(L, shifted(c, x, r, s, len(lead)), *args)[0])
        dims = tuple(X[j] + 2 * p[j] - K[j] + 1 for j in range(d))
        hyp = lambda q, o, a, *u: c.band(*[h for j in range(d) for h in (c.cond_le(p[j], u[j]), c.cond_le(u[j] - p[j] + s[j] + K[j], X[j]))])
        c.forall("shifted output", (N, out, n) + dims, lambda q, o, a, *u: c.eq(A[(q, o, a) + u], B[(q, o, a) + tuple(i + t for i, t in zip(u, s))], 1e-4), hyp)
    make(f"shift_{kind.lower() or 'full'}_{d}d", "C17", [MO + f"G{kind}ConvNd.forward"], f, trials=40)


for _d in (2, 3):
    for _k in ("Lifting", "Separable", ""):
        shift(_k, _d)


def pooled(kind):
    def f(c):
        """the global mean and maximum do not see a rearrangement of the positions"""
        d = c.choice("d", [2, 3])
        M = c.choice("generator", [R2] if d == 2 else [RZ, RX, NEG])
        X = c.choice("size", [1, 2, 3, 4]) if not c.symbolic else size(c, "X", 1, 4)
        N, C, n = size(c, "N", 1, 2), size(c, "C", 1, 2), size(c, "n", 1, 3)
        x = c.tensor("x", N, C, n, *(X,) * d)
        L = c.quiet(getattr(c.mod("gconv.gnn.modules"), f"G{kind}GlobalPool"))
        H = c.tensor("H", n, 1)
        got = [c.call(L, t, H) for t in (x, rearranged(c, x, M, 3))]
        a, b = [r[0] if isinstance(r, tuple) else r for r in got]
        c.shape_is(b, *a.shape)
        A, B = c.E(a), c.E(b)
        c.forall("invariant", tuple(a.shape), lambda *i: c.eq(A[i], B[i], 1e-4))
    make(f"pooled_{kind.lower()}", "C17", [MP + f"G{kind}GlobalPool.forward"], f, trials=40)


for _k in ("Avg", "Max"):
    pooled(_k)


ML = {"SE2": "gconv.gnn.modules.gconv_sen.gconv_se2.", "SE3": "gconv.gnn.modules.gconv_sen.gconv_se3.",
      "E2": "gconv.gnn.modules.gconv_en.gconv_e2.", "E3": "gconv.gnn.modules.gconv_en.gconv_e3."}


def network(G):
    def f(c):
        """a lifting and a further layer in a row, end to end: moved maps give moved maps, and invariant pooled features"""
        gr = G(c)
        g, M, det = c.choice("generator", generators(c, gr))
        kind = c.choice("kind", ["", "Separable"])
        mods = c.mod("gconv.gnn.modules")
        mk = lambda kd, *a, **k: double(c, getattr(mods, f"G{kd}Conv{G.maps}")(*a, permute_output_grid=False, **k))
        ks, grid = c.choice("kernel", [1, 2, 3]), c.choice("grid", [2, 4])
        o = {"kernel_size": ks, "padding": c.choice("padding", [0, 1])}
        gk = grid if not gr.reflections else (grid, grid)
        bias = det == 1
        L1 = mk("Lifting", 2, 3, group_kernel_size=gk, bias=bias, **o)
        L2 = mk(kind, 3, 2, group_kernel_size=gk, bias=bias, **o)
        for p in list(L1.parameters()) + list(L2.parameters()):
            with c.torch.no_grad():
                p.copy_(c.tensor("p", *p.shape) / 3)
        x = c.tensor("x", 2, 2, *(5,) * gr.d)
        H1, H2 = gr.elements("H1", c.dim("n", 1, 3)), gr.elements("H2", c.dim("m", 1, 3))
        gx = rearranged(c, x, M, 2)
        gH1, gH2 = moved(c, gr, g, H1), moved(c, gr, g, H2)
        y1, h1 = L1(x, H1)
        z1, k1 = L1(gx, gH1)
        y2, h2 = L2(y1, h1, H2)
        z2, k2 = L2(z1, k1, gH2)
        for name, y, z, s in (("lifting", y1, z1, det), ("second layer", y2, z2, 1)):
            c.shape_is(z, *y.shape, name=name)
            P = y.shape[-1]
            c.assume(bool(c.torch.isfinite(y).all()) and float(y.abs().max()) < 1e3)
            A, B = c.E(y), c.E(z)
            c.forall(name, tuple(y.shape), lambda *i: c.eq(s * A[i], B[i[:3] + moved_index(M, i[3:], P)], 1e-3))
        for P in ("Avg", "Max"):
            pool = getattr(mods, f"G{P}GlobalPool")()
            a, b = [(lambda r: r[0] if isinstance(r, tuple) else r)(pool(t, h)) for t, h in ((y2, h2), (z2, k2))]
            A, B = c.E(a), c.E(b)
            c.forall("invariant features", tuple(a.shape), lambda *i: c.eq(A[i], B[i], 1e-3))
    make(f"network_{G.maps.lower()}", "C17", [ML[G.maps] + f"G{k}Conv{G.maps}.forward" for k in ("Lifting", "Separable", "")], f, kind="bounded", trials=40,
         note="concrete runs only; implied by the kernel, convolution and pooling contracts of C17 and the layer contracts of C15, C16")


for _G in GROUPS:
    network(_G)
