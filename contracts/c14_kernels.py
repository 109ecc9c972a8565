"""The kernels of the predefined groups, end to end: options, operations of the right group, sampled weights (C12, C13, C14)."""
import itertools

from engine.registry import contract
from contracts.util import *
from contracts.groups import GROUPS, SO3
from contracts.c12_lifting import channels
from contracts.c13_group import layouts

KS = {"SE2": "gconv.gnn.kernels.kernel_sen.kernel_se2.", "SE3": "gconv.gnn.kernels.kernel_sen.kernel_se3.",
      "E2": "gconv.gnn.kernels.kernel_en.kernel_e2.", "E3": "gconv.gnn.kernels.kernel_en.kernel_e3."}
BASE = "gconv.gnn.kernels.kernel."


def cls(c, name):
    return getattr(c.mod("gconv.gnn.kernels"), name)


def small(c, name, lo=1, hi=3):
    return c.dim(name, lo) if c.symbolic else c.dim(name, lo, hi)


def reference(c, gr, how, few=False):
    """(constructor options, reference grid, part sizes)"""
    lo = 1 if few else 2
    if not gr.reflections:
        G = small(c, "G", lo, 5)
        if how == "given":
            grid = gr.elements("ref", G)
            return {"grid_H": grid}, grid, (G,)
        if how == "given, size ignored":
            grid = gr.elements("ref", G)
            return {"grid_H": grid, "group_kernel_size": small(c, "G2", 1, 5)}, grid, (G,)
        return {"group_kernel_size": G}, lambda: gr.uniform(G), (G,)
    A, B = small(c, "A", lo, 4), small(c, "B", lo, 4)
    if how == "uniform int":
        return {"group_kernel_size": A}, lambda: gr.uniform((A, A)), (A, A)
    if how == "uniform":
        return {"group_kernel_size": (A, B)}, lambda: gr.uniform((A, B)), (A, B)
    if how == "rotations only":
        grid = gr.elements("ref", A, sign=1)
        return {"grid_H": grid, "group_kernel_size": 2}, grid, (A, 0)
    if how == "uniform rotations only":
        return {"group_kernel_size": (A, 0)}, lambda: gr.uniform((A, 0)), (A, 0)
    if how == "reflections only":
        grid = gr.elements("ref", B, sign=-1)
        return {"grid_H": grid, "group_kernel_size": (1, 3)}, grid, (0, B)
    grid = c.torch.cat((gr.elements("ref", A, sign=1), gr.elements("refl", B, sign=-1)), 0)
    return {"grid_H": grid, "group_kernel_size": (2, 1)}, grid, (A, B)


def close(c, got, alts, tol=1e-4):
    """got is the specified value (concretely: one of the values within a rounding error of the arguments)"""
    if c.symbolic:
        return c.eq(got, next(iter(alts())), tol)
    first = None
    for x in alts():
        g = c.eq(got, x, tol)
        if g.ok:
            return g
        first = first or g
    return first


def cases(c, n, **axes):
    """n combinations of options in which every option of every axis occurs (concretely any combination)"""
    j = c.choice("case", list(range(n)))
    if not c.symbolic and c.choice("mix", [0, 1]):
        return [c.choice(k, v) for k, v in axes.items()]
    out = []
    for t, v in enumerate(axes.values()):
        out.append(v[(j + (j // len(v) + 1) * t) % len(v)] if n > len(v) else v[(j + t) % len(v)])
    return out


def double(c, x):
    """concrete runs: grids from the shipped table are single precision"""
    return x if c.symbolic else x.to(c.dt)


class Spatial:
    """a map sampled at moved positions"""

    def __init__(self, c, gr, K, grid, mode, padding):
        self.c, self.gr, self.K, self.V, self.mode, self.padding = c, gr, K, c.E(grid), mode, padding
        self.memo = {}

    def at(self, w, h, p, key=None):
        """values of the map w (a function of the position index) at position p moved by the inverse of h"""
        c, d = self.c, self.gr.d
        hi = self.gr.inv(h)
        v = self.gr.act(hi, vec(self.V, p, d))

        def alts():
            M = self.memo.get(key) if key is not None and not c.symbolic else None
            if M is None:
                M = c.build((1, 1) + self.K, lambda b, ch, *q: w(*q))
                if key is not None:
                    self.memo[key] = M
            e = 1e-7 if c.symbolic or not c.f32 else 1e-5
            for dv in [(0,) * d] if c.symbolic or self.mode != "nearest" else itertools.product((0, e, -e), repeat=d):
                P = c.build((1,) * (d + 1) + (d,), lambda *j: v[int(j[-1])] + dv[int(j[-1])])
                yield c.E(c.F.grid_sample(M, P, mode=self.mode, padding_mode=self.padding, align_corners=False))[(0,) * (d + 2)]
        return alts


def spatial_options(k, prefix=""):
    """(options as passed, mode, padding mode, mask wanted)"""
    if k == 0:
        return {}, "bilinear", "border", True
    if k == 1:
        return {prefix + "sampling_mode": "nearest", prefix + "sampling_padding_mode": "zeros", "mask": False}, "nearest", "zeros", False
    return {prefix + "sampling_mode": "bilinear", prefix + "sampling_padding_mode": "reflection", "mask": True}, "bilinear", "reflection", True


def size_of(c, one):
    return 1 if one else (c.dim("k", 2) if c.symbolic else c.dim("k", 2, 3))


def base_options(c, given):
    g, ci, out = channels(c)
    if given:
        return (g * ci, out), {"groups": g}, ci, out
    return (ci, out), {}, ci, out


def common(c, gr, k, grid, parts, mask):
    """attributes users read, reference grid, coordinate grid and mask"""
    gF = c.mod("gconv.gnn.functional")
    d = gr.d
    c.is_value("kernel size", tuple(k.kernel_size) == (k.kernel_size[0],) * d, True)
    E, R = c.E(k.grid_H), c.E(grid)
    c.shape_is(k.grid_H, *grid.shape, name="reference grid size")
    c.forall("reference grid", tuple(grid.shape), lambda *i: c.eq(E[i], R[i], 1e-5))


def positions(c, gr, n):
    gF = c.mod("gconv.gnn.functional")
    return c.quiet(getattr(gF, f"create_grid_R{gr.d}"), n)


def masked(c, gr, n):
    gF = c.mod("gconv.gnn.functional")
    return c.E(c.quiet(getattr(gF, f"create_spherical_mask_R{gr.d}"), n))


HOW = {False: ["given", "uniform", "given, size ignored"],
       True: ["both parts", "uniform", "uniform int", "rotations only", "reflections only", "uniform rotations only"]}


def in_out(c, gr, parts, n, m):
    """input and output elements whose relative elements lie in the parts of the reference grid"""
    if not gr.reflections or 0 not in parts:
        return gr.elements("Hi", m), gr.elements("Ho", n)
    return gr.elements("Hi", m, sign=1), gr.elements("Ho", n, sign=1 if parts[0] else -1)


class Sampled:
    """one signal of the reference grid sampled at one element"""

    def __init__(self, c, gr, grid, parts, opts):
        self.c, self.gr, self.grid, self.parts = c, gr, grid, parts
        c_mean = lambda g: 0.8 * c.quiet(gr.near.nearest_neighbour_distance, g).mean()
        mode = opts.get("group_sampling_mode", opts.get("sampling_mode", "rbf"))
        self.mode = mode
        if gr.reflections:
            a, b = parts
            r = gr.part(grid)
            kw = dict(signal_grid_size=parts, mode=mode)
            w1, w2 = opts.get("group_rotation_sampling_width"), opts.get("group_reflection_sampling_width")
            zero = lambda n: isinstance(n, int) and n == 0
            kw["rotation_width"] = w1 if w1 else (0.0 if zero(a) else c_mean(r[:a]))
            kw["reflection_width"] = w2 if w2 else (0.0 if zero(b) else c_mean(r[a:]))
        else:
            w = opts.get("group_sampling_width", opts.get("sampling_width"))
            kw = dict(mode=mode, width=w if w else c_mean(grid))
        self.kw = kw

    def conditioned(self, single=False):
        """concrete runs: keep away from (nearly) singular interpolation systems"""
        c, gr = self.c, self.gr
        if c.symbolic or self.mode != "rbf":
            return
        c.assume(single or not c.f32)
        near = gr.near
        toq = (lambda x: x) if gr.base == "so2" else near.matrix_to_quat
        ps = [(self.grid, self.kw["width"])] if not gr.reflections else [(gr.part(self.grid)[:self.parts[0]], self.kw["rotation_width"]), (gr.part(self.grid)[self.parts[0]:], self.kw["reflection_width"])]
        for g, w in ps:
            if g.shape[0]:
                g = toq(g)
                M = c.g.interpolation.RBF_gauss(near.geodesic_distance(g[:, None], g[None]), w)
                c.assume(bool(c.torch.isfinite(M).all()) and float(c.torch.linalg.cond(M.double())) < 1e4)

    def at(self, sig, rel, S=()):
        """sampled values (a list of alternatives) of the signals sig(l, *s) at the element rel, one per index s below S"""
        c, gr = self.c, self.gr
        L = self.grid.shape[0]
        sg = c.build((L,) + tuple(S), lambda l, *s: sig(l, *s))
        sg = sg.reshape(L, -1) if S else sg.reshape(L, 1)
        es = [rel] if c.symbolic or self.mode == "rbf" else gr.nudged(rel)
        if not c.symbolic:
            return (c.quiet(gr.m.grid_sample, gr.row(e), sg, self.grid, **self.kw).reshape(tuple(S)) for e in es)
        return [c.quiet(gr.m.grid_sample, gr.row(e), sg, self.grid, **self.kw).reshape(tuple(S)) for e in es]


def group_options(c, gr, k, pre="group_"):
    """explicit or default widths and modes"""
    if k == 0:
        return {}
    if k == 1:
        return {"group_sampling_mode" if pre else "sampling_mode": "nearest"}
    if gr.reflections:
        return {"group_rotation_sampling_width": c.num("w1", lo=0.1, hi=2), "group_reflection_sampling_width": c.num("w2", lo=0.1, hi=2)}
    return {pre + "sampling_width": c.num("w", lo=0.1, hi=2)}


def make(name, props, funcs, f, **kw):
    f.__name__ = f.__qualname__ = name
    f.__module__ = __name__
    globals()[name] = contract(props, funcs, **kw)(f)


def lifting(G):
    def f(c):
        """the base kernel of the channel pair at positions moved by the inverse element, masked, over the determinant"""
        gr = G(c)
        so, how, one, gg, lay = cases(c, 6, spatial=[0, 1, 2], grid=HOW[gr.reflections], one=[0, 1], groups=[1, 0], lay=[0, 1])
        ch, o1, ci, out = base_options(c, gg)
        opts, mode, padding, mask = spatial_options(so)
        ks = size_of(c, one)
        with gr.patches():
            o2, grid, parts = reference(c, gr, how, few=True)
            k = c.call(cls(c, "GLiftingKernel" + G.maps), *ch, ks, **o1, **o2, **opts)
            grid = double(c, grid() if callable(grid) else grid)
            k = double(c, k)
            common(c, gr, k, grid, parts, mask)
            H = gr.elements("H", c.dim("n", 1))
            H = c.permuted(H) if lay else H
            w = c.call(k, H)
            n, K = H.shape[0], (ks,) * gr.d
            c.shape_is(w, out, n, ci, *K)
            c.shape_is(k.weight, out, ci, *K, name="one base kernel per channel pair")
            S = Spatial(c, gr, K, positions(c, gr, ks), mode, padding)
            O, W, X = c.E(w), c.E(k.weight), c.E(H)
            M = masked(c, gr, ks) if mask else None

            def g(o, h, i, *p):
                e = gr.ent(X, h)
                f = 1 if M is None else M[p]
                a = S.at(lambda *q: W[(o, i) + q], e, p, (o, i))
                return close(c, O[(o, h, i) + p], lambda: (c.div(f * x, gr.det(e)) if gr.reflections else f * x for x in a()))
            c.forall("moved base kernel", (out, n, ci) + K, g)
    return f


def separable(G, part):
    def f(c):
        """group signal of the channel pair at the relative element; spatial kernel of the output channel at moved positions"""
        gr = G(c)
        if part == "spatial":
            so, one, gg, lay = cases(c, 6, spatial=[0, 1, 2], one=[0, 1], groups=[1, 0], lay=[0, 1])
            opts, mode, padding, mask = spatial_options(so, "spatial_")
            gopts, how, ks = {}, HOW[gr.reflections][0], size_of(c, one)
        else:
            opts, mode, padding, mask = {}, "bilinear", "border", True
            go, how, gg, lay = cases(c, 6, group=[0, 1, 2], grid=HOW[gr.reflections], groups=[1, 0], lay=[0, 1])
            gopts, ks = group_options(c, gr, go), 1
        ch, o1, ci, out = base_options(c, gg)
        with gr.patches():
            o2, grid, parts = reference(c, gr, how)
            if gr.reflections and "group_kernel_size" not in o2:
                o2["group_kernel_size"] = 1
            k = c.call(cls(c, "GSeparableKernel" + G.maps), *ch, ks, **o1, **o2, **opts, **gopts)
            grid = double(c, grid() if callable(grid) else grid)
            k = double(c, k)
            common(c, gr, k, grid, parts, mask)
            T = Sampled(c, gr, grid, parts, gopts)
            T.conditioned(part == "spatial")
            Hi, Ho = in_out(c, gr, parts, c.dim("n", 1), c.dim("m", 1))
            if lay:
                Hi, Ho = c.permuted(Hi), c.permuted(Ho)
            wh, w = c.call(k, Hi, Ho)
            n, m, K = Ho.shape[0], Hi.shape[0], (ks,) * gr.d
            c.shape_is(wh, out, n, ci, m, *([1] * gr.d))
            c.shape_is(w, out, n, 1, *K)
            L = grid.shape[0]
            c.shape_is(k.weight_H, L, out, ci, name="one group signal per channel pair")
            c.shape_is(k.weight, out, 1, *K, name="one spatial kernel per output channel")
            X, Y = c.E(Ho), c.E(Hi)
            z = (0,) * gr.d
            if part == "group":
                A = c.E(wh)

                def spec(lay):
                    return lambda o, a, i, b: close(c, A[(o, a, i, b) + z], lambda: (c.E(t)[()] for t in T.at(lambda l: lay(l, o, i), gr.prod(gr.inv(gr.ent(X, a)), gr.ent(Y, b)))), 1e-3)
                c.either("group part", (out, n, ci, m), [spec(lay) for lay in layouts(c, k.weight_H, L, ci, out)])
                return
            S = Spatial(c, gr, K, positions(c, gr, ks), mode, padding)
            O, W = c.E(w), c.E(k.weight)
            M = masked(c, gr, ks) if mask else None

            def g(o, a, *p):
                e = gr.ent(X, a)
                f = 1 if M is None else M[p]
                v = S.at(lambda *q: W[(o, 0) + q], e, p, o)
                return close(c, O[(o, a, 0) + p], lambda: (c.div(f * x, gr.det(e)) if gr.reflections else f * x for x in v()))
            c.forall("spatial part", (out, n) + K, g)
    return f


def full(G):
    def f(c):
        """group signal of the channel pair at the relative element, spatial part at positions moved by the inverse output element"""
        gr = G(c)
        oc, how, one, gg = cases(c, 6, options=[0, 1, 2], grid=HOW[gr.reflections], one=[0, 1], groups=[1, 0])
        opts, mode, padding, mask = spatial_options(oc, "spatial_")
        gopts = group_options(c, gr, oc)
        ch, o1, ci, out = base_options(c, gg)
        ks = size_of(c, one)
        with gr.patches():
            o2, grid, parts = reference(c, gr, how)
            k = c.call(cls(c, "GKernel" + G.maps), *ch, ks, **o1, **o2, **opts, **gopts)
            grid = double(c, grid() if callable(grid) else grid)
            k = double(c, k)
            common(c, gr, k, grid, parts, mask)
            T = Sampled(c, gr, grid, parts, gopts)
            T.conditioned()
            Hi, Ho = in_out(c, gr, parts, c.dim("n", 1), c.dim("m", 1))
            w = c.call(k, Hi, Ho)
            n, m, K = Ho.shape[0], Hi.shape[0], (ks,) * gr.d
            c.shape_is(w, out, n, ci, m, *K)
            L = grid.shape[0]
            c.shape_is(k.weight, L, out, ci, *K, name="one group signal per channel pair and kernel position")
            O, X, Y = c.E(w), c.E(Ho), c.E(Hi)
            M = masked(c, gr, ks) if mask else None

            def spec(lay):
                S = Spatial(c, gr, K, positions(c, gr, ks), mode, padding)
                memo = {}

                def g(o, a, i, b, *p):
                    e = gr.ent(X, a)
                    f = 1 if M is None else M[p]
                    key = (o, a, i, b)

                    def alts():
                        for j in itertools.count():
                            if c.symbolic or (key, j) not in memo:
                                if j == 0:
                                    memo[key] = iter(T.at(lambda l, *q: lay(l, o, i, q), gr.prod(gr.inv(e), gr.ent(Y, b)), K))
                                t = next(memo[key], None)
                                memo[key, j] = None if t is None else c.E(t)
                            s = memo[key, j]
                            if s is None:
                                return
                            for x in S.at(lambda *q: s[q], e, p, (key, j))():
                                yield c.div(f * x, gr.det(e)) if gr.reflections else f * x
                    return close(c, O[(o, a, i, b) + p], alts, 1e-3)
                return g
            c.either("sampled group and spatial part", (out, n, ci, m) + K, [spec(lay) for lay in layouts(c, k.weight, L, ci, out, K)])
    return f


for _G in GROUPS:
    _k = KS[_G.maps]
    _n = _G.maps.lower()
    make("lifting_" + _n, "C12 C14", [_k + f"GLiftingKernel{_G.maps}.__init__", BASE + "GLiftingKernel.forward"], lifting(_G), trials=30, split={"case": 6})
    make("separable_group_" + _n, "C13 C14", [_k + f"GSeparableKernel{_G.maps}.__init__", BASE + "GSeparableKernel.forward"], separable(_G, "group"), trials=30, split={"case": 6})
    make("separable_spatial_" + _n, "C13 C14", [_k + f"GSeparableKernel{_G.maps}.__init__", BASE + "GSeparableKernel.forward"], separable(_G, "spatial"), trials=25, split={"case": 6})
    make("full_" + _n, "C13 C14", [_k + f"GKernel{_G.maps}.__init__", BASE + "GKernel.forward"], full(_G), trials=30, split={"case": 6})


@contract("C13 C14", ["gconv.gnn.kernels.kernel_sen.kernel_so3.GSubgroupKernelSO3.__init__", BASE + "GSubgroupKernel.forward"], trials=40, split={"case": 6})
def subgroup_so3(c):
    """group signal of the channel pair at the relative element"""
    gr = SO3(c)
    go, how, gg, lay = cases(c, 6, group=[0, 1, 2], grid=HOW[False], groups=[1, 0], lay=[0, 1])
    ch, o1, ci, out = base_options(c, gg)
    gopts = group_options(c, gr, go, "")
    with gr.patches():
        o2, grid, parts = reference(c, gr, how)
        size = o2.pop("group_kernel_size", 2)
        k = c.call(cls(c, "GSubgroupKernelSO3"), *ch, size, **o1, **o2, **gopts)
        grid = double(c, grid() if callable(grid) else grid)
        k = double(c, k)
        common(c, gr, k, grid, parts, False)
        T = Sampled(c, gr, grid, parts, gopts)
        T.conditioned()
        Hi, Ho = gr.elements("Hi", c.dim("m", 1)), gr.elements("Ho", c.dim("n", 1))
        w = c.call(k, *((c.permuted(Hi), c.permuted(Ho)) if lay else (Hi, Ho)))
        n, m, L = Ho.shape[0], Hi.shape[0], grid.shape[0]
        c.shape_is(w, out, n, ci, m, 1, 1, 1)
        c.shape_is(k.weight, L, out, ci, name="one group signal per channel pair")
        A, X, Y = c.E(w), c.E(Ho), c.E(Hi)

        def spec(lay):
            return lambda o, a, i, b: close(c, A[o, a, i, b, 0, 0, 0], lambda: (c.E(t)[()] for t in T.at(lambda l: lay(l, o, i), gr.prod(gr.inv(gr.ent(X, a)), gr.ent(Y, b)))), 1e-3)
        c.either("group part", (out, n, ci, m), [spec(lay) for lay in layouts(c, k.weight, L, ci, out)])
