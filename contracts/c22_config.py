"""Constructors reject the invalid configurations with ValueError, accept all others; re-initialisation keeps to its bounds (C22)."""
from engine.registry import contract
from contracts.util import *
from contracts.groups import GROUPS
from contracts.c18_pool import size

MO = "gconv.gnn.modules.gconv."
ML = {"SE2": "gconv.gnn.modules.gconv_sen.gconv_se2.", "SE3": "gconv.gnn.modules.gconv_sen.gconv_se3.",
      "E2": "gconv.gnn.modules.gconv_en.gconv_e2.", "E3": "gconv.gnn.modules.gconv_en.gconv_e3."}
KINDS = ("Lifting", "Separable", "")


def make(name, props, funcs, f, **kw):
    f.__name__ = f.__qualname__ = name
    f.__module__ = __name__
    globals()[name] = contract(props, funcs, **kw)(f)


class Base:
    """a base layer over an arbitrary kernel"""

    def __init__(self, c, kind, d, nd=False):
        self.c, self.kind, self.d, self.nd = c, kind, d, nd
        self.cls = getattr(c.mod("gconv.gnn.modules.gconv"), f"G{kind}Conv{'N' if nd else d}d") if kind != "Group" else c.mod("gconv.gnn.modules.gconv").GroupConvNd
        self.kernels = []

    def __call__(self, i, o, gk=None, **k):
        c = self.c
        d = self.d
        ks = k.pop("kernel_size", None)
        if ks is None:
            ks = size(c, "k", 1, 3)
        ks = ks if isinstance(ks, tuple) else (ks,) * d
        shape = k.pop("shape", None) or ((o, i) + ks)

        class Kernel(c.nn.Module):
            def __init__(self):
                super().__init__()
                self.kernel_size = ks
                self.weight = c.nn.Parameter(c.torch.zeros(*shape))
                self.resets = 0

            def reset_parameters(self):
                self.resets = self.resets + 1
        kern = Kernel()
        self.kernels.append(kern)
        if self.nd:
            for n in ("stride", "dilation"):
                v = k.get(n, 1)
                k[n] = v if isinstance(v, tuple) else (v,) * d
            k.setdefault("conv_mode", f"{d}d")
        return self.cls(i, o, ks, gk if gk is not None else 1, kern, **k)


class Predefined:
    """a layer of a predefined group on a given reference grid"""

    def __init__(self, c, kind, G, grid=True):
        self.c, self.kind, self.G = c, kind, G
        self.gr = G(c)
        self.d = G.d
        self.cls = getattr(c.mod("gconv.gnn.modules"), f"G{kind}Conv{G.maps}")
        self.ref = None
        self.grid = grid

    def __call__(self, i, o, gk=None, **k):
        c = self.c
        ks = k.pop("kernel_size", None)
        if ks is None:
            ks = size(c, "k", 1, 3)
        if self.ref is None and self.grid:
            n = 4
            self.ref = self.gr.elements("ref", n) if not self.gr.reflections else c.torch.cat((self.gr.elements("ref", 2, sign=1), self.gr.elements("refl", 2, sign=-1)), 0)
        gk = gk if gk is not None else (4 if not self.gr.reflections else (2, 2))
        if self.grid:
            k["grid_H"] = self.ref
        with self.gr.patches():
            return self.cls(i, o, kernel_size=ks, group_kernel_size=gk, **k)


def rejected(name, funcs, mk, tuples, modes=False):
    """every documented reason alone, with all other options valid"""
    def f(c):
        """ValueError for every invalid configuration"""
        reason = c.choice("reason", ["groups", "in channels", "out channels", "padding", "same", "same tuple", "mode"] + (["sizes", "sizes sum"] if tuples else []) + (["dimension"] if modes else []))
        L = mk(c)
        d = L.d
        g, a, b = size(c, "g", 2, 4), size(c, "a", 0, 2), size(c, "b", 0, 2)
        i, o, k, gk = g * (a + 1), g * (b + 1), {"groups": g}, None
        if reason == "groups":
            k["groups"] = -size(c, "neg", 0, 3)
        elif reason in ("in channels", "out channels"):
            r = size(c, "r", 1, 3)
            c.assume(c.lt(r, g))
            i, o = (g * a + r, o) if reason == "in channels" else (i, g * b + r)
        elif reason == "padding":
            k["padding"] = c.choice("string", ["full", "Same", "VALID", "", "zeros", "sam", "same "])
        elif reason == "same":
            k.update(padding="same", stride=1 + size(c, "s", 1, 3))
        elif reason == "same tuple":
            st = [1] * d
            st[c.choice("axis", list(range(d)))] = 1 + size(c, "s", 1, 3)
            k.update(padding="same", stride=tuple(st))
        elif reason == "mode":
            k["padding_mode"] = c.choice("string", ["constant", "zero", "Reflect", "", "same", "replication", "circular "])
            if c.choice("with padding", [0, 1]):
                k["padding"] = c.choice("padding", ["same", "valid"])
        elif reason == "sizes":
            x, y = -size(c, "neg", 1, 3), size(c, "y", 0, 6)
            gk = (x, y) if c.choice("order", [0, 1]) else (y, x)
        elif reason == "sizes sum":
            gk = (0, 0)
        else:
            k["conv_mode"] = c.choice("dimension", ["1d", "2D", "", "4d", "3", "23d"])
        if reason not in ("padding", "same", "same tuple") and c.choice("padded", [0, 1]):
            k.setdefault("padding", size(c, "p", 0, 2))
        if c.choice("biased", [0, 1]):
            k["bias"] = True
        c.raises(ValueError, f"ValueError: {reason}", L, i, o, gk, **k)
    make(name, "C22", funcs, f, trials=40, paths=4000)


def accepted(name, funcs, mk, extra):
    """the full product of the options"""
    def f(c):
        """constructs for every combination of valid options; attributes; parameters initialised within their bounds, again on request"""
        pad = c.choice("padding", ["number", "tuple", "same", "valid", "default"])
        mode = c.choice("mode", ["zeros", "reflect", "replicate", "circular", None])
        bias = c.choice("bias", [True, False, None])
        grouped = c.choice("grouped", [1, 0])
        L = mk(c)
        d = L.d
        g = size(c, "g", 1, 3) if grouped else 1
        a, b = size(c, "a", 1, 2), size(c, "b", 1, 2)
        i, o, k = g * a, g * b, {}
        if grouped:
            k["groups"] = g
        if pad == "number":
            k.update(padding=size(c, "p", 0, 2), stride=size(c, "s", 1, 3), dilation=size(c, "d", 1, 2))
        elif pad == "tuple":
            k.update(padding=tuple(size(c, f"p{j}", 0, 2) for j in range(d)), stride=tuple(size(c, f"s{j}", 1, 3) for j in range(d)), dilation=tuple(size(c, f"d{j}", 1, 2) for j in range(d)))
        elif pad == "same":
            k.update(padding="same", dilation=size(c, "d", 1, 2), **([{}, {"stride": 1}, {"stride": (1,) * d}][(bool(bias) + grouped) % 3]))
        elif pad == "valid":
            k.update(padding="valid", stride=size(c, "s", 1, 3))
        if mode is not None:
            k["padding_mode"] = mode
        if bias is not None:
            k["bias"] = bias
        x = extra(c, L)
        gk = x.pop("gk", None)
        k.update(x)
        M = c.quiet(L, i, o, gk, **k)
        c.is_value("channels", [M.in_channels == i, M.out_channels == o, M.groups == g], [True] * 3)
        c.is_value("bias wanted", M.bias is not None, bool(bias))
        W = M.kernel.weight
        fan = c.numel(*W.shape[1:])
        names = [n for n, _ in M.named_parameters()]
        shapes = {n: tuple(p.shape) for n, p in M.named_parameters()}

        def bounds():
            if bias:
                B = c.E(M.bias)
                c.is_value("one bias per output channel", c.numel(*M.bias.shape) == o, True)
                c.forall("bias within 1 / sqrt(fan in)", tuple(M.bias.shape), lambda *j: [c.le(B[j] * B[j] * fan, 1, 1e-4)])
        bounds()
        before = {n: p.detach().clone() for n, p in M.named_parameters()}
        kern = M.kernel
        r0 = getattr(kern, "resets", None)
        c.quiet(M.reset_parameters)
        c.is_value("same parameters", [n for n, _ in M.named_parameters()], names)
        for n, p in M.named_parameters():
            c.shape_is(p, *shapes[n], name=f"shape of {n}")
        if r0 is not None:
            c.is_value("the kernel is initialised again", kern.resets == r0 + 1, True)
        bounds()
        for n, p in M.named_parameters():
            if n == "kernel.weight" and r0 is not None:
                continue
            if c.symbolic:
                c.is_value(f"{n} drawn again", fresh(p, before[n]), True)
            else:
                c.is_value(f"{n} drawn again", bool((p != before[n]).any()), True)
    make(name, "C22", funcs, f, trials=60, paths=4000)


def fresh(p, q):
    """different generator draws"""
    from engine import terms as T
    ix = tuple(T.var(f"i{j}", "I", 0) for j in range(p.ndim))
    return p._rd()(ix) is not q._rd()(ix)


for _k in KINDS:
    for _d in (2, 3):
        _n = f"{_k.lower() or 'full'}_{_d}d"
        _f = [MO + f"G{_k}Conv{_d}d.__init__", MO + "GroupConvNd.__init__"]
        rejected("rejects_" + _n, _f, lambda c, k=_k, d=_d: Base(c, k, d), True)
        accepted("accepts_" + _n, _f + [MO + "GroupConvNd.reset_parameters"], lambda c, k=_k, d=_d: Base(c, k, d),
                 lambda c, L: {"gk": c.choice("sizes", [3, (2, 1), (0, 1), (5, 0), (4,)])})
for _d in (2, 3):
    rejected(f"rejects_nd_{_d}d", [MO + "GroupConvNd.__init__"], lambda c, d=_d: Base(c, c.choice("kind", ["Group", "Lifting", "Separable", ""]), d, True), True, True)


def predefined_extra(c, L):
    e = {}
    e["permute_output_grid"] = c.choice("permute", [True, False])
    e["mask"] = c.choice("mask", [True, False])
    return e


for _G in GROUPS:
    for _k in KINDS:
        _n = f"{_k.lower() or 'full'}_{_G.maps.lower()}"
        _f = [ML[_G.maps] + f"G{_k}Conv{_G.maps}.__init__"]
        rejected("rejects_" + _n, _f, lambda c, k=_k, G=_G: Predefined(c, k, G, c.choice("grid given", [1, 0])), _G.reflections)
        accepted("accepts_" + _n, _f, lambda c, k=_k, G=_G: Predefined(c, k, G), predefined_extra)


@contract("C22", [MO + "GroupConvNd.reset_parameters", "gconv.gnn.kernels.kernel.GSeparableKernel.reset_parameters", "gconv.gnn.kernels.kernel.GKernel.reset_parameters",
                  "gconv.gnn.kernels.kernel.GSubgroupKernel.reset_parameters", "gconv.gnn.kernels.kernel.GLiftingKernel.reset_parameters"])
def kernel_bounds(c):
    """uniformly initialised kernels: within 1 / sqrt(fan in), where the fan in is that of the ordinary initialisation"""
    K = c.mod("gconv.gnn.kernels.kernel")
    name = c.choice("kernel", ["GSeparableKernel", "GKernel", "GSubgroupKernel", "GLiftingKernel"])
    d = c.choice("d", [2, 3])
    g, a, b = size(c, "g", 1, 2), size(c, "a", 1, 2), size(c, "b", 1, 2)
    ks = tuple(size(c, f"k{j}", 1, 3) for j in range(d))
    n = size(c, "n", 1, 4)
    k = c.quiet(getattr(K, name), g * a, g * b, ks, (n,), groups=g, grid_H=c.tensor("H", n, 1), **({} if name == "GSubgroupKernel" else {"grid_Rn": c.tensor("R", *ks, d)}))
    shapes = {q: tuple(p.shape) for q, p in k.named_parameters()}

    def bounds():
        if name == "GLiftingKernel":
            return
        for q, p in k.named_parameters():
            B, fan = c.E(p), c.numel(*p.shape[1:])
            c.forall(f"{q} within 1 / sqrt(fan in)", tuple(p.shape), lambda *j: [c.le(B[j] * B[j] * fan, 1, 1e-4)])
    bounds()
    before = {q: p.detach().clone() for q, p in k.named_parameters()}
    c.quiet(k.reset_parameters)
    bounds()
    for q, p in k.named_parameters():
        c.shape_is(p, *shapes[q], name=f"shape of {q}")
        c.is_value(f"{q} drawn again", fresh(p, before[q]) if c.symbolic else bool((p != before[q]).any()), True)
