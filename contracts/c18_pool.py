"""Pooling: per group element in space, over all group elements in the group, over both globally (C18)."""
from engine.registry import contract
from contracts.util import *

MP = "gconv.gnn.modules.pooling."


def make(name, props, funcs, f, **kw):
    f.__name__ = f.__qualname__ = name
    f.__module__ = __name__
    globals()[name] = contract(props, funcs, **kw)(f)


def size(c, name, lo, hi):
    return c.dim(name, lo) if c.symbolic else c.dim(name, lo, hi)


def spatial_case(c, kind, d, case):
    """(positional options, keyword options, spatial size): every option of the ordinary layer occurs"""
    if kind.startswith("Adaptive"):
        o = tuple(size(c, f"o{j}", 1, 3) for j in range(d))
        X = tuple(size(c, f"X{j}", 1, 4) for j in range(d))
        if case == 0:
            return (o,), {}, X
        if case == 1:
            return (o[0],), {}, X
        if case == 2:
            return (), {"output_size": (None,) + o[1:]}, X
        return (), {"output_size": o[0]}, X
    ps = tuple(size(c, f"p{j}", 0, 1) for j in range(d))
    ks = tuple(2 * ps[j] + size(c, f"k{j}", 1, 2) for j in range(d))
    st = tuple(size(c, f"s{j}", 1, 3) for j in range(d))
    di = tuple(size(c, f"d{j}", 1, 2) for j in range(d))
    X = [size(c, f"X{j}", 1, 3) for j in range(d)]
    mx = kind == "Max"
    if case == 0:  # number for all axes, default stride
        a, k = (ks[0],), {}
        ks, di = (ks[0],) * d, (1,) * d
    elif case == 1:  # tuples
        a, k = (ks, st, ps) + ((di,) if mx else ()), {}
        if not mx:
            di = (1,) * d
    elif case == 2:
        a, k = (), dict(kernel_size=ks, stride=st[0], padding=ps, ceil_mode=True)
        di = (1,) * d
    elif case == 3:
        a, k = (ks[0], st), dict(padding=ps[0])
        if mx:
            k["dilation"] = di[0]
            di = (di[0],) * d
        else:
            k["count_include_pad"] = False
            di = (1,) * d
        ks = (ks[0],) * d
    else:
        a, k = (ks,), dict(stride=None)
        if not mx:
            k["divisor_override"] = size(c, "dv", 1, 5)
            k["padding"] = ps
        di = (1,) * d
    return a, k, tuple(x + di[j] * (ks[j] - 1) for j, x in enumerate(X))


def spatial(kind, d):
    def f(c):
        """the ordinary pooling of every single map; group axis in place; elements returned"""
        case = c.choice("case", list(range(4 if kind.startswith("Adaptive") else 5)))
        a, k, X = spatial_case(c, kind, d, case)
        L = c.quiet(getattr(c.mod("gconv.gnn.modules"), f"G{kind}SpatialPool{d}d"), *a, **k)
        ref = getattr(c.nn, f"{kind}Pool{d}d")(*a, **k)
        N, C, n = size(c, "N", 1, 2), size(c, "C", 1, 3), size(c, "n", 1, 6)
        x = mb(c, c.tensor("x", N, C, n, *X))
        H = c.tensor("H", n, *c.choice("element", [(1,), (3, 3)]))
        r = c.call(L, x, H)
        c.is_value("a pair of maps and elements", isinstance(r, tuple) and len(r) == 2, True)
        y, HH = r
        c.same_object("elements passed through", HH, H)
        want = ref(x.permute(0, 2, 1, *range(3, 3 + d)).reshape(N * n, C, *X))
        P = tuple(want.shape[2:])
        c.shape_is(y, N, C, n, *P)
        Y, W = c.E(y), c.E(want)
        c.forall("every map pooled alone", (N, C, n) + P, lambda b, o, h, *p: c.eq(Y[(b, o, h) + p], W[(b * n + h, o) + p], 1e-5))
    make(f"{kind.lower()}_spatial_{d}d", "C18", [MP + f"G{kind}SpatialPool{d}d.forward"], f, trials=40)


for _k in ("Max", "Avg", "AdaptiveMax", "AdaptiveAvg"):
    for _d in (2, 3):
        spatial(_k, _d)


def nd_shape(c):
    d = c.choice("spatial axes", [2, 3, 0, 1])
    return size(c, "N", 1, 2), size(c, "C", 1, 3), size(c, "n", 1, 7), tuple(size(c, f"X{j}", 1, 3) for j in range(d))


def extreme(c, dims, f):
    if not dims:
        return f()
    return c.max_over(dims[0], lambda i: extreme(c, dims[1:], lambda *r: f(i, *r)))


def total(c, dims, f):
    if not dims:
        return f()
    return c.sum(dims[0], lambda i: total(c, dims[1:], lambda *r: f(i, *r)))


def group(kind):
    def f(c):
        """maximum or mean over the group elements at every position, a plain tensor, whatever the order of the elements"""
        N, C, n, X = nd_shape(c)
        x = mb(c, c.tensor("x", N, C, n, *X))
        L = c.quiet(getattr(c.mod("gconv.gnn.modules"), f"G{kind}GroupPool"))
        y = c.call(L, x) if c.choice("elements given", [0, 1]) else c.call(L, x, c.tensor("H", n, 1))
        c.is_value("a plain tensor", isinstance(y, c.torch.Tensor), True)
        c.shape_is(y, N, C, *X)
        E, Y = c.E(x), c.E(y)
        if kind == "Max":
            spec = lambda b, o, *p: c.max_over(n, lambda h: E[(b, o, h) + p])
        else:
            spec = lambda b, o, *p: c.div(c.sum(n, lambda h: E[(b, o, h) + p]), n)
        c.forall("over the group", (N, C) + X, lambda b, o, *p: c.eq(Y[(b, o) + p], spec(b, o, *p), 1e-5))
    make(f"{kind.lower()}_group", "C18", [MP + f"G{kind}GroupPool.forward"], f, trials=40)

    def g(c):
        """maximum or mean over group elements and positions jointly, one trailing axis of size one"""
        N, C, n, X = nd_shape(c)
        x = mb(c, c.tensor("x", N, C, n, *X))
        L = c.quiet(getattr(c.mod("gconv.gnn.modules"), f"G{kind}GlobalPool"))
        y = c.call(L, x) if c.choice("elements given", [0, 1]) else c.call(L, x, c.tensor("H", n, 1))
        c.is_value("a plain tensor", isinstance(y, c.torch.Tensor), True)
        c.shape_is(y, N, C, 1)
        E, Y = c.E(x), c.E(y)
        if kind == "Max":
            spec = lambda b, o: extreme(c, (n,) + X, lambda *p: E[(b, o) + p])
        else:
            cnt = n
            for s in X:
                cnt = cnt * s
            spec = lambda b, o: c.div(total(c, (n,) + X, lambda *p: E[(b, o) + p]), cnt)
        c.forall("over group and positions", (N, C), lambda b, o: c.eq(Y[b, o, 0], spec(b, o), 1e-5))
    make(f"{kind.lower()}_global", "C18", [MP + f"G{kind}GlobalPool.forward"], g, trials=40)


for _k in ("Max", "Avg"):
    group(_k)


@contract("C18", [MP + f"G{k}{w}Pool.forward" for k in ("Max", "Avg") for w in ("Group", "Global")] + [MP + f"G{a}{k}SpatialPool{d}d.forward" for a in ("", "Adaptive") for k in ("Max", "Avg") for d in (2, 3)],
          kind="bounded", trials=40, note="maps with infinite and undefined entries (machine values outside the real numbers)")
def non_finite(c):
    """infinite and undefined entries are pooled as by the ordinary operations"""
    t, m = c.torch, c.mod("gconv.gnn.modules")
    d = c.choice("spatial axes", [2, 3])
    N, C, n, X = c.dim("N", 1, 2), c.dim("C", 1, 2), c.dim("n", 1, 3), tuple(c.dim(f"X{j}", 2, 3) for j in range(d))
    x = c.tensor("x", N, C, n, *X).detach().clone()
    for v in (c.inf, -c.inf, c.inf - c.inf):
        x[t.rand(x.shape) < c.choice("share", [0.03, 0.2])] = v
    H = c.tensor("H", n, 1)
    k = c.choice("pool", ["MaxGroup", "AvgGroup", "MaxGlobal", "AvgGlobal", "Max", "Avg", "AdaptiveMax", "AdaptiveAvg"])
    if k.endswith("Group"):
        y, want = c.call(getattr(m, f"G{k}Pool")(), x, H), (x.amax(2) if k[0] == "M" else x.mean(2))
    elif k.endswith("Global"):
        f = x.reshape(N, C, -1, 1)
        y, want = c.call(getattr(m, f"G{k}Pool")(), x, H), (f.amax(2) if k[0] == "M" else f.mean(2))
    else:
        y, h = c.call(getattr(m, f"G{k}SpatialPool{d}d")(2), x, H)
        r = getattr(c.nn, f"{k}Pool{d}d")(2)
        want = t.stack([r(x[:, :, i]) for i in range(n)], 2)
    c.shape_is(y, *want.shape)
    c.check("as the ordinary operation", c.true(bool(t.allclose(y, want, rtol=1e-4, atol=1e-5, equal_nan=True))))
