"""Normalisation, activation and wrapping treat group elements like further positions (C19)."""
from engine.registry import contract
from contracts.util import *
from contracts.c18_pool import size, total

MN, MA, MW = "gconv.gnn.modules.normalization.", "gconv.gnn.modules.activations.", "gconv.gnn.modules.wrappers."


def make(name, props, funcs, f, **kw):
    f.__name__ = f.__qualname__ = name
    f.__module__ = __name__
    globals()[name] = contract(props, funcs, **kw)(f)


def returned(c, r, H):
    c.is_value("a pair of maps and elements", isinstance(r, tuple) and len(r) == 2, True)
    c.same_object("elements returned unchanged", r[1], H)
    return r[0]


def elements(c, n):
    return c.tensor("H", n, *c.choice("element", [(1,), (3, 3)]))




def norm(kind, d):
    inst = kind == "Instance"

    def f(c):
        """mean and variance jointly over group elements and positions (and samples); running statistics; affine parameters"""
        case = c.choice("case", list(range(6)))
        affine = (True, False, None, True, None, True)[case]
        track = (None, False, True, True, None, True)[case]
        mom = (None, None, "m", "none", None, None)[case]
        train = (True, True, True, True, False, False)[case]
        C = size(c, "C", 1, 3)
        o = {}
        if affine is not None:
            o["affine"] = affine
        if track is not None:
            o["track_running_stats"] = track
        if mom == "m":
            o["momentum"] = 0.25
        elif mom == "none":
            o["momentum"] = None
        eps = 1e-5
        if case in (1, 3):
            o["eps"] = eps = 0.5
        L = c.quiet(getattr(c.mod("gconv.gnn.modules"), f"G{kind}Norm{d}d"), C, **o)
        ref = getattr(c.nn, f"{kind}Norm{d}d")(C, **o)
        affine, track = ref.affine, ref.track_running_stats
        c.is_value("options kept", (L.affine, L.track_running_stats, L.momentum, L.num_features is ref.num_features or L.num_features == ref.num_features), (affine, track, ref.momentum, True))
        if not c.symbolic and not c.f32:
            L = L.double()
        w = b = rm = rv = None
        bufs = []
        with c.torch.no_grad():
            if affine:
                w, b = c.tensor("w", C), c.tensor("b", C)
                L.weight.copy_(w)
                L.bias.copy_(b)
            if track:
                rm, rv = c.tensor("rm", C), c.tensor("rv", C)
                rv = rv * rv
                L.running_mean.copy_(rm)
                L.running_var.copy_(rv)
                bufs = [L.running_mean, L.running_var, L.num_batches_tracked]
        L.train(train)
        # (torch refuses to normalise a single value)
        single = c.choice("single element", [0, 1])
        N, n = size(c, "N", 1, 3), 1 if single else size(c, "n", 2, 7)
        X = tuple(size(c, f"X{j}", 1 + single, 3) for j in range(d))
        x = mb(c, c.tensor("x", N, C, n, *X))
        H = elements(c, n)
        y = returned(c, c.writes(bufs if train else [], L, x, H), H)
        c.shape_is(y, N, C, n, *X)
        E, Y = c.E(x), c.E(y)
        cnt = n
        for s in X:
            cnt = cnt * s
        if not inst:
            cnt = N * cnt
        G = (n,) + X
        if inst:
            mean = lambda q, k: c.div(total(c, G, lambda *p: E[(q, k) + p]), cnt)
            sq = lambda q, k: total(c, G, lambda *p: E[(q, k) + p] * E[(q, k) + p])
        else:
            mean = lambda q, k: c.div(total(c, (N,) + G, lambda i, *p: E[(i, k) + p]), cnt)
            sq = lambda q, k: total(c, (N,) + G, lambda i, *p: E[(i, k) + p] * E[(i, k) + p])
        var = lambda q, k, corr: c.div(sq(q, k) - cnt * mean(q, k) * mean(q, k), cnt - corr)
        if train or not track:
            mu, va = mean, lambda q, k: var(q, k, 0)
        else:
            M, V = c.E(rm), c.E(rv)
            mu, va = lambda q, k: M[k], lambda q, k: V[k]
        if affine:
            A, B = c.E(w), c.E(b)
        memo = {}

        def spec(q, k, *p):
            if (q, k) not in memo:
                memo[q, k] = (mu(q, k), c.sqrt(va(q, k) + eps))
            m, s = memo[q, k]
            r = c.div(E[(q, k) + p] - m, s)
            return A[k] * r + B[k] if affine else r
        c.forall("normalised", (N, C) + G, lambda q, k, *p: c.eq(Y[(q, k) + p], spec(q, k, *p), 1e-4))
        if track:
            RM, RV = c.E(L.running_mean), c.E(L.running_var)
            M, V = c.E(rm), c.E(rv)
            if not train:
                c.forall("running statistics kept", (C,), lambda k: [c.eq(RM[k], M[k]), c.eq(RV[k], V[k])])
            else:
                t = 0.25 if mom == "m" else (0.1 if mom is None else (0.0 if inst else 1.0))
                av = (lambda g: lambda k: c.div(c.sum(N, lambda q: g(q, k)), N)) if inst else (lambda g: lambda k: g(0, k))
                m1, v1 = av(mean), av(lambda q, k: var(q, k, 1))
                c.forall("running statistics", (C,), lambda k: [c.eq(RM[k], (1 - t) * M[k] + t * m1(k), 1e-4), c.eq(RV[k], (1 - t) * V[k] + t * v1(k), 1e-4)])
    make(f"{kind.lower()}_norm_{d}d", "C19", [MN + f"G{kind}Norm{d}d.forward"], f, trials=60)


for _k in ("Batch", "Instance"):
    for _d in (2, 3):
        norm(_k, _d)


@contract("C19", [MN + "GLayerNorm.forward"])
def layer_norm(c):
    """the ordinary layer normalisation over the last axes"""
    case = c.choice("case", list(range(5)))
    d = 2 if case % 2 else 3
    N, C, n = size(c, "N", 1, 2), size(c, "C", 1, 3), size(c, "n", 1, 6)
    X = tuple(size(c, f"X{j}", 1, 4) for j in range(d))
    S = (N, C, n) + X
    k = (1, 2, d, d + 1, d + 2)[case]
    shape = S[len(S) - k:]
    o = {}
    if case == 1:
        o["elementwise_affine"] = False
    if case == 2:
        o["eps"] = 0.5
    if case == 3:
        o["bias"] = False
    L = c.quiet(c.mod("gconv.gnn.modules").GLayerNorm, shape[0] if k == 1 else shape, **o)
    eps = o.get("eps", 1e-5)
    if not c.symbolic and not c.f32:
        L = L.double()
    x = mb(c, c.tensor("x", *S))
    w = b = None
    with c.torch.no_grad():
        if case != 1:
            w = c.tensor("w", *shape)
            L.weight.copy_(w)
            if case != 3:
                b = c.tensor("b", *shape)
                L.bias.copy_(b)
    c.is_value("parameters", (L.weight is None, L.bias is None), (w is None, b is None))
    H = elements(c, n)
    L.train(bool(case % 2))
    y = returned(c, c.call(L, x, H), H)
    c.shape_is(y, *S)
    E, Y = c.E(x), c.E(y)
    cnt = 1
    for s in shape:
        cnt = cnt * s
    W, B = w is not None and c.E(w), b is not None and c.E(b)
    memo = {}

    def spec(*i):
        a, z = i[:len(S) - k], i[len(S) - k:]
        if a not in memo:
            m = c.div(total(c, shape, lambda *p: E[a + p]), cnt)
            s = total(c, shape, lambda *p: E[a + p] * E[a + p])
            memo[a] = m, c.sqrt(c.div(s - cnt * m * m, cnt) + eps)
        m, s = memo[a]
        r = c.div(E[i] - m, s)
        r = r * W[z] if w is not None else r
        return r + B[z] if b is not None else r
    c.forall("normalised", S, lambda *i: c.eq(Y[i], spec(*i), 1e-4))


def maps(c):
    d = c.choice("spatial axes", [2, 3])
    N, C, n = size(c, "N", 1, 2), size(c, "C", 1, 3), size(c, "n", 1, 6)
    X = tuple(size(c, f"X{j}", 1, 3) for j in range(d))
    return mb(c, c.tensor("x", N, C, n, *X)), elements(c, n)


def activation(name, cases_):
    def f(c):
        """the ordinary activation, entry by entry"""
        x, H = maps(c)
        a, k = c.choice("options", cases_)
        L = c.quiet(getattr(c.mod("gconv.gnn.modules"), "G" + name), *a, **k)
        ref = getattr(c.nn, name)(*a, **k)
        y = returned(c, c.call(L, x, H), H)
        c.shape_is(y, *x.shape)
        want = ref(x)
        Y, W, E = c.E(y), c.E(want), c.E(x)
        c.forall("the ordinary activation", tuple(x.shape), lambda *i: c.eq(Y[i], W[i], 1e-5))
        if name == "ReLU":
            c.forall("positive part", tuple(x.shape), lambda *i: c.eq(Y[i], c.ite(c.cond_le(0, E[i]), E[i], 0), 1e-5))
        if name == "LeakyReLU":
            s = a[0] if a else k.get("negative_slope", 0.01)
            c.forall("leaky", tuple(x.shape), lambda *i: c.eq(Y[i], c.ite(c.cond_le(0, E[i]), E[i], E[i] * s), 1e-5))
    make(name.lower(), "C19", [MA + f"G{name}.forward"], f, trials=40)

    if name == "GELU":
        return

    def g(c):
        """in place on request: the maps themselves hold the result"""
        x, H = maps(c)
        k = {"inplace": True}
        x0 = x.clone()
        L = c.quiet(getattr(c.mod("gconv.gnn.modules"), "G" + name), **k)
        y = returned(c, c.writes([x], L, x, H), H)
        W = c.E(getattr(c.nn, name)()(x0))
        Y, E = c.E(y), c.E(x)
        c.shape_is(y, *x0.shape)
        c.forall("the ordinary activation", tuple(x0.shape), lambda *i: [c.eq(Y[i], W[i], 1e-5), c.eq(E[i], W[i], 1e-5)])
    make(name.lower() + "_in_place", "C19", [MA + f"G{name}.forward"], g, trials=20)


activation("ReLU", [((), {})])
activation("LeakyReLU", [((), {}), ((0.25,), {}), ((), {"negative_slope": 0.5})])
activation("GELU", [((), {}), ((), {"approximate": "tanh"}), ((), {"approximate": "none"})])


@contract("C19", [MW + "GWrap.__init__", MW + "GWrap.forward"])
def wrap(c):
    """an arbitrary module applied to the maps; its parameters belong to the wrapper"""
    x, H = maps(c)
    res = c.tensor("result", *x.shape)
    calls = []

    class Any(c.nn.Module):
        def __init__(self):
            super().__init__()
            self.weight = c.nn.Parameter(c.torch.ones(1))

        def forward(self, t):
            calls.append(t)
            return res
    m = Any()
    L = c.quiet(c.mod("gconv.gnn.modules").GWrap, m)
    c.is_value("the wrapped module is part of the layer", [p is m.weight for p in L.parameters()], [True])
    L.eval()
    c.is_value("evaluation mode reaches the wrapped module", m.training, False)
    y = returned(c, c.call(L, x, H), H)
    c.is_value("applied once", len(calls), 1)
    c.shape_is(calls[0], *x.shape, name="applied to the maps")
    A, E = c.E(calls[0]), c.E(x)
    c.forall("applied to the maps", tuple(x.shape), lambda *i: c.eq(A[i], E[i]))
    W, Y = c.E(res), c.E(y)
    c.shape_is(y, *x.shape)
    c.forall("its result", tuple(x.shape), lambda *i: c.eq(Y[i], W[i], 1e-5))


@contract("C19", [MW + "GWrap.forward"])
def wrap_torch(c):
    """ordinary element-wise modules"""
    x, H = maps(c)
    name, a = c.choice("module", [("Sigmoid", ()), ("Tanh", ()), ("SiLU", ()), ("ReLU", ()), ("Identity", ())])
    m = getattr(c.nn, name)(*a)
    y = returned(c, c.call(c.quiet(c.mod("gconv.gnn.modules").GWrap, m), x, H), H)
    W, Y = c.E(getattr(c.nn, name)(*a)(x)), c.E(y)
    c.shape_is(y, *x.shape)
    c.forall("element-wise result", tuple(x.shape), lambda *i: c.eq(Y[i], W[i], 1e-5))


@contract("C19", [MA + f"G{k}.forward" for k in ("ReLU", "LeakyReLU", "GELU")], kind="bounded", trials=30, note="maps with infinite and undefined entries (machine values outside the real numbers)")
def activations_non_finite(c):
    """infinite, huge and undefined entries are treated as by the ordinary activation"""
    x, H = maps(c)
    x = x.detach().clone()
    for v in (c.inf, -c.inf, c.inf - c.inf, 1e20, -1e20):
        x[c.torch.rand(x.shape) < 0.1] = v
    k = c.choice("activation", ["ReLU", "LeakyReLU", "GELU"])
    y = returned(c, c.call(getattr(c.mod("gconv.gnn.modules"), "G" + k)(), x, H), H)
    c.shape_is(y, *x.shape)
    want = getattr(c.nn, k)()(x)
    c.check("the ordinary activation", c.true(bool(c.torch.allclose(y, want, rtol=1e-4, atol=1e-5, equal_nan=True))))
