"""The convolution layers over an arbitrary kernel: exactly the named group convolution (C15)."""
from engine.registry import contract
from contracts.util import *
from contracts.layer_ops import *
from contracts.c12_lifting import kernel_sizes


def make(name, props, funcs, f, **kw):
    f.__name__ = f.__qualname__ = name
    f.__module__ = __name__
    globals()[name] = contract(props, funcs, **kw)(f)


def layer(kind, d):
    def f(c):
        """sum over the channel group, input elements and kernel positions of weight times padded input, plus bias"""
        case = c.choice("case", list(range(10)))
        o, st, di, pad, pm = conv_options(c, d, case)
        cube = case % 3 == 1
        if cube:
            k = c.dim("k", 1) if c.symbolic else c.dim("k", 1, 3)
            K = (k,) * d
        else:
            K = kernel_sizes(c, d)
        grouped = case != 4
        S = lambda n, lo, hi: c.dim(n, lo) if c.symbolic else c.dim(n, lo, hi)
        g = S("g", 1, 2) if grouped else 1
        ci, co = S("ci", 1, 2), S("co", 1, 2)
        out = g * co
        N, n, m = S("N", 1, 2), S("n", 1, 3), S("m", 1, 3)
        pads = pad(K)
        X = tuple(input_size(c, K, di, pads, j) for j in range(d))
        bias = (case // 2) % 2 == 0
        H = ((1,), (3, 3))[case % 2]
        Hi, Ho = c.tensor("Hi", m, *H), c.tensor("Ho", n, *H)
        z = (1,) * d
        mb = lambda c, t: c.permuted(t) if case in (2, 5, 6) or c.choice('lay', [0, 1]) else t
        if kind == "Lifting":
            ws = (mb(c, c.tensor("w", out, n, ci, *K)),)
            x = mb(c, c.tensor("x", N, g * ci, *X))
            args = (Ho,)
        elif kind == "":
            ws = (mb(c, c.tensor("w", out, n, ci, m, *K)),)
            x = mb(c, c.tensor("x", N, g * ci, m, *X))
            args = (Hi, Ho)
        else:
            ws = (mb(c, c.tensor("wH", out, n, ci, m, *z)), mb(c, c.tensor("w", out, n, 1, *K)))
            x = mb(c, c.tensor("x", N, g * ci, m, *X))
            args = (Hi, Ho)
        kernel, seen = stub_kernel(c, K, (out, ci) + K, *ws)
        cls = getattr(c.mod("gconv.gnn.modules.gconv"), f"G{kind}Conv{d}d")
        oo = dict(o)
        if grouped:
            oo["groups"] = g
        if bias:
            oo["bias"] = True
        L = c.quiet(cls, g * ci, out, k if cube else K, (n,) if case % 2 else n, kernel, **oo)
        r = c.call(L, x, *args)
        c.is_value("a pair of maps and elements", isinstance(r, tuple) and len(r) == 2, True)
        y, HH = r
        c.is_value("the kernel is asked once", len(seen), 1)
        for i, (a, b) in enumerate(zip(seen[0], args)):
            c.shape_is(a, *b.shape, name="elements given to the kernel")
            A, B = c.E(a), c.E(b)
            c.forall("elements given to the kernel", tuple(b.shape), lambda *j, A=A, B=B: c.eq(A[j], B[j]))
        c.shape_is(HH, *Ho.shape, name="elements returned")
        A, B = c.E(HH), c.E(Ho)
        c.forall("elements returned", tuple(Ho.shape), lambda *j: c.eq(A[j], B[j]))
        ly = Layer(c, d, o, st, di, pad, pm, K, X, g, ci, out)
        P = ly.size()
        c.shape_is(y, N, out, n, *P)
        O = c.E(y)
        if bias:
            c.is_value("a bias", L.bias is not None, True)
            c.is_value("bias of every output channel", c.numel(*L.bias.shape), out)
            b = c.E(L.bias.reshape(out))
        else:
            c.is_value("no bias", L.bias is None, True)
        spec = {"Lifting": ly.lifting, "": ly.full, "Separable": ly.separable}[kind](x, *ws, co)
        c.forall("group convolution", (N, out, n) + P, lambda q, o, a, *p: c.eq(O[(q, o, a) + p], spec(q, o, a, *p) + (b[o] if bias else 0), 1e-4))
    make(f"{kind.lower() or 'full'}_{d}d", "C15", [MO + f"G{kind}Conv{d}d.__init__", MO + f"G{kind}ConvNd.forward", MO + "GroupConvNd.__init__", MO + f"GroupConvNd._conv{d}d_forward"], f, trials=60, cost=8 if (kind, d) == ("Separable", 3) else 1, split={"case": 10})


for d in (2, 3):
    for kind in ("Lifting", "Separable", ""):
        layer(kind, d)
