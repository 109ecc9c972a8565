"""The layers of the predefined groups, end to end: options, kernel of the right group, returned elements (C14, C15, C16)."""
from engine.registry import contract
from contracts.util import *
from contracts.groups import GROUPS
from contracts.layer_ops import *
from contracts.c14_kernels import BASE, HOW, base_options, Sampled, cases, cls, double, group_options, in_out, reference, size_of, spatial_options

ML = {"SE2": "gconv.gnn.modules.gconv_sen.gconv_se2.", "SE3": "gconv.gnn.modules.gconv_sen.gconv_se3.",
      "E2": "gconv.gnn.modules.gconv_en.gconv_e2.", "E3": "gconv.gnn.modules.gconv_en.gconv_e3."}


def make(name, props, funcs, f, **kw):
    f.__name__ = f.__qualname__ = name
    f.__module__ = __name__
    globals()[name] = contract(props, funcs, **kw)(f)


def share(c, K, L):
    """the reference kernel K gets the parameters of the kernel L"""
    a, b = dict(K.named_parameters()), dict(L.named_parameters())
    c.is_value("parameters of the kernel", sorted(a) == sorted(b), True)
    for n, p in b.items():
        c.shape_is(p, *a[n].shape, name="parameters of the kernel")
        setattr(K, n, p)


def same(c, name, A, B, tol=1e-4):
    c.shape_is(A, *B.shape, name=name)
    X, Y = c.E(A), c.E(B)
    c.forall(name, tuple(B.shape), lambda *i: c.eq(X[i], Y[i], tol))


def moved_alike(c, gr, A, B):
    """A is B moved from the left by one element: all relative elements agree"""
    X, Y, n = c.E(A), c.E(B), B.shape[0]
    rel = lambda E, a, b: gr.prod(gr.inv(gr.ent(E, a)), gr.ent(E, b))

    def f(a, b):
        x, y = rel(X, a, b), rel(Y, a, b)
        if gr.base == "so2":
            return [c.eq(s, t, 1e-4) for s, t in zip(x[:-1], y[:-1])] + [c.eq_angle(x[-1], y[-1], 1e-4)]
        return eqv(c, x, y, 1e-4)
    c.forall("the output elements are the list moved as a whole from the left", (n, n), f)
    if gr.base == "so2":
        tau = 2 * c.pi
        c.forall("angles in range", (n,), lambda a: [c.le(0, X[(a,) + gr.last]), c.lt(X[(a,) + gr.last], tau)])
    else:
        off = 1 if gr.reflections else 0
        M = lambda a: [[gr.ent(X, a)[off + 3 * i + j] for j in range(3)] for i in range(3)]
        c.forall("proper rotations", (n,), lambda a: [c.eq(det3(M(a)), 1, 1e-4)] + eqm(c, mm(tr(M(a)), M(a)), ID3, 1e-4))


def randoms(c, gr):
    """random elements are known by their contract only (C09)"""
    import contextlib
    st = contextlib.ExitStack()
    count = [0]
    if c.symbolic:
        def fresh(make_):
            def f(size, device=None):
                count[0] += 1
                size = size if isinstance(size, tuple) else (size,)
                return make_(f"random{count[0]}", *size)
            return f
        so3, o3 = c.g.so3, c.g.o3
        st.enter_context(c.summary(so3, "random_matrix", fresh(c.rotmat)))
        st.enter_context(c.summary(so3, "random_quat", fresh(c.quat)))
        st.enter_context(c.summary(o3, "random_grid", fresh(c.o3)))
    return st


def layer(kind, G):
    E = G.reflections
    d = G.d

    def f(c):
        """the kernel of the group with exactly the given options; the base layer's convolution; the elements it is defined on"""
        gr = G(c)
        gr.last = (gr.hs[0] - 1,)
        so, go, how, one, gg, permute, given, conv, bias = cases(
            c, 6, spatial=[0, 1, 2], group=[0, 1, 2], grid=HOW[E], one=[0, 1], groups=[1, 0], permute=[True, None, False], given=[0, 1],
            conv=[0, 1, 2, 3, 4, 6], bias=[0, 1])
        ch, o1, ci, out = base_options(c, gg)
        co = out // o1["groups"] if gg else out
        g = o1.get("groups", 1)
        opts = spatial_options(so, "" if kind == "Lifting" else "spatial_")[0]
        gopts = group_options(c, gr, go) if kind != "Lifting" else {}
        ks = size_of(c, one)
        K = (ks,) * d
        with gr.patches(), randoms(c, gr):
            o2, grid, parts = reference(c, gr, how, few=kind == "Lifting")
            if E and kind != "Lifting" and "group_kernel_size" not in o2:
                o2["group_kernel_size"] = 1
            if 0 in parts and kind != "Lifting":
                permute = False  # relative elements must lie in the parts the reference grid has
            if permute is not None:
                opts2 = {"permute_output_grid": permute}
            else:
                opts2, permute = {}, True
            if bias:
                opts2["bias"] = True
            o, st, di, pad, pm = conv_options(c, d, conv)
            L = c.call(cls_(c, f"G{kind}Conv{G.maps}"), *ch, ks, **o1, **o2, **opts, **gopts, **o, **opts2)
            ref = c.quiet(cls(c, f"G{kind}Kernel{G.maps}"), *ch, ks, **o1, **o2, **opts, **gopts)
            same(c, "reference grid", L.kernel.grid_H, ref.grid_H)
            share(c, ref, L.kernel)
            L, ref = double(c, L), double(c, ref)
            if kind == "Lifting":
                Hi, Ho = None, gr.elements("Ho", c.dim("n", 1, 4) if not c.symbolic else c.dim("n", 1))
                qs = (Ho,)
            else:
                Hi, Ho = in_out(c, gr, parts, *((c.dim("n", 1, 4), c.dim("m", 1, 4)) if not c.symbolic else (c.dim("n", 1), c.dim("m", 1))))
                qs = (Hi, Ho)
            if kind != "Lifting":
                Sampled(c, gr, ref.grid_H, parts, gopts).conditioned()
            a, b = c.quiet(L.kernel, *qs), c.quiet(ref, *qs)
            for x, y in zip(a, b) if isinstance(b, tuple) else [(a, b)]:
                same(c, "weights of the group's kernel with these options", x, y)
            # the forward pass
            if not given:
                Ho = Hi if kind != "Lifting" and not E else ref.grid_H
            n = Ho.shape[0]
            m = None if Hi is None else Hi.shape[0]
            N = c.dim("N", 1, 2) if not c.symbolic else c.dim("N", 1)
            X = tuple(input_size(c, K, di, pad(K), j) for j in range(d))
            x = mb(c, c.tensor("x", N, g * ci, *(() if kind == "Lifting" else (m,)), *X))
            z = (1,) * d
            if c.symbolic:  # the kernel is known by its contract only
                ws = {"Lifting": [(out, n, ci) + K], "Separable": [(out, n, ci, m) + z, (out, n, 1) + K], "": [(out, n, ci, m) + K]}[kind]
                ws = tuple(c.tensor(f"w{i}", *s) for i, s in enumerate(ws))
                seen = []

                def sampled(*H):
                    seen.append(H)
                    return ws if len(ws) > 1 else ws[0]
                L.kernel.forward = sampled
            args = (x,) if kind == "Lifting" else (x, Hi)
            y, H = c.call(L, *args, *((Ho,) if given else ()))
            c.shape_is(H, *Ho.shape, name="elements returned")
            if permute:
                moved_alike(c, gr, H, Ho)
            else:
                same(c, "elements returned unchanged", H, Ho)
            if c.symbolic:
                c.is_value("the kernel is asked once", len(seen), 1)
                want = (H,) if kind == "Lifting" else (Hi, H)
                c.is_value("the kernel is asked for input and output elements", len(seen[0]), len(want))
                for p, q in zip(seen[0], want):
                    same(c, "the weights are those of the returned elements", p, q)
                base = getattr(c.mod("gconv.gnn.modules.gconv"), f"G{kind}Conv{d}d")
                stub, _ = stub_kernel(c, K, (out, ci) + K, *ws)
                B = c.quiet(base, g * ci, out, ks, 1, stub, groups=g, bias=bool(bias), **o)
                c.is_value("bias", (L.bias is None) == (B.bias is None), True)
                if bias:
                    c.shape_is(L.bias, *B.bias.shape, name="bias")
                    B.bias = L.bias
                want = c.quiet(B, x, *((H,) if kind == "Lifting" else (Hi, H)))[0]
                same(c, "the base layer's convolution with these options", y, want)
                return
            w = c.quiet(ref, *((H,) if kind == "Lifting" else (Hi, H)))
            ly = Layer(c, d, o, st, di, pad, pm, K, X, g, ci, out)
            P = ly.size()
            c.shape_is(y, N, out, n, *P)
            O = c.E(y)
            bb = c.E(L.bias.reshape(out)) if bias else None
            spec = {"Lifting": ly.lifting, "": ly.full, "Separable": ly.separable}[kind](x, *(w if kind == "Separable" else (w,)), co)
            c.forall("group convolution", (N, out, n) + P, lambda q, o_, a, *p: c.eq(O[(q, o_, a) + p], spec(q, o_, a, *p) + (bb[o_] if bias else 0), 1e-3))
            if permute:
                H2 = c.quiet(L, *args, *((Ho,) if given else ()))[1]
                c.check("a fresh element for every call", c.true(float((H2 - H).abs().max()) > 0))
    make(f"{kind.lower() or 'full'}_{G.maps.lower()}", "C14 C15 C16", [ML[G.maps] + f"G{kind}Conv{G.maps}.__init__", ML[G.maps] + f"G{kind}Conv{G.maps}.forward"], f, trials=30, split={"case": 6})


def cls_(c, name):
    return getattr(c.mod("gconv.gnn.modules"), name)


for _G in GROUPS:
    for _k in ("Lifting", "Separable", ""):
        layer(_k, _G)
