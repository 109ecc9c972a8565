"""Results depend on arguments, current weights and options only: whatever was called before (C20)."""
import contextlib

from engine.registry import contract
from contracts.util import *
from contracts.groups import GROUPS
from contracts.c18_pool import size

GN = "gconv.geometry.groups."
ML = {"SE2": "gconv.gnn.modules.gconv_sen.gconv_se2.", "SE3": "gconv.gnn.modules.gconv_sen.gconv_se3.",
      "E2": "gconv.gnn.modules.gconv_en.gconv_e2.", "E3": "gconv.gnn.modules.gconv_en.gconv_e3."}


def make(name, props, funcs, f, **kw):
    f.__name__ = f.__qualname__ = name
    f.__module__ = __name__
    globals()[name] = contract(props, funcs, **kw)(f)


def finite(c, *ts):
    if not c.symbolic:
        c.assume(all(bool(c.torch.isfinite(t).all()) for t in ts))


def same(c, name, A, B, tol=1e-6):
    if isinstance(A, tuple):
        c.is_value(name, len(A) == len(B), True)
        for a, b in zip(A, B):
            same(c, name, a, b, tol)
        return
    c.shape_is(A, *B.shape, name=name)
    X, Y = c.E(A), c.E(B)
    c.forall(name, tuple(B.shape), lambda *i: c.eq(X[i], Y[i], tol))


def apart(c, *grids):
    """concrete runs: no two reference elements coincide (they make sampling singular)"""
    if not c.symbolic:
        for g in grids:
            g = g.reshape(len(g), -1)
            if g.shape[1] < 3:
                g = c.torch.cat((g[:, :-1], g[:, -1:].cos(), g[:, -1:].sin()), 1)
            D = c.torch.minimum(c.torch.cdist(g, g), c.torch.cdist(g, -g) + 9 * (g.shape[1] != 4)) + 9 * c.torch.eye(len(g))
            c.assume(bool((D > 0.05).all()))


def overwrite(c, t, v):
    with c.torch.no_grad():
        t.copy_(v)


def clones(r):
    return tuple(x.clone() for x in r) if isinstance(r, tuple) else r.clone()


# kinds of arguments


def arg(kind, n):
    def f(c, k):
        m = size(c, "size " + n, 1, 3)
        w = n + k
        return {"angle": lambda: c.tensor(w, m, 1), "vec2": lambda: c.tensor(w, m, 2), "vec3": lambda: c.tensor(w, m, 3),
                "quat": lambda: c.quat(w, m), "mat": lambda: c.rotmat(w, m), "o2": lambda: c.o2(w, m), "o3": lambda: c.o3(w, m),
                "euler": lambda: c.tensor(w, m, 3), "sph": lambda: c.tensor(w, m, 2), "unit": lambda: c.unit(w, m, 3),
                "mat2": lambda: c.build((m, 2, 2), lambda i, a, b, E=c.E(c.tensor(w, m)): rot2(c, E[i])[int(a)][int(b)])}[kind]()
    return f


OPS = {
    "so2": [("angle_to_matrix", "angle"), ("angle_to_euclid", "angle"), ("inverse_matrix", "mat2"), ("inverse_angle", "angle"), ("left_apply_angle", "angle angle="),
            ("left_apply_to_angle", "angle angle"), ("left_apply_angle_to_R2", "angle vec2"), ("left_apply_matrix_to_R2", "mat2 vec2")],
    "so3": [("matrix_x", "flat"), ("matrix_y", "flat"), ("matrix_z", "flat"), ("quat_inverse", "quat"), ("matrix_inverse", "mat"), ("left_apply_quat", "quat quat="),
            ("euler_to_matrix", "euler"), ("matrix_to_quat", "mat"), ("quat_to_matrix", "quat"), ("left_apply_to_R3", "mat vec3"),
            ("left_apply_matrix", "mat mat="), ("left_apply_to_matrix", "mat mat"), ("geodesic_distance", "quat quat="), ("quaternion_log", "quat")],
    "o2": [("inverse", "o2"), ("det", "o2"), ("left_apply_angle", "o2 o2="), ("left_apply_to_angle", "o2 o2"), ("left_apply_to_R2", "o2 vec2")],
    "o3": [("inverse", "o3"), ("det", "o3"), ("left_apply_O3", "o3 o3="), ("left_apply_to_O3", "o3 o3"), ("left_apply_to_R3", "o3 vec3")],
    "s2": [("spherical_to_euclid", "sph"), ("geodesic_distance_s2", "unit unit="), ("spherical_to_euler", "sph"), ("spherical_to_euler_neg_gamma", "sph")],
}


def history(c, f, args, others, **k):
    """the same result for the same contents, whatever happened to the argument tensors, the results and other calls in between"""
    first = c.call(f, *args, **k)
    finite(c, *(first if isinstance(first, tuple) else (first,)))
    keep = clones(first)
    before = [a.clone() for a in args]
    for a, o in zip(args, others):
        overwrite(c, a, o)
    second = c.call(f, *args, **k)
    want = c.quiet(f, *[o.clone() for o in others], **k)
    finite(c, *(want if isinstance(want, tuple) else (want,)))
    same(c, "new contents in the same tensors", second, want)
    for r in (first, second):  # whoever received a result may write to it
        for x in r if isinstance(r, tuple) else (r,):
            if x.is_floating_point():
                overwrite(c, x, c.torch.zeros(*x.shape))
    again = c.quiet(f, *before, **k)
    same(c, "the earlier contents", again, keep)


def ops(mod):
    def f(c):
        """repeated and interleaved calls"""
        name, kinds = c.choice("operation", OPS[mod])
        g = getattr(c.g, mod)
        args, others = [], []
        for j, kd in enumerate(kinds.split()):
            tie = kd.endswith("=")
            kd = kd.rstrip("=")
            for lst, s in ((args, ""), (others, " other")):
                if kd == "flat":
                    lst.append(c.tensor(f"a{j}{s}", size(c, "size a", 1, 3)))
                else:
                    lst.append(arg(kd, "a" if tie else f"a{j}" if j else "a")(c, (f"{j}" if tie else "") + s))
        history(c, getattr(g, name), args, others)
    make(f"{mod}_history", "C20", [GN + mod + "." + n for n, _ in OPS[mod]], f, trials=60)


for _m in OPS:
    ops(_m)


@contract("C20", [GN + "so2.grid_sample", GN + "so3.grid_sample", GN + "o2.grid_sample", GN + "o3.grid_sample"], trials=60)
def sample_history(c):
    """sampling keeps no memory of signals, reference elements or widths"""
    k = c.choice("group", ["so2", "so3", "o2", "o3"])
    g = getattr(c.g, k)
    mode = c.choice("mode", ["rbf", "nearest"])
    mk = {"so2": lambda n, m, s=None: c.tensor(n, m, 1), "so3": lambda n, m, s=None: c.quat(n, m), "o2": lambda n, m, s=None: c.o2(n, m, sign=s), "o3": lambda n, m, s=None: c.o3(n, m, sign=s)}[k]
    N, S, A, B = c.dim("N", 1) if c.symbolic else c.dim("N", 1, 3), size(c, "S", 1, 2), size(c, "A", 2, 3), size(c, "B", 2, 3)
    kw = {"mode": mode}

    def setting(s):
        ref = mk("ref" + s, A) if k in ("so2", "so3") else c.torch.cat((mk("ref" + s, A, 1), mk("refl" + s, B, -1)), 0)
        return [mk("q" + s, N), c.tensor("sig" + s, ref.shape[0], S), ref]
    if k in ("o2", "o3"):
        kw["signal_grid_size"] = (A, B)
    with c.stub(c.g.so3, "matrix_to_quat", 2, 4):
        apart(c, setting("")[2], setting(" other")[2])
        history(c, g.grid_sample, setting(""), setting(" other"), **kw)
        if c.choice("widths", [0, 1]):
            a = setting("")
            w = c.num("w", 0.1, 1)
            r = c.quiet(g.grid_sample, *a, **kw)
            names = ("rotation_width", "reflection_width") if k in ("o2", "o3") else ("width",)
            c.quiet(g.grid_sample, *a, **kw, **{n: w for n in names})
            finite(c, r)
            same(c, "the default width after another width", c.quiet(g.grid_sample, *a, **kw), r)


def set_weights(c, L, W, how):
    for n, p in list(L.named_parameters()):
        v = W[n]
        if how == "in place":
            overwrite(c, p, v)
        elif how == "replaced":
            m, *rest = n.rsplit(".", 1)
            o = L
            for part in (m.split(".") if rest else []):
                o = getattr(o, part)
            setattr(o, rest[0] if rest else m, c.nn.Parameter(v.clone()))
        else:
            p.data = v.clone()


def layer(kind, G):
    def f(c):
        """after other calls, other weights and other instances: what a fresh instance with the same weights gives"""
        gr = G(c)
        d = gr.d
        # (masks of size 2 are zero everywhere)
        ks, mask = (2, False) if c.symbolic else c.choice("kernel", [(2, False), (3, True), (1, True)])
        if c.symbolic and gr.base == "so3":  # nothing here depends on what the elements are: arbitrary tensors of their shape
            def elements(name, *b, sign=None):
                t = c.tensor(name, *b, *gr.hs)
                return t if sign is None else c.torch.cat((c.torch.full((*b, 1), float(sign)), t[..., 1:]), -1)
            gr.elements = elements
        run, how = c.choice("run", [("train", "in place"), ("eval", "replaced"), ("eval without gradients", "data")] + ([] if c.symbolic else [
            ("train", "replaced"), ("train", "data"), ("eval", "in place"), ("eval", "data"), ("eval without gradients", "replaced"), ("eval without gradients", "in place"),
            ("train", "loaded"), ("eval", "loaded")]))
        if c.symbolic:  # what happens between two calls: other calls; new weights; new contents of the same argument tensors
            between, weights, contents = {"train": (True, True, True), "eval": (False, False, True), "eval without gradients": (False, True, True)}[run]
        else:
            between, weights, contents = c.choice("between", [True, False]), c.choice("weights", [True, False]), c.choice("contents", [True, True, False])
        # the reference grid as the constructor was given it
        n, nr = (1, 1) if c.symbolic else (2, 1)
        ref = (lambda s: gr.elements("ref" + s, n + nr)) if not gr.reflections else (lambda s: c.torch.cat((gr.elements("ref" + s, n, sign=1), gr.elements("refl" + s, nr, sign=-1)), 0))
        gk = n + nr if not gr.reflections else (n, nr)
        cls = getattr(c.mod("gconv.gnn.modules"), f"G{kind}Conv{G.maps}")
        o = dict(kernel_size=ks, mask=mask, group_kernel_size=gk, groups=2, padding=1, bias=True, permute_output_grid=False)
        w = {"Lifting": {}}.get(kind) if kind == "Lifting" else ({"group_sampling_width": 0.7} if not gr.reflections else {"group_rotation_sampling_width": 0.7, "group_reflection_sampling_width": 0.4})
        w2 = {"Lifting": {"sampling_mode": "nearest"}}.get(kind) or {"group_sampling_mode": "nearest"}
        n1, m1 = size(c, "n", 1, 3), size(c, "m", 1, 3)
        N = size(c, "N", 1, 2)
        X = tuple(size(c, f"X{j}", 2, 3) for j in range(d))

        def inputs(s, n, m):
            Ho = gr.elements("Ho" + s, n)
            if kind == "Lifting":
                return [c.tensor("x" + s, N, 2, *X), Ho]
            return [c.tensor("x" + s, N, 2, m, *X), gr.elements("Hi" + s, m), Ho]
        with gr.patches():
            apart(c, ref(""), ref(" other"))
            build = lambda s="", **k: double(c, c.quiet(cls, 2, 4, grid_H=ref(s), **o, **w, **k))
            L = build()
            W1 = {k: c.tensor("W " + k, *p.shape) for k, p in L.named_parameters()}
            W2 = {k: c.tensor("V " + k, *p.shape) for k, p in L.named_parameters()}
            set_weights(c, L, W1, "in place")
            L.train(run == "train")
            with (c.torch.no_grad() if run == "eval without gradients" else contextlib.nullcontext()):
                a, b = inputs("", n1, m1), inputs(" other", n1, m1)
                keep = [t.clone() for t in a]
                y1, h1 = c.call(L, *a)
                finite(c, y1)
                y1 = y1.clone()
                # other calls, another instance with other options and another reference grid
                if between:
                    c.quiet(L, *inputs(" second", size(c, "n2", 1, 3), size(c, "m2", 1, 3)))
                M = double(c, c.quiet(cls, 2, 4, grid_H=ref(" other"), **o, **w2))
                set_weights(c, M, W2, "in place")
                M.train(run == "train")
                if between:
                    c.quiet(M, *[t.clone() for t in a])
                F = build()
                set_weights(c, F, W2 if weights else W1, "in place")
                F.train(run == "train")
                if how == "loaded":
                    L.load_state_dict(F.state_dict())
                elif weights:
                    set_weights(c, L, W2, how)
                if contents:
                    for t, v in zip(a, b):
                        overwrite(c, t, v)
                else:
                    b = [t.clone() for t in a]
                y2, h2 = c.call(L, *a)
                want, hw = c.quiet(F, *b)
                finite(c, want)
                same(c, "a fresh instance with the current weights", y2, want)
                same(c, "the elements of this call", h2, hw)
                set_weights(c, L, W1, "in place")
                L.train(run != "train")
                y3, _ = c.quiet(L, *keep)
                same(c, "the earlier weights and arguments again", y3, y1)
                # the output elements left out after they were given
                if kind == "Lifting":
                    z, hz = c.quiet(L, keep[0])
                    want, hw = c.quiet(L, keep[0], ref(""))
                    same(c, "the default elements after others were given", hz, hw)
                    same(c, "the default elements after others were given", z, want)
                    if not c.symbolic and how == "loaded":
                        O = double(c, c.quiet(cls, 2, 4, grid_H=ref(" other"), **o, **w))
                        set_weights(c, O, W1, "in place")
                        O.train(L.training)
                        L.load_state_dict(O.state_dict())
                        z, hz = c.quiet(L, keep[0])
                        want, hw = c.quiet(O, keep[0])
                        finite(c, want)
                        same(c, "the default elements after loading others", hz, hw)
                        same(c, "the default elements after loading others", z, want)
    make(f"{kind.lower() or 'full'}_{G.maps.lower()}", "C20", [ML[G.maps] + f"G{kind}Conv{G.maps}.forward"], f, trials=30, split={"run": 3})


def double(c, x):
    return x if c.symbolic else x.to(c.dt)


for _G in GROUPS:
    for _k in ("Lifting", "Separable", ""):
        layer(_k, _G)
