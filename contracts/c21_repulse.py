"""Repulsion: the loop against its contract, and the whole run (C21)."""
from engine.registry import contract
from contracts.util import *
from contracts.c18_pool import size

MR = "gconv.geometry.repulsion."


@contract("C21", [MR + "columb_energy"])
def columb_energy(c):
    """d to the power -k"""
    f = c.mod("gconv.geometry.repulsion").columb_energy
    n = c.dim("n", 1)
    d = mb(c, c.tensor("d", n, range=(0.1, 3)))
    k = c.choice("k", [None, 2, 1, 3])
    E = c.E(d)
    r = c.call(f, d) if k is None else c.call(f, d, k=k)
    c.shape_is(r, n)
    R = c.E(r)
    p = k or 2
    c.forall("power", (n,), lambda i: c.eq(R[i], c.div(1, E[i] ** p), 1e-4))


def pieces(c, case, D):
    """metric, transform, energy, normalisation constant: the arguments (defaults left out) and their meaning on elements"""
    kw = {}
    if case % 2:
        kw["transform_fn"] = lambda g: c.torch.cat([g.cos(), g.sin()], -1)
        tf = lambda v: [c.cos(x) for x in v] + [c.sin(x) for x in v]
        W = 2 * D
    else:
        tf, W = list, D
    if c.symbolic:
        kw["metric_fn"], d = c.rowfn("metric")
    else:
        kw["metric_fn"] = lambda x, y: (x - y).norm(dim=-1)
    if case in (1, 2):
        kw["energy_fn"] = lambda d: c.torch.exp(-d)
        en = lambda x: c.exp(-x)
    else:
        en = lambda x: c.div(1, x * x)
    k = 1
    if case in (0, 1, 3):
        k = kw["dist_normalization_constant"] = c.num("const", 0.5, 3)
    return kw, tf, (d if c.symbolic else None), en, k


@contract("C21", [MR + "repulse"], trials=40)
def repulse(c):
    """every step follows the negative gradient of the mean energy over distinct elements, plus decaying noise; nothing else is written"""
    f = c.mod("gconv.geometry.repulsion").repulse
    in_place = c.choice("in place", [None, True, False])
    case = c.choice("case", [0, 1, 2, 3, 4])
    D = c.choice("D", [2, 3]) if not c.symbolic else 2
    n = c.dim("n", 2) if c.symbolic else c.dim("n", 2, 6)
    tracked = c.choice("given grid tracks gradients", [0, 1])
    g0 = c.tensor("g0", n, D)
    kw, tf, metric, en, const = pieces(c, case, D)
    if in_place is not None:
        kw["in_place"] = in_place
    steps = c.dim("steps", 1) if c.symbolic else c.choice("steps", [0, 1, 2, 5])
    lr = c.num("lr", 0.001, 0.1)
    kw.update(steps=steps, step_size=lr)
    grid = mb(c, g0.clone())
    if tracked:
        grid.requires_grad_(True)
    alpha = 0.001
    if case in (1, 4):
        alpha = kw["alpha"] = c.num("alpha", 0, 0.5)
    # whether or not the caller has switched gradients off
    import contextlib
    off = c.with_grad_off if (case == 3 or not c.symbolic) and c.choice("gradients off", [0, 1]) else contextlib.nullcontext
    if c.symbolic:
        with off():
            symbolic_step(c, f, grid, kw, tf, metric, en, const, steps, lr, alpha, n, D, in_place, tracked)
            c.is_value("gradients as the caller set them", c.torch.is_grad_enabled(), off is contextlib.nullcontext)
        return
    kw["show_pbar"] = False
    # the noise is drawn inside: whatever the generator returns is recorded
    drawn = []
    real = {k: getattr(c.torch, k) for k in ("randn", "randn_like")}

    def record(fn):
        def h(*a, **k):
            r = fn(*a, **k)
            drawn.append(r)
            return r
        return h
    try:
        for k_, fn in real.items():
            setattr(c.torch, k_, record(fn))
        with off():
            r = c.writes([grid], f, grid, **kw) if in_place else c.call(f, grid, **kw)
            c.is_value("gradients as the caller set them", c.torch.is_grad_enabled(), off is contextlib.nullcontext)
    finally:
        for k_, fn in real.items():
            setattr(c.torch, k_, fn)
    c.shape_is(r, n, D)
    c.is_value("no gradients tracked", r.requires_grad, False)
    c.is_value("the result is a leaf", r.grad_fn is None, True)
    if in_place:
        c.is_value("the given grid does not require gradients", grid.requires_grad, False)
        A, R = c.E(grid), c.E(r)
        c.forall("the given grid holds the result", (n, D), lambda i, j: c.eq(A[i, j], R[i, j]))
    else:
        c.is_value("the given grid tracks gradients as before", grid.requires_grad, bool(tracked))
        A, G = c.E(grid), c.E(g0)
        c.forall("the given grid is untouched", (n, D), lambda i, j: c.eq(A[i, j], G[i, j]))
        before = grid.detach().clone()
        with c.torch.no_grad():
            r += 1
        c.check("no shared memory", c.true(bool(c.torch.equal(before, grid.detach()))))
        with c.torch.no_grad():
            r -= 1
    c.assume(len(drawn) in (0, steps))
    if len(drawn) != steps and float(alpha) != 0:
        return
    # reference run
    g = g0.clone().double()
    off = ~c.torch.eye(n, dtype=c.torch.bool)
    for e in range(steps):
        g = g.detach().requires_grad_(True)
        t = kw["transform_fn"](g) if "transform_fn" in kw else g
        d = c.torch.stack([t[a] - t[b] for a in range(n) for b in range(n) if a != b]).norm(dim=-1)
        v = (c.torch.exp(-d / const) if case in (1, 2) else (d / const) ** -2).mean()
        v.backward()
        c.assume(float(g.grad.abs().max()) < 50 and float(d.min()) > 0.05)
        noise = drawn[e].double() if drawn else 0
        g = g.detach() - lr * (g.grad + (steps - e) / steps * alpha * noise)
    R, W = c.E(r), c.E(g.detach())
    c.forall("steps along the negative gradient with decaying noise", (n, D), lambda i, j: c.eq(R[i, j], W[i, j], 1e-3))


def symbolic_step(c, f, grid, kw, tf, metric, en, const, steps, lr, alpha, n, D, in_place, tracked):
    kw["show_pbar"] = bool(c.choice("bar", [0, 1]))
    epoch = c.dim("epoch", 0)
    c.assume(c.lt(epoch, steps))
    noise = c.tensor("noise", n, D)
    seen = []

    def drawn(*a, **k):
        seen.append(a)
        return noise

    def enter(trips, leaf):
        c.check("as many steps as requested", c.eq(trips, steps))
        c.is_value("one grid is optimised", leaf is not None, True)
        c.is_value("the grid being moved", (leaf is grid), bool(in_place))
        A, G = c.E(leaf), c.E(grid)
        c.shape_is(leaf, n, D)
        c.forall("the loop starts from the given grid", (n, D), lambda i, j: c.eq(A[i, j], G[i, j]))
        c.state(leaf, "g")
        leaf.grad = c.tensor("stale", n, D)
        return epoch

    def leave(leaf):
        A, G = c.E(leaf), c.E(c.tensor("g", n, D))
        el = lambda a: [G[a, j] for j in range(D)]

        def d(a, b):
            return metric(tf(el(a)), tf(el(b)))

        def energy(a, b):
            return (1 - c.ind(c.cond_eq(b, c.argmin_over(n, lambda k: d(a, k))))) * en(c.div(d(a, b), const))
        v = c.div(c.sum(n, lambda a: c.sum(n, lambda b: energy(a, b))), n * (n - 1))
        Z = c.E(noise)
        c.forall("one step", (n, D), lambda i, j: c.eq(A[i, j], G[i, j] - lr * (c.opaque("grad", v, "g", i, j) + c.div(steps - epoch, steps) * alpha * Z[i, j])))
        c.is_value("noise drawn once per step", len(seen), 1)
        c.state(leaf, "final")
    import contextlib
    with contextlib.ExitStack() as st:
        for k in ("randn", "randn_like"):
            st.enter_context(c.summary(c.torch, k, drawn))
        st.enter_context(c.iterations(enter, leave))
        r = c.writes([grid], f, grid, **kw) if in_place else c.call(f, grid, **kw)
    c.shape_is(r, n, D)
    R, F = c.E(r), c.E(c.tensor("final", n, D))
    c.forall("the state after the last step is returned", (n, D), lambda i, j: c.eq(R[i, j], F[i, j]))
    c.is_value("no gradients tracked", r.requires_grad, False)
    if in_place:
        A = c.E(grid)
        c.forall("the given grid holds the result", (n, D), lambda i, j: c.eq(A[i, j], F[i, j]))
        c.is_value("the given grid does not require gradients", grid.requires_grad, False)
    else:
        c.is_value("the given grid tracks gradients as before", grid.requires_grad, bool(tracked))
        A, G = c.E(grid), c.E(c.tensor("g0", n, D))
        c.havoc(r, "later")
        c.forall("no shared memory", (n, D), lambda i, j: c.eq(A[i, j], G[i, j]))
