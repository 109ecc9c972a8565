from engine.registry import contract
from contracts.util import *

GR, MA = "gconv.gnn.functional.grid.create_grid_", "gconv.gnn.functional.mask.create_spherical_mask_"


def fn(c, name):
    """the function as exported by gconv.gnn.functional"""
    return getattr(c.mod("gconv.gnn.functional.grid" if "grid" in name else "gconv.gnn.functional.mask"), name)


def coord(c, n, i):
    return c.div(2 * c.int(i), n - 1) - 1


@contract("C11 C12 C13 C17", [GR + "R2", GR + "R3"], trials=40)
def coordinate_grid(c):
    """equally spaced coordinates from -1 to 1 along every axis; 3D lists last, middle, first axis, 2D first, last"""
    d = c.choice("d", [2, 3])
    one = c.choice("one", [0, 1])
    n = 1 if one else c.dim("n", 2)
    g = c.call(fn(c, f"create_grid_R{d}"), n)
    c.shape_is(g, *([n] * d), d)
    G = c.E(g)
    x = (lambda i: 0) if one else (lambda i: coord(c, n, i))
    order = (0, 1) if d == 2 else (2, 1, 0)
    c.forall("regular centred coordinates", (n,) * d, lambda *i: [c.eq(G[i + (p,)], x(i[order[p]])) for p in range(d)])
    if not one:
        c.check("ends", [c.eq(G[(0,) * d + (p,)], -1) for p in range(d)] + [c.eq(G[(n - 1,) * d + (p,)], 1) for p in range(d)])
    c.forall("within the cube", (n,) * d, lambda *i: [g for p in range(d) for g in (c.le(-1, G[i + (p,)]), c.le(G[i + (p,)], 1))])


@contract("C11", [GR + "R2", GR + "R3"])
def centred(c):
    """reversing an axis changes the sign of its coordinate"""
    d = c.choice("d", [2, 3])
    one = c.choice("one", [0, 1])
    n = 1 if one else c.dim("n", 2)
    G = c.E(c.call(fn(c, f"create_grid_R{d}"), n))
    c.forall("centred", (n,) * d, lambda *i: [c.eq(G[i + (p,)], -G[tuple(n - 1 - k for k in i) + (p,)]) for p in range(d)])


@contract("C11 C12 C13 C17", [MA + "R2", MA + "R3"], trials=40)
def mask(c):
    """one exactly where the distance from the centre is below 1.1, zero elsewhere"""
    d = c.choice("d", [2, 3])
    one = c.choice("one", [0, 1])
    n = 1 if one else c.dim("n", 2)
    m = c.call(fn(c, f"create_spherical_mask_R{d}"), n)
    c.shape_is(m, *([n] * d))
    M = c.E(m)
    x = (lambda i: 0) if one else (lambda i: coord(c, n, i))
    c.forall("ball", (n,) * d, lambda *i: c.eq(M[i], c.ind(c.cond_lt(c.sqrt(sum(x(k) * x(k) for k in i)), 1.1))))


@contract("C11", [MA + "R2", MA + "R3"], trials=60, split={"d": 2})
def mask_symmetry(c):
    """unchanged under axis permutations and reflections"""
    d = c.choice("d", [2, 3])
    one = c.choice("one", [0, 1])
    n = 1 if one else c.dim("n", 2)
    M = c.E(c.call(fn(c, f"create_spherical_mask_R{d}"), n))
    p = c.choice("axes", [(0, 1), (1, 0)] if d == 2 else [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)])
    f = [c.choice(f"flip{k}", [0, 1]) for k in range(d)]

    def moved(i):
        j = [i[a] for a in p]
        return tuple(n - 1 - k if s else k for k, s in zip(j, f))
    c.forall("same value at the moved position", (n,) * d, lambda *i: c.eq(M[i], M[moved(i)]))


@contract("C11", [MA + "R2", MA + "R3"], trials=40)
def mask_keeps(c):
    """the mask never removes every position"""
    d = c.choice("d", [2, 3])
    k = c.choice("size", ["odd", "even", "two"])
    m = c.dim("m")
    if k == "odd":
        n, h = 2 * m + 1, m
        if not c.choice("positive", [0, 1]):
            n, h = 1, 0
        else:
            n, h = 2 * m + 3, m + 1
    elif k == "even":
        n, h = 2 * m + 4, m + 1
    else:
        n, h = 2, 0
    M = c.E(c.call(fn(c, f"create_spherical_mask_R{d}"), n))
    if k == "two":
        c.check("size two keeps a position", c.le(1, sum(M[i] for i in ([(a, b) for a in (0, 1) for b in (0, 1)] if d == 2 else [(a, b, e) for a in (0, 1) for b in (0, 1) for e in (0, 1)]))))
    else:
        c.check("the middle position is kept", c.eq(M[(h,) * d], 1))


@contract("C11", [GR + "R2", GR + "R3", MA + "R2", MA + "R3"], kind="exhaustive", trials=60, note="sizes 1 to 12, both dimensions, all positions, floating point")
def floating_point(c):
    torch = c.torch
    d, n = c.choice("d", [2, 3]), c.choice("n", list(range(1, 13)))
    g, m = c.call(fn(c, f"create_grid_R{d}"), n), c.call(fn(c, f"create_spherical_mask_R{d}"), n)
    x = torch.tensor([0.0] if n == 1 else [-1 + 2 * i / (n - 1) for i in range(n)])
    want = torch.stack(torch.meshgrid(*[x] * d, indexing="ij")[::1 if d == 2 else -1], -1)
    c.is_value("coordinates", g.shape == want.shape and bool((g - want).abs().max() < 1e-6), True)
    c.is_value("ball", bool((m == (want.norm(dim=-1) < 1.1).to(m.dtype)).all()), True)
