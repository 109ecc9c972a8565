import importlib

from engine.registry import contract
from contracts.util import *
from contracts.c06_sphere import repulsed
from contracts.c09_grids import valid_rotations

GC = "gconv.geometry.groups._grid_cache."
SO3 = "gconv.geometry.groups.so3."
NOTE = "the type, parameterization and size keys are enumerated (sizes 1 to 3, two types, three parameterizations); the contents of grids are arbitrary; histories by induction over single calls"


class fresh:
    """with-block in which the cache module starts from the table it ships with; its previous state comes back afterwards"""

    def __init__(self, c):
        self.gc = c.mod("gconv.geometry.groups._grid_cache")

    def __enter__(self):
        self.old = dict(vars(self.gc))
        importlib.reload(self.gc)
        return self.gc

    def __exit__(self, *a):
        vars(self.gc).clear()
        vars(self.gc).update(self.old)


def lookup(gc, n, t, p):
    try:
        return gc.load_grid(n, t, p)
    except KeyError:
        return None


def entries(c, t):
    E = c.E(t)
    n, k = t.shape[0], t.flatten(1).shape[1] if t.ndim > 2 else t.shape[1]
    t = c.E(t.flatten(1)) if t.ndim > 2 else E
    return [[t[i, j] for j in range(int(k))] for i in range(int(n))]


def same(c, name, t, want):
    """t (or None) holds the entries want (or there is no such grid)"""
    if t is None or want is None:
        c.is_value(name, (t is None), (want is None))
        return
    got = entries(c, t)
    c.is_value(name + " (size)", (len(got), len(got[0])), (len(want), len(want[0])))
    if (len(got), len(got[0])) == (len(want), len(want[0])):
        c.check(name, [c.eq(a, b) for x, y in zip(got, want) for a, b in zip(x, y)])


KEYS = [(n, t, p) for n in (1, 2, 3) for t in ("so3", "mine") for p in ("quat", "matrix", "other")]


def elem(c, name, n, p):
    return c.tensor(name, n, *((3, 3) if p == "matrix" else (4,) if p == "quat" else (2,)))


@contract("C10", [GC + "save_grid", GC + "load_grid"], trials=80, split={"n": 3, "type": 4}, note=NOTE)
def save_and_load(c):
    """storing replaces exactly its own entry, and only on request; neither the given nor a returned tensor shares memory with the cache"""
    with fresh(c) as gc:
        n = c.choice("n", [1, 2, 3])
        ty, p = c.choice("type", ["so3", "SO3", "mine", "MINE"]), c.choice("par", ["quat", "Matrix", "other", "OTHER"])
        key = (n, ty.lower(), p.lower())
        if c.choice("prior", [0, 1]):
            c.quiet(gc.save_grid, elem(c, "first", n, key[2]), key[1], key[2], overwrite=True)
        pre = {k: lookup(gc, *k) for k in KEYS}
        pre = {k: None if v is None else entries(c, v) for k, v in pre.items()}
        g = elem(c, "g", n, key[2])
        new = entries(c, g)
        ow = c.choice("overwrite", [None, False, True])
        c.call(gc.save_grid, g, ty, p, **({} if ow is None else {"overwrite": ow}))
        g += 1
        want = dict(pre)
        if pre[key] is None or ow:
            want[key] = new
        for k in KEYS:
            t = lookup(gc, *k)
            same(c, f"entry {k} after storing {key}", t, want[k])
            if t is not None:
                t += 1
                same(c, "entry after a returned grid was modified", lookup(gc, *k), want[k])
        t = lookup(gc, n, ty, p)
        same(c, "names are case-insensitive", t, want[key])


@contract("C10", GC + "load_grid", trials=30, note=NOTE)
def missing(c):
    """an entry that does not exist raises KeyError and stays missing"""
    with fresh(c) as gc:
        n, ty, p = c.choice("key", [(1, "nothing", "quat"), (1, "so3", "nothing"), (10 ** 6, "so3", "quat"), (10 ** 6, "SO3", "Matrix"), (0, "so3", "quat"), (2, "so3", "euler"), (-1, "so3", "quat")])
        c.raises(KeyError, "missing entry", gc.load_grid, n, ty, p)
        if c.choice("stored", [0, 1]):
            c.quiet(gc.save_grid, elem(c, "g", 1, "other"), "so3", "other2")
            c.raises(KeyError, "missing entry", gc.load_grid, n, ty, p)
        c.raises(KeyError, "missing entry", gc.load_grid, n, ty, p)


@contract("C10", [SO3 + "uniform_grid", GC + "save_grid", GC + "load_grid"], trials=40, note=NOTE)
def generated_grid(c):
    """a generated grid is stored on request only, under exactly its own key, and independently of the returned tensor"""
    so3 = c.g.so3
    with fresh(c) as gc:
        n, par = c.choice("key", [(1, "euler"), (2, "Euler"), (3, "euler"), (1, "QUAT"), (2, "matrix"), (900, "quat"), (900, "Matrix"), (900, "euler")])
        p = par.lower()
        keep = c.choice("cache_grid", [True, False, None])
        keys = KEYS + [(n, "so3", q) for q in ("quat", "matrix", "euler", "other")] + [(n + 1, "so3", p)]
        keys = [k for k in dict.fromkeys(keys) if k[0] < 10 or k == (n, "so3", p)]
        pre = {k: lookup(gc, *k) for k in keys}
        stored = pre[(n, "so3", p)] is not None
        f = lambda **k: c.call(so3.uniform_grid, n, par, steps=0, show_pbar=False, **k)
        with repulsed(c), c.stub(so3, "euler_to_quat", 1, 4), c.stub(so3, "euler_to_matrix", 1, 3, 3), c.stub(so3, "matrix_to_euler", 2, 3):
            t = f(**({} if keep is None else {"cache_grid": keep}))
        first = t.clone()
        if stored:
            sames(c, "stored entry is returned", t, pre[(n, "so3", p)])
        for k in keys:
            if k != (n, "so3", p):
                same(c, "other entries are unaffected", lookup(gc, *k), None if pre[k] is None else entries(c, pre[k]))
        if keep or stored:
            t += 1
            sames(c, "the next request returns the stored grid", f(), first)
            u = f(cache_grid=True)
            u += 1
            sames(c, "every later request returns the stored grid", f(), first)
        else:
            c.is_value("nothing is stored", lookup(gc, n, "so3", p) is None, True)


def sames(c, name, t, want):
    c.is_value(name + " (rank)", t.ndim, want.ndim)
    if t.ndim != want.ndim:
        return
    c.shape_is(t, *want.shape)
    A, B = c.E(t), c.E(want)
    c.forall(name, tuple(want.shape), lambda *i: c.eq(A[i], B[i]))


@contract("C10", [SO3 + "uniform_grid", GC + "save_grid", GC + "load_grid", "gconv.geometry.groups.o3.uniform_grid"], kind="bounded", trials=60,
          note="random histories of 25 operations (requests, storing, modifying returned and stored tensors, missing keys, O(3) grids) against a dictionary model")
def histories(c):
    so3, o3, torch = c.g.so3, c.g.o3, c.torch
    with fresh(c) as gc:
        model, live = {}, []
        pars = ["quat", "matrix", "euler"]
        case = lambda s: c.choice("case", [s, s.upper(), s.capitalize()])
        for step in range(25):
            op = c.choice("op", ["request", "request", "save", "load", "mutate", "o3", "missing"])
            n, p = c.choice("n", [1, 2, 3, 4, 7, 400]), c.choice("par", pars)
            key = (n, "so3", p)
            if key not in model:
                t = lookup(gc, *key)
                model[key] = None if t is None else t.clone()
            if op == "request":
                keep = c.choice("keep", [False, True])
                t = c.call(so3.uniform_grid, n, case(p), steps=0, show_pbar=False, cache_grid=keep)
                c.shape_is(t, n, *dict(quat=(4,), matrix=(3, 3), euler=(3,))[p])
                if model[key] is not None:
                    c.is_value("stored grid is returned", bool(torch.equal(t, model[key])), True)
                else:
                    valid_rotations(c, t, p)
                    if keep:
                        model[key] = t.clone()
                live.append(t)
            elif op == "save":
                q = so3.random_quat(n)
                t = q if p == "quat" else so3.quat_to_matrix(q) if p == "matrix" else so3.quat_to_euler(q)
                ow = c.choice("overwrite", [False, True])
                c.call(gc.save_grid, t, case("so3"), case(p), overwrite=ow)
                if ow or model[key] is None:
                    model[key] = t.clone()
                live.append(t)
            elif op == "load":
                t = lookup(gc, n, case("so3"), case(p))
                c.is_value("exists", t is None, model[key] is None)
                if t is not None:
                    c.is_value("stored grid is loaded", bool(torch.equal(t, model[key])), True)
                    live.append(t)
            elif op == "mutate" and live:
                live[c.choice("which", list(range(len(live))))].add_(1)
            elif op == "o3":
                m = c.choice("m", [1, 2, 3])
                t = c.call(o3.uniform_grid, (n, m)) if n < 10 else None
                live += [t] if t is not None else []
            elif op == "missing":
                c.raises(KeyError, "missing entry", gc.load_grid, n, c.choice("t", ["s2", "so2", ""]), p)
            for k, v in model.items():
                t = lookup(gc, *k)
                if (t is None) != (v is None) or (v is not None and not torch.equal(t, v)):
                    c.is_value(f"entry {k} after step {step} ({op})", False, True)
