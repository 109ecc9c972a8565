"""The four predefined groups: per-entry formulas of their operations (the specification) and how their elements, grids
and sampling function enter a contract about kernels and layers."""
import contextlib
import itertools

from contracts.util import *

GN = "gconv.geometry.groups."


def nudged_rotations(e):
    """e and its products with tiny rotations"""
    out = [e]
    for w in itertools.product((-1, 1), repeat=3):
        x, y, z = (1e-6 * t for t in w)
        S = [[1, -z, y], [z, 1, -x], [-y, x, 1]]
        out.append([sum(S[i][k] * e[3 * k + j] for k in range(3)) for i in range(3) for j in range(3)])
    return out


class Group:
    """formulas over one element, given as the list of its entries"""

    def __init__(self, c):
        self.c = c
        self.m = getattr(c.g, self.mod)

    def elements(self, name, *n, sign=None):
        raise NotImplementedError

    def ent(self, E, *n):
        return [E[tuple(n) + j] for j in itertools.product(*[range(k) for k in self.hs])]

    def row(self, e):
        """the element as a batch of one"""
        flat = list(e)

        def f(n, *j):
            k = 0
            for s, i in zip(self.hs, j):
                k = k * s + i
            return flat[int(k)]
        return self.c.build((1,) + self.hs, f)

    def width_parts(self, grid, sizes):
        return [grid]

    def features(self, e):
        """what sampling may depend on"""
        return list(e)

    def nudged(self, e):
        """concrete runs: the element and elements a rounding error away (for sampling that jumps)"""
        return [e]

    def patches(self):
        """known by contract only: sampling a signal (row by row; C08) and nearest neighbour distances (C05)"""
        c = self.c
        st = contextlib.ExitStack()
        if c.symbolic:
            st.enter_context(c.summary(self.m, "grid_sample", self._sampled()))
            st.enter_context(c.summary(self.near, "nearest_neighbour_distance", self._nearest))
            if self.base == "so3":
                st.enter_context(c.summary(c.g.so3, "uniform_grid", self._uniform))
        return st

    def _uniform(self, size, parameterization="quat", *a, **k):
        """an arbitrary list of that many rotations, always the same for the same size (C09, C10)"""
        c = self.c
        if isinstance(size, tuple) or parameterization not in ("matrix", "quat"):
            c.unsupported("options")
        q = c.quat(f"uniform{size!r}", size)
        return q if parameterization == "quat" else c.rotmat(f"uniform{size!r}", size)

    def _nearest(self, grid, *a, **k):
        c = self.c
        if a or k:
            c.unsupported("options")
        E = c.E(grid)
        L, hs = grid.shape[0], tuple(grid.shape[1:])
        return c.build((L,), lambda i: c.opaque("nn", i, ((L,) + hs, lambda *j: E[j])))

    def _sampled(self):
        c = self.c

        def f(grid, signal, signal_grid, *a, **k):
            k = self._bind(k, a)
            q, s, r = c.E(grid), c.E(signal), c.E(signal_grid)
            L, hs = signal_grid.shape[0], tuple(signal_grid.shape[1:])
            if tuple(map(str, signal.shape[:1])) != (str(L),) or len(grid.shape) != 1 + len(self.hs) or len(signal.shape) != 2:
                c.unsupported("shapes")
            return c.build((grid.shape[0], signal.shape[1]), lambda n, t: c.opaque(
                "sample", ((L,), lambda l: s[l, t]), ((L,) + hs, lambda *j: r[j]), *self.features(self.ent(q, n)), *k))
        return f

    def _bind(self, k, a):
        import inspect
        k = dict(k)
        if a:
            self.c.unsupported("positional options")
        mode = k.pop("mode", "rbf")
        out = [mode]
        w = k.pop("width", 0.5)
        if mode == "rbf":
            out.append(w)
        if k:
            self.c.unsupported("options")
        return out


class SO2(Group):
    mod, base, d, hs, maps, reflections = "so2", "so2", 2, (1,), "SE2", False

    @property
    def near(self):
        return self.c.g.so2

    def elements(self, name, *n, sign=None):
        return self.c.tensor(name, *n, 1)

    def inv(self, e):
        return [-e[0]]

    def prod(self, a, b):
        return [a[0] + b[0]]

    def act(self, e, v):
        return mv(rot2(self.c, e[0]), v)

    def det(self, e):
        return 1

    def features(self, e):
        return [self.c.cos(e[0]), self.c.sin(e[0])]

    def nudged(self, e):
        return [e[:-1] + [e[-1] + t] for t in (0, 1e-6, -1e-6)]

    def uniform(self, n):
        return self.c.quiet(self.c.g.so2.uniform_grid, n)


class SO3(Group):
    mod, base, d, hs, maps, reflections = "so3", "so3", 3, (3, 3), "SE3", False

    @property
    def near(self):
        return self.c.g.so3

    def elements(self, name, *n, sign=None):
        return self.c.rotmat(name, *n)

    def inv(self, e):
        return [e[3 * j + i] for i in range(3) for j in range(3)]

    def prod(self, a, b):
        return [sum(a[3 * i + k] * b[3 * k + j] for k in range(3)) for i in range(3) for j in range(3)]

    def act(self, e, v):
        return [sum(e[3 * i + k] * v[k] for k in range(3)) for i in range(3)]

    def det(self, e):
        return 1

    def nudged(self, e):
        return nudged_rotations(e)

    def uniform(self, n):
        return self.c.quiet(self.c.g.so3.uniform_grid, n, "matrix")


class O2(Group):
    mod, base, d, hs, maps, reflections = "o2", "so2", 2, (2,), "E2", True

    @property
    def near(self):
        return self.c.g.so2

    def elements(self, name, *n, sign=None):
        return self.c.o2(name, *n, sign=sign)

    def inv(self, e):
        return [e[0], -e[1]]

    def prod(self, a, b):
        return [a[0] * b[0], a[1] + b[1]]

    def act(self, e, v):
        return [e[0] * x for x in mv(rot2(self.c, e[1]), v)]

    def det(self, e):
        return e[0]

    def features(self, e):
        return [e[0], self.c.cos(e[1]), self.c.sin(e[1])]

    def nudged(self, e):
        return [e[:-1] + [e[-1] + t] for t in (0, 1e-6, -1e-6)]

    def uniform(self, n):
        return self.c.quiet(self.c.g.o2.uniform_grid, n)

    def part(self, grid):
        return grid[:, 1:]

    def _bind(self, k, a):
        k = dict(k)
        if len(a) > 1:
            self.c.unsupported("positional options")
        size = k.pop("signal_grid_size", None) if not a else a[0]
        mode = k.pop("mode", "rbf")
        out = [mode, *size]
        for n, w in zip(size, (k.pop("rotation_width", 0.5), k.pop("reflection_width", 0.5))):
            if mode == "rbf" and not (isinstance(n, int) and n == 0):
                out.append(w)
        if k:
            self.c.unsupported("options")
        return out


class O3(O2):
    mod, base, d, hs, maps, reflections = "o3", "so3", 3, (10,), "E3", True

    @property
    def near(self):
        return self.c.g.so3

    def elements(self, name, *n, sign=None):
        return self.c.o3(name, *n, sign=sign)

    def inv(self, e):
        return [e[0]] + [e[1 + 3 * j + i] for i in range(3) for j in range(3)]

    def prod(self, a, b):
        return [a[0] * b[0]] + [sum(a[1 + 3 * i + k] * b[1 + 3 * k + j] for k in range(3)) for i in range(3) for j in range(3)]

    def act(self, e, v):
        return [e[0] * sum(e[1 + 3 * i + k] * v[k] for k in range(3)) for i in range(3)]

    def features(self, e):
        return list(e)

    def nudged(self, e):
        return [e[:1] + x for x in nudged_rotations(e[1:])]

    def uniform(self, n):
        return self.c.quiet(self.c.g.o3.uniform_grid, n)

    def part(self, grid):
        return grid[:, 1:].unflatten(-1, (3, 3))


GROUPS = [SO2, SO3, O2, O3]
