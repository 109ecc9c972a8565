"""Group operations and sampling for the kernel contracts: user-supplied ones and those of the four predefined groups.
Every class gives the callables handed to the kernel and, independently, the same operations per entry (the specification)."""
import itertools
import math

from contracts.util import *


class Custom:
    """operations supplied by the user: arbitrary row-wise functions (symbolically uninterpreted)"""

    def __init__(self, c, d, hs):
        self.c, self.d, self.hs = c, d, hs
        self.memo = {}

    def ent(self, E, n):
        return [E[(n,) + j] for j in itertools.product(*[range(k) for k in self.hs])]

    def _hix(self, j):
        k = 0
        for n, i in zip(self.hs, j):
            k = k * n + i
        return k

    def elements(self, name, n):
        return self.c.tensor(name, n, *self.hs)

    # per entry
    def inv_e(self, h, j):
        if self.c.symbolic:
            return self.c.opaque("inv", j, *h)
        return 0.5 - h[j] + 0.25 * h[0] * j

    def prod_e(self, a, b, j):
        if self.c.symbolic:
            return self.c.opaque("prod", j, *a, *b)
        return a[j] - 2 * b[j] + a[0] * b[-1]

    def act_e(self, h, v, j):
        if self.c.symbolic:
            return self.c.opaque("act", j, *h, *v)
        s = sum((k + 1) * x for k, x in enumerate(h))
        return v[j] * math.cos(s) + 0.3 * math.sin(s * (j + 1) + v[0])

    def det_e(self, h):
        if self.c.symbolic:
            return self.c.opaque("det", *h)
        return 1.5 + math.sin(sum(h))

    def rn_e(self, K, w, v, kw):
        """sampled value of the spatial function w (on indices below K) at the point v"""
        if self.c.symbolic:
            return self.c.opaque("sampleRn", (K, w), *v, *self._kw(kw))
        s = sum((j + 1) * x for j, x in enumerate(v)) + kw.get("shift", 0)
        return sum(w(*q) * math.cos(s + sum((2 * j + 1) * i for j, i in enumerate(q))) for q in itertools.product(*[range(int(k)) for k in K]))

    def h_e(self, G, sig, ref, h, kw):
        """sampled value of the group signal sig (given on the elements ref) at the element h"""
        if self.c.symbolic:
            r = len(ref(0))
            return self.c.opaque("sampleH", ((G,), sig), *[((G,), lambda g, k=k: ref(g)[k]) for k in range(r)], *h, *self._kw(kw))
        return sum(sig(g) * math.exp(-sum((a - b) ** 2 for a, b in zip(ref(g), h)) * kw.get("width", 1)) for g in range(int(G)))

    @staticmethod
    def _kw(kw):
        return [x for k in sorted(kw) for x in (k, kw[k])]

    # callables
    def inverse(self, H):
        E = self.c.E(H)
        return self.c.build(tuple(H.shape), lambda n, *j: self.inv_e(self.ent(E, n), self._hix(j)))

    def product(self, A, B):
        X, Y = self.c.E(A), self.c.E(B)
        return self.c.build((A.shape[0], B.shape[0]) + tuple(self.hs), lambda n, m, *j: self.prod_e(self.ent(X, n), self.ent(Y, m), self._hix(j)))

    def act(self, H, grid):
        X, V = self.c.E(H), self.c.E(grid)
        return self.c.build((H.shape[0],) + tuple(grid.shape), lambda n, *i: self.act_e(self.ent(X, n), vec(V, tuple(i[:-1]), self.d), i[-1]))

    def det(self, H):
        X = self.c.E(H)
        return self.c.build((H.shape[0], 1), lambda n, j: self.det_e(self.ent(X, n)))

    def sample_Rn(self, w, g, **kw):
        if not self.c.symbolic and w.shape[0] != g.shape[0]:
            raise RuntimeError("batch sizes differ")
        W, V = self.c.E(w), self.c.E(g)
        K = tuple(w.shape[2:])
        return self.c.build((g.shape[0], w.shape[1]) + tuple(g.shape[1:-1]), lambda b, ch, *p: self.rn_e(K, lambda *q: W[(b, ch) + q], vec(V, (b,) + tuple(p), self.d), kw))

    def sample_H(self, grid, sig, ref, **kw):
        X, S, R = self.c.E(grid), self.c.E(sig), self.c.E(ref)
        return self.c.build((grid.shape[0], sig.shape[1]), lambda m, s: self.h_e(sig.shape[0], lambda g: S[g, s], lambda g: self.ent(R, g), self.ent(X, m), kw))
