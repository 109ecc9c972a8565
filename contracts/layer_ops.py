"""What a convolution layer computes, independently of the layers under contract."""
import itertools

from contracts.util import *

MO = "gconv.gnn.modules.gconv."


def conv_options(c, d, case, layer="base"):
    """(constructor options, strides, dilations, paddings (before, after) as functions of the kernel size, padding mode)"""
    pm = ["zeros", "circular", "reflect", "replicate"][(case // 5 + case) % 4]
    if not c.symbolic and c.choice("mode mix", [0, 1]):
        pm = c.choice("padding mode", ["zeros", "circular", "reflect", "replicate"])
    form = ["tuple", "int", "same", "valid", "none"][case % 5]
    lo, hi = 1, 2
    o = {}
    if form == "none":
        st = di = (1,) * d
        pad = lambda K: ((0, 0),) * d
    elif form in ("same", "valid"):
        st = (1,) * d if form == "same" else tuple(c.dim(f"s{j}", 1, 2) if not c.symbolic else c.dim(f"s{j}", 1) for j in range(d))
        a = _size(c, "d", 1, 2)
        di = (a,) * d
        o = {"padding": form, "dilation": a}
        if form == "valid":
            o["stride"] = st
            pad = lambda K: ((0, 0),) * d
        else:
            pad = lambda K: tuple((c.fdiv(x, 2), x - c.fdiv(x, 2)) for x in (di[j] * (K[j] - 1) for j in range(d)))
    elif form == "int":
        s, a, p = _size(c, "s", 1, 3), _size(c, "d", 1, 2), _size(c, "p", 0, 2)
        st, di = (s,) * d, (a,) * d
        o = {"padding": p, "dilation": a, "stride": s}
        pad = lambda K: ((p, p),) * d
    else:
        st = tuple(_size(c, f"s{j}", 1, 3) for j in range(d))
        di = tuple(_size(c, f"d{j}", 1, 2) for j in range(d))
        ps = tuple(_size(c, f"p{j}", 0, 2) for j in range(d))
        o = {"padding": ps, "dilation": di, "stride": st}
        pad = lambda K: tuple((p, p) for p in ps)
    if pm != "zeros" or case % 2:
        o["padding_mode"] = pm
    return o, st, di, pad, pm


def _size(c, name, lo, hi):
    return c.dim(name, lo) if c.symbolic else c.dim(name, lo, hi)


def input_size(c, K, di, pads, j):
    """any size for which the convolution and its padding are defined"""
    extra = _size(c, f"X{j}", 1, 3)
    return extra + di[j] * (K[j] - 1) + pads[j][1]


def out_size(c, X, K, st, di, pads):
    return tuple(c.fdiv(X[j] + pads[j][0] + pads[j][1] - di[j] * (K[j] - 1) - 1, st[j]) + 1 for j in range(len(X)))


def padded(c, X, pads, pm, f, p):
    """value of the padded map f at the (padded) position p"""
    q, cond = [], []
    for n, (l, h), x in zip(X, pads, p):
        i = x - l
        if type(l) is int and type(h) is int and l == h == 0:
            q.append(i)
            continue
        if pm == "zeros":
            cond += [c.cond_le(0, i), c.cond_lt(i, n)]
        elif pm == "replicate":
            i = c.ite(c.cond_lt(i, 0), 0, c.ite(c.cond_le(n, i), n - 1, i))
        elif pm == "circular":
            i = c.imod(i + n, n)
        else:
            i = c.ite(c.cond_lt(i, 0), -i, c.ite(c.cond_le(n, i), 2 * (n - 1) - i, i))
        q.append(i)
    if not cond:
        return f(*q)
    return c.ind(c.band(*cond)) * f(*q)


def window(c, X, K, st, di, pads, pm, f, p):
    """sum over the kernel positions k of f(k, input position), as far as that lies in the padded map"""
    d = len(K)

    def rec(j, k):
        if j == d:
            at = tuple(p[i] * st[i] + k[i] * di[i] for i in range(d))
            return padded(c, X, pads, pm, lambda *q: f(k, q), at)
        return c.sum(K[j], lambda t: rec(j + 1, k + (t,)))
    return rec(0, ())


def ordinary(c, d, x, w, o, groups):
    """concrete runs: the ordinary convolution of the same dimension with the same options"""
    N = c.nn.Conv2d if d == 2 else c.nn.Conv3d
    m = N(x.shape[1], w.shape[0], tuple(w.shape[2:]), groups=groups, bias=False, **o).to(x.dtype)
    with c.torch.no_grad():
        m.weight.copy_(w)
        return m(x)


class Layer:
    """a group convolution with given sampled weights"""

    def __init__(self, c, d, o, st, di, pad, pm, K, X, groups, ci, out):
        self.c, self.d, self.o, self.st, self.di, self.pm, self.K, self.X = c, d, o, st, di, pm, K, X
        self.pads = pad(K)
        self.g, self.ci, self.out = groups, ci, out
        self.og = None

    def size(self):
        return out_size(self.c, self.X, self.K, self.st, self.di, self.pads)

    def group(self, o, co):
        return self.c.fdiv(o, co)

    def _win(self, f, p):
        return window(self.c, self.X, self.K, self.st, self.di, self.pads, self.pm, f, p)

    def lifting(self, x, w, co):
        c = self.c
        if not c.symbolic:
            r = c.torch.stack([ordinary(c, self.d, x, w[:, a], self.o, self.g) for a in range(w.shape[1])], 2) if w.shape[1] else None
            return lambda n, o, a, *p: float(r[(n, o, a) + p])
        x, w = c.E(x), c.E(w)
        return lambda n, o, a, *p: self._win(lambda k, q: c.sum(self.ci, lambda i: w[(o, a, i) + k] * x[(n, self.group(o, co) * self.ci + i) + q]), p)

    def full(self, x, w, co):
        c = self.c
        m = w.shape[3]
        if not c.symbolic:
            r = c.torch.stack([sum(ordinary(c, self.d, x[:, :, b], w[:, a, :, b], self.o, self.g) for b in range(m)) for a in range(w.shape[1])], 2)
            return lambda n, o, a, *p: float(r[(n, o, a) + p])
        x, w = c.E(x), c.E(w)
        return lambda n, o, a, *p: self._win(lambda k, q: c.sum(self.ci, lambda i: c.sum(
            m, lambda b: w[(o, a, i, b) + k] * x[(n, self.group(o, co) * self.ci + i, b) + q])), p)

    def separable(self, x, wh, w, co):
        c = self.c
        m = wh.shape[3]
        if not c.symbolic:
            wh = wh.reshape(wh.shape[:4])
            y = []
            for o in range(self.out):
                s = (o // co) * self.ci
                y.append(c.torch.einsum("aib,nib...->na...", wh[o], x[:, s:s + self.ci]))
            y = c.torch.stack(y, 1)
            r = c.torch.stack([ordinary(c, self.d, y[:, :, a], w[:, a], self.o, self.out) for a in range(w.shape[1])], 2)
            return lambda n, o, a, *p: float(r[(n, o, a) + p])
        x, w, wh = c.E(x), c.E(w), c.E(wh)
        z = (0,) * self.d

        def y(n, o, a, q):
            return c.sum(self.ci, lambda i: c.sum(m, lambda b: wh[(o, a, i, b) + z] * x[(n, self.group(o, co) * self.ci + i, b) + tuple(q)]))
        return lambda n, o, a, *p: self._win(lambda k, q: w[(o, a, 0) + k] * y(n, o, a, q), p)


def stub_kernel(c, K, fan, *weights):
    """a kernel known by its contract only: it returns the given weights and remembers what it was asked for"""
    class Kernel(c.nn.Module):
        def __init__(self):
            super().__init__()
            self.kernel_size = K
            self.weight = c.nn.Parameter(c.torch.empty(*fan))
            self.asked = []
            self.resets = 0

        def reset_parameters(self):
            c.torch.nn.init.uniform_(self.weight, -1, 1)

        def forward(self, *H):
            SEEN.append(H)
            return weights[0] if len(weights) == 1 else weights
    SEEN = []
    k = Kernel()
    return k, SEEN
