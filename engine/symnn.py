"""The fake `torch` module tree the real /repo modules are imported against.

Everything here is the trusted semantics of torch.nn, torch.nn.functional, torch.nn.init and
torch.optim for the operations the code under proof uses (real arithmetic).
"""
import builtins
import math as _math
import sys
import types
from collections import OrderedDict
from fractions import Fraction as Fr
from . import terms as T
from .terms import P, ZERO, ONE, TRUE, FALSE, const, atom, Unsupported
from . import symtorch as S
from . import symextra
from .prover import Explorer
from .symtorch import Tensor, mkint, decide, known_eq, _g

any, all, sum = builtins.any, builtins.all, builtins.sum


# ------------------------------------------------------------------ nn.Module
class Parameter(Tensor):
    def __new__(cls, data=None, requires_grad=True):
        if data is None:
            data = S.empty(0)
        t = object.__new__(cls)
        t._st, t._dims, t._map, t._inv = data._st, data._dims, data._map, data._inv
        t.dtype, t._lay = data.dtype, data._lay
        t._rg = requires_grad
        t.grad = None
        t.grad_fn = None
        return t

    def __init__(self, *a, **k):
        pass

    def __deepcopy__(self, memo):
        return Parameter(self.detach().clone(), self._rg)


class Buffer(Tensor):
    pass


MODE = [None]


class Module:
    @property
    def training(self):
        """the mode set explicitly, or else either of the two (the same for all modules)"""
        v = self.__dict__.get("training")
        if v is None:
            if MODE[0] is None:
                MODE[0] = Explorer.cur is None or Explorer.cur.choose(2, "training") == 0
            v = MODE[0]
        return v

    @training.setter
    def training(self, v):
        self.__dict__["training"] = v

    def __init__(self, *a, **k):
        d = self.__dict__
        d["training"] = None
        d["_parameters"] = OrderedDict()
        d["_buffers"] = OrderedDict()
        d["_modules"] = OrderedDict()
        d["_non_persistent"] = set()

    def __setattr__(self, n, v):
        d = self.__dict__
        if "_parameters" not in d:
            if isinstance(v, (Parameter, Module)):
                raise AttributeError("cannot assign parameters before Module.__init__() call")
            object.__setattr__(self, n, v)
            return
        if isinstance(v, Parameter):
            for q in (d, d["_buffers"], d["_modules"]):
                q.pop(n, None)
            d["_parameters"][n] = v
        elif n in d["_parameters"]:
            if v is not None:
                raise TypeError(f"cannot assign '{type(v).__name__}' as parameter '{n}' (torch.nn.Parameter or None expected)")
            d["_parameters"][n] = v
        elif isinstance(v, Module):
            for q in (d, d["_buffers"], d["_parameters"]):
                q.pop(n, None)
            d["_modules"][n] = v
        elif n in d["_modules"]:
            if v is not None:
                raise TypeError(f"cannot assign '{type(v).__name__}' as child module '{n}'")
            d["_modules"][n] = v
        elif n in d["_buffers"]:
            if v is not None and not isinstance(v, Tensor):
                raise TypeError(f"cannot assign '{type(v).__name__}' as buffer '{n}'")
            d["_buffers"][n] = v
        else:
            object.__setattr__(self, n, v)

    def __getattr__(self, n):
        d = self.__dict__
        for k in ("_parameters", "_buffers", "_modules"):
            q = d.get(k)
            if q is not None and n in q:
                return q[n]
        raise AttributeError(f"'{type(self).__name__}' object has no attribute '{n}'")

    def __delattr__(self, n):
        for k in ("_parameters", "_buffers", "_modules"):
            if n in self.__dict__[k]:
                del self.__dict__[k][n]
                return
        object.__delattr__(self, n)

    def register_buffer(self, n, t, persistent=True):
        if "_buffers" not in self.__dict__:
            raise AttributeError("cannot assign buffer before Module.__init__() call")
        if t is not None and not isinstance(t, Tensor):
            raise TypeError("cannot assign object to buffer (torch Tensor or None required)")
        if n in self._buffers or (hasattr(self, n) and n not in self._buffers):
            if n not in self._buffers:
                raise KeyError(f"attribute '{n}' already exists")
        self._buffers[n] = t
        if not persistent:
            self._non_persistent.add(n)

    def register_parameter(self, n, p):
        self._parameters[n] = p

    def add_module(self, n, m):
        self._modules[n] = m

    register_module = add_module

    def register_forward_hook(self, *a, **k):
        raise Unsupported("hooks")

    def forward(self, *a, **k):
        raise NotImplementedError("Module is missing the required \"forward\" function")

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def modules(self):
        yield self
        for m in self._modules.values():
            if m is not None:
                yield from m.modules()

    def children(self):
        return iter([m for m in self._modules.values() if m is not None])

    def named_children(self):
        return iter([(n, m) for n, m in self._modules.items() if m is not None])

    def named_modules(self, memo=None, prefix=""):
        yield prefix, self
        for n, m in self._modules.items():
            if m is not None:
                yield from m.named_modules(None, prefix + ("." if prefix else "") + n)

    def named_parameters(self, prefix="", recurse=True):
        for p, m in (self.named_modules(None, prefix) if recurse else [(prefix, self)]):
            for n, t in m._parameters.items():
                if t is not None:
                    yield p + ("." if p else "") + n, t

    def parameters(self, recurse=True):
        for n, t in self.named_parameters("", recurse):
            yield t

    def named_buffers(self, prefix="", recurse=True):
        for p, m in (self.named_modules(None, prefix) if recurse else [(prefix, self)]):
            for n, t in m._buffers.items():
                if t is not None:
                    yield p + ("." if p else "") + n, t

    def buffers(self, recurse=True):
        for n, t in self.named_buffers("", recurse):
            yield t

    def state_dict(self):
        d = OrderedDict()
        for p, m in self.named_modules():
            for n, t in m._parameters.items():
                if t is not None:
                    d[p + ("." if p else "") + n] = t.detach()
            for n, t in m._buffers.items():
                if t is not None and n not in m._non_persistent:
                    d[p + ("." if p else "") + n] = t.detach()
        return d

    def load_state_dict(self, sd, strict=True):
        own = self.state_dict()
        if strict and set(own) != set(sd):
            raise RuntimeError("Error(s) in loading state_dict")
        for k, t in own.items():
            if k in sd:
                with S.no_grad():
                    t.copy_(sd[k])

    def train(self, mode=True):
        for m in self.modules():
            m.__dict__["training"] = mode
        return self

    def eval(self):
        return self.train(False)

    def to(self, *a, **k):
        return self

    def cpu(self):
        return self

    def double(self):
        return self

    def float(self):
        return self

    def apply(self, f):
        for m in self.children():
            m.apply(f)
        f(self)
        return self

    def requires_grad_(self, v=True):
        for p in self.parameters():
            p.requires_grad_(v)
        return self

    def zero_grad(self, set_to_none=True):
        for p in self.parameters():
            p.grad = None

    def extra_repr(self):
        return ""

    def __dir__(self):
        return list(object.__dir__(self)) + list(self._parameters) + list(self._buffers) + list(self._modules)

    def get_parameter(self, n):
        return self._parameters[n]


class Sequential(Module):
    def __init__(self, *ms):
        super().__init__()
        for i, m in enumerate(ms):
            self.add_module(str(i), m)

    def forward(self, x):
        for m in self._modules.values():
            x = m(x)
        return x


class ModuleList(Module):
    def __init__(self, ms=()):
        super().__init__()
        for i, m in enumerate(ms):
            self.add_module(str(i), m)

    def __iter__(self):
        return iter(self._modules.values())

    def __len__(self):
        return len(self._modules)

    def __getitem__(self, i):
        return list(self._modules.values())[i]


class Identity(Module):
    def forward(self, x):
        return x


# ------------------------------------------------------------------ functional
def _tup(v, n):
    if isinstance(v, (tuple, list)):
        v = tuple(v)
        if len(v) == n:
            return v
        if len(v) == 1:
            return v * n
        raise RuntimeError(f"expected a tuple of length {n}, got {len(v)}")
    return (v,) * n


def _pos(x, msg):
    p = P(x)
    if not T.nonneg(p - 1) and decide(T.lt(p, ONE)):
        raise RuntimeError(msg)
    return p


def _win(D, k, s, p, d, ceil=False):
    e = D + P(p) * 2 - P(d) * (P(k) - 1) - 1
    if ceil:
        o = T.fdiv(e + P(s) - 1, P(s)) + 1
        # the last window must start inside the input or the left padding
        if not T.nonneg(o - 2) or True:
            c = T.le(D + P(p), (o - 1) * P(s))
            if decide(c):
                o = o - 1
    else:
        o = T.fdiv(e, P(s)) + 1
    if not T.nonneg(e) and decide(T.lt(e, ZERO)):
        raise RuntimeError("Kernel size can't be greater than actual input size")
    return o


def _convnd(n, x, w, b=None, stride=1, padding=0, dilation=1, groups=1):
    if not isinstance(x, Tensor) or not isinstance(w, Tensor):
        raise TypeError("conv: arguments must be Tensors")
    unb = x.ndim == n + 1
    if unb:
        x = x.unsqueeze(0)
    if x.ndim != n + 2 or w.ndim != n + 2:
        raise RuntimeError(f"Expected {n + 1}D (unbatched) or {n + 2}D (batched) input to conv{n}d, but got {x.ndim}D")
    if x.dtype is not w.dtype and x.dtype.kind != "f":
        raise RuntimeError("Input type and weight type should be the same")
    st, di = _tup(stride, n), _tup(dilation, n)
    for s in st:
        _pos(s, "non-positive stride is not supported")
    for s in di:
        _pos(s, "dilation should be greater than zero")
    ks = w._dims[2:]
    if isinstance(padding, str):
        if padding == "valid":
            lo = [ZERO] * n
            hi = [ZERO] * n
        elif padding == "same":
            for s in st:
                if not known_eq(s, ONE):
                    raise RuntimeError("padding='same' is not supported for strided convolutions")
            tot = [P(d) * (k - 1) for d, k in zip(di, ks)]
            lo = [T.fdiv(t, const(2)) for t in tot]
            hi = [t - l for t, l in zip(tot, lo)]
        else:
            raise RuntimeError(f"Invalid padding string: {padding}")
    else:
        pd = _tup(padding, n)
        for p in pd:
            if not T.nonneg(P(p)) and decide(T.lt(P(p), ZERO)):
                raise RuntimeError("negative padding is not supported")
        lo = hi = [P(p) for p in pd]
    g = P(groups)
    _pos(groups, "groups must be a positive number")
    N, C = x._dims[:2]
    O, I = w._dims[:2]
    if not known_eq(I * g, C):
        raise RuntimeError(f"Given groups={T.show(g)}, weight of size {[T.show(d) for d in w._dims]}, expected input to have "
                           f"{T.show(I * g)} channels, but got {T.show(C)} channels instead")
    Og = O if g is ONE else T.exact_div(O, g)
    if Og is None or not Og.int_:
        Og = S.facts_div(O, g) if T.as_const(O) is None or T.as_const(g) is None else None
        if Og is None:
            if T.as_const(O) is not None and T.as_const(g) is not None:
                raise RuntimeError("weight out channels must be divisible by groups")
            raise Unsupported(f"conv: groups {T.show(g)} do not syntactically divide {T.show(O)}")
    if b is not None:
        if b.ndim != 1 or not known_eq(b._dims[0], O):
            raise RuntimeError("expected bias to be 1-dimensional with weight.size(0) elements")
    dims = [N, O]
    for D, k, s, l, h, d in zip(x._dims[2:], ks, st, lo, hi, di):
        e = D + l + h - P(d) * (k - 1) - 1
        if not T.nonneg(e) and decide(T.lt(e, ZERO)):
            raise RuntimeError("Calculated padded input size per channel is smaller than kernel size")
        dims.append((e if P(s) is ONE else T.fdiv(e, P(s))) + 1)
    fx, fw = x._num(), w._num()
    fb = b._num() if b is not None else None
    X = x._dims[2:]

    def f(ix):
        nn_, o, q = ix[0], ix[1], ix[2:]
        base = ZERO if g is ONE else T.fdiv(o, Og) * I

        def rec(j, k, pos, cond):
            if j == n:
                def term(i):
                    v = fw((o, i) + k) * fx((nn_, base + i) + pos)
                    return T.mul(T.ind(cond), v) if cond is not TRUE else v
                return T.sum_(I, term)

            def h_(kk):
                p = q[j] * P(st[j]) + kk * P(di[j]) - lo[j]
                c = T.band(T.le(ZERO, p), T.lt(p, X[j])) if not (lo[j] is ZERO and hi[j] is ZERO) else TRUE
                return rec(j + 1, k + (kk,), pos + (p,), T.band(cond, c))
            return T.sum_(ks[j], h_)
        r = rec(0, (), (), TRUE)
        if fb is not None:
            r = r + fb((o,))
        return r
    r = _g(Tensor._mk(dims, f, x.dtype), x, w, b)
    return r.squeeze(0) if unb else r


def conv1d(*a, **k):
    return _conv_kw(1, *a, **k)


def conv2d(*a, **k):
    return _conv_kw(2, *a, **k)


def conv3d(*a, **k):
    return _conv_kw(3, *a, **k)


def _conv_kw(n, input, weight, bias=None, stride=1, padding=0, dilation=1, groups=1):
    return _convnd(n, input, weight, bias, stride, padding, dilation, groups)


def pad(x, pads, mode="constant", value=None):
    pads = tuple(pads)
    if len(pads) % 2:
        raise RuntimeError("Padding length must be divisible by 2")
    m = len(pads) // 2
    if m > x.ndim:
        raise RuntimeError("Padding length should be less than or equal to two times the input dimension")
    if mode not in ("constant", "reflect", "replicate", "circular"):
        raise NotImplementedError(f"Unrecognised padding mode {mode}")
    if mode != "constant" and not (x.ndim - m in (1, 2) and m in (1, 2, 3)):
        raise NotImplementedError("Only 2D, 3D, 4D, 5D padding with non-constant padding are supported for now")
    nd = x.ndim
    dims = list(x._dims)
    lo = {}
    for j in range(m):
        ax = nd - 1 - j
        l, h = P(pads[2 * j]), P(pads[2 * j + 1])
        if l is ZERO and h is ZERO:
            continue
        D = dims[ax]
        for v in (l, h):
            if mode == "constant":
                if not T.nonneg(v) and decide(T.lt(v, ZERO)):
                    raise Unsupported("negative padding")
            elif mode == "reflect":
                if decide(T.le(D, v)):
                    raise RuntimeError("Padding size should be less than the corresponding input dimension")
            elif mode == "circular":
                if decide(T.lt(D, v)):
                    raise RuntimeError("Padding value causes wrapping around more than once.")
        lo[ax] = (l, h, D)
        dims[ax] = D + l + h
    f = x._num()
    val = P(0 if value is None else value)

    def g(ix):
        ix = list(ix)
        conds = []
        for ax, (l, h, D) in lo.items():
            i = ix[ax] - l
            if mode == "constant":
                conds.append(T.band(T.le(ZERO, i), T.lt(i, D)))
            elif mode == "replicate":
                i = T.ite(T.lt(i, ZERO), ZERO, T.ite(T.le(D, i), D - 1, i))
            elif mode == "circular":
                i = T.imod(i + D, D)
            else:
                i = T.ite(T.lt(i, ZERO), -i, T.ite(T.le(D, i), T.scale(D - 1, 2) - i, i))
            ix[ax] = i
        c = T.band(*conds)
        if c is FALSE:
            return val
        v = f(tuple(ix))
        return v if c is TRUE else T.ite(c, v, val)
    return _g(Tensor._mk(dims, g, x.dtype), x)


def grid_sample(input, grid, mode="bilinear", padding_mode="zeros", align_corners=None):
    if mode not in ("bilinear", "nearest", "bicubic"):
        raise ValueError(f"nn.functional.grid_sample(): expected mode to be 'bilinear', 'nearest' or 'bicubic', but got: '{mode}'")
    if padding_mode not in ("zeros", "border", "reflection"):
        raise ValueError("nn.functional.grid_sample(): expected padding_mode to be 'zeros', 'border', or 'reflection'")
    n = input.ndim - 2
    if n not in (2, 3) or grid.ndim != input.ndim:
        raise RuntimeError("grid_sampler(): expected 4D or 5D input and grid with same number of dimensions")
    if n == 3 and mode == "bicubic":
        raise RuntimeError("grid_sampler(): bicubic interpolation only supports 4D input")
    if not known_eq(grid._dims[-1], n):
        raise RuntimeError("grid_sampler(): expected grid to have size in last dimension")
    if not known_eq(input._dims[0], grid._dims[0]):
        raise RuntimeError("grid_sampler(): expected grid and input to have same batch size")
    ac = bool(align_corners)
    fi, fg = input._num(), grid._num()
    sp = input._dims[2:]

    def f(ix):
        b, c, q = ix[0], ix[1], ix[2:]
        L = T.lam(sp, lambda *k: fi((b, c) + k))
        co = [fg((b,) + q + (const(j),)) for j in range(n)]
        return T.app("GS", L, mode, padding_mode, "ac" if ac else "nac", *co, linear=(0,))
    return _g(Tensor._mk((input._dims[0], input._dims[1]) + grid._dims[1:-1], f, input.dtype), input, grid)


T.APP_SIMP["GS"] = None


def _pool(kind, n, x, params, odims, extra):
    """window pooling of each spatial map on its own"""
    if x.ndim not in (n + 1, n + 2):
        raise RuntimeError(f"{kind}{n}d: Expected {n + 1}D or {n + 2}D input, but got {x.ndim}D")
    k = x.ndim - n
    f = x._num()
    sp = x._dims[k:]

    def g(ix):
        L = T.lam(sp, lambda *q: f(ix[:k] + q))
        return T.app(kind + str(n), L, params, *ix[k:], linear=(0,) if kind != "maxpool" and kind != "amaxpool" else ())
    return _g(Tensor._mk(x._dims[:k] + tuple(odims), g, x.dtype), x)


def _max_pool(n):
    def max_pool(input, kernel_size, stride=None, padding=0, dilation=1, ceil_mode=False, return_indices=False):
        if return_indices:
            raise Unsupported("return_indices")
        ks = _tup(kernel_size, n)
        st = ks if stride is None or stride == [] else _tup(stride, n)
        pd, di = _tup(padding, n), _tup(dilation, n)
        if input.ndim not in (n + 1, n + 2):
            raise RuntimeError(f"max_pool{n}d: Expected {n + 1}D or {n + 2}D input, but got {input.ndim}D")
        od = [_win(D, k, s, p, d, ceil_mode) for D, k, s, p, d in zip(input._dims[-n:], ks, st, pd, di)]
        return _pool("maxpool", n, input, tuple(map(P, ks + st + pd + di)) + (bool(ceil_mode),), od, None)
    return max_pool


def _avg_pool(n):
    def avg_pool(input, kernel_size, stride=None, padding=0, ceil_mode=False, count_include_pad=True, divisor_override=None):
        ks = _tup(kernel_size, n)
        st = ks if stride is None or stride == [] else _tup(stride, n)
        pd = _tup(padding, n)
        if input.ndim not in (n + 1, n + 2):
            raise RuntimeError(f"avg_pool{n}d: Expected {n + 1}D or {n + 2}D input, but got {input.ndim}D")
        od = [_win(D, k, s, p, 1, ceil_mode) for D, k, s, p in zip(input._dims[-n:], ks, st, pd)]
        dv = None if divisor_override is None else P(divisor_override)
        return _pool("avgpool", n, input, tuple(map(P, ks + st + pd)) + (bool(ceil_mode), bool(count_include_pad), dv), od, None)
    return avg_pool


def _adaptive(kind, n):
    def ad(input, output_size, return_indices=False):
        if return_indices:
            raise Unsupported("return_indices")
        if input.ndim not in (n + 1, n + 2):
            raise RuntimeError(f"adaptive pool: Expected {n + 1}D or {n + 2}D input, but got {input.ndim}D")
        od = []
        for D, o in zip(input._dims[-n:], _tup(output_size, n)):
            od.append(D if o is None else P(o))
        return _pool(kind, n, input, tuple(od), od, None)
    return ad


max_pool2d, max_pool3d = _max_pool(2), _max_pool(3)
avg_pool2d, avg_pool3d = _avg_pool(2), _avg_pool(3)
adaptive_max_pool2d, adaptive_max_pool3d = _adaptive("amaxpool", 2), _adaptive("amaxpool", 3)
adaptive_avg_pool2d, adaptive_avg_pool3d = _adaptive("aavgpool", 2), _adaptive("aavgpool", 3)


def relu(x, inplace=False):
    r = S.ew1(x, lambda v: T.ite(T.lt(ZERO, v), v, ZERO))
    if inplace:
        x._write(S.bc(r, x._dims))
        return x
    return r


def leaky_relu(x, negative_slope=0.01, inplace=False):
    s = P(negative_slope)
    r = S.ew1(x, lambda v: T.ite(T.lt(ZERO, v), v, s * v))
    if inplace:
        x._write(S.bc(r, x._dims))
        return x
    return r


def gelu(x, approximate="none"):
    if approximate not in ("none", "tanh"):
        raise RuntimeError("approximate argument must be either none or tanh.")
    return S.ew1(x, lambda v: T.fn("gelu_" + approximate, v), True)


def softplus(x, beta=1, threshold=20):
    return S.ew1(x, lambda v: T.fn("softplus", v, P(beta), P(threshold)), True)


def elu(x, alpha=1.0, inplace=False):
    if inplace:
        raise Unsupported("elu in place")
    return S.ew1(x, lambda v: T.ite(T.lt(ZERO, v), v, P(alpha) * (T.exp(v) - 1)), True)


def softmax(x, dim=None, dtype=None):
    e = S.exp(x)
    return e / e.sum(dim, keepdim=True)


def dropout(x, p=0.5, training=True, inplace=False):
    if not training or p == 0:
        return x
    raise Unsupported("dropout")


def normalize(x, p=2.0, dim=1, eps=1e-12):
    nrm = S.vector_norm(x, p, dim, True)
    return x / S.clamp(nrm, min=eps)


def linear(x, w, b=None):
    r = S.matmul(x, w.transpose(0, 1))
    return r if b is None else r + b


def one_hot(x, n=-1):
    if n == -1:
        raise Unsupported("one_hot without classes")
    f = x._rd()
    return Tensor._mk(x._dims + (P(n),), lambda ix: T.ind(T.eq(f(ix[:-1]), ix[-1])), S.int64)


def layer_norm(x, normalized_shape, weight=None, bias=None, eps=1e-5):
    ns = (normalized_shape,) if isinstance(normalized_shape, int) else tuple(normalized_shape)
    k = len(ns)
    if x.ndim < k or not all(known_eq(a, b) for a, b in zip(x._dims[x.ndim - k:], ns)):
        raise RuntimeError(f"Given normalized_shape={ns}, expected input with shape [*, ...]")
    dims = tuple(range(x.ndim - k, x.ndim))
    m = x.mean(dims, keepdim=True)
    v = S.reduce_var(x, dims, True, 0)
    r = (x - m) / S.sqrt(v + eps)
    if weight is not None:
        r = r * weight
    if bias is not None:
        r = r + bias
    return r


def _chan(t, nd):
    return t.reshape(1, t.shape[0], *([1] * (nd - 2)))


def batch_norm(x, running_mean, running_var, weight=None, bias=None, training=False, momentum=0.1, eps=1e-5):
    nd = x.ndim
    dims = (0,) + tuple(range(2, nd))
    if training:
        cnt = ONE
        for d in dims:
            cnt = cnt * x._dims[d]
        if decide(T.eq(cnt, ONE)):
            raise ValueError("Expected more than 1 value per channel when training")
        m = x.mean(dims, keepdim=True)
        v = S.reduce_var(x, dims, True, 0)
        if running_mean is not None:
            with S.no_grad():
                vu = S.reduce_var(x, dims, False, 1)
                running_mean.copy_(running_mean * (1 - momentum) + x.mean(dims) * momentum)
                running_var.copy_(running_var * (1 - momentum) + vu * momentum)
    else:
        m, v = _chan(running_mean, nd), _chan(running_var, nd)
    r = (x - m) / S.sqrt(v + eps)
    if weight is not None:
        r = r * _chan(weight, nd)
    if bias is not None:
        r = r + _chan(bias, nd)
    if x._lay == "c":
        r._lay = "c"
    return r


def instance_norm(x, running_mean=None, running_var=None, weight=None, bias=None, use_input_stats=True, momentum=0.1, eps=1e-5):
    nd = x.ndim
    dims = tuple(range(2, nd))
    if use_input_stats:
        cnt = ONE
        for d in dims:
            cnt = cnt * x._dims[d]
        if decide(T.eq(cnt, ONE)):
            raise ValueError("Expected more than 1 spatial element when training")
        m = x.mean(dims, keepdim=True)
        v = S.reduce_var(x, dims, True, 0)
        if running_mean is not None:
            with S.no_grad():
                vu = S.reduce_var(x, dims, False, 1).mean(0)
                running_mean.copy_(running_mean * (1 - momentum) + x.mean(dims).mean(0) * momentum)
                running_var.copy_(running_var * (1 - momentum) + vu * momentum)
    else:
        m, v = _chan(running_mean, nd), _chan(running_var, nd)
    r = (x - m) / S.sqrt(v + eps)
    if weight is not None:
        r = r * _chan(weight, nd)
    if bias is not None:
        r = r + _chan(bias, nd)
    if x._lay == "c":
        r._lay = "c"
    return r


# ------------------------------------------------------------------ layers
class ReLU(Module):
    def __init__(self, inplace=False):
        super().__init__()
        self.inplace = inplace

    def forward(self, x):
        return relu(x, self.inplace)


class LeakyReLU(Module):
    def __init__(self, negative_slope=0.01, inplace=False):
        super().__init__()
        self.negative_slope, self.inplace = negative_slope, inplace

    def forward(self, x):
        return leaky_relu(x, self.negative_slope, self.inplace)


class GELU(Module):
    def __init__(self, approximate="none"):
        super().__init__()
        self.approximate = approximate

    def forward(self, x):
        return gelu(x, self.approximate)


class Sigmoid(Module):
    def forward(self, x):
        return S.sigmoid(x)


class Tanh(Module):
    def forward(self, x):
        return S.tanh(x)


class SiLU(Module):
    def __init__(self, inplace=False):
        super().__init__()

    def forward(self, x):
        return x * S.sigmoid(x)


class Dropout(Module):
    def __init__(self, p=0.5, inplace=False):
        super().__init__()
        self.p = p

    def forward(self, x):
        return dropout(x, self.p, self.training)


class Linear(Module):
    def __init__(self, i, o, bias=True, device=None, dtype=None):
        super().__init__()
        self.weight = Parameter(S.rand(o, i))
        self.bias = Parameter(S.rand(o)) if bias else None

    def forward(self, x):
        return linear(x, self.weight, self.bias)


class LayerNorm(Module):
    def __init__(self, normalized_shape, eps=1e-5, elementwise_affine=True, bias=True, device=None, dtype=None):
        super().__init__()
        self.normalized_shape = (normalized_shape,) if isinstance(normalized_shape, int) else tuple(normalized_shape)
        self.eps, self.elementwise_affine = eps, elementwise_affine
        if elementwise_affine:
            self.weight = Parameter(S.ones(*self.normalized_shape))
            self.bias = Parameter(S.zeros(*self.normalized_shape)) if bias else None
        else:
            self.register_parameter("weight", None)
            self.register_parameter("bias", None)

    def forward(self, x):
        return layer_norm(x, self.normalized_shape, self.weight, self.bias, self.eps)


class _Norm(Module):
    def __init__(self, num_features, eps, momentum, affine, track):
        super().__init__()
        self.num_features, self.eps, self.momentum, self.affine, self.track_running_stats = num_features, eps, momentum, affine, track
        if affine:
            self.weight = Parameter(S.ones(num_features))
            self.bias = Parameter(S.zeros(num_features))
        else:
            self.register_parameter("weight", None)
            self.register_parameter("bias", None)
        if track:
            self.register_buffer("running_mean", S.zeros(num_features))
            self.register_buffer("running_var", S.ones(num_features))
            self.register_buffer("num_batches_tracked", S.tensor(0, dtype=S.int64))
        else:
            self.register_buffer("running_mean", None)
            self.register_buffer("running_var", None)
            self.register_buffer("num_batches_tracked", None)


class _BatchNorm(_Norm):
    nd = 2

    def __init__(self, num_features, eps=1e-5, momentum=0.1, affine=True, track_running_stats=True, device=None, dtype=None):
        super().__init__(num_features, eps, momentum, affine, track_running_stats)

    def _check_input_dim(self, x):
        if x.ndim != self.nd + 2:
            raise ValueError(f"expected {self.nd + 2}D input (got {x.ndim}D input)")

    def forward(self, x):
        self._check_input_dim(x)
        mom = 0.0 if self.momentum is None else self.momentum
        if self.training and self.track_running_stats:
            self.num_batches_tracked.add_(1)
            if self.momentum is None:
                mom = 1 / self.num_batches_tracked
                mom = mom.item() if isinstance(mom, Tensor) else mom
        bt = self.training or (self.running_mean is None and self.running_var is None)
        if not known_eq(x._dims[1], self.num_features):
            raise RuntimeError("running_mean should contain C elements")
        keep = not self.training or self.track_running_stats
        return batch_norm(x, self.running_mean if keep else None, self.running_var if keep else None,
                          self.weight, self.bias, bt, mom, self.eps)


class BatchNorm1d(_BatchNorm):
    nd = 1


class BatchNorm2d(_BatchNorm):
    nd = 2


class BatchNorm3d(_BatchNorm):
    nd = 3


class _InstanceNorm(_Norm):
    nd = 2

    def __init__(self, num_features, eps=1e-5, momentum=0.1, affine=False, track_running_stats=False, device=None, dtype=None):
        super().__init__(num_features, eps, momentum, affine, track_running_stats)

    def _check_input_dim(self, x):
        if x.ndim not in (self.nd + 1, self.nd + 2):
            raise ValueError(f"expected {self.nd + 1}D or {self.nd + 2}D input (got {x.ndim}D input)")

    def forward(self, x):
        self._check_input_dim(x)
        unb = x.ndim == self.nd + 1
        if unb:
            x = x.unsqueeze(0)
        if not known_eq(x._dims[1], self.num_features):
            if self.affine:
                raise ValueError("expected input's size at dim=1 to match num_features")
            if self.track_running_stats:
                raise Unsupported("instance norm channel mismatch")
        r = instance_norm(x, self.running_mean, self.running_var, self.weight, self.bias,
                          self.training or not self.track_running_stats,
                          self.momentum if self.momentum is not None else 0.0, self.eps)
        return r.squeeze(0) if unb else r


class InstanceNorm1d(_InstanceNorm):
    nd = 1


class InstanceNorm2d(_InstanceNorm):
    nd = 2


class InstanceNorm3d(_InstanceNorm):
    nd = 3


def _mp(n):
    class MaxPool(Module):
        def __init__(self, kernel_size, stride=None, padding=0, dilation=1, return_indices=False, ceil_mode=False):
            super().__init__()
            self.kernel_size = kernel_size
            self.stride = stride if stride is not None else kernel_size
            self.padding, self.dilation, self.return_indices, self.ceil_mode = padding, dilation, return_indices, ceil_mode

        def forward(self, input):
            return (max_pool2d, max_pool3d)[n - 2](input, self.kernel_size, self.stride, self.padding, self.dilation,
                                                   ceil_mode=self.ceil_mode, return_indices=self.return_indices)
    return MaxPool


def _ap(n):
    class AvgPool(Module):
        def __init__(self, kernel_size, stride=None, padding=0, ceil_mode=False, count_include_pad=True, divisor_override=None):
            super().__init__()
            self.kernel_size = kernel_size
            self.stride = stride if stride is not None else kernel_size
            self.padding, self.ceil_mode, self.count_include_pad, self.divisor_override = padding, ceil_mode, count_include_pad, divisor_override

        def forward(self, input):
            return (avg_pool2d, avg_pool3d)[n - 2](input, self.kernel_size, self.stride, self.padding, self.ceil_mode,
                                                   self.count_include_pad, self.divisor_override)
    return AvgPool


def _amp(n, f):
    class AdaptivePool(Module):
        def __init__(self, output_size, return_indices=False):
            super().__init__()
            self.output_size, self.return_indices = output_size, return_indices

        def forward(self, input):
            return f(input, self.output_size, self.return_indices)
    return AdaptivePool


MaxPool2d, MaxPool3d = _mp(2), _mp(3)
AvgPool2d, AvgPool3d = _ap(2), _ap(3)
AdaptiveMaxPool2d, AdaptiveMaxPool3d = _amp(2, adaptive_max_pool2d), _amp(3, adaptive_max_pool3d)
AdaptiveAvgPool2d, AdaptiveAvgPool3d = _amp(2, adaptive_avg_pool2d), _amp(3, adaptive_avg_pool3d)


# ------------------------------------------------------------------ init
def _fans(t):
    if t.ndim < 2:
        raise ValueError("Fan in and fan out can not be computed for tensor with fewer than 2 dimensions")
    r = ONE
    for d in t._dims[2:]:
        r = r * d
    return mkint(t._dims[1] * r), mkint(t._dims[0] * r)


def calculate_gain(nl, param=None):
    if nl == "leaky_relu":
        a = P(0.01 if param is None else param)
        return S.mkfloat(T.sqrt(T.div(const(2), ONE + a * a)))
    if nl == "relu":
        return S.mkfloat(T.sqrt(const(2)))
    if nl in ("linear", "sigmoid", "conv1d", "conv2d", "conv3d"):
        return 1
    if nl == "tanh":
        return 5.0 / 3
    raise Unsupported("gain of " + str(nl))


def _bound(t, a, mode, nl):
    if any(d is ZERO or (not T.nonneg(d - ONE) and decide(T.eq(d, ZERO))) for d in t._dims):
        return None  # nothing to initialise
    fi, fo = _fans(t)
    fan = fi if mode == "fan_in" else fo
    if mode not in ("fan_in", "fan_out"):
        raise ValueError("Mode not supported")
    g = P(calculate_gain(nl, a))
    S.nonzero(P(fan))
    return T.div(g, T.sqrt(P(fan)))


def kaiming_uniform_(t, a=0, mode="fan_in", nonlinearity="leaky_relu", generator=None):
    s = _bound(t, a, mode, nonlinearity)
    if s is None:
        return t
    b = T.sqrt(const(3)) * s
    return uniform_(t, -b, b)


def kaiming_normal_(t, a=0, mode="fan_in", nonlinearity="leaky_relu", generator=None):
    s = _bound(t, a, mode, nonlinearity)
    if s is None:
        return t
    return normal_(t, 0, s)


def uniform_(t, a=0.0, b=1.0, generator=None):
    name = S.fresh_name("uniform")
    S.REAL_RANGE[name] = (0, 1)
    a, b = P(a), P(b)
    with S.no_grad():
        t._write(lambda ix: a + (b - a) * T.el(name, ix))
    return t


def normal_(t, mean=0.0, std=1.0, generator=None):
    name = S.fresh_name("normal")
    m, s = P(mean), P(std)
    with S.no_grad():
        t._write(lambda ix: m + s * T.el(name, ix))
    return t


def constant_(t, v):
    with S.no_grad():
        return t.fill_(v)


# ------------------------------------------------------------------ optim
class SGD:
    def __init__(self, params, lr=1e-3, momentum=0, weight_decay=0, **k):
        if k or momentum or weight_decay:
            raise Unsupported("SGD options")
        self.params = list(params)
        if not self.params:
            raise ValueError("optimizer got an empty parameter list")
        for p in self.params:
            if p.grad_fn is not None:
                raise ValueError("can't optimize a non-leaf Tensor")
        self.lr = P(lr)
        self.param_groups = [{"params": self.params, "lr": lr}]
        for p in self.params:
            S.LEAVES[p._st.uid] = p

    def zero_grad(self, set_to_none=True):
        for p in self.params:
            p.grad = None

    def step(self, closure=None):
        if closure is not None:
            raise Unsupported("closure")
        for p in self.params:
            if p.grad is None:
                continue
            old, g = p._rd(), p.grad._rd()
            lr = self.lr
            p._write(lambda ix: old(ix) - lr * g(ix))


# ------------------------------------------------------------------ module tree
class FakeModule(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"{self.__name__}.{n}")


def _mod(name, d):
    m = FakeModule(name)
    m.__dict__.update(d)
    return m


TRANGE = [None]


def trange(n, *a, **k):
    if TRANGE[0] is not None:
        return TRANGE[0](n)
    return range(n)


def tqdm(it, *a, **k):
    return it


def _minmax_mod(mx):
    def f(t, dim=None, keepdim=False, other=None, out=None):
        return S.minmax(t, other if other is not None else dim, keepdim, mx)
    return f


def _meth(name):
    def f(t, *a, **k):
        if "input" in k:
            t = k.pop("input")
        return getattr(t, name)(*a, **k)
    f.__name__ = name
    return f


def _kwinput(f):
    """accept the first tensor by its keyword name as well"""
    def g(*a, **k):
        for n in ("input", "tensors", "self"):
            if n in k:
                a = (k.pop(n),) + a
        out = k.pop("out", None)
        r = f(*a, **k)
        if out is None:
            return r
        if not isinstance(out, Tensor) or not isinstance(r, Tensor) or out.ndim != r.ndim or not all(S.known_eq(x, y) for x, y in zip(out._dims, r._dims)):
            raise Unsupported("out= of another shape")
        return out.copy_(r)
    g.__name__ = f.__name__
    return g


def build():
    tensor_methods = ["flatten", "ravel", "unflatten", "reshape", "permute", "transpose", "swapaxes", "swapdims", "movedim", "moveaxis", "squeeze",
                      "unsqueeze", "narrow", "select", "unbind", "split", "chunk", "diagonal", "flip", "roll", "repeat_interleave",
                      "sum", "mean", "prod", "std", "any", "all", "amax", "amin", "argmax", "argmin", "sort", "argsort", "clone", "numel",
                      "count_nonzero", "masked_select", "masked_fill", "nonzero", "index_select", "cumsum", "t", "tile", "add", "sub",
                      "logical_not", "broadcast_to", "detach"]
    d = {}
    for n in tensor_methods:
        d[n] = _meth(n)
    d["var"] = _meth("var")
    d["tile"] = lambda t, r: t.repeat(*r)
    d["logical_and"] = lambda a, b: a & b
    d["logical_or"] = lambda a, b: a | b
    d["logical_xor"] = lambda a, b: a ^ b
    fns = dict(cos=S.cos, sin=S.sin, tan=S.tan, acos=S.acos, arccos=S.acos, asin=S.asin, arcsin=S.asin, atan2=S.atan2, arctan2=S.atan2, hypot=S.hypot,
               atan=S.atan, arctan=S.atan, exp=S.exp, log=S.log, sqrt=S.sqrt, rsqrt=S.rsqrt, square=S.square, reciprocal=S.reciprocal, abs=S.abs,
               absolute=S.abs, neg=S.neg, negative=S.neg, sign=S.sign, floor=S.floor, ceil=S.ceil, round=S.round, minimum=S.minimum,
               maximum=S.maximum, clamp=S.clamp, clip=S.clamp, sigmoid=S.sigmoid, tanh=S.tanh, isclose=S.isclose, isnan=S.isnan,
               isinf=S.isinf, isfinite=S.isfinite, remainder=S.remainder, fmod=S.fmod, pow=S.tpow, diag_embed=S.diag_embed,
               true_divide=S.tdiv, divide=S.tdiv, div=S.tdiv, multiply=lambda a, b: S.astensor(a) * b, mul=lambda a, b: S.astensor(a) * b,
               floor_divide=S.floordiv, matmul=S.matmul, bmm=S.matmul, mm=S.matmul, det=S.det, inverse=S.inverse, trace=S.trace, topk=S.topk,
               kthvalue=S.kthvalue, gather=S.gather, take_along_dim=S.take_along_dim, allclose=S.allclose, equal=S.equal,
               cross=S.cross, outer=S.outer, dot=S.dot, relu=relu, softmax=softmax, deg2rad=lambda a: a * (_math.pi / 180),
               rad2deg=lambda a: a * (180 / _math.pi),
               eq=lambda a, b: a == b, ne=lambda a, b: a != b, lt=lambda a, b: a < b, le=lambda a, b: a <= b, gt=lambda a, b: a > b, ge=lambda a, b: a >= b,
               where=S.where)
    for n, f in fns.items():
        if getattr(f, "__name__", "") == "<lambda>":
            f.__name__ = n
        d[n] = _kwinput(f)
    d["max"], d["min"] = _minmax_mod(True), _minmax_mod(False)
    for n in ("tensor as_tensor full zeros ones empty zeros_like ones_like full_like empty_like rand randn rand_like randn_like normal randint randperm "
              "arange linspace eye diag meshgrid cartesian_prod cat concat concatenate stack hstack vstack broadcast_tensors einsum "
              "no_grad enable_grad set_grad_enabled float16 float32 float64 int8 uint8 int32 int64 device dtype Size").split():
        d[n] = _kwinput(getattr(S, n)) if n in ("cat", "concat", "concatenate", "stack", "hstack", "vstack", "full") else getattr(S, n)
    d["Tensor"] = Tensor
    d["bool"] = S.bool_
    d["float"], d["double"], d["half"], d["long"], d["int"] = S.float32, S.float64, S.float16, S.int64, S.int32
    d["inf"], d["pi"], d["nan"], d["e"] = float("inf"), _math.pi, float("nan"), _math.e
    d["norm"] = _kwinput(lambda t, p=2, dim=None, keepdim=False: S.vector_norm(t, 2 if p == "fro" else p, dim, keepdim))
    d["from_numpy"] = lambda a: S.tensor(a.tolist())
    d["is_tensor"] = lambda x: isinstance(x, Tensor)
    d["is_floating_point"] = lambda x: x.is_floating_point()
    d["manual_seed"] = d["seed"] = S.manual_seed
    d["get_default_dtype"] = lambda: S.float32
    d["is_grad_enabled"] = lambda: not S.NO_GRAD[0]
    d["inference_mode"] = S.no_grad
    d["FloatTensor"] = Tensor
    d["contiguous_format"], d["preserve_format"] = "contiguous", "preserve"
    d["promote_types"] = S.promote
    d["broadcast_shapes"] = lambda *s: S.Size(mkint(x) for x in S.bshape(*[tuple(map(P, q)) for q in s]))
    for n, f in symextra.TORCH.items():
        d[n] = _kwinput(f)
    linalg = _mod("torch.linalg", dict(symextra.LINALG, norm=_kwinput(S.linalg_norm), vector_norm=_kwinput(S.vector_norm), solve=S.solve, lstsq=S.lstsq, inv=S.inverse,
                                       det=S.det, cross=S.cross, matmul=S.matmul,
                                       vecdot=lambda a, b, dim=-1: (a * b).sum(dim)))
    init = _mod("torch.nn.init", dict(kaiming_uniform_=kaiming_uniform_, kaiming_normal_=kaiming_normal_, uniform_=uniform_, normal_=normal_,
                                      constant_=constant_, zeros_=lambda t: constant_(t, 0.0), ones_=lambda t: constant_(t, 1.0),
                                      _calculate_fan_in_and_fan_out=_fans, calculate_gain=calculate_gain))
    Fd = {n: globals()[n] for n in ("conv1d conv2d conv3d pad grid_sample max_pool2d max_pool3d avg_pool2d avg_pool3d adaptive_max_pool2d "
                                    "adaptive_max_pool3d adaptive_avg_pool2d adaptive_avg_pool3d relu leaky_relu gelu softplus elu softmax dropout "
                                    "normalize linear one_hot layer_norm batch_norm instance_norm").split()}
    Fd["sigmoid"], Fd["tanh"] = S.sigmoid, S.tanh
    Fd.update(symextra.FUNCTIONAL)
    Fd["silu"] = lambda x: x * S.sigmoid(x)
    F = _mod("torch.nn.functional", Fd)

    def _nt(n):
        def p(x):
            return tuple(x) if isinstance(x, (tuple, list)) else (x,) * n
        return p
    utils = _mod("torch.nn.modules.utils", dict(_single=_nt(1), _pair=_nt(2), _triple=_nt(3), _ntuple=lambda n, name="": _nt(n),
                                                _reverse_repeat_tuple=lambda t, n: tuple(x for x in reversed(t) for _ in range(n))))
    modules = _mod("torch.nn.modules", dict(utils=utils))
    mods = {n: globals()[n] for n in ("Module Parameter Sequential ModuleList Identity ReLU LeakyReLU GELU Sigmoid Tanh SiLU Dropout Linear LayerNorm "
                                      "BatchNorm1d BatchNorm2d BatchNorm3d InstanceNorm1d InstanceNorm2d InstanceNorm3d MaxPool2d MaxPool3d AvgPool2d AvgPool3d "
                                      "AdaptiveMaxPool2d AdaptiveMaxPool3d AdaptiveAvgPool2d AdaptiveAvgPool3d Buffer").split()}
    for n, c in mods.items():
        c.__name__ = n
        c.__qualname__ = n
    parameter = _mod("torch.nn.parameter", dict(Parameter=Parameter))
    nn = _mod("torch.nn", dict(mods, functional=F, init=init, modules=modules, parameter=parameter))
    optim = _mod("torch.optim", dict(SGD=SGD))
    jit = _mod("torch.jit", dict(script=lambda f=None, **k: f if f is not None else (lambda g: g), ignore=lambda f: f, unused=lambda f: f,
                                 export=lambda f: f))
    cuda = _mod("torch.cuda", dict(is_available=lambda: False))
    fft = _mod("torch.fft", {})
    torch = _mod("torch", dict(d, linalg=linalg, nn=nn, optim=optim, jit=jit, cuda=cuda, fft=fft, __version__="2.0.0"))
    torch.__path__ = []
    nn.__path__ = []
    modules.__path__ = []
    # methods available on tensors as well
    for n, f in fns.items():
        S._METH.setdefault(n, f)
    for n in ("relu", "softmax"):
        S._METH[n] = fns[n]
    S._METH.update(symextra.METHODS)
    S._METH["clip"] = S.clamp
    S._METH["det"] = S.det
    S._METH["inverse"] = S.inverse
    S._METH["outer"] = S.outer
    S._METH["pow"] = S.tpow
    S._METH["trace"] = S.trace
    S._METH["where"] = lambda a, c, b: S.where(c, a, b)
    S._METH["isclose"] = S.isclose
    S._METH["allclose"] = S.allclose
    S._METH["minimum"], S._METH["maximum"] = S.minimum, S.maximum
    tq = _mod("tqdm", dict(trange=trange, tqdm=tqdm))
    tqa = _mod("tqdm.auto", dict(trange=trange, tqdm=tqdm))
    plt = _mod("matplotlib.pyplot", {})
    mpl = _mod("matplotlib", dict(pyplot=plt))
    mpl.__path__ = []
    tq.__path__ = []
    return {"torch": torch, "torch.nn": nn, "torch.nn.functional": F, "torch.nn.init": init, "torch.nn.modules": modules,
            "torch.nn.modules.utils": utils, "torch.nn.parameter": parameter, "torch.optim": optim, "torch.jit": jit, "torch.linalg": linalg,
            "torch.cuda": cuda, "tqdm": tq, "tqdm.auto": tqa, "matplotlib": mpl, "matplotlib.pyplot": plt, "math": mathmod()}


# ------------------------------------------------------------------ math and builtins that meet symbolic numbers
def mathmod():
    m = types.ModuleType("math")
    m.__dict__.update({k: v for k, v in _math.__dict__.items() if not k.startswith("__")})

    def lift(name, f):
        real = getattr(_math, name)

        def g(*a):
            if any(isinstance(x, (S._Num, Tensor)) or type(x) in (S.SymInt, S.SymFloat) for x in a):
                a = [x.item() if isinstance(x, Tensor) else x for x in a]
                return S.mknum(f(*[P(x) for x in a]))
            return real(*a)
        setattr(m, name, g)
    def sqrt_(x):
        if decide(T.lt(x, ZERO)):
            raise ValueError("math domain error")
        return T.sqrt(x)
    lift("sqrt", sqrt_)
    lift("cos", T.cos)
    lift("sin", T.sin)
    lift("acos", T.acos)
    lift("atan2", T.atan2)
    lift("exp", T.exp)
    lift("log", T.log)
    lift("fabs", T.abs_)
    lift("pow", T.power)

    def fl(x):
        if x.int_:
            return x
        n = T.div(x, ONE)
        for d in (2, 3, 4):
            y = T.scale(x, d)
            if y.int_:
                return T.fdiv(y, const(d))
        raise Unsupported("math.floor of a symbolic real")
    lift("floor", fl)
    lift("ceil", lambda x: -fl(-x))
    lift("gcd", lambda *a: _uns("gcd"))

    def prod(it, start=1):
        r = start
        for x in it:
            r = r * x
        return r
    m.prod = prod
    return m


def _uns(s):
    raise Unsupported(s)


def sym_len(x):
    if isinstance(x, Tensor):
        if x.ndim == 0:
            raise TypeError("len() of a 0-d tensor")
        return mkint(x._dims[0])
    return builtins.len(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __call__(cls, *a, **k):
        if a and type(a[0]) is S.SymInt:
            return a[0]
        if a and isinstance(a[0], Tensor):
            v = a[0].item()
            return cls(v)
        if a and type(a[0]) is S.SymBool:
            return 1 if a[0] else 0
        if a and type(a[0]) is S.SymFloat:
            p = a[0]._term
            for d in (2, 3, 4):
                y = T.scale(p, d)
                if y.int_ and T.nonneg(y):
                    return mkint(T.fdiv(y, const(d)))
            raise Unsupported("int() of a symbolic real")
        return int(*a, **k)

    def __eq__(cls, o):
        return o is int or o is cls

    def __hash__(cls):
        return hash(int)

    def __or__(cls, o):
        return int | o


class sym_int(metaclass=_IntMeta):
    pass


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)

    def __call__(cls, *a, **k):
        if a and isinstance(a[0], Tensor):
            a = (a[0].item(),)
        if a and type(a[0]) in (S.SymInt, S.SymFloat):
            return S.SymFloat(a[0]._term)
        if a and type(a[0]) is S.SymBool:
            return 1.0 if a[0] else 0.0
        return float(*a, **k)

    def __eq__(cls, o):
        return o is float or o is cls

    def __hash__(cls):
        return hash(float)

    def __or__(cls, o):
        return float | o


class sym_float(metaclass=_FloatMeta):
    pass


def sym_round(x, n=None):
    if isinstance(x, S._Num):
        if x._term.int_:
            return S.mkint(x._term)
        raise Unsupported("round of a symbolic number")
    return builtins.round(x) if n is None else builtins.round(x, n)


def sym_range(*a):
    if len(a) == 1 and TRANGE[0] is not None and isinstance(a[0], S._Num):
        return TRANGE[0](a[0])
    return range(*a)


BUILTINS = {"range": sym_range, "len": sym_len, "int": sym_int, "float": sym_float, "round": sym_round}


def install(repo="/repo"):
    """import the real gconv package against the fake torch; returns the package and the fake torch"""
    import importlib
    import warnings
    import typing
    fake = build()
    saved = {}
    for n, m in fake.items():
        saved[n] = sys.modules.get(n)
        sys.modules[n] = m
    for n in [n for n in sys.modules if n == "gconv" or n.startswith("gconv.")]:
        del sys.modules[n]
    sys.dont_write_bytecode = True
    sys.path.insert(0, repo)
    try:
        g = importlib.import_module("gconv")
        for n in ("gconv.gnn", "gconv.geometry", "gconv.geometry.repulsion", "gconv.geometry.groups.s2"):
            importlib.import_module(n)
    finally:
        sys.path.remove(repo)
        if saved["math"] is not None:
            sys.modules["math"] = saved["math"]
    mods = {n: m for n, m in sys.modules.items() if n == "gconv" or n.startswith("gconv.")}
    for m in mods.values():
        f = getattr(m, "__file__", None)
        if f is None or not f.startswith(repo):
            raise RuntimeError(f"{m} not loaded from {repo}")
        for k, v in BUILTINS.items():
            if k not in m.__dict__:
                m.__dict__[k] = v
    return mods, fake["torch"]
