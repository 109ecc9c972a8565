"""further torch operations, each written in terms of the modelled ones"""
import builtins
import math as _math

from . import symtorch as S
from . import terms as T


def mv(a, b):
    return S.matmul(a, b)


def inner(a, b):
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    return tensordot(a, b, dims=([a.ndim - 1], [b.ndim - 1]))


def tensordot(a, b, dims=2):
    if isinstance(dims, int):
        da, db = list(range(a.ndim - dims, a.ndim)), list(range(dims))
    else:
        da, db = [[d] if isinstance(d, int) else list(d) for d in dims]
    da, db = [d % a.ndim for d in da], [d % b.ndim for d in db]
    if len(da) != len(db):
        raise RuntimeError("both dimension lists should have same length")
    ls = [chr(97 + k) for k in range(a.ndim)]
    rs = [chr(65 + k) for k in range(b.ndim)]
    for i, j in zip(da, db):
        rs[j] = ls[i]
    out = [l for k, l in enumerate(ls) if k not in da] + [l for k, l in enumerate(rs) if k not in db]
    return S.einsum("".join(ls) + "," + "".join(rs) + "->" + "".join(out), a, b)


def kron(a, b):
    n = builtins.max(a.ndim, b.ndim)
    a, b = a.reshape((1,) * (n - a.ndim) + tuple(a.shape)), b.reshape((1,) * (n - b.ndim) + tuple(b.shape))
    for k in range(n):
        a, b = a.unsqueeze(2 * k + 1), b.unsqueeze(2 * k)
    r = a * b
    return r.reshape(tuple(r.shape[2 * k] * r.shape[2 * k + 1] for k in range(n)))


def dstack(ts):
    ts = [t.reshape(1, -1, 1) if t.ndim < 2 else t[..., None] if t.ndim == 2 else t for t in ts]
    return S.cat(ts, 2)


def column_stack(ts):
    return S.hstack([t.reshape(-1, 1) if t.ndim < 2 else t for t in ts])


def adjoint(a):
    return a.transpose(-1, -2)


def clamp_min(a, min):
    return S.clamp(a, min=min)


def clamp_max(a, max):
    return S.clamp(a, max=max)


def lerp(a, b, weight):
    return a + weight * (b - a)


def addcmul(a, b, c, value=1):
    return a + value * b * c


def addcdiv(a, b, c, value=1):
    return a + value * (b / c)


def addmm(a, b, c, beta=1, alpha=1):
    return beta * a + alpha * S.matmul(b, c)


def nan_to_num(a, nan=0.0, posinf=None, neginf=None):
    """real arithmetic has no infinities"""
    return a * 1


def matrix_norm(a, ord="fro", dim=(-2, -1), keepdim=False):
    if ord != "fro":
        raise S.Unsupported("matrix_norm")
    return S.sqrt((a * a).sum(dim, keepdim=keepdim))


def fliplr(a):
    return a.flip(1)


def flipud(a):
    return a.flip(0)


def sgn(a):
    return S.sign(a)


def copysign(a, b):
    return S.where(b < 0 if isinstance(b, S.Tensor) else S.full((1,), float(b)) < 0, -a.abs(), a.abs())


def heaviside(a, values):
    return S.where(a == 0, values, (a > 0).to(a.dtype))


def log1p(a):
    return S.log(a + 1)


def expm1(a):
    return S.exp(a) - 1


def float_power(a, e):
    return S.tpow(a.to(S.float64), e)


def diff(a, n=1, dim=-1):
    for _ in range(n):
        k = a.shape[dim]
        a = a.narrow(dim, 1, k - 1) - a.narrow(dim, 0, k - 1)
    return a


def _axis(a, dim):
    n = T.as_int(a._dims[dim % a.ndim])
    if n is None:
        raise S.Unsupported("running reduction over a symbolic axis")
    return a.unbind(dim)


def cumsum(a, dim, dtype=None):
    out = []
    for x in _axis(a, dim):
        out.append(x if not out else out[-1] + x)
    return S.stack(out, dim)


def cumprod(a, dim, dtype=None):
    out = []
    for x in _axis(a, dim):
        out.append(x if not out else out[-1] * x)
    return S.stack(out, dim)


def matrix_power(a, n):
    if n < 0:
        return matrix_power(S.inverse(a), -n)
    r = S.eye(a.shape[-1]).expand(*a.shape)
    for _ in range(n):
        r = S.matmul(r, a)
    return r


def multi_dot(ts, out=None):
    r = ts[0]
    for t in ts[1:]:
        r = S.matmul(r, t)
    return r


def chain_matmul(*ts):
    return multi_dot(ts[0] if len(ts) == 1 and isinstance(ts[0], (tuple, list)) else ts)


def tensor_split(a, parts, dim=0):
    n = T.as_int(a._dims[dim % a.ndim])
    if n is None:
        raise S.Unsupported("tensor_split over a symbolic axis")
    if isinstance(parts, int):
        q, r = divmod(n, parts)
        sizes = [q + 1] * r + [q] * (parts - r)
    else:
        cut = [0] + [builtins.min(p, n) for p in parts] + [n]
        sizes = [b - a_ for a_, b in zip(cut, cut[1:])]
    return a.split(sizes, dim)


class _MinMax(tuple):
    min = property(lambda s: s[0])
    max = property(lambda s: s[1])


def aminmax(a, dim=None, keepdim=False):
    if dim is None:
        return _MinMax((a.amin(tuple(range(a.ndim))), a.amax(tuple(range(a.ndim)))))
    return _MinMax((a.amin(dim, keepdim=keepdim), a.amax(dim, keepdim=keepdim)))


def cosine_similarity(x1, x2, dim=1, eps=1e-8):
    a, b = S.sqrt((x1 * x1).sum(dim)), S.sqrt((x2 * x2).sum(dim))
    return (x1 * x2).sum(dim) / (clamp_min(a, eps) * clamp_min(b, eps))


def adaptive_avg_pool1d(a, n):
    if n not in (1, (1,)):
        raise S.Unsupported("adaptive_avg_pool1d")
    return a.mean(-1, keepdim=True)


def adaptive_max_pool1d(a, n, return_indices=False):
    if n not in (1, (1,)) or return_indices:
        raise S.Unsupported("adaptive_max_pool1d")
    return a.amax(-1, keepdim=True)


def rot90(a, k=1, dims=(0, 1)):
    p, q = dims
    for _ in range(k % 4):
        a = a.flip(q).transpose(p, q)
    return a


def index_fill(a, dim, index, value):
    r = a.clone()
    r[(slice(None),) * (dim % a.ndim) + (index,)] = value
    return r


def index_copy(a, dim, index, src):
    r = a.clone()
    r[(slice(None),) * (dim % a.ndim) + (index,)] = src
    return r


def index_fill_(a, dim, index, value):
    a[(slice(None),) * (dim % a.ndim) + (index,)] = value
    return a


def index_copy_(a, dim, index, src):
    a[(slice(None),) * (dim % a.ndim) + (index,)] = src
    return a


def clamp_min_(a, v):
    return a.clamp_(min=v)


def clamp_max_(a, v):
    return a.clamp_(max=v)


def addcmul_(a, b, c, value=1):
    return a.add_(value * b * c)


def addcdiv_(a, b, c, value=1):
    return a.add_(value * (b / c))


def lerp_(a, b, weight):
    return a.add_(weight * (b - a))


def blockdiag(*ts):
    raise S.Unsupported("block_diag")


def tril(a, diagonal=0):
    i, j = S.arange(a.shape[-2])[:, None], S.arange(a.shape[-1])[None]
    return S.where(j - i <= diagonal, a, S.zeros((), dtype=a.dtype))


def triu(a, diagonal=0):
    i, j = S.arange(a.shape[-2])[:, None], S.arange(a.shape[-1])[None]
    return S.where(j - i >= diagonal, a, S.zeros((), dtype=a.dtype))


TORCH = dict(tril=tril, triu=triu, mv=mv, inner=inner, tensordot=tensordot, kron=kron, dstack=dstack, column_stack=column_stack, adjoint=adjoint, clamp_min=clamp_min,
             clamp_max=clamp_max, lerp=lerp, addcmul=addcmul, addcdiv=addcdiv, addmm=addmm, baddbmm=addmm, nan_to_num=nan_to_num, fliplr=fliplr, flipud=flipud,
             sgn=sgn, copysign=copysign, heaviside=heaviside, log1p=log1p, expm1=expm1, float_power=float_power, diff=diff, cumsum=cumsum, cumprod=cumprod,
             matrix_power=matrix_power, chain_matmul=chain_matmul, tensor_split=tensor_split, aminmax=aminmax, cosine_similarity=cosine_similarity,
             adaptive_avg_pool1d=adaptive_avg_pool1d, rot90=rot90, index_fill=index_fill, index_copy=index_copy)
LINALG = dict(matrix_norm=matrix_norm, matrix_power=matrix_power, multi_dot=multi_dot)
FUNCTIONAL = dict(cosine_similarity=cosine_similarity, adaptive_avg_pool1d=adaptive_avg_pool1d, adaptive_max_pool1d=adaptive_max_pool1d)
METHODS = dict({k: v for k, v in TORCH.items() if k not in ("dstack", "column_stack", "chain_matmul", "adaptive_avg_pool1d", "cosine_similarity")},
               index_fill_=index_fill_, index_copy_=index_copy_, clamp_min_=clamp_min_, clamp_max_=clamp_max_, addcmul_=addcmul_, addcdiv_=addcdiv_, lerp_=lerp_)
