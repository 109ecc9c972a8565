"""Symbolic tensors: the trusted semantics of the torch operations used by the code under proof.

A tensor is a function from symbolic indices to terms, over a shared mutable storage so that
in-place writes through views are seen by every alias.  Sizes are polynomials over symbolic
dimensions; nothing here is bounded.  An operation that is not modelled raises Unsupported.
"""
import itertools
import builtins
import math as _math
from fractions import Fraction as Fr
from . import terms as T
from .terms import P, Poly, B, ZERO, ONE, TRUE, FALSE, const, atom, Unsupported
from . import prover as PR
from .prover import Explorer, epoch


def _ex():
    return Explorer.cur


# ------------------------------------------------------------------ scalars
class _Num:
    __slots__ = ("_term",)

    def __init__(self, t):
        self._term = t

    def __hash__(self):
        return hash(("symnum", self._term))

    def _bin(self, o, f, intf=True):
        try:
            q = P(o)
        except Unsupported:
            return NotImplemented
        return mknum(f(self._term, q))

    def __add__(self, o):
        if isinstance(o, Tensor):
            return NotImplemented
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, Tensor):
            return NotImplemented
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, Tensor):
            return NotImplemented
        if type(o) in (tuple, list):
            raise Unsupported("sequence repeated a symbolic number of times")
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if type(o) in (tuple, list):
            raise Unsupported("sequence repeated a symbolic number of times")
        return self._bin(o, lambda a, b: a * b)

    def __truediv__(self, o):
        if isinstance(o, Tensor):
            return NotImplemented
        q = P(o)
        nonzero(q)
        return SymFloat(T.div(self._term, q))

    def __rtruediv__(self, o):
        nonzero(self._term)
        return SymFloat(T.div(P(o), self._term))

    def __neg__(self):
        return mknum(-self._term)

    def __pos__(self):
        return self

    def __abs__(self):
        return mknum(T.abs_(self._term))

    def __pow__(self, o):
        return mknum(T.power(self._term, P(o) if isinstance(o, _Num) else o))

    def __rpow__(self, o):
        return mknum(T.power(P(o), self._term))

    def __lt__(self, o):
        return SymBool.mk(T.lt(self._term, P(o)))

    def __le__(self, o):
        return SymBool.mk(T.le(self._term, P(o)))

    def __gt__(self, o):
        return SymBool.mk(T.lt(P(o), self._term))

    def __ge__(self, o):
        return SymBool.mk(T.le(P(o), self._term))

    def __eq__(self, o):
        try:
            return SymBool.mk(T.eq(self._term, P(o)))
        except Unsupported:
            return False

    def __ne__(self, o):
        try:
            return SymBool.mk(T.ne(self._term, P(o)))
        except Unsupported:
            return True

    def __bool__(self):
        return _ex().decide(T.ne(self._term, ZERO))

    def __index__(self):
        raise Unsupported("symbolic number used as a concrete index")

    def __repr__(self):
        return f"<{T.show(self._term)}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def item(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic number")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymInt(_Num):
    __slots__ = ()

    @property
    def __class__(self):
        return int

    def __floordiv__(self, o):
        q = P(o)
        posdiv(q)
        return mkint(T.fdiv(self._term, q))

    def __rfloordiv__(self, o):
        posdiv(self._term)
        return mkint(T.fdiv(P(o), self._term))

    def __mod__(self, o):
        q = P(o)
        if not q.int_:
            return SymFloat(T.rmod(self._term, q))
        posdiv(q)
        return mkint(T.imod(self._term, q))

    def __rmod__(self, o):
        if isinstance(o, str):
            return o % (repr(self),)
        posdiv(self._term)
        return mkint(T.imod(P(o), self._term))

    def __divmod__(self, o):
        return self // o, self % o

    def __float__(self):
        raise Unsupported("symbolic int converted to float")

    def __int__(self):
        raise Unsupported("symbolic int converted to int")

    def bit_length(self):
        raise Unsupported("bit_length")


class SymFloat(_Num):
    __slots__ = ()

    @property
    def __class__(self):
        return float

    def __float__(self):
        raise Unsupported("symbolic float converted to a concrete one")

    def __int__(self):
        raise Unsupported("symbolic float converted to int")

    def __mod__(self, o):
        return SymFloat(T.rmod(self._term, P(o)))

    def is_integer(self):
        raise Unsupported("is_integer")


class SymBool:
    __slots__ = ("_cond",)

    def __init__(self, c):
        self._cond = c

    @staticmethod
    def mk(c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        return SymBool(c)

    @property
    def __class__(self):
        return bool

    @property
    def _term(self):
        return T.ind(self._cond)

    def __bool__(self):
        return _ex().decide(self._cond)

    def __and__(self, o):
        return SymBool.mk(T.band(self._cond, T.toB(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool.mk(T.bor(self._cond, T.toB(o)))

    __ror__ = __or__

    def __invert__(self):
        return SymBool.mk(T.bnot(self._cond))

    def __eq__(self, o):
        return SymBool.mk(T.iff(self._cond, T.toB(o)))

    def __ne__(self, o):
        return SymBool.mk(T.bnot(T.iff(self._cond, T.toB(o))))

    def __hash__(self):
        return hash(self._cond)

    def __add__(self, o):
        return mknum(self._term + P(o))

    __radd__ = __add__

    def __mul__(self, o):
        if isinstance(o, Tensor):
            return NotImplemented
        return mknum(self._term * P(o))

    __rmul__ = __mul__

    def __int__(self):
        return 1 if self else 0

    def __index__(self):
        return 1 if self else 0

    def __float__(self):
        return 1.0 if self else 0.0

    def __repr__(self):
        return f"<{T.show_b(self._cond)}>"


def mkint(p):
    c = T.as_int(p)
    return c if c is not None else SymInt(p)


def mknum(p):
    c = T.as_const(p)
    if c is not None:
        return c.numerator if c.denominator == 1 else _cfloat(c)
    return SymInt(p) if p.int_ else SymFloat(p)


def mkfloat(p):
    c = T.as_const(p)
    if c is not None:
        return _cfloat(c)
    return SymFloat(p)


def _cfloat(c):
    f = float(c)
    return f if Fr(repr(f)) == c else SymFloat(const(c))


def nonzero(q):
    if _ex() is not None and _ex().decide(T.eq(q, ZERO)):
        raise ZeroDivisionError("division by zero")


def posdiv(q):
    if T.nonneg(q - 1):
        return
    e = _ex()
    if e.decide(T.eq(q, ZERO)):
        raise ZeroDivisionError("integer division or modulo by zero")
    if e.decide(T.lt(q, ZERO)):
        raise Unsupported("division by a negative symbolic int")


def decide(b):
    b = T.toB(b)
    if b is TRUE:
        return True
    if b is FALSE:
        return False
    return _ex().decide(b)


def known_eq(p, q):
    """True/False: equality of two integers, forking if it is open"""
    p, q = P(p), P(q)
    if p is q:
        return True
    return decide(T.eq(p, q))


# ------------------------------------------------------------------ dtypes, devices
class dtype:
    def __init__(self, name, kind, prec=0):
        self.name, self.kind, self.prec = name, kind, prec

    def __repr__(self):
        return "torch." + self.name

    @property
    def is_floating_point(self):
        return self.kind == "f"

    def __reduce__(self):
        return (_dt, (self.name,))


def _dt(n):
    return globals()[n]


float16 = dtype("float16", "f", 1)
float32 = dtype("float32", "f", 2)
float64 = dtype("float64", "f", 3)
int8 = dtype("int8", "i", 1)
uint8 = dtype("uint8", "i", 1)
int32 = dtype("int32", "i", 2)
int64 = dtype("int64", "i", 3)
bool_ = dtype("bool", "b", 0)
_KR = {"b": 0, "i": 1, "f": 2}


def promote(*ds):
    best = None
    for d in ds:
        if best is None or (_KR[d.kind], d.prec) > (_KR[best.kind], best.prec):
            best = d
    return best


class device:
    def __init__(self, name="cpu", index=None):
        self.type = name if isinstance(name, str) else name.type

    def __eq__(self, o):
        return isinstance(o, device) and o.type == self.type or o == self.type

    def __hash__(self):
        return hash(self.type)

    def __repr__(self):
        return self.type


CPU = device("cpu")


class Size(tuple):
    def numel(self):
        r = ONE
        for x in self:
            r = r * P(x)
        return mkint(r)

    def __getitem__(self, k):
        r = tuple.__getitem__(self, k)
        return Size(r) if isinstance(k, slice) else r

    def __add__(self, o):
        return Size(tuple.__add__(self, tuple(o)))


# ------------------------------------------------------------------ storages
class MFn:
    """memoised index function"""
    __slots__ = ("f", "memo", "ep")

    def __init__(self, f):
        self.f, self.memo, self.ep = f, {}, -1

    def __call__(self, ix):
        if self.ep != epoch():
            self.memo = {}
            self.ep = epoch()
        r = self.memo.get(ix)
        if r is None:
            r = self.f(ix)
            self.memo[ix] = r
        return r


_ns = [0]


class Storage:
    __slots__ = ("fn", "dims", "version", "uid", "tag")

    def __init__(self, fn, dims, tag=None):
        self.fn = fn if isinstance(fn, MFn) else MFn(fn)
        self.dims = dims
        self.version = 0
        _ns[0] += 1
        self.uid = _ns[0]
        self.tag = tag

    def set(self, fn):
        if _ex() is not None:
            _ex_log(self)
        self.fn = MFn(fn)
        self.version += 1


WRITES = []


def _ex_log(st):
    WRITES.append(st)


DENOMS = []   # (kind, dims, fn) well-definedness conditions met during execution


def _ident(ix):
    return ix


class Tensor:
    def __new__(cls, *a, **k):
        if cls is Tensor:
            return _tensor_ctor(*a, **k)
        return object.__new__(cls)

    # -------------------------------------------------- construction
    @classmethod
    def _mk(cls, dims, fn, dt=float32, tag=None):
        t = object.__new__(cls)
        dims = tuple(P(d) for d in dims)
        t._st = Storage(fn, dims, tag)
        t._dims = dims
        t._map = None
        t._inv = None
        t.dtype = dt
        t._lay = "c"
        t._rg = False
        t.grad = None
        t.grad_fn = None
        return t

    def _view(self, dims, fmap, finv, lay="u"):
        """view: fmap(view ix) -> self ix; finv(self ix) -> (cond, view ix)"""
        t = object.__new__(Tensor)
        t._st = self._st
        t._dims = tuple(P(d) for d in dims)
        m, v = self._map, self._inv
        t._map = fmap if m is None else (lambda ix: m(fmap(ix)))
        if finv is None:
            t._inv = False
        elif v is None:
            t._inv = finv
        elif v is False:
            t._inv = False
        else:
            def inv2(bx):
                c, ix = v(bx)
                c2, jx = finv(ix)
                return T.band(c, c2), jx
            t._inv = inv2
        t.dtype = self.dtype
        t._lay = lay
        t._rg = self._rg
        t.grad = None
        t.grad_fn = None
        return t

    def _rd(self):
        """snapshot reader"""
        f = self._st.fn
        m = self._map
        if m is None:
            return f
        return lambda ix: f(m(ix))

    def _num(self):
        f = self._rd()
        if self.dtype is bool_:
            return lambda ix: T.ind(f(ix))
        return f

    def _bool(self):
        f = self._rd()
        if self.dtype is bool_:
            return f
        return lambda ix: T.ne(f(ix), ZERO)

    def _at(self, *ix):
        return self._rd()(tuple(P(i) for i in ix))

    def _write(self, val):
        """val: function of view index"""
        st = self._st
        old = st.fn
        if self._map is None:
            st.set(val)
            return
        inv = self._inv
        if inv is False:
            raise Unsupported("write through an overlapping or non-invertible view")
        isb = self.dtype is bool_

        def new(bx):
            c, ix = inv(bx)
            if c is TRUE:
                return val(ix)
            if c is FALSE:
                return old(bx)
            if isb:
                return T.bor(T.band(c, val(ix)), T.band(T.bnot(c), old(bx)))
            if T.SPLIT[0] is not None and T.ind(c) is ZERO:
                return old(bx)
            return T.ite(c, val(ix), old(bx))
        st.set(new)

    # -------------------------------------------------- attributes
    @property
    def shape(self):
        return Size(mkint(d) for d in self._dims)

    def size(self, d=None):
        if d is None:
            return self.shape
        return self.shape[d]

    @property
    def ndim(self):
        return len(self._dims)

    def dim(self):
        return len(self._dims)

    def numel(self):
        return self.shape.numel()

    nelement = numel

    @property
    def device(self):
        return CPU

    @property
    def is_cuda(self):
        return False

    @property
    def layout(self):
        return "strided"

    @property
    def requires_grad(self):
        return self._rg

    @requires_grad.setter
    def requires_grad(self, v):
        if self.grad_fn is not None and not v:
            raise RuntimeError("you can only change requires_grad flags of leaf variables.")
        self._rg = bool(v)

    def requires_grad_(self, v=True):
        self._rg = v
        return self

    @property
    def is_leaf(self):
        return self.grad_fn is None

    @property
    def data(self):
        return self.detach()

    @data.setter
    def data(self, v):
        self._st = v._st
        self._map, self._inv, self._dims, self._lay = v._map, v._inv, v._dims, v._lay

    @property
    def T(self):
        return self.permute(*range(self.ndim - 1, -1, -1))

    @property
    def mT(self):
        return self.transpose(-1, -2)

    @property
    def H(self):
        return self.mT

    @property
    def mH(self):
        return self.mT

    def __len__(self):
        n = T.as_int(self._dims[0])
        if n is None:
            raise Unsupported("len() of a tensor of symbolic size")
        return n

    def __iter__(self):
        n = T.as_int(self._dims[0])
        if n is None:
            raise Unsupported("iteration over a symbolic axis")
        return iter([self[i] for i in range(n)])

    def __hash__(self):
        return id(self)

    def __bool__(self):
        if any(d is not ONE for d in self._dims):
            n = T.as_int(self._numel())
            if n != 1:
                raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
        return decide(self._bool()((ZERO,) * self.ndim))

    def _numel(self):
        r = ONE
        for d in self._dims:
            r = r * d
        return r

    def item(self):
        v = self._rd()((ZERO,) * self.ndim)
        for d in self._dims:
            if not known_eq(d, ONE):
                raise RuntimeError("a Tensor with more than one element cannot be converted to Scalar")
        if self.dtype is bool_:
            return SymBool.mk(v)
        return mkint(v) if self.dtype.kind == "i" else mkfloat(v)

    def __float__(self):
        v = self.item()
        if isinstance(v, _Num):
            raise Unsupported("float() of a symbolic tensor")
        return float(v)

    def __int__(self):
        v = self.item()
        if type(v) is SymInt:
            raise Unsupported("int() of a symbolic tensor")
        return int(v)

    def __index__(self):
        return self.__int__()

    def tolist(self):
        if self.ndim == 0:
            return self.item()
        return [x.tolist() for x in self]

    def numpy(self):
        raise Unsupported("numpy")

    def __repr__(self):
        return f"tensor(shape={[T.show(d) for d in self._dims]})"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        r = self.clone()
        r._rg = self._rg
        return r

    def storage_offset(self):
        raise Unsupported("storage_offset")

    def data_ptr(self):
        return self._st.uid

    def stride(self, d=None):
        raise Unsupported("stride")

    def is_contiguous(self, *a, **k):
        if self._lay == "c":
            return True
        if self._lay == "u":
            raise Unsupported("is_contiguous of unknown layout")
        return False

    def element_size(self):
        return 4

    def is_floating_point(self):
        return self.dtype.kind == "f"

    def get_device(self):
        return -1

    # -------------------------------------------------- copies
    def clone(self, *a, **k):
        f = self._rd()
        r = Tensor._mk(self._dims, f, self.dtype)
        r._lay = "c" if self._lay == "c" else "u"
        return _g(r, self)

    def detach(self):
        t = self._view(self._dims, _ident, lambda ix: (TRUE, ix), self._lay)
        t._rg = False
        return t

    def detach_(self):
        self._rg = False
        return self

    def contiguous(self, *a, **k):
        if self._lay == "c":
            return self
        r = self.clone()
        r._lay = "c"
        return r

    def to(self, *a, **k):
        dt = k.get("dtype")
        copy = k.get("copy", False)
        for x in a:
            if isinstance(x, dtype):
                dt = x
            elif isinstance(x, Tensor):
                dt = x.dtype
            elif x is None or isinstance(x, (str, device)):
                pass
            else:
                raise Unsupported("to()")
        if dt is None or dt is self.dtype:
            return self.clone() if copy else self
        return cast(self, dt)

    def cpu(self):
        return self

    def cuda(self, *a):
        raise Unsupported("cuda")

    def type(self, dt=None):
        if dt is None:
            return "torch.FloatTensor"
        return self.to(dt)

    def type_as(self, o):
        return self.to(o.dtype)

    def float(self):
        return self.to(float32)

    def double(self):
        return self.to(float64)

    def half(self):
        return self.to(float16)

    def long(self):
        return self.to(int64)

    def int(self):
        return self.to(int32)

    def bool(self):
        return self.to(bool_)

    def copy_(self, o, *a):
        o = astensor(o)
        f = bc(cast(o, self.dtype), self._dims)
        self._write(f)
        return self

    def fill_(self, v):
        v = P(v) if not isinstance(v, Tensor) else v._at()
        b = self.dtype is bool_
        vv = T.toB(v) if b else v
        self._write(lambda ix: vv)
        return self

    def zero_(self):
        return self.fill_(0)

    def fill_diagonal_(self, v, wrap=False):
        if self.ndim != 2:
            raise Unsupported("fill_diagonal_ for ndim != 2")
        old = self._rd()
        v = P(v)
        self._write(lambda ix: T.ite(T.eq(ix[0], ix[1]), v, old(ix)))
        return self

    def masked_fill(self, m, v):
        return where(m, v if isinstance(v, Tensor) else full((), v, dtype=self.dtype), self)

    def masked_fill_(self, m, v):
        r = self.masked_fill(m, v)
        f = bc(r, self._dims)
        self._write(f)
        return self

    def masked_select(self, m):
        return self[m]

    def normal_(self, mean=0, std=1, generator=None):
        f = fresh_fn("randn", self.ndim)
        self._write(lambda ix: f(ix) * P(std) + P(mean))
        return self

    def uniform_(self, a=0, b=1, generator=None):
        f = fresh_fn("rand", self.ndim)
        a, b = P(a), P(b)
        self._write(lambda ix: a + (b - a) * f(ix))
        return self

    # -------------------------------------------------- new_*
    def new_empty(self, *s, dtype=None, device=None, requires_grad=False):
        return empty(*s, dtype=dtype or self.dtype)

    def new_zeros(self, *s, dtype=None, device=None, requires_grad=False):
        return zeros(*s, dtype=dtype or self.dtype)

    def new_ones(self, *s, dtype=None, device=None, requires_grad=False):
        return ones(*s, dtype=dtype or self.dtype)

    def new_full(self, s, v, dtype=None, device=None, requires_grad=False):
        return full(s, v, dtype=dtype or self.dtype)

    def new_tensor(self, x, dtype=None, device=None, requires_grad=False):
        return tensor(x, dtype=dtype or self.dtype)

    # -------------------------------------------------- views
    def _norm(self, d, n=None):
        n = self.ndim if n is None else n
        if d < -n or d >= builtins.max(n, 1):
            raise IndexError(f"Dimension out of range (expected to be in range of [{-n}, {n - 1}], but got {d})")
        return d % n if n else 0

    def permute(self, *ds):
        if len(ds) == 1 and isinstance(ds[0], (tuple, list)):
            ds = tuple(ds[0])
        if len(ds) != self.ndim:
            raise RuntimeError("permute: number of dimensions does not match")
        ds = [self._norm(d) for d in ds]
        if sorted(ds) != list(range(self.ndim)):
            raise RuntimeError("permute: repeated dim")
        pos = [0] * len(ds)
        for j, d in enumerate(ds):
            pos[d] = j
        lay = self._lay
        if ds != sorted(ds):
            s = self._strides()
            lay = tuple(s[d] for d in ds) if s else "u"
        return _g(self._view([self._dims[d] for d in ds], lambda ix: tuple(ix[pos[d]] for d in range(len(pos))),
                             lambda ix: (TRUE, tuple(ix[d] for d in ds)), lay), self)

    def _strides(self):
        if self._lay == "u":
            return None
        if self._lay == "c":
            s = []
            r = ONE
            for d in reversed(self._dims):
                s.append(r)
                r = r * d
            return tuple(reversed(s))
        return self._lay

    def transpose(self, a, b):
        a, b = self._norm(a), self._norm(b)
        ds = list(range(self.ndim))
        ds[a], ds[b] = ds[b], ds[a]
        return self.permute(*ds) if ds else self

    swapaxes = swapdims = transpose

    def t(self):
        return self.transpose(0, 1) if self.ndim == 2 else self

    def movedim(self, a, b):
        a = [a] if not isinstance(a, (tuple, list)) else list(a)
        b = [b] if not isinstance(b, (tuple, list)) else list(b)
        a = [self._norm(x) for x in a]
        b = [self._norm(x) for x in b]
        rest = [d for d in range(self.ndim) if d not in a]
        out = [None] * self.ndim
        for x, y in zip(a, b):
            out[y] = x
        it = iter(rest)
        out = [next(it) if x is None else x for x in out]
        return self.permute(*out)

    moveaxis = movedim

    def unsqueeze(self, d):
        d = self._norm(d, self.ndim + 1)
        s = self._strides()
        lay = self._lay
        if lay not in ("c", "u"):
            lay = s[:d] + (None,) + s[d:]
        return _g(self._view(self._dims[:d] + (ONE,) + self._dims[d:], lambda ix: ix[:d] + ix[d + 1:],
                             lambda ix: (TRUE, ix[:d] + (ZERO,) + ix[d:]), lay), self)

    def squeeze(self, d=None):
        if isinstance(d, (tuple, list)):
            t = self
            for x in sorted((self._norm(x) for x in d), reverse=True):
                t = t.squeeze(x)
            return t
        if d is None:
            t = self
            for k in reversed(range(self.ndim)):
                t = t.squeeze(k)
            return t
        if self.ndim == 0:
            return self
        d = self._norm(d)
        if not known_eq(self._dims[d], ONE):
            return self._view(self._dims, _ident, lambda ix: (TRUE, ix), self._lay)
        lay = self._lay
        if lay not in ("c", "u"):
            lay = lay[:d] + lay[d + 1:]
        return _g(self._view(self._dims[:d] + self._dims[d + 1:], lambda ix: ix[:d] + (ZERO,) + ix[d:],
                             lambda ix: (TRUE, ix[:d] + ix[d + 1:]), lay), self)

    def expand(self, *s):
        s = _sz(s)
        n = len(s) - self.ndim
        if n < 0:
            raise RuntimeError("expand: fewer dimensions than the tensor")
        dims = []
        one = []
        for k, d in enumerate(s):
            own = self._dims[k - n] if k >= n else None
            if T.as_int(P(d)) == -1:
                if own is None:
                    raise RuntimeError("expand: -1 in a leading dimension")
                dims.append(own)
                one.append(False)
            elif own is None:
                dims.append(P(d))
                one.append(None)
            elif own is ONE and P(d) is not ONE:
                dims.append(P(d))
                one.append(True)
            else:
                if not known_eq(own, d):
                    if known_eq(own, ONE):
                        dims.append(P(d))
                        one.append(True)
                        continue
                    raise RuntimeError("expand: size mismatch")
                dims.append(own)
                one.append(False)
        ev = builtins.any(x is not False for x in one)
        return _g(self._view(dims, lambda ix: tuple(ZERO if one[k] else ix[k] for k in range(n, len(one))),
                             None if ev else (lambda ix: (TRUE, ix)), "u" if ev else self._lay), self)

    def expand_as(self, o):
        return self.expand(*o.shape)

    def broadcast_to(self, s):
        return self.expand(*s)

    def view(self, *s):
        if len(s) == 1 and isinstance(s[0], dtype):
            raise Unsupported("view(dtype)")
        return self._reshape(_sz(s), True)

    def view_as(self, o):
        return self.view(*o.shape)

    def reshape(self, *s):
        return self._reshape(_sz(s), False)

    def reshape_as(self, o):
        return self.reshape(*o.shape)

    def _reshape(self, s, strict):
        tot = self._numel()
        s = [P(x) for x in s]
        neg = [k for k, x in enumerate(s) if T.as_int(x) == -1]
        if len(neg) > 1:
            raise RuntimeError("only one dimension can be inferred")
        if neg:
            kn = ONE
            for k, x in enumerate(s):
                if k != neg[0]:
                    kn = kn * x
            q = T.exact_div(tot, kn) if kn is not ZERO else None
            if kn is ZERO:
                raise RuntimeError("cannot reshape tensor of 0 elements into shape with -1")
            if q is None or not all(c.denominator == 1 for c in q.t.values()):
                q = facts_div(tot, kn)
            if q is None:
                if T.as_const(tot) is not None and T.as_const(kn) is not None:
                    raise RuntimeError("shape is invalid for input")
                raise Unsupported(f"reshape: cannot divide {tot} by {kn}")
            # zero known product: torch refuses to infer -1
            if not T.nonneg(kn - 1) and decide(T.eq(kn, ZERO)):
                raise RuntimeError("cannot reshape tensor of 0 elements: unspecified dimension is ambiguous")
            s[neg[0]] = q
        else:
            pr = ONE
            for x in s:
                pr = pr * x
            if pr is not tot and not known_eq(pr, tot):
                raise RuntimeError(f"shape '{[T.show(x) for x in s]}' is invalid for input of size {T.show(tot)}")
        old, new = list(self._dims), s
        groups = _align(old, new)
        lay = self._lay
        if lay != "c":
            st = self._strides()
            ok = True
            for (a0, a1, b0, b1) in groups:
                od = [d for d in range(a0, a1) if old[d] is not ONE]
                if len(od) > 1:
                    if st is None:
                        ok = None
                        break
                    for x, y in zip(od, od[1:]):
                        if st[x] is None or st[y] is None or st[x] is not st[y] * old[y]:
                            ok = False
            if ok is None and strict:
                raise Unsupported("view of a tensor of unknown memory layout")
            if ok is False:
                if strict:
                    raise RuntimeError("view size is not compatible with input tensor's size and stride "
                                       "(at least one dimension spans across two contiguous subspaces)")
                f = self._rd()
                base = Tensor._mk(self._dims, f, self.dtype)
                return _g(base._reshape(s, True), self)
            if ok is None:
                # reshape: may or may not be a view; result is treated as a copy (writes unsupported)
                f = self._rd()
                base = Tensor._mk(self._dims, f, self.dtype)
                r = base._reshape(s, True)
                r._inv = False
                return _g(r, self)
            lay = "u"
        fmap = lambda ix: _regroup(ix, new, old, [(b0, b1, a0, a1) for a0, a1, b0, b1 in groups])
        finv = lambda ix: (TRUE, _regroup(ix, old, new, groups))
        return _g(self._view(new, fmap, finv, lay), self)

    def flatten(self, a=0, b=-1):
        if self.ndim == 0:
            return self.reshape(1)
        a, b = self._norm(a), self._norm(b)
        if a > b:
            raise RuntimeError("flatten() has invalid args: start_dim cannot come after end_dim")
        if a == b:
            return self
        r = ONE
        for d in self._dims[a:b + 1]:
            r = r * d
        return self._reshape(list(self._dims[:a]) + [r] + list(self._dims[b + 1:]), False)

    def ravel(self):
        return self.flatten()

    def unflatten(self, d, s):
        d = self._norm(d)
        s = list(s)
        return self._unfl(d, s)

    def _unfl(self, d, s):
        s = [P(x) for x in s]
        own = self._dims[d]
        neg = [k for k, x in enumerate(s) if T.as_int(x) == -1]
        if neg:
            kn = ONE
            for k, x in enumerate(s):
                if k != neg[0]:
                    kn = kn * x
            q = T.exact_div(own, kn)
            if q is None:
                raise Unsupported("unflatten")
            s[neg[0]] = q
        else:
            pr = ONE
            for x in s:
                pr = pr * x
            if pr is not own and not known_eq(pr, own):
                raise RuntimeError("unflatten: sizes don't multiply up to the size of the dim")
        old = list(self._dims)
        new = old[:d] + s + old[d + 1:]
        k = len(s)
        lay = self._lay
        if lay not in ("c", "u"):
            st = [lay[d]]
            for x in reversed(s[1:]):
                st.insert(0, st[0] * x if st[0] is not None else None)
            lay = lay[:d] + tuple(st) + lay[d + 1:]
        grp = [(j, j + 1, j, j + 1) for j in range(d)] + [(d, d + 1, d, d + k)] + [
            (j, j + 1, j + k - 1, j + k) for j in range(d + 1, len(old))]
        inv = [(b0, b1, a0, a1) for a0, a1, b0, b1 in grp]
        return _g(self._view(new, lambda ix: _regroup(ix, new, old, inv),
                             lambda ix: (TRUE, _regroup(ix, old, new, grp)), lay), self)

    def repeat(self, *r):
        r = _sz(r)
        n = len(r) - self.ndim
        if n < 0:
            raise RuntimeError("repeat: Number of dimensions of repeat dims can not be smaller than number of dimensions of tensor")
        own = (ONE,) * n + self._dims
        dims = [P(x) * d for x, d in zip(r, own)]
        f = self._rd()

        def g(ix):
            return f(tuple(ZERO if own[k] is ONE else (ix[k] if P(r[k]) is ONE else T.imod(ix[k], own[k]))
                           for k in range(n, len(own))))
        return _g(Tensor._mk(dims, g, self.dtype), self)

    tile = repeat

    def repeat_interleave(self, n, dim=None, output_size=None):
        if isinstance(n, Tensor):
            if n.ndim == 0:
                n = n.item()
            else:
                raise Unsupported("repeat_interleave with a tensor of counts")
        t = self
        if dim is None:
            t = self.flatten()
            dim = 0
        d = t._norm(dim)
        n = P(n)
        f = t._rd()
        dims = list(t._dims)
        dims[d] = dims[d] * n
        return _g(Tensor._mk(dims, lambda ix: f(ix[:d] + (T.fdiv(ix[d], n),) + ix[d + 1:]), t.dtype), self)

    def narrow(self, d, start, length):
        d = self._norm(d)
        return self[(slice(None),) * d + (slice(start, start + length),)]

    def select(self, d, i):
        d = self._norm(d)
        return self[(slice(None),) * d + (i,)]

    def index_select(self, d, idx):
        d = self._norm(d)
        return self[(slice(None),) * d + (idx,)]

    def unbind(self, dim=0):
        d = self._norm(dim)
        n = T.as_int(self._dims[d])
        if n is None:
            raise Unsupported("unbind over a symbolic axis")
        return tuple(self.select(d, i) for i in range(n))

    def split(self, n, dim=0):
        d = self._norm(dim)
        if isinstance(n, (tuple, list)):
            out = []
            pos = ZERO
            for x in n:
                out.append(self.narrow(d, mkint(pos), x))
                pos = pos + P(x)
            if not known_eq(pos, self._dims[d]):
                raise RuntimeError("split_with_sizes expects split_sizes to sum exactly")
            return tuple(out)
        tot, k = T.as_int(self._dims[d]), T.as_int(P(n))
        if tot is None or k is None:
            q = T.exact_div(self._dims[d], P(n))
            c = T.as_int(q) if q is not None else None
            if c is None:
                raise Unsupported("split of a symbolic axis")
            return tuple(self.narrow(d, mkint(P(n) * j), n) for j in range(c))
        return tuple(self.narrow(d, j, builtins.min(k, tot - j)) for j in range(0, builtins.max(tot, 1), k))

    def chunk(self, n, dim=0):
        d = self._norm(dim)
        tot = T.as_int(self._dims[d])
        if tot is None:
            q = T.exact_div(self._dims[d], const(n))
            if q is None or not q.int_:
                raise Unsupported("chunk of a symbolic axis")
            return self.split(mkint(q), d)
        return self.split(-(-tot // n), d)

    def diagonal(self, offset=0, dim1=0, dim2=1):
        if offset:
            raise Unsupported("diagonal offset")
        a, b = self._norm(dim1), self._norm(dim2)
        if self._dims[a] is not self._dims[b]:
            raise Unsupported("diagonal of a non-square matrix")
        n = self.ndim
        keep = [d for d in range(n) if d not in (a, b)]

        def fmap(ix):
            out = [None] * n
            for k, d in enumerate(keep):
                out[d] = ix[k]
            out[a] = out[b] = ix[-1]
            return tuple(out)

        def finv(ix):
            return T.eq(ix[a], ix[b]), tuple(ix[d] for d in keep) + (ix[a],)
        return _g(self._view([self._dims[d] for d in keep] + [self._dims[a]], fmap, finv), self)

    def flip(self, *ds):
        ds = _sz(ds)
        ds = {self._norm(d) for d in ds}
        f = self._rd()
        dims = self._dims
        return _g(Tensor._mk(dims, lambda ix: f(tuple(dims[k] - 1 - i if k in ds else i for k, i in enumerate(ix))),
                             self.dtype), self)

    def roll(self, shifts, dims=None):
        if dims is None:
            raise Unsupported("roll without dims")
        sh = [shifts] if not isinstance(shifts, (tuple, list)) else list(shifts)
        ds = [dims] if not isinstance(dims, (tuple, list)) else list(dims)
        ds = [self._norm(d) for d in ds]
        f = self._rd()
        D = self._dims

        def g(ix):
            ix = list(ix)
            for s, d in zip(sh, ds):
                ix[d] = T.imod(ix[d] - P(s), D[d])
            return f(tuple(ix))
        return _g(Tensor._mk(D, g, self.dtype), self)

    # -------------------------------------------------- indexing
    def __getitem__(self, key):
        return _index(self, key)

    def __setitem__(self, key, val):
        _setindex(self, key, val)

    def index_put_(self, idx, val):
        self[tuple(idx)] = val
        return self

    def gather(self, dim, index):
        d = self._norm(dim)
        if index.ndim != self.ndim:
            raise RuntimeError("Index tensor must have the same number of dimensions as input tensor")
        for k in range(self.ndim):
            if k != d and index._dims[k] is not self._dims[k]:
                if not decide(T.le(index._dims[k], self._dims[k])):
                    raise RuntimeError("Size does not match at dimension")
        f, g = self._rd(), index._rd()
        return _g(Tensor._mk(index._dims, lambda ix: f(ix[:d] + (g(ix),) + ix[d + 1:]), self.dtype), self)

    def nonzero(self, as_tuple=False):
        ts = _nonzero(self)
        return tuple(ts) if as_tuple else stack(ts, -1)

    # -------------------------------------------------- reductions
    def sum(self, dim=None, keepdim=False, dtype=None, axis=None):
        return reduce_sum(self, axis if axis is not None else dim, keepdim)

    def mean(self, dim=None, keepdim=False, dtype=None, axis=None):
        return reduce_mean(self, axis if axis is not None else dim, keepdim)

    def prod(self, dim=None, keepdim=False):
        return reduce_prod(self, dim, keepdim)

    def norm(self, p=2, dim=None, keepdim=False):
        return vector_norm(self, p, dim, keepdim)

    def var(self, dim=None, unbiased=True, keepdim=False, correction=None):
        return reduce_var(self, dim, keepdim, (1 if unbiased else 0) if correction is None else correction)

    def std(self, dim=None, unbiased=True, keepdim=False, correction=None):
        return sqrt(self.var(dim, unbiased, keepdim, correction))

    def any(self, dim=None, keepdim=False):
        return reduce_any(self, dim, keepdim, False)

    def all(self, dim=None, keepdim=False):
        return reduce_any(self, dim, keepdim, True)

    def max(self, dim=None, keepdim=False):
        return minmax(self, dim, keepdim, True)

    def min(self, dim=None, keepdim=False):
        return minmax(self, dim, keepdim, False)

    def amax(self, dim=None, keepdim=False):
        return aminmax_(self, dim, keepdim, True)

    def amin(self, dim=None, keepdim=False):
        return aminmax_(self, dim, keepdim, False)

    def argmax(self, dim=None, keepdim=False):
        return argext(self, dim, keepdim, True)

    def argmin(self, dim=None, keepdim=False):
        return argext(self, dim, keepdim, False)

    def sort(self, dim=-1, descending=False, stable=False):
        return sort(self, dim, descending)

    def argsort(self, dim=-1, descending=False, stable=False):
        return sort(self, dim, descending)[1]

    def topk(self, k, dim=-1, largest=True, sorted=True):
        return topk(self, k, dim, largest)

    def count_nonzero(self, dim=None):
        return (self != 0).sum(dim)

    def unique(self, *a, **k):
        raise Unsupported("unique")

    def equal(self, o):
        return equal(self, o)

    # -------------------------------------------------- arithmetic
    def __add__(self, o):
        return ew2(self, o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return ew2(self, o, lambda a, b: a - b)

    def __rsub__(self, o):
        return ew2(o, self, lambda a, b: a - b)

    def __mul__(self, o):
        return ew2(self, o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return tdiv(self, o)

    def __rtruediv__(self, o):
        return tdiv(o, self)

    def __floordiv__(self, o):
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(o, self)

    def __mod__(self, o):
        return remainder(self, o)

    def __rmod__(self, o):
        return remainder(o, self)

    def __pow__(self, o):
        return tpow(self, o)

    def __rpow__(self, o):
        return tpow(astensor(o), self)

    def __neg__(self):
        return ew1(self, lambda a: -a)

    def __pos__(self):
        return self

    def __abs__(self):
        return self.abs()

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def __and__(self, o):
        return bop(self, o, T.band)

    __rand__ = __and__

    def __or__(self, o):
        return bop(self, o, T.bor)

    __ror__ = __or__

    def __xor__(self, o):
        return bop(self, o, T.xor)

    def __invert__(self):
        if self.dtype is not bool_:
            raise Unsupported("bitwise not of integers")
        f = self._rd()
        return Tensor._mk(self._dims, lambda ix: T.bnot(f(ix)), bool_)

    logical_not = __invert__
    logical_and = __and__
    logical_or = __or__

    def __lt__(self, o):
        return cmp(self, o, T.lt)

    def __le__(self, o):
        return cmp(self, o, T.le)

    def __gt__(self, o):
        return cmp(self, o, T.gt)

    def __ge__(self, o):
        return cmp(self, o, T.ge)

    def __eq__(self, o):
        return cmp(self, o, T.eq)

    def __ne__(self, o):
        return cmp(self, o, T.ne)

    lt, le, gt, ge, eq, ne = __lt__, __le__, __gt__, __ge__, __eq__, __ne__

    # in-place
    def _ip(self, r):
        if not isinstance(r, Tensor):
            raise Unsupported("in-place result")
        if _KR[r.dtype.kind] > _KR[self.dtype.kind]:
            raise RuntimeError("result type can't be cast to the desired output type")
        if self._rg and self.grad_fn is None and not NO_GRAD[0]:
            raise RuntimeError("a leaf Variable that requires grad is being used in an in-place operation.")
        self._write(bc(cast(r, self.dtype), self._dims, strict=True))
        return self

    def __iadd__(self, o):
        return self._ip(self + o)

    def __isub__(self, o):
        return self._ip(self - o)

    def __imul__(self, o):
        return self._ip(self * o)

    def __itruediv__(self, o):
        return self._ip(self / o)

    def __imod__(self, o):
        return self._ip(self % o)

    def __ipow__(self, o):
        return self._ip(self ** o)

    def __iand__(self, o):
        return self._ip(self & o)

    def __ior__(self, o):
        return self._ip(self | o)

    def add(self, o, *, alpha=1):
        return self + (o if alpha == 1 else alpha * o)

    def sub(self, o, *, alpha=1):
        return self - (o if alpha == 1 else alpha * o)

    def add_(self, o, *, alpha=1):
        return self._ip(self + (o if type(alpha) is int and alpha == 1 else alpha * o))

    def sub_(self, o, *, alpha=1):
        return self._ip(self - (o if type(alpha) is int and alpha == 1 else alpha * o))

    def mul_(self, o):
        return self._ip(self * o)

    def div_(self, o):
        return self._ip(self / o)

    def neg_(self):
        return self._ip(-self)

    def clamp_(self, *a, **k):
        return self._ip(clamp(self, *a, **k))

    def remainder_(self, o):
        return self._ip(remainder(self, o))

    def abs_(self):
        return self._ip(self.abs())

    def copysign(self, o):
        raise Unsupported("copysign")

    def cross(self, o, dim=-1):
        return cross(self, o, dim)

    def dot(self, o):
        return (self * o).sum()

    def bmm(self, o):
        return matmul(self, o)

    def mm(self, o):
        return matmul(self, o)

    def matmul(self, o):
        return matmul(self, o)

    def backward(self, *a, **k):
        _backward(self)

    def register_hook(self, f):
        raise Unsupported("hooks")

    def apply_(self, f):
        raise Unsupported("apply_")

    def unfold(self, *a):
        raise Unsupported("unfold")

    def scatter_(self, *a, **k):
        raise Unsupported("scatter_")

    def __getattr__(self, n):
        if n.startswith("__") or n in ("_st", "_dims"):
            raise AttributeError(n)
        f = _METH.get(n)
        if f is not None:
            return lambda *a, **k: f(self, *a, **k)
        if n in _KNOWN_ATTRS:
            raise Unsupported(f"Tensor.{n}")
        raise AttributeError(f"'Tensor' object has no attribute '{n}'")


# attributes real tensors have that are not modelled: Unsupported rather than AttributeError
_KNOWN_ATTRS = set("""is_sparse is_quantized names imag real angle as_strided baddbmm addmm addbmm addcmul addcdiv bernoulli
bincount cholesky cummax cummin cumprod det diag diff dist eig erf erfc erfinv expm1 geqrf ger heaviside histc
index_add index_add_ index_copy index_fill inverse isclose isfinite isinf isnan istft kthvalue ldexp lerp lgamma log10 log1p log2
logaddexp logcumsumexp logdet logical_xor logit logsumexp lu masked_scatter matrix_exp median mode msort multinomial
mv nanmean nansum narrow_copy ormqr outer pinverse polygamma put quantile rad2deg deg2rad rot90 scatter scatter_add select_scatter
signbit sinc sinh slice_scatter slogdet sparse_mask stft storage subtract svd take take_along_dim tan_ tensor_split to_sparse trace
triangular_solve tril triu trunc unique_consecutive untyped_storage vdot xlogy zero nanquantile softmax relu sigmoid resize_ set_
squeeze_ unsqueeze_ transpose_ t_ swapaxes_ rename retain_grad new apply_ map_ random_ exponential_ cauchy_ geometric_ log_normal_
requires_grad_ share_memory_ is_shared is_pinned pin_memory record_stream cfloat cdouble __cuda_array_interface__ itemsize nbytes
sqrt_ exp_ sin_ cos_ floor_ round_ frac frac_ fmod_ sign_ sgn""".split())
_METH = {}


def _g(r, *src):
    if not NO_GRAD[0] and builtins.any(isinstance(s, Tensor) and s._rg for s in src):
        r._rg = True
        r.grad_fn = "op"
    else:
        r._rg = False
    return r


NO_GRAD = [False]
SEEDED = [0]  # how often the generator was seeded


def manual_seed(s=0):
    SEEDED[0] += 1




class no_grad:
    def __init__(self, *a):
        self.v = True

    def __enter__(self):
        self.old = NO_GRAD[0]
        NO_GRAD[0] = self.v

    def __exit__(self, *a):
        NO_GRAD[0] = self.old

    def __call__(self, f):
        def g(*a, **k):
            with type(self)():
                return f(*a, **k)
        g.__name__ = getattr(f, "__name__", "f")
        return g


class enable_grad(no_grad):
    def __init__(self, *a):
        self.v = False


class set_grad_enabled(no_grad):
    def __init__(self, m):
        self.v = not m
        self.old = NO_GRAD[0]
        NO_GRAD[0] = self.v


# ------------------------------------------------------------------ shapes
def _sz(s):
    if len(s) == 1 and isinstance(s[0], (tuple, list)):
        s = tuple(s[0])
    out = []
    for x in s:
        if isinstance(x, Tensor):
            x = x.item()
        if type(x) is float or type(x) is SymFloat:
            raise TypeError("size must be a tuple of ints, but found element of type float")
        if x is None:
            raise TypeError("size must be a tuple of ints, but found element of type NoneType")
        out.append(x)
    return tuple(out)


def facts_div(a, b):
    rules = PR.orient(_ex().facts)
    if not rules:
        return None
    a2, b2 = T.subst(a, rules), T.subst(b, rules)
    return T.exact_div(a2, b2) if b2 is not ZERO else None


def _align(old, new):
    """groups of consecutive dims with equal products: (a0,a1,b0,b1)"""
    groups = []
    a = b = 0
    n, m = len(old), len(new)
    while a < n or b < m:
        a0, b0 = a, b
        pa = pb = ONE
        if a < n and b < m and old[a] is new[b]:
            groups.append((a, a + 1, b, b + 1))
            a, b = a + 1, b + 1
            continue
        # absorb ones
        if a < n and old[a] is ONE:
            groups.append((a, a + 1, b, b))
            a += 1
            continue
        if b < m and new[b] is ONE:
            groups.append((a, a, b, b + 1))
            b += 1
            continue
        best = None
        pas = [ONE]
        for x in old[a:]:
            pas.append(pas[-1] * x)
        pbs = [ONE]
        for x in new[b:]:
            pbs.append(pbs[-1] * x)
        for tot in range(2, len(pas) + len(pbs)):
            for i in range(1, len(pas)):
                j = tot - i
                if 1 <= j < len(pbs) and pas[i] is pbs[j]:
                    best = (i, j)
                    break
            if best:
                break
        if best is None:
            groups.append((a, n, b, m))
            break
        groups.append((a, a + best[0], b, b + best[1]))
        a, b = a + best[0], b + best[1]
    return groups


def _regroup(ix, src, dst, groups):
    """index over dims src -> index over dims dst"""
    out = [None] * len(dst)
    for (a0, a1, b0, b1) in groups:
        if a1 - a0 == 1 and b1 - b0 == 1:
            out[b0] = ix[a0]
            continue
        lin = ZERO
        for k in range(a0, a1):
            lin = lin * src[k] + ix[k]
        for k in range(b1 - 1, b0 - 1, -1):
            if k == b0:
                out[k] = lin
            elif dst[k] is ONE:
                out[k] = ZERO
            else:
                out[k] = T.imod(lin, dst[k])
                lin = T.fdiv(lin, dst[k])
    return tuple(out)


def bshape(*shapes):
    n = builtins.max(len(s) for s in shapes)
    out = []
    for k in range(n):
        cur = ONE
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            d = s[j]
            if d is ONE or d is cur:
                continue
            if cur is ONE:
                cur = d
                continue
            if known_eq(cur, d):
                continue
            if known_eq(cur, ONE):
                cur = d
                continue
            if known_eq(d, ONE):
                continue
            raise RuntimeError(f"The size of tensor a ({T.show(cur)}) must match the size of tensor b ({T.show(d)})")
        out.append(cur)
    return tuple(out)


def bc(t, dims, strict=False):
    """reader of t broadcast to dims"""
    f = t._rd()
    own = t._dims
    n = len(dims) - len(own)
    if n < 0:
        # leading ones may be dropped
        if builtins.all(d is ONE for d in own[:-n or None]):
            k = -n
            g = f
            f = lambda ix: g((ZERO,) * k + ix)
            own = own[k:]
            n = 0
        else:
            raise RuntimeError("shape mismatch: value cannot be broadcast")
    if tuple(own) == tuple(dims):
        return f
    one = []
    for d, e in zip(own, dims[n:]):
        if d is e:
            one.append(False)
        elif d is ONE:
            one.append(True)
        elif known_eq(d, e):
            one.append(False)
        elif known_eq(d, ONE):
            one.append(True)
        else:
            raise RuntimeError(f"shape mismatch: {T.show(d)} cannot be broadcast to {T.show(e)}")
    return lambda ix: f(tuple(ZERO if o else i for o, i in zip(one, ix[n:])))


# ------------------------------------------------------------------ construction
def fresh_name(base):
    e = _ex()
    if e is None:
        _ns[0] += 1
        return f"{base}@{_ns[0]}"
    e.fresh += 1
    return f"{base}!{e.fresh}"


REAL_RANGE = PR.REAL_RANGE


def fresh_fn(base, nd, sort="R"):
    name = fresh_name(base)
    return lambda ix: T.el(name, ix, sort)


def named(name, dims, dt=float32):
    """input tensor with arbitrary contents"""
    if dt is bool_:
        return Tensor._mk(dims, lambda ix: T.bapp(name, *ix), bool_, tag=name)
    return Tensor._mk(dims, lambda ix: T.el(name, ix, "I" if dt.kind == "i" else "R"), dt, tag=name)


def _dtype_of(v):
    if isinstance(v, bool):
        return bool_
    if isinstance(v, int):
        return int64
    return float32


def _flat(x):
    """nested python data -> (shape, list of leaves)"""
    if isinstance(x, (list, tuple)):
        if not x:
            return (0,), []
        sub = [_flat(y) for y in x]
        s0 = sub[0][0]
        for s, _ in sub:
            if s != s0:
                raise ValueError("expected sequence of equal length")
        return (len(x),) + s0, [v for _, l in sub for v in l]
    if isinstance(x, Tensor):
        if x.ndim == 0:
            return (), [x.item()]
        return _flat(list(x))
    return (), [x]


def _from_data(x, dt=None):
    shape, leaves = _flat(x)
    if dt is None:
        dt = int64
        if not leaves:
            dt = float32
        else:
            dt = promote(*[_dtype_of(v) for v in leaves])
    vals = [(T.toB(v) if dt is bool_ else P(v)) for v in leaves]
    if dt is bool_:
        if len(vals) == 1 or all(v is vals[0] for v in vals):
            return Tensor._mk(shape, lambda ix: vals[0], dt)

        def fb(ix):
            k = 0
            for i, n in zip(ix, shape):
                c = T.as_int(i)
                if c is None:
                    raise Unsupported("symbolic index into a boolean table")
                k = k * n + c
            return vals[k]
        return Tensor._mk(shape, fb, dt)
    return Tensor._mk(shape, table_fn(shape, vals, dt), dt)


def table_fn(shape, vals, dt=float32):
    if len(vals) == 1:
        return lambda ix: vals[0]
    name = [None]

    def f(ix):
        k = 0
        for i, n in zip(ix, shape):
            c = T.as_int(i)
            if c is None:
                break
            k = k * n + c
        else:
            return vals[k]
        if len(vals) <= 40:
            # if-then-else chain over the symbolic coordinates
            j = next(j for j, i in enumerate(ix) if T.as_int(i) is None)
            r = None
            for v in range(shape[j] - 1, -1, -1):
                x = f(ix[:j] + (const(v),) + ix[j + 1:])
                r = x if r is None else T.ite(T.eq(ix[j], const(v)), x, r)
            return r
        if name[0] is None:
            key = (tuple(shape), tuple(v.id for v in vals))
            name[0] = T.TABLES_IDX.get(key)
            if name[0] is None:
                name[0] = f"table{len(T.TABLES)}"
                T.TABLES_IDX[key] = name[0]
                T.TABLES[name[0]] = (tuple(shape), vals)
        return T.el(name[0], ix, "I" if dt.kind == "i" else "R")
    return f


def _tensor_ctor(*a, device=None, dtype=None):
    if not a:
        return Tensor._mk((0,), lambda ix: ZERO)
    if len(a) == 1 and isinstance(a[0], Tensor):
        return a[0]
    if len(a) == 1 and isinstance(a[0], (list, tuple)) and not (isinstance(a[0], Size)):
        return _from_data(a[0], float32)
    return empty(*a)


class _TMeta(type):
    pass


def tensor(x, dtype=None, device=None, requires_grad=False):
    if isinstance(x, Tensor):
        r = cast(x.clone(), dtype or x.dtype)
        r._rg = requires_grad
        r.grad_fn = None
        return r
    r = _from_data(x, dtype)
    r._rg = requires_grad
    return r


def as_tensor(x, dtype=None, device=None):
    if isinstance(x, Tensor):
        return cast(x, dtype or x.dtype)
    return tensor(x, dtype)


def astensor(x, like=None):
    if isinstance(x, Tensor):
        return x
    if isinstance(x, (int, float, bool, Fr, Poly)) or hasattr(x, "_term"):
        dt = _dtype_of(x) if not isinstance(x, Poly) else (int64 if x.int_ else float32)
        v = T.toB(x) if dt is bool_ else P(x)
        t = Tensor._mk((), lambda ix: v, dt)
        t._scalar = True
        return t
    raise TypeError(f"unsupported operand type for Tensor: {type(x).__name__}")


def _dims(s):
    s = _sz(s)
    out = []
    for x in s:
        p = P(x)
        c = T.as_const(p)
        if c is not None:
            if c < 0:
                raise RuntimeError(f"Trying to create tensor with negative dimension {c}")
        elif not T.nonneg(p):
            if decide(T.lt(p, ZERO)):
                raise RuntimeError("Trying to create tensor with negative dimension")
        out.append(p)
    return out


def full(s, v, dtype=None, device=None, requires_grad=False, out=None):
    if isinstance(v, Tensor):
        v = v.item()
    dt = dtype or _dtype_of(v)
    d = _dims((s,) if not isinstance(s, int) else (s,))
    val = T.toB(v) if dt is bool_ else P(v)
    r = Tensor._mk(d, lambda ix: val, dt)
    r._rg = requires_grad
    return r


def zeros(*s, dtype=None, device=None, requires_grad=False, **k):
    s = s or ((k["size"],) if "size" in k else ((),))
    dt = dtype or float32
    r = Tensor._mk(_dims(s), (lambda ix: FALSE) if dt is bool_ else (lambda ix: ZERO), dt)
    r._rg = requires_grad
    return r


def ones(*s, dtype=None, device=None, requires_grad=False, **k):
    s = s or ((k["size"],) if "size" in k else ((),))
    dt = dtype or float32
    r = Tensor._mk(_dims(s), (lambda ix: TRUE) if dt is bool_ else (lambda ix: ONE), dt)
    r._rg = requires_grad
    return r


def empty(*s, dtype=None, device=None, requires_grad=False, memory_format=None, **k):
    s = s or ((k["size"],) if "size" in k else ((),))
    dt = dtype or float32
    name = fresh_name("uninit")
    if dt is bool_:
        f = lambda ix: T.bapp(name, *ix)
    else:
        f = lambda ix: T.el(name, ix, "I" if dt.kind == "i" else "R")
    r = Tensor._mk(_dims(s), f, dt)
    r._rg = requires_grad
    return r


def zeros_like(t, **k):
    return zeros(*t.shape, dtype=k.get("dtype") or t.dtype)


def ones_like(t, **k):
    return ones(*t.shape, dtype=k.get("dtype") or t.dtype)


def full_like(t, v, **k):
    return full(t.shape, v, dtype=k.get("dtype") or t.dtype)


def empty_like(t, **k):
    return empty(*t.shape, dtype=k.get("dtype") or t.dtype)


def rand_like(t, **k):
    return rand(*t.shape)


def randn_like(t, **k):
    return randn(*t.shape)


def rand(*s, dtype=None, device=None, generator=None, requires_grad=False, **k):
    s = s or ((k["size"],) if "size" in k else ((),))
    d = _dims(s)
    name = fresh_name("rand")
    REAL_RANGE[name] = (0, 1)
    return Tensor._mk(d, lambda ix: T.el(name, ix), dtype or float32)


def randn(*s, dtype=None, device=None, generator=None, requires_grad=False, **k):
    s = s or ((k["size"],) if "size" in k else ((),))
    d = _dims(s)
    name = fresh_name("randn")
    return Tensor._mk(d, lambda ix: T.el(name, ix), dtype or float32)


def normal(mean=0.0, std=1.0, size=None, **k):
    if isinstance(mean, Tensor) or isinstance(std, Tensor):
        s = bshape(astensor(mean)._dims, astensor(std)._dims)
        return randn(*[mkint(x) for x in s]) * std + mean
    return randn(*size) * std + mean


def randint(lo, hi=None, size=None, **k):
    if size is None:
        lo, hi, size = 0, lo, hi
    if hi is None:
        lo, hi = 0, lo
    name = fresh_name("randint")
    T.EL_BOUND[name] = (lo, P(hi))
    return Tensor._mk(_dims((size,)), lambda ix: T.el(name, ix, "I"), k.get("dtype") or int64)


def randperm(n, **k):
    raise Unsupported("randperm")


def arange(a, b=None, step=1, dtype=None, device=None, **k):
    if b is None:
        a, b = 0, a
    real = builtins.any(isinstance(x, float) for x in (a, b, step))
    a, b, step = P(a), P(b), P(step)
    dt = dtype or (int64 if not real and a.int_ and b.int_ and step.int_ else float32)
    if step is ONE:
        n = b - a
    else:
        q = T.exact_div(b - a, step)
        if q is None or not q.int_:
            c = T.as_const(T.div(b - a, step))
            if c is None:
                if a.int_ and b.int_ and step.int_ and T.nonneg(step - 1):
                    q = T.fdiv(b - a + step - 1, step)
                else:
                    raise Unsupported("arange with symbolic step")
            else:
                q = const(_math.ceil(c))
        n = q
    if not n.int_:
        c = T.as_const(n)
        if c is None:
            raise Unsupported("arange with real bounds")
        n = const(_math.ceil(c))
    if not T.nonneg(n) and decide(T.lt(n, ZERO)):
        raise RuntimeError("upper bound and lower bound inconsistent with step sign")
    return Tensor._mk((n,), lambda ix: a + step * ix[0], dt)


def linspace(a, b, steps, dtype=None, device=None, **k):
    a, b = _sc(a), _sc(b)
    n = P(steps)
    if decide(T.lt(n, ZERO)):
        raise RuntimeError("number of steps must be non-negative")
    if T.as_int(n) == 1 or (T.as_int(n) is None and not T.nonneg(n - 2) and known_eq(n, ONE)):
        return Tensor._mk((n,), lambda ix: a, dtype or float32)
    return Tensor._mk((n,), lambda ix: a + (b - a) * T.div(ix[0], n - 1), dtype or float32)


def _sc(x):
    return P(x.item()) if isinstance(x, Tensor) else P(x)


def eye(n, m=None, dtype=None, device=None, **k):
    m = n if m is None else m
    if dtype is bool_:
        return Tensor._mk(_dims((n, m)), lambda ix: T.eq(ix[0], ix[1]), dtype)
    return Tensor._mk(_dims((n, m)), lambda ix: T.ind(T.eq(ix[0], ix[1])), dtype or float32)


def diag_embed(t, offset=0, dim1=-2, dim2=-1):
    if offset or (dim1, dim2) != (-2, -1):
        raise Unsupported("diag_embed options")
    f = t._rd()
    return _g(Tensor._mk(t._dims + (t._dims[-1],), lambda ix: T.ite(T.eq(ix[-1], ix[-2]), f(ix[:-1]), ZERO), t.dtype), t)


def diag(t, d=0):
    if t.ndim == 1:
        return diag_embed(t)
    return t.diagonal()


def meshgrid(*ts, indexing="ij"):
    if len(ts) == 1 and isinstance(ts[0], (tuple, list)):
        ts = tuple(ts[0])
    if indexing not in ("ij", "xy"):
        raise RuntimeError("meshgrid: indexing must be one of 'xy' or 'ij'")
    n = len(ts)
    order = list(range(n))
    if indexing == "xy" and n >= 2:
        order[0], order[1] = 1, 0
    dims = [ts[k]._dims[0] for k in order]
    out = []
    for k, t in enumerate(ts):
        f = t._rd()
        pos = order.index(k)
        out.append(Tensor._mk(dims, (lambda f, pos: lambda ix: f((ix[pos],)))(f, pos), t.dtype))
    return tuple(out)


def cartesian_prod(*ts):
    g = meshgrid(*ts, indexing="ij")
    return stack([x.reshape(-1) for x in g], -1)


def cast(t, dt):
    if t.dtype is dt:
        return t
    f = t._rd()
    k0, k1 = t.dtype.kind, dt.kind
    if k1 == "b":
        g = t._bool()
    elif k0 == "b":
        g = t._num()
    elif k1 == "i" and k0 == "f":
        def g(ix):
            v = f(ix)
            if v.int_:
                return v
            c = T.as_const(v)
            if c is not None:
                return const(_math.trunc(c))
            raise Unsupported("float to int conversion of a symbolic value")
    else:
        g = f
    r = Tensor._mk(t._dims, g, dt)
    r._lay = t._lay
    return _g(r, t) if k1 == "f" else r


# ------------------------------------------------------------------ elementwise
def _num_bc(t, dims):
    f = bc(t, dims)
    if t.dtype is bool_:
        return lambda ix: T.ind(f(ix))
    return f


def _res_dtype(a, b):
    sa, sb = getattr(a, "_scalar", False), getattr(b, "_scalar", False)
    da, db = a.dtype, b.dtype
    # 0-dim and python scalars only win by kind
    za, zb = sa or a.ndim == 0, sb or b.ndim == 0
    if sa and not sb:
        return db if _KR[da.kind] <= _KR[db.kind] else da
    if sb and not sa:
        return da if _KR[db.kind] <= _KR[da.kind] else db
    if za and not zb:
        return db if _KR[da.kind] <= _KR[db.kind] else da
    if zb and not za:
        return da if _KR[db.kind] <= _KR[da.kind] else db
    return promote(da, db)


def _lay2(*ts):
    """layout of an elementwise result"""
    full_ = [t for t in ts if t.ndim]
    if builtins.all(t._lay == "c" for t in full_):
        return "c"
    return "u"


def ew2(a, b, f, dt=None):
    a, b = astensor(a), astensor(b)
    dims = bshape(a._dims, b._dims)
    fa, fb = _num_bc(a, dims), _num_bc(b, dims)
    rdt = dt or _res_dtype(a, b)
    if rdt is bool_:
        # product / sum of booleans
        r = Tensor._mk(dims, lambda ix: T.ne(f(fa(ix), fb(ix)), ZERO), bool_)
    else:
        r = Tensor._mk(dims, lambda ix: f(fa(ix), fb(ix)), rdt)
    r._lay = _lay2(a, b)
    return _g(r, a, b)


def ew1(a, f, fl=False):
    fa = a._num()
    dt = a.dtype
    if fl and dt.kind != "f":
        dt = float32
    if dt is bool_:
        dt = int64
    r = Tensor._mk(a._dims, lambda ix: f(fa(ix)), dt)
    r._lay = a._lay if a._lay == "c" else "u"
    return _g(r, a)


def tdiv(a, b, rounding_mode=None):
    if rounding_mode == "floor":
        return floordiv(a, b)
    if rounding_mode is not None:
        raise Unsupported("div rounding_mode")
    a, b = astensor(a), astensor(b)
    dt = _res_dtype(a, b)
    if dt.kind != "f":
        dt = float32
    r = ew2(a, b, T.div, dt)
    fb = b._num()
    DENOMS.append(("division by zero", b._dims, fb))
    return r


def floordiv(a, b):
    a, b = astensor(a), astensor(b)
    if a.dtype.kind == "f" or b.dtype.kind == "f":
        return ew2(a, b, lambda x, y: T.div(x - T.rmod(x, y), y))
    return ew2(a, b, T.fdiv)


def remainder(a, b):
    a, b = astensor(a), astensor(b)
    dt = _res_dtype(a, b)
    if dt.kind == "f":
        return ew2(a, b, T.rmod)
    return ew2(a, b, T.imod)


def fmod(a, b):
    a, b = astensor(a), astensor(b)

    def f(x, y):
        # sign of the dividend
        return T.ite(T.le(ZERO, x), T.rmod(x, T.abs_(y)), -T.rmod(-x, T.abs_(y)))
    return ew2(a, b, f)


def tpow(a, b):
    a = astensor(a)
    if isinstance(b, Tensor):
        return ew2(a, b, lambda x, y: T.power(x, y))
    if not isinstance(b, (int, float)):
        b = P(b)
    if isinstance(b, _Num):
        b = b._term
    if (isinstance(b, (int, float)) and b < 0):
        DENOMS.append(("negative power of zero", a._dims, a._num()))
    if isinstance(b, int) or (isinstance(b, float) and b == int(b)):
        n = int(b)
        return ew1(a, lambda x: T.power(x, n), fl=isinstance(b, float))
    return ew1(a, lambda x: T.power(x, b), fl=True)


def bop(a, b, f):
    a, b = astensor(a), astensor(b)
    if a.dtype is not bool_ or b.dtype is not bool_:
        raise Unsupported("bitwise operation on integers")
    dims = bshape(a._dims, b._dims)
    fa, fb = bc(a, dims), bc(b, dims)
    return Tensor._mk(dims, lambda ix: f(fa(ix), fb(ix)), bool_)


def cmp(a, b, f):
    try:
        b = astensor(b)
    except TypeError:
        return NotImplemented
    a = astensor(a)
    dims = bshape(a._dims, b._dims)
    fa, fb = _num_bc(a, dims), _num_bc(b, dims)
    return Tensor._mk(dims, lambda ix: f(fa(ix), fb(ix)), bool_)


def cos(a):
    return ew1(a, T.cos, True)


def sin(a):
    return ew1(a, T.sin, True)


def tan(a):
    return ew1(a, lambda x: T.div(T.sin(x), T.cos(x)), True)


def acos(a):
    DENOMS.append(("acos outside [-1,1]", a._dims, a._num()))
    return ew1(a, T.acos, True)


def asin(a):
    DENOMS.append(("acos outside [-1,1]", a._dims, a._num()))
    return ew1(a, lambda x: T.scale(T.PI, Fr(1, 2)) - T.acos(x), True)


def atan2(a, b):
    return ew2(a, b, T.atan2, float32)


def hypot(a, b):
    return ew2(a, b, lambda x, y: T.sqrt(x * x + y * y), float32)


def atan(a):
    return ew1(a, lambda x: T.atan2(x, ONE), True)


def exp(a):
    return ew1(a, T.exp, True)


def log(a):
    DENOMS.append(("log of a non-positive number", a._dims, a._num()))
    return ew1(a, T.log, True)


def sqrt(a):
    DENOMS.append(("sqrt of a negative number", a._dims, a._num()))
    return ew1(a, T.sqrt, True)


def rsqrt(a):
    return 1 / sqrt(a)


def square(a):
    return ew1(a, lambda x: x * x)


def reciprocal(a):
    return 1 / a


def abs(a):
    return ew1(a, T.abs_)


def neg(a):
    return -a


def sign(a):
    return ew1(a, lambda x: T.ite(T.lt(ZERO, x), ONE, T.ite(T.lt(x, ZERO), -ONE, ZERO)))


def floor(a):
    return ew1(a, lambda x: x - T.rmod(x, ONE))


def ceil(a):
    return ew1(a, lambda x: x + T.rmod(-x, ONE))


def round(a, decimals=0):
    raise Unsupported("round")


def minimum(a, b):
    return ew2(a, b, lambda x, y: T.ite(T.le(x, y), x, y))


def maximum(a, b):
    return ew2(a, b, lambda x, y: T.ite(T.le(y, x), x, y))


def clamp(a, min=None, max=None, out=None):
    r = a
    if min is None and max is None:
        raise RuntimeError("torch.clamp: At least one of 'min' or 'max' must not be None")
    if min is not None:
        lo = min
        r = ew2(r, lo, lambda x, y: T.ite(T.lt(x, y), y, x))
    if max is not None:
        hi = max
        r = ew2(r, hi, lambda x, y: T.ite(T.lt(y, x), y, x))
    return r


clip = clamp


def sigmoid(a):
    return ew1(a, lambda x: T.fn("sigmoid", x), True)


def tanh(a):
    return ew1(a, lambda x: T.fn("tanh", x), True)


def where(c, a=None, b=None):
    if a is None and b is None:
        return tuple(_nonzero(c))
    a, b = astensor(a), astensor(b)
    dims = bshape(c._dims, a._dims, b._dims)
    fc = bc(c, dims)
    if c.dtype is not bool_:
        raise RuntimeError("where expected condition to be a boolean tensor")
    dt = _res_dtype(a, b)
    if dt is bool_:
        fa, fb = bc(a, dims), bc(b, dims)
        return Tensor._mk(dims, lambda ix: T.bor(T.band(fc(ix), fa(ix)), T.band(T.bnot(fc(ix)), fb(ix))), bool_)
    fa, fb = _num_bc(a, dims), _num_bc(b, dims)

    def f(ix):
        cc = fc(ix)
        if cc is TRUE:
            return fa(ix)
        if cc is FALSE:
            return fb(ix)
        i = T.ind(cc)
        if i is ONE:
            return fa(ix)
        if i is ZERO:
            return fb(ix)
        return T.ite(cc, fa(ix), fb(ix))
    return _g(Tensor._mk(dims, f, dt), a, b)


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return abs(a - b) <= atol + rtol * abs(astensor(b))


def equal(a, b):
    if len(a._dims) != len(b._dims):
        return False
    for x, y in zip(a._dims, b._dims):
        if not known_eq(x, y):
            return False
    return bool((a == b).all())


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(isclose(a, b, rtol, atol).all())


def isnan(a):
    return Tensor._mk(a._dims, lambda ix: FALSE, bool_)


def isinf(a):
    f = a._num()
    return Tensor._mk(a._dims, lambda ix: T.bor(T.eq(f(ix), T.INF), T.eq(f(ix), -T.INF)), bool_)


def isfinite(a):
    return ~isinf(a)


# ------------------------------------------------------------------ masks: selection and rank
def _mask_lam(m):
    f = m._bool()
    return T.lam(m._dims, lambda *ix: f(ix))


def _nnz_norm(L):
    """count of true entries of a boolean Lam"""
    tot = ONE
    for d in L.dims:
        tot = tot * d
    if L.body is TRUE:
        return tot
    if L.body is FALSE:
        return ZERO
    N = T.close_lam(L.dims, *_neg_open(L))
    if N.key[1].id < L.key[1].id:
        return tot - T.atom(T.mkatom("app", ("nnz", N), "I"))
    return T.atom(T.mkatom("app", ("nnz", L), "I"))


def _neg_open(L):
    ts, b = T.open_lam(L)
    return ts, T.bnot(b)


def _nnz_upper(A):
    r = ONE
    for d in A.a[1].dims:
        r = r * d
    return r + 1


T.INT_UPPER["nnz"] = _nnz_upper
T.APP_SIMP["nnz"] = lambda L: _nnz_norm(L)


def _rank(L, ix):
    return T.app("rank", L, *ix, sort="I")


def _rank_simp(L, *ix):
    # rank(M, sel(M, k)) = k
    if L.body is TRUE and len(L.dims) == 1:
        return ix[0]
    a = T.as_atom(ix[0])
    if a is not None and a.k == "app" and a.a[0] == "sel" and a.a[2] is L:
        k = a.a[3]
        if all(_is_sel(x, j, L, k) for j, x in enumerate(ix)):
            return k
    return None


def _is_sel(x, j, L, k):
    a = T.as_atom(x)
    return a is not None and a.k == "app" and a.a[0] == "sel" and a.a[1] == const(j) and a.a[2] is L and a.a[3] is k


def _sel(j, L, k):
    return T.app("sel", const(j), L, k, sort="I")


def _sel_simp(j, L, k):
    jj = T.as_int(j)
    if L.body is TRUE and len(L.dims) == 1:
        return k
    a = T.as_atom(k)
    if a is not None and a.k == "app" and a.a[0] == "rank" and a.a[1] is L:
        return a.a[2 + jj]
    return None


T.APP_SIMP["rank"] = _rank_simp
T.APP_SIMP["sel"] = _sel_simp
T.INT_UPPER["rank"] = lambda A: _nnz_norm(A.a[1])
T.INT_UPPER["sel"] = lambda A: A.a[2].dims[T.as_int(A.a[1])]


def _nonzero(m):
    c = getattr(m, "_nzcache", None)
    if c is not None and c[0] is m._st and c[1] == m._st.version:
        return c[2]
    out = _nonzero1(m)
    try:
        m._nzcache = (m._st, m._st.version, out)
    except AttributeError:
        pass
    return out


def _nonzero1(m):
    L = _mask_lam(m)
    n = _nnz_norm(L)
    out = []
    for j in range(m.ndim):
        t = Tensor._mk((n,), (lambda j: lambda ix: _sel(j, L, ix[0]))(j), int64)
        t._maskL = (L, j)
        out.append(t)
    return out


# ------------------------------------------------------------------ indexing
def _expand_key(t, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    for j, k in enumerate(key):
        if isinstance(k, list):
            key[j] = tensor(k)
        elif isinstance(k, range):
            key[j] = tensor(list(k))
    n = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, Tensor) and k.dtype is bool_:
            n += k.ndim
        elif type(k) is bool or type(k) is SymBool:
            raise Unsupported("boolean scalar index")
        else:
            n += 1
    if any(k is Ellipsis for k in key):
        if sum(1 for k in key if k is Ellipsis) > 1:
            raise IndexError("an index can only have a single ellipsis ('...')")
        e = next(j for j, k in enumerate(key) if k is Ellipsis)
        if n > t.ndim:
            raise IndexError("too many indices for tensor")
        key[e:e + 1] = [slice(None)] * (t.ndim - n)
    else:
        if n > t.ndim:
            raise IndexError(f"too many indices for tensor of dimension {t.ndim}")
        key += [slice(None)] * (t.ndim - n)
    return key


def _slice(k, d):
    """start, size, step of a slice over size d"""
    step = 1 if k.step is None else k.step
    if not isinstance(step, int) or type(step) is SymInt:
        raise Unsupported("symbolic slice step")
    if step <= 0:
        raise ValueError("step must be greater than zero")

    def clampi(v, default):
        if v is None:
            return default
        if isinstance(v, Tensor):
            v = v.item()
        p = P(v)
        if decide(T.lt(p, ZERO)):
            p = p + d
            if decide(T.lt(p, ZERO)):
                p = ZERO
        if p is not d and not decide(T.le(p, d)):
            p = d
        return p
    a = clampi(k.start, ZERO)
    b = clampi(k.stop, d)
    if a is ZERO and b is d and step == 1:
        return a, d, 1
    n = b - a
    if not T.nonneg(n) and decide(T.lt(n, ZERO)):
        n = ZERO
    if step != 1:
        n = T.fdiv(n + (step - 1), const(step))
    return a, n, step


def _index(t, key):
    key = _expand_key(t, key)
    adv = any(isinstance(k, Tensor) and (k.ndim > 0 or k.dtype is bool_) for k in key)
    r, akey = _basic(t, key)
    if not adv:
        return r
    return _adv(r, akey)


def _intidx(k):
    if isinstance(k, Tensor):
        return k.item()
    return k


def _basic(t, key):
    """apply ints, slices and None; return view and the advanced key (Tensor or None per axis)"""
    dims, lay = [], []
    plan = []          # per source axis: ("i", p) or ("s", start, step, pos) ; pos = view axis
    strides = t._strides()
    akey = []
    ax = 0
    ident = True
    zero_d = {}
    for k in key:
        if isinstance(k, Tensor) and k.dtype is bool_ and k.ndim == 0:
            # a 0-dimensional mask selects along a new axis of size one
            if id(k) not in zero_d:
                zero_d[id(k)] = k.reshape(1)
            dims.append(ONE)
            lay.append(None)
            akey.append((zero_d[id(k)], 0))
            ident = False
            continue
        if k is None:
            dims.append(ONE)
            lay.append(None)
            akey.append(None)
            ident = False
            continue
        if isinstance(k, Tensor) and (k.ndim > 0 or k.dtype is bool_):
            nd = k.ndim if k.dtype is bool_ else 1
            for j in range(nd):
                plan.append(("s", ZERO, 1, len(dims)))
                dims.append(t._dims[ax + j])
                lay.append(strides[ax + j] if strides else None)
                akey.append((k, j))
            ax += nd
            continue
        d = t._dims[ax]
        if isinstance(k, slice):
            a, n, step = _slice(k, d)
            if not (a is ZERO and step == 1 and n is d):
                ident = False
            plan.append(("s", a, step, len(dims)))
            dims.append(n)
            lay.append((strides[ax] * step if strides[ax] is not None else None) if strides else None)
            akey.append(None)
        else:
            ident = False
            k = _intidx(k)
            if not isinstance(k, int):
                raise IndexError(f"only integers, slices, ellipsis, None and tensors are valid indices (got {type(k).__name__})")
            p = P(k)
            if decide(T.lt(p, ZERO)):
                p = p + d
                if decide(T.lt(p, ZERO)):
                    raise IndexError("index out of range")
            if decide(T.le(d, p)):
                raise IndexError(f"index {T.show(p)} is out of bounds for dimension with size {T.show(d)}")
            plan.append(("i", p))
        ax += 1
    if ident:
        lay2 = t._lay
    elif strides is None:
        lay2 = "u"
    else:
        # contiguous if the strides match the contiguous ones
        r = ONE
        ok = True
        for s, d in zip(reversed(lay), reversed(dims)):
            if d is not ONE and s is not r:
                ok = False
                break
            r = r * d
        lay2 = "c" if ok else tuple(lay)

    nones = [j for j, k in enumerate(key) if k is None]

    def fmap(ix):
        out = []
        for pl in plan:
            if pl[0] == "i":
                out.append(pl[1])
            else:
                i = ix[pl[3]]
                if pl[2] != 1:
                    i = i * pl[2]
                out.append(pl[1] + i if pl[1] is not ZERO else i)
        return tuple(out)

    nd = len(dims)

    def finv(ix):
        cs = []
        out = [ZERO] * nd
        for pl, i, full in zip(plan, ix, t._dims):
            if pl[0] == "i":
                cs.append(T.eq(i, pl[1]))
            else:
                j = i - pl[1] if pl[1] is not ZERO else i
                d = dims[pl[3]]
                if pl[1] is not ZERO:
                    cs.append(T.le(ZERO, j))
                if pl[2] != 1:
                    cs.append(T.eq(T.imod(j, const(pl[2])), ZERO))
                    j = T.fdiv(j, const(pl[2]))
                if not (pl[1] is ZERO and pl[2] == 1 and d is full):
                    c = T.lt(j, d)
                    cs.append(c)
                out[pl[3]] = j
        return T.band(*cs), tuple(out)
    v = t._view(dims, fmap, finv, lay2)
    v._full = ident
    return _g(v, t), akey


def _adv_parts(t, akey):
    """axes with index tensors -> list of (axis, reader over the broadcast shape), broadcast dims"""
    masks = {}
    idx = []
    for ax, k in enumerate(akey):
        if k is None:
            continue
        m, j = k
        if m.dtype is bool_:
            if id(m) not in masks:
                for q in range(m.ndim):
                    if m._dims[q] is not t._dims[ax + q] and not known_eq(m._dims[q], t._dims[ax + q]):
                        raise IndexError("The shape of the mask does not match the shape of the indexed tensor")
                masks[id(m)] = _nonzero(m)
            idx.append((ax, masks[id(m)][j]))
        else:
            if m.dtype.kind != "i":
                raise IndexError("tensors used as indices must be long, int, byte or bool tensors")
            idx.append((ax, m))
    bdims = bshape(*[m._dims for _, m in idx])
    parts = []
    for ax, m in idx:
        f = bc(m, bdims)
        d = t._dims[ax]

        def g(ix, f=f, d=d):
            p = f(ix)
            if T.nonneg(p):
                return p
            return T.ite(T.lt(p, ZERO), p + d, p)
        parts.append((ax, g, getattr(m, "_maskL", None)))
    return parts, bdims


def _adv_layout(t, parts, bdims):
    axes = [a for a, _, _ in parts]
    rest = [a for a in range(t.ndim) if a not in axes]
    contig = axes == list(range(axes[0], axes[0] + len(axes)))
    pos = axes[0] if contig else 0
    before = [a for a in rest if a < axes[0]] if contig else []
    after = [a for a in rest if a not in before]
    dims = [t._dims[a] for a in before] + list(bdims) + [t._dims[a] for a in after]
    nb = len(before)
    nk = len(bdims)
    return axes, before, after, dims, nb, nk


def _adv(t, akey):
    parts, bdims = _adv_parts(t, akey)
    axes, before, after, dims, nb, nk = _adv_layout(t, parts, bdims)
    f = t._rd()
    nd = t.ndim

    def g(ix):
        out = [None] * nd
        bx = ix[nb:nb + nk]
        for a, h, _ in parts:
            out[a] = h(bx)
        for a, i in zip(before, ix[:nb]):
            out[a] = i
        for a, i in zip(after, ix[nb + nk:]):
            out[a] = i
        return f(tuple(out))
    return _g(Tensor._mk(dims, g, t.dtype), t)


def _setindex(t, key, val):
    key = _expand_key(t, key)
    adv = any(isinstance(k, Tensor) and (k.ndim > 0 or k.dtype is bool_) for k in key)
    if t._rg and t.grad_fn is None and not NO_GRAD[0]:
        raise RuntimeError("a view of a leaf Variable that requires grad is being used in an in-place operation.")
    r, akey = _basic(t, key)
    val = astensor(val)
    if _KR[val.dtype.kind] > _KR[t.dtype.kind] and not getattr(val, "_scalar", False) and t.dtype.kind != "f":
        raise RuntimeError("Index put requires the source and destination dtypes match")
    val = cast(val, t.dtype)
    if not adv:
        r._write(bc(val, r._dims))
        if val._rg:
            t._rg, t.grad_fn = True, "op"
        return
    parts, bdims = _adv_parts(r, akey)
    axes, before, after, dims, nb, nk = _adv_layout(r, parts, bdims)
    fv = bc(val, tuple(dims))
    # the position in the index list of a destination index
    mask = [(a, h, m) for a, h, m in parts if m is not None]
    old = r._rd()
    if mask and nk == 1:
        L = mask[0][2][0]
        mine = [x for x in mask if x[2][0] is L]
        if len(mine) != len(L.dims):
            raise Unsupported("partial mask index assignment")
        mine.sort(key=lambda x: x[2][1])
        others = [(a, h) for a, h, m in parts if not (m is not None and m[0] is L)]

        def new(ix):
            mi = tuple(ix[a] for a, _, _ in mine)
            c = T.instantiate(L, mi)
            if c is FALSE:
                return old(ix)
            if T.SPLIT[0] is not None and T.ind(c) is ZERO:
                return old(ix)
            k = _rank(L, mi)
            cs = [c]
            for a, h in others:
                cs.append(T.eq(ix[a], h((k,))))
            c = T.band(*cs)
            if c is FALSE:
                return old(ix)
            if T.SPLIT[0] is not None and T.ind(c) is ZERO:
                return old(ix)
            v = fv(tuple(ix[a] for a in before) + (k,) + tuple(ix[a] for a in after))
            if r.dtype is bool_:
                return T.bor(T.band(c, v), T.band(T.bnot(c), old(ix)))
            return T.ite(c, v, old(ix))
        r._write(new)
        return
    n = ONE
    for d in bdims:
        n = n * d
    cn = T.as_int(n)
    if cn is not None and cn <= 16 and all(T.as_int(d) is not None for d in bdims):
        import itertools
        ks = list(itertools.product(*[range(T.as_int(d)) for d in bdims]))

        def new2(ix):
            v = old(ix)
            for k in ks:
                bx = tuple(const(i) for i in k)
                c = T.band(*[T.eq(ix[a], h(bx)) for a, h, _ in parts])
                if c is FALSE:
                    continue
                w = fv(tuple(ix[a] for a in before) + bx + tuple(ix[a] for a in after))
                v = T.ite(c, w, v)
            return v
        r._write(new2)
        return
    # identity index: arange over the whole axis
    if nk == 1 and len(parts) >= 1:
        t0 = T.temp(bdims[0])
        for q, (a, h, _) in enumerate(parts):
            if h((atom(t0),)) is atom(t0) and bdims[0] is r._dims[a]:
                others = [(b, hh) for j, (b, hh, _) in enumerate(parts) if j != q]

                def new3(ix, a=a, others=others):
                    k = ix[a]
                    c = T.band(*[T.eq(ix[b], hh((k,))) for b, hh in others])
                    if c is FALSE:
                        return old(ix)
                    v = fv(tuple(ix[x] for x in before) + (k,) + tuple(ix[x] for x in after))
                    return T.ite(c, v, old(ix))
                r._write(new3)
                return
    raise Unsupported("assignment through an index tensor")


def index_select(t, d, idx):
    return t.index_select(d, idx)


def take_along_dim(t, idx, dim=None):
    if dim is None:
        return t.flatten()[idx.flatten()]
    d = t._norm(dim)
    s = bshape(t._dims[:d] + (ONE,) + t._dims[d + 1:], idx._dims[:d] + (ONE,) + idx._dims[d + 1:])
    e1 = list(s)
    e1[d] = t._dims[d]
    e2 = list(s)
    e2[d] = idx._dims[d]
    return t.expand(*[mkint(x) for x in e1]).gather(d, idx.expand(*[mkint(x) for x in e2]))


def gather(t, d, idx):
    return t.gather(d, idx)


# ------------------------------------------------------------------ combining
def cat(ts, dim=0, axis=None, out=None):
    if axis is not None:
        dim = axis
    ts = list(ts)
    if not ts:
        raise RuntimeError("torch.cat(): expected a non-empty list of Tensors")
    keep = []
    for t in ts:
        # legacy: one-dimensional empty tensors are skipped
        if t.ndim == 1 and t._dims[0] is ZERO and any(u.ndim != 1 for u in ts):
            continue
        keep.append(t)
    ts = keep or ts[:1]
    n = ts[0].ndim
    d = ts[0]._norm(dim)
    for t in ts:
        if t.ndim != n:
            raise RuntimeError("Tensors must have same number of dimensions")
        for k in range(n):
            if k != d and t._dims[k] is not ts[0]._dims[k] and not known_eq(t._dims[k], ts[0]._dims[k]):
                raise RuntimeError("Sizes of tensors must match except in dimension")
    dt = promote(*[t.dtype for t in ts])
    fs = [cast(t, dt)._rd() for t in ts]
    offs = []
    pos = ZERO
    for t in ts:
        offs.append(pos)
        pos = pos + t._dims[d]
    dims = list(ts[0]._dims)
    dims[d] = pos

    def f(ix):
        i = ix[d]
        r = None
        k = len(ts) - 1
        while k >= 0:
            j = i - offs[k]
            if ts[k]._dims[d] is ZERO:
                k -= 1
                continue
            c = T.le(offs[k], i)
            if r is None:
                # last non-empty part
                if c is TRUE or k == 0:
                    if c is TRUE:
                        return fs[k](ix[:d] + (j,) + ix[d + 1:])
                if T.SPLIT[0] is not None and k > 0 and T.ind(c) is ZERO:
                    k -= 1
                    continue
                v = fs[k](ix[:d] + (j,) + ix[d + 1:])
                r = (c, v)
                stackv.append((c, v))
            else:
                if c is FALSE or (T.SPLIT[0] is not None and T.ind(c) is ZERO):
                    k -= 1
                    continue
                v = fs[k](ix[:d] + (j,) + ix[d + 1:])
                stackv.append((c, v))
            if c is TRUE:
                break
            k -= 1
        # fold
        res = stackv[-1][1]
        for c, v in reversed(stackv[:-1]):
            if dt is bool_:
                res = T.bor(T.band(c, v), T.band(T.bnot(c), res))
            else:
                res = T.ite(c, v, res)
        return res

    def g(ix):
        nonlocal stackv
        save = stackv
        stackv = []
        try:
            return f(ix)
        finally:
            stackv = save
    stackv = []
    return _g(Tensor._mk(dims, g, dt), *ts)


concat = concatenate = cat


def stack(ts, dim=0, out=None):
    ts = list(ts)
    if not ts:
        raise RuntimeError("stack expects a non-empty TensorList")
    d = ts[0]._norm(dim, ts[0].ndim + 1)
    for t in ts:
        if t.ndim != ts[0].ndim or any(a is not b and not known_eq(a, b) for a, b in zip(t._dims, ts[0]._dims)):
            raise RuntimeError("stack expects each tensor to be equal size")
    dt = promote(*[t.dtype for t in ts])
    fs = [cast(t, dt)._rd() for t in ts]

    def f(ix):
        i = ix[d]
        rest = ix[:d] + ix[d + 1:]
        c = T.as_int(i)
        if c is not None:
            return fs[c](rest)
        r = fs[-1](rest)
        for k in range(len(fs) - 2, -1, -1):
            cc = T.eq(i, const(k))
            if dt is bool_:
                r = T.bor(T.band(cc, fs[k](rest)), T.band(T.bnot(cc), r))
            else:
                r = T.ite(cc, fs[k](rest), r)
        return r
    return _g(Tensor._mk(ts[0]._dims[:d] + (const(len(ts)),) + ts[0]._dims[d:], f, dt), *ts)


def hstack(ts):
    ts = [t.reshape(1) if t.ndim == 0 else t for t in ts]
    return cat(ts, 0 if ts[0].ndim == 1 else 1)


def vstack(ts):
    ts = [t.reshape(1, -1) if t.ndim < 2 else t for t in ts]
    return cat(ts, 0)


def broadcast_tensors(*ts):
    s = bshape(*[t._dims for t in ts])
    return tuple(t.expand(*[mkint(x) for x in s]) for t in ts)


def matmul(a, b, out=None):
    if a.ndim == 0 or b.ndim == 0:
        raise RuntimeError("both arguments to matmul need to be at least 1D")
    if a.ndim == 1:
        r = matmul(a.unsqueeze(0), b)
        return r.squeeze(-2) if b.ndim > 1 else r.squeeze(0)
    if b.ndim == 1:
        return matmul(a, b.unsqueeze(-1)).squeeze(-1)
    k1, k2 = a._dims[-1], b._dims[-2]
    if k1 is not k2 and not known_eq(k1, k2):
        raise RuntimeError(f"mat1 and mat2 shapes cannot be multiplied ({T.show(k1)} and {T.show(k2)})")
    bd = bshape(a._dims[:-2], b._dims[:-2])
    fa = _num_bc(a, bd + a._dims[-2:])
    fb = _num_bc(b, bd + b._dims[-2:])
    dims = bd + (a._dims[-2], b._dims[-1])

    def f(ix):
        return T.sum_(k1, lambda t: fa(ix[:-2] + (ix[-2], t)) * fb(ix[:-2] + (t, ix[-1])))
    return _g(Tensor._mk(dims, f, promote(a.dtype, b.dtype)), a, b)


bmm = mm = matmul


def einsum(eq, *ts):
    if len(ts) == 1 and isinstance(ts[0], (tuple, list)):
        ts = tuple(ts[0])
    eq = eq.replace(" ", "")
    if "->" in eq:
        lhs, out = eq.split("->")
    else:
        lhs = eq
        out = None
    ins = lhs.split(",")
    if len(ins) != len(ts):
        raise RuntimeError("einsum(): more operands than subscripts")
    sizes = {}
    elld = []
    specs = []
    for s, t in zip(ins, ts):
        if "..." in s:
            a, b = s.split("...")
            ne = t.ndim - len(a) - len(b)
            lets = list(a) + [("e", k - ne) for k in range(ne)] + list(b)
            elld.append(t._dims[len(a):len(a) + ne])
        else:
            lets = list(s)
        if len(lets) != t.ndim:
            raise RuntimeError("einsum(): the number of subscripts does not match")
        specs.append(lets)
        for l, d in zip(lets, t._dims):
            if isinstance(l, tuple):
                continue
            if l in sizes and sizes[l] is not d:
                if sizes[l] is ONE:
                    sizes[l] = d
                elif d is not ONE and not known_eq(sizes[l], d):
                    raise RuntimeError("einsum(): operands could not be broadcast")
            else:
                sizes.setdefault(l, d)
    ed = bshape(*elld) if elld else ()
    for k in range(len(ed)):
        sizes[("e", k - len(ed))] = ed[k]
    if out is None:
        cnt = {}
        for s in specs:
            for l in s:
                cnt[l] = cnt.get(l, 0) + 1
        outl = [("e", k - len(ed)) for k in range(len(ed))] + sorted(l for l in cnt if not isinstance(l, tuple) and cnt[l] == 1)
    elif "..." in out:
        a, b = out.split("...")
        outl = list(a) + [("e", k - len(ed)) for k in range(len(ed))] + list(b)
    else:
        outl = list(out)
    summed = [l for l in sizes if l not in outl]
    fs = [t._num() for t in ts]
    own = [t._dims for t in ts]

    def f(ix):
        env = dict(zip(outl, ix))

        def rec(k):
            if k == len(summed):
                r = ONE
                for s, g, dd in zip(specs, fs, own):
                    r = r * g(tuple(ZERO if d is ONE else env[l] for l, d in zip(s, dd)))
                return r
            l = summed[k]

            def h(i):
                env[l] = i
                return rec(k + 1)
            return T.sum_(sizes[l], h)
        return rec(0)
    return _g(Tensor._mk([sizes[l] for l in outl], f, promote(*[t.dtype for t in ts])), *ts)


def cross(a, b, dim=-1):
    dims = bshape(a._dims, b._dims)
    d = dim % len(dims)
    if T.as_int(dims[d]) != 3:
        raise RuntimeError("linalg.cross: inputs dimension must have length 3")
    fa, fb = _num_bc(a, dims), _num_bc(b, dims)

    def f(ix):
        def at(g, k):
            return g(ix[:d] + (const(k % 3),) + ix[d + 1:])

        def comp(c):
            return at(fa, c + 1) * at(fb, c + 2) - at(fa, c + 2) * at(fb, c + 1)
        c = T.as_int(ix[d])
        if c is not None:
            return comp(c)
        return T.ite(T.eq(ix[d], ZERO), comp(0), T.ite(T.eq(ix[d], ONE), comp(1), comp(2)))
    return _g(Tensor._mk(dims, f, _res_dtype(a, b)), a, b)


def outer(a, b):
    return a[:, None] * b[None]


def dot(a, b):
    return (a * b).sum()


# ------------------------------------------------------------------ reductions
def _axes(t, dim):
    if dim is None:
        return list(range(t.ndim))
    if isinstance(dim, (tuple, list)):
        if len(dim) == 0:
            return list(range(t.ndim))
        return sorted({t._norm(d) for d in dim})
    return [t._norm(dim)]


def _reduce(t, dim, keepdim, red, dt, src=None):
    """red(f, n_list) where f(*k) gives the element for reduced indices"""
    axes = _axes(t, dim)
    f = src or t._num()
    nd = t.ndim
    dims = []
    for k in range(nd):
        if k in axes:
            if keepdim:
                dims.append(ONE)
        else:
            dims.append(t._dims[k])
    ns = [t._dims[a] for a in axes]

    def g(ix):
        ix = list(ix)
        base = [None] * nd
        p = 0
        for k in range(nd):
            if k in axes:
                if keepdim:
                    p += 1
            else:
                base[k] = ix[p]
                p += 1

        def elem(*ks):
            b = list(base)
            for a, i in zip(axes, ks):
                b[a] = i
            return f(tuple(b))
        return red(elem, ns)
    return _g(Tensor._mk(dims, g, dt), t)


def _sumn(f, ns, pre=()):
    if not ns:
        return f(*pre)
    return T.sum_(ns[0], lambda i: _sumn(f, ns[1:], pre + (i,)))


def reduce_sum(t, dim=None, keepdim=False):
    dt = t.dtype if t.dtype.kind == "f" else int64
    return _reduce(t, dim, keepdim, _sumn, dt)


def reduce_mean(t, dim=None, keepdim=False):
    if t.dtype.kind != "f":
        raise RuntimeError("mean(): could not infer output dtype. Input dtype must be either a floating point or complex dtype.")

    def red(f, ns):
        n = ONE
        for x in ns:
            n = n * x
        return T.div(_sumn(f, ns), n)
    return _reduce(t, dim, keepdim, red, t.dtype)


def reduce_var(t, dim, keepdim, corr):
    def red(f, ns):
        n = ONE
        for x in ns:
            n = n * x
        m = T.div(_sumn(f, ns), n)
        s = _sumn(lambda *k: f(*k) * f(*k), ns)
        return T.div(s - n * m * m, n - corr)
    return _reduce(t, dim, keepdim, red, t.dtype)


def reduce_prod(t, dim, keepdim):
    def red(f, ns):
        if len(ns) != 1 or T.as_int(ns[0]) is None:
            raise Unsupported("prod over a symbolic axis")
        r = ONE
        for i in range(T.as_int(ns[0])):
            r = r * f(const(i))
        return r
    return _reduce(t, dim, keepdim, red, t.dtype)


def reduce_any(t, dim, keepdim, all_):
    fb = t._bool()

    def red(f, ns):
        cs = [T.as_int(n) for n in ns]
        if all(c is not None and c <= 64 for c in cs):
            import itertools
            xs = [f(*[const(i) for i in k]) for k in itertools.product(*[range(c) for c in cs])]
            return T.band(*xs) if all_ else T.bor(*xs)
        ts = [T.temp(n) for n in ns]
        b = f(*[atom(x) for x in ts])
        if all_:
            if b is TRUE:
                return TRUE
            L = T.close_lam(tuple(ns), ts, T.bnot(b))
            return T.eq(_nnz_norm(L), ZERO)
        L = T.close_lam(tuple(ns), ts, b)
        return T.bnot(T.eq(_nnz_norm(L), ZERO))
    return _reduce(t, dim, keepdim, red, bool_, src=fb)


def vector_norm(t, ord=2, dim=None, keepdim=False, dtype=None):
    if ord in (2, None, "fro"):
        return _reduce(t, dim, keepdim, lambda f, ns: T.sqrt(_sumn(lambda *k: f(*k) * f(*k), ns)), t.dtype)
    if ord == 1:
        return _reduce(t, dim, keepdim, lambda f, ns: _sumn(lambda *k: T.abs_(f(*k)), ns), t.dtype)
    raise Unsupported("norm order")


def linalg_norm(t, ord=None, dim=None, keepdim=False, dtype=None):
    if isinstance(dim, (tuple, list)) and len(dim) == 2 and ord not in (None, "fro"):
        raise Unsupported("matrix norm")
    return vector_norm(t, 2 if ord in (None, "fro") else ord, dim, keepdim)


class _VI(tuple):
    @property
    def values(self):
        return self[0]

    @property
    def indices(self):
        return self[1]


def _lam1(f, n):
    return T.lam((n,), lambda i: f(i))


def ext_value(L, mx):
    """maximum / minimum of a lambda over one index"""
    n = T.as_int(L.dims[0])
    if n is not None and n <= 8 and n >= 1:
        r = T.instantiate(L, (ZERO,))
        for i in range(1, n):
            x = T.instantiate(L, (const(i),))
            r = T.ite(T.lt(r, x) if mx else T.lt(x, r), x, r)
        return r
    if not mx:
        ts, b = T.open_lam(L)
        return -ext_value(T.close_lam(L.dims, ts, -b), True)
    ts, b = T.open_lam(L)
    if not any(t.id in b.fv for t in ts):
        return b
    # positive common factor independent of the index
    return T.app("max", L)


def _ext_multi(f, ns, mx):
    return ext_value_n(T.lam(tuple(ns), lambda *k: f(*k)), mx)


def ext_value_n(L, mx):
    if len(L.dims) == 1:
        return ext_value(L, mx)
    if not mx:
        ts, b = T.open_lam(L)
        return -ext_value_n(T.close_lam(L.dims, ts, -b), True)
    # flatten nested: canonical form over the linear index is the tuple of axes without size one
    return T.app("max", L)


def _negative(b):
    return repr(b).count(" + -#") + repr(b).count("[-#")


def _least(ax, b):
    """the same representative for all orders of axes of equal length and both directions of every axis"""
    mk = lambda ax, b: T.close_lam(tuple(d for d, _ in ax), [t for _, t in ax], b)
    groups = [list(g) for _, g in itertools.groupby(ax, key=lambda e: repr(e[0]))]
    M = mk(ax, b)
    if (all(len(g) == 1 for g in groups) and not _negative(M)) or len(ax) > 5 or any(len(g) > 3 for g in groups):
        return M
    best = None
    for flip in itertools.product((0, 1), repeat=len(ax)):
        c = T.subst(b, {t: n - 1 - T.atom(t) for (n, t), f in zip(ax, flip) if f}) if any(flip) else b
        for perm in itertools.product(*[itertools.permutations(g) for g in groups]):
            M = mk([e for g in perm for e in g], c)
            k = (_negative(M), len(repr(M)), repr(M))
            if best is None or k < best[0]:
                best = k, M
    return best[1]


def _max_simp(L):
    """one maximum over all axes at once: nested maxima merged, composite axes split, axes ordered"""
    ts, b = T.open_lam(L)
    ax = list(zip(L.dims, ts))
    again = True
    while again:
        again = False
        A = T.as_atom(b)
        if A is not None and A.k == "app" and A.a[0] == "max" and isinstance(A.a[1], T.Lam) and not any(t.id in d.fv for d in A.a[1].dims for t in ts):
            t2, b = T.open_lam(A.a[1])
            ax += list(zip(A.a[1].dims, t2))
            again = True
            continue
        for k, (n, t) in enumerate(ax):
            if n is ONE:
                b = T.subst(b, {t: ZERO})
                del ax[k]
                again = True
                break
            for D in T._divmod_atoms(b, t):
                q = T.exact_div(n, D.a[1])
                if q is not None and D.a[1] is not n and T.as_const(D.a[1]) != 1 and q is not ONE:
                    x, y = T.temp(q), T.temp(D.a[1])
                    b = T.subst(b, {t: T.atom(x) * D.a[1] + T.atom(y)})
                    ax[k:k + 1] = [(q, x), (D.a[1], y)]
                    again = True
                    break
            if again:
                break
    if not ax:
        return b
    ax.sort(key=lambda e: repr(e[0]))
    M = _least(ax, b)
    return None if M is L else T.app("max", M)


T.APP_SIMP["max"] = _max_simp


def aminmax_(t, dim, keepdim, mx):
    return _reduce(t, dim, keepdim, lambda f, ns: _ext_multi(f, ns, mx), t.dtype)


def minmax(t, dim, keepdim, mx):
    if isinstance(dim, Tensor):
        return maximum(t, dim) if mx else minimum(t, dim)
    if dim is None:
        return _reduce(t, None, keepdim, lambda f, ns: _ext_multi(f, ns, mx), t.dtype)
    d = t._norm(dim)
    n = t._dims[d]
    if n is ZERO or (not T.nonneg(n - 1) and decide(T.eq(n, ZERO))):
        raise IndexError("max(): Expected reduction dim to have non-zero size.")
    v = _reduce(t, dim, keepdim, lambda f, ns: ext_value(_lam1(f, ns[0]), mx), t.dtype)
    return _VI((v, argext(t, dim, keepdim, mx)))


def _arg_term(L, mx):
    """index of the maximum (mx) or minimum of L"""
    ts, b = T.open_lam(L)
    if not mx:
        L = T.close_lam(L.dims, ts, -b)
        ts, b = T.open_lam(L)
    n = T.as_int(L.dims[0])
    if n == 1:
        return ZERO
    return T.app("argmax", L, sort="I")


def _argmax_simp(L):
    n = T.as_int(L.dims[0])
    if n is None or n > 8 or T.SPLIT[0] is None:
        return None
    if any(ATOM.k == "bv" for ATOM in [T.ATOMS[i] for i in L.fv]):
        return None
    for j in range(n - 1):
        r = T.SPLIT[0](T.bapp("argmax_is", L, const(j)))
        if r is None:
            return None
        if r:
            return const(j)
    r = T.SPLIT[0](T.bapp("argmax_is", L, const(n - 1)))
    if r is False:
        raise PR.Infeasible()
    return const(n - 1)


T.APP_SIMP["argmax"] = _argmax_simp
T.INT_UPPER["argmax"] = lambda A: A.a[1].dims[0]


def argext(t, dim, keepdim, mx):
    if dim is None:
        return argext(t.flatten(), 0, False, mx)
    return _reduce(t, dim, keepdim, lambda f, ns: _arg_term(_lam1(f, ns[0]), mx), int64)


def sort_value(L, i):
    """i-th smallest element of L"""
    n = T.as_int(L.dims[0])
    if n == 1:
        return T.instantiate(L, (ZERO,))
    if P(i) is ZERO:
        return ext_value(L, False)
    if P(i) is L.dims[0] - 1:
        return ext_value(L, True)
    return T.app("sort", L, P(i))


def sort_index(L, i):
    n = T.as_int(L.dims[0])
    if n == 1:
        return ZERO
    i = P(i)
    r = _partition(L, i)
    if r is not None:
        return r
    if i is ZERO:
        return _arg_term(L, False)
    return T.app("argsort", L, i, sort="I")


T.INT_UPPER["argsort"] = lambda A: A.a[1].dims[0]


def _partition(L, i):
    """argsort of the concatenation of the positions of a mask and of its complement"""
    ts, b = T.open_lam(L)
    sels = {}
    for A in T.poly_atoms(b):
        if A.k == "app" and A.a[0] == "sel":
            sels[A] = A
    if not sels:
        # identity permutation
        if b is atom(ts[0]):
            return i
        return None
    Ls = {A.a[2] for A in sels}
    masks = sorted(Ls, key=lambda L: L.key[1].id)
    if len(masks) > 2 or any(len(M.dims) != 1 for M in masks):
        return None
    # value of the list at the position of element e must be e
    N = masks[0].dims[0]
    if N is not L.dims[0]:
        return None
    if len(masks) == 1:
        return None
    M1, M2 = masks
    k = PR.skolem(N)
    if T.bnot(T.instantiate(M1, (k,))) is not T.instantiate(M2, (k,)):
        return None
    # order of the two parts
    n1, n2 = _nnz_norm(M1), _nnz_norm(M2)
    for A_, B_, na in ((M1, M2, n1), (M2, M1, n2)):
        t0 = atom(ts[0])
        want = T.ite(T.le(na, t0), _sel(0, B_, t0 - na), _sel(0, A_, t0))
        if want is b:
            return T.ite(T.instantiate(A_, (i,)), _rank(A_, (i,)), na + _rank(B_, (i,)))
    return None


def sort(t, dim=-1, descending=False, stable=False):
    d = t._norm(dim)
    f = t._num()
    n = t._dims[d]

    def L(ix):
        return _lam1(lambda i: f(ix[:d] + (i,) + ix[d + 1:]), n)
    if descending:
        # the i-th largest is the (n-1-i)-th smallest; indices of the negated list
        def fv(ix):
            return sort_value(L(ix), n - 1 - ix[d])

        def fi(ix):
            ts, b = T.open_lam(L(ix))
            return sort_index(T.close_lam((n,), ts, -b), ix[d])
    else:
        def fv(ix):
            return sort_value(L(ix), ix[d])

        def fi(ix):
            return sort_index(L(ix), ix[d])
    return _VI((_g(Tensor._mk(t._dims, fv, t.dtype), t), Tensor._mk(t._dims, fi, int64)))


def argsort(t, dim=-1, descending=False, stable=False):
    return sort(t, dim, descending)[1]


def topk(t, k, dim=-1, largest=True, sorted=True):
    d = t._norm(dim)
    n = t._dims[d]
    if not decide(T.le(P(k), n)):
        raise RuntimeError("selected index k out of range")
    v, i = sort(t, d, largest)
    key = (slice(None),) * d + (slice(0, k),)
    return _VI((v[key], i[key]))


def kthvalue(t, k, dim=-1, keepdim=False):
    v, i = sort(t, dim)
    d = t._norm(dim)
    key = (slice(None),) * d + (slice(k - 1, k) if keepdim else k - 1,)
    return _VI((v[key], i[key]))


# ------------------------------------------------------------------ linear algebra
def solve(A, Bm, left=True, out=None):
    """X with A X = B; an uninterpreted operation, linear in B"""
    if not left:
        raise Unsupported("solve(left=False)")
    n = A._dims[-1]
    if A._dims[-2] is not n and not known_eq(A._dims[-2], n):
        raise RuntimeError("linalg.solve: A must be square")
    vec = Bm.ndim == 1 or (Bm.ndim == A.ndim - 1 and all(a is b for a, b in zip(Bm._dims, A._dims[:-1])) )
    if vec:
        Bm = Bm.unsqueeze(-1)
    if Bm._dims[-2] is not n and not known_eq(Bm._dims[-2], n):
        raise RuntimeError("linalg.solve: Incompatible shapes of A and B")
    bd = bshape(A._dims[:-2], Bm._dims[:-2])
    fa = _num_bc(A, bd + (n, n))
    fb = _num_bc(Bm, bd + (n, Bm._dims[-1]))

    def f(ix):
        LA = T.lam((n, n), lambda i, j: fa(ix[:-2] + (i, j)))
        LB = T.lam((n,), lambda i: fb(ix[:-2] + (i, ix[-1])))
        return T.app("solve", LA, LB, ix[-2], linear=(1,))
    r = _g(Tensor._mk(bd + (n, Bm._dims[-1]), f, A.dtype), A, Bm)
    return r.squeeze(-1) if vec else r


def _solve_row(n, t, body):
    """sum over l of A(i, l) * solve(A, b)(l) = b(i): the defining equation of the solution (a solvable system)"""
    (m, c), = body.t.items()
    for a, e in m:
        A = T.ATOMS[a]
        if e != 1 or A.k != "app" or A.a[0] != "solve":
            continue
        LA, LB, ix = A.a[1:4]
        if ix is not atom(t) or t.id in LA.fv or t.id in LB.fv or LA.dims[1] is not n:
            continue
        rest = T.mono_poly(tuple(x for x in m if x[0] != a))
        for j in sorted(rest.fv):
            B_ = T.ATOMS[j]
            if B_ is t or B_.sort != "I" or B_.k not in ("idx", "var", "bv"):
                continue
            if T.instantiate(LA, (atom(B_), atom(t))) is rest:
                return P(T.scale(T.instantiate(LB, (atom(B_),)), c)) if c != 1 else T.instantiate(LB, (atom(B_),))
    return None


def _count(n, t, body):
    """number of indices t below n with t at most (at least) a bound"""
    (m, c), = body.t.items()
    if len(m) != 1 or m[0][1] != 1:
        return None
    A = T.ATOMS[m[0][0]]
    if A.k != "ind" or A.a[0].k != "le" or not A.a[0].a[0].int_:
        return None
    s = T.split_linear(A.a[0].a[0], t)
    if s is None or t.id in s[1].fv or T.as_const(s[0]) not in (1, -1):
        return None
    clamp = lambda k: T.ite(T.le(k, ZERO), ZERO, T.ite(T.le(n, k), n, k))
    r = clamp(ONE - s[1]) if T.as_const(s[0]) == 1 else n - clamp(s[1])
    return T.scale(r, c) if c != 1 else r


def _sorted_sum(n, t, body):
    """sum over the sorted values of a list: over the list itself; without the smallest (largest): over all indices but that of the minimum (maximum)"""
    srt = None
    for A in _sort_atoms(body, t):
        if srt is not None and A is not srt:
            return None
        srt = A
    if srt is None or t.id in srt.a[1].fv:
        return None
    L, N = srt.a[1], srt.a[1].dims[0]
    k = T.as_const(srt.a[2] - atom(t))
    miss = T.as_const(N - n)
    if (k, miss) not in ((0, 0), (1, 1), (0, 1)):
        return None
    u = T.temp(n)
    probe = T.subst(body, {srt: atom(u)})
    if t.id in probe.fv:
        return None
    s = T.temp(N)
    g = T.subst(body, {srt: T.instantiate(L, (atom(s),))})
    if miss:
        g = g * (ONE - T.ind(T.eq(atom(s), _arg_term(L, k == 0))))
    return T.close_sum(N, s, P(g))


def _sort_atoms(x, t):
    out = []

    def walk(y):
        if isinstance(y, (T.Poly, T.B, T.Lam)) or isinstance(y, T.Atom):
            if t.id not in y.fv:
                return
        if isinstance(y, T.Poly):
            for A in T.poly_atoms(y):
                walk(A)
        elif isinstance(y, T.Atom):
            if y.k == "app" and y.a[0] == "sort":
                out.append(y)
                return
            for z in y.a:
                walk(z)
        elif isinstance(y, T.B):
            for z in y.a:
                walk(z)
        elif isinstance(y, T.Lam):
            walk(y.body)
        elif isinstance(y, (tuple, frozenset)):
            for z in y:
                walk(z)
    walk(x)
    return out


def _sum_simp(n, t, body):
    for f in (_solve_row, _count, _sorted_sum):
        r = f(n, t, body)
        if r is not None:
            return r
    return None


T.SUM_SIMP[0] = _sum_simp


def lstsq(A, Bm, rcond=None, driver=None):
    m, n = A._dims[-2:]
    bd = bshape(A._dims[:-2], Bm._dims[:-2])
    fa = _num_bc(A, bd + (m, n))
    fb = _num_bc(Bm, bd + (m, Bm._dims[-1]))

    def f(ix):
        LA = T.lam((m, n), lambda i, j: fa(ix[:-2] + (i, j)))
        LB = T.lam((m,), lambda i: fb(ix[:-2] + (i, ix[-1])))
        return T.app("lstsq", LA, LB, ix[-2], linear=(1,))
    X = _g(Tensor._mk(bd + (n, Bm._dims[-1]), f, A.dtype), A, Bm)

    class R(tuple):
        solution = X
    return R((X, None, None, None))


def inverse(A):
    n = T.as_int(A._dims[-1])
    if n not in (1, 2, 3):
        fa = A._num()

        def f(ix):
            d = A._dims[-1]
            LA = T.lam((d, d), lambda i, j: fa(ix[:-2] + (i, j)))
            return T.app("solve", LA, T.lam((d,), lambda i: T.ind(T.eq(i, ix[-1]))), ix[-2], linear=(1,))
        return _g(Tensor._mk(A._dims, f, A.dtype), A)
    fa = A._num()

    def f(ix):
        M = [[fa(ix[:-2] + (const(i), const(j))) for j in range(n)] for i in range(n)]
        D = _det(M)
        i, j = T.as_int(ix[-2]), T.as_int(ix[-1])
        if i is None or j is None:
            raise Unsupported("symbolic index into an inverse")
        minor = [[M[r][c] for c in range(n) if c != i] for r in range(n) if r != j]
        return T.div(T.scale(_det(minor), (-1) ** (i + j)), D)
    return _g(Tensor._mk(A._dims, f, A.dtype), A)


def _det(M):
    if not M:
        return ONE
    r = ZERO
    for j in range(len(M)):
        r = r + T.scale(M[0][j], (-1) ** j) * _det([row[:j] + row[j + 1:] for row in M[1:]])
    return r


def det(A):
    n = T.as_int(A._dims[-1])
    if n is None or n > 4:
        raise Unsupported("det of a large matrix")
    fa = A._num()

    def f(ix):
        return _det([[fa(ix + (const(i), const(j))) for j in range(n)] for i in range(n)])
    return _g(Tensor._mk(A._dims[:-2], f, A.dtype), A)


def trace(A):
    return A.diagonal(0, -2, -1).sum(-1)


# ------------------------------------------------------------------ autograd (one scalar loss, leaf storages)
LEAVES = {}


def _backward(t):
    if not t._rg:
        raise RuntimeError("element 0 of tensors does not require grad and does not have a grad_fn")
    v = t._rd()((ZERO,) * t.ndim)
    hit = False
    for leaf in list(LEAVES.values()):
        name = leaf._st.tag
        if name is None or not leaf._rg:
            continue
        dims = leaf._dims

        def f(ix, v=v, name=name):
            return T.app("grad", v, name, *ix)
        g = Tensor._mk(dims, f, leaf.dtype)
        if leaf.grad is None:
            leaf.grad = g
        else:
            leaf.grad = leaf.grad + g
        hit = True
    if not hit:
        raise Unsupported("backward without a registered leaf")
