"""Hash-consed term language of the verifier.

Int and Real terms are polynomials (Fraction coefficients, integer exponents, negative exponents
standing for division by a monomial) over atoms.  Every constructor returns a normal form, so that
many equalities are decided by identity.  Booleans are separate hash-consed terms; the indicator
of a boolean is an idempotent atom, so if-then-else is a polynomial.
"""
import itertools
from fractions import Fraction as Fr
from math import gcd, isqrt, pi as _PI


class Unsupported(Exception):
    """The term or operation is outside the fragment the verifier models."""


class Budget(Exception):
    """Resource limit of one obligation reached."""


LIMITS = {"terms": 40000}

# ---------------------------------------------------------------- atoms
_atom_tab = {}
ATOMS = []


class Atom:
    __slots__ = ("id", "k", "a", "sort", "h", "fv", "_p")

    def __repr__(self):
        return show_atom(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


def mkatom(k, a, sort):
    key = (k, a, sort)
    x = _atom_tab.get(key)
    if x is None:
        x = Atom()
        x.id = len(ATOMS)
        x.k, x.a, x.sort = k, a, sort
        x._p = None
        h = 0
        fv = set()
        for y in a:
            hh, f = _hfv(y)
            h = max(h, hh)
            fv.update(f)
        if k in ("var", "idx", "bv"):
            fv.add(x.id)
        if k == "sum":
            h += 1
        x.h = h
        x.fv = frozenset(fv)
        _atom_tab[key] = x
        ATOMS.append(x)
    return x


def _hfv(y):
    if hasattr(y, "fv"):
        return y.h, y.fv
    if isinstance(y, tuple):
        h = 0
        f = set()
        for z in y:
            a, b = _hfv(z)
            h = max(h, a)
            f.update(b)
        return h, f
    return 0, frozenset()


# ---------------------------------------------------------------- polynomials
_poly_tab = {}
_poly_cnt = [0]


class Poly:
    __slots__ = ("t", "id", "h", "fv", "int_", "key", "_sub")

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)

    def __add__(self, o):
        return add(self, P(o))

    __radd__ = __add__

    def __sub__(self, o):
        return add(self, scale(P(o), -1))

    def __rsub__(self, o):
        return add(P(o), scale(self, -1))

    def __neg__(self):
        return scale(self, -1)

    def __mul__(self, o):
        return mul(self, P(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return div(self, P(o))

    def __rtruediv__(self, o):
        return div(P(o), self)

    def __pow__(self, n):
        return power(self, n)

    def __lt__(self, o):
        return lt(self, P(o))

    def __le__(self, o):
        return le(self, P(o))

    def __gt__(self, o):
        return lt(P(o), self)

    def __ge__(self, o):
        return le(P(o), self)

    def __floordiv__(self, o):
        return fdiv(self, P(o))

    def __rfloordiv__(self, o):
        return fdiv(P(o), self)

    def __mod__(self, o):
        o = P(o)
        return imod(self, o) if self.int_ and o.int_ else rmod(self, o)

    def __rmod__(self, o):
        return P(o) % self


def _mkpoly(d):
    key = frozenset(d.items())
    p = _poly_tab.get(key)
    if p is None:
        if len(d) > LIMITS["terms"]:
            raise Budget("polynomial too large")
        p = Poly()
        p.t = d
        p.key = key
        p.id = _poly_cnt[0]
        _poly_cnt[0] += 1
        h = 0
        fv = set()
        int_ = True
        for m, c in d.items():
            if c.denominator != 1:
                int_ = False
            for a, e in m:
                A = ATOMS[a]
                if A.h > h:
                    h = A.h
                fv |= A.fv
                if A.sort != "I" or e < 0:
                    int_ = False
        p.h = h
        p.fv = frozenset(fv)
        p.int_ = int_
        p._sub = None
        _poly_tab[key] = p
    return p


ZERO = _mkpoly({})
ONE = _mkpoly({(): Fr(1)})


def const(c):
    c = Fr(c)
    return _mkpoly({(): c}) if c else ZERO


def atom(a):
    if a._p is None:
        a._p = _mkpoly({((a.id, 1),): Fr(1)})
    return a._p


PI_ATOM = mkatom("const", ("pi",), "R")
PI = atom(PI_ATOM)


def from_float(x):
    if x != x or x in (float("inf"), float("-inf")):
        if x == float("inf"):
            return INF
        if x == float("-inf"):
            return scale(INF, -1)
        raise Unsupported("nan constant")
    if x == int(x):
        return const(int(x))
    r = x / _PI
    for den in (1, 2, 3, 4, 6, 8, 12):
        n = r * den
        if abs(n - round(n)) < 1e-13 * max(1, abs(n)) and round(n) and abs(n) < 1e6:
            return scale(PI, Fr(round(n), den))
    return const(Fr(repr(float(x))))


INF = atom(mkatom("const", ("inf",), "R"))


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return const(int(x))
    if type(x) is int:
        return const(x)
    if isinstance(x, Fr):
        return const(x)
    if type(x) is float:
        return from_float(x)
    if isinstance(x, B):
        return ind(x)
    if isinstance(x, Atom):
        return atom(x)
    if hasattr(x, "_term"):
        return P(x._term)
    if hasattr(x, "__float__") and not hasattr(x, "shape"):
        return from_float(float(x))
    raise Unsupported(f"cannot make a term of {type(x).__name__}")


def add(p, q):
    if p is ZERO:
        return q
    if q is ZERO:
        return p
    if len(p.t) < len(q.t):
        p, q = q, p
    d = dict(p.t)
    for m, c in q.t.items():
        v = d.get(m)
        if v is None:
            d[m] = c
        else:
            v += c
            if v:
                d[m] = v
            else:
                del d[m]
    return _mkpoly(d)


def sum_polys(ps):
    d = {}
    for p in ps:
        for m, c in p.t.items():
            v = d.get(m)
            d[m] = c if v is None else v + c
    return _mkpoly({m: c for m, c in d.items() if c})


def scale(p, c):
    if c == 1:
        return p
    if not c:
        return ZERO
    return _mkpoly({m: v * c for m, v in p.t.items()})


# unit-vector families: name -> length; the last component's square is rewritten
UNIT = {}


def _special(a, e):
    """Return None if atom a may carry exponent e, else a Poly equal to a**e."""
    A = ATOMS[a]
    k = A.k
    if k == "fn":
        n = A.a[0]
        if n == "sqrt":
            if e >= 2:
                return mul(power(A.a[1], e // 2), atom(A) if e % 2 else ONE)
            if e < 0:
                # s^-1 = s * p^-1 ; s^-2 = p^-1
                q, r = divmod(e, 2)
                return mul(power(A.a[1], q), atom(A) if r else ONE)
        elif n == "abs":
            if e >= 2 or e < 0:
                q, r = divmod(e, 2)
                return mul(power(A.a[1], 2 * q), atom(A) if r else ONE)
        elif n == "sin":
            if e >= 2:
                c = cos(A.a[1])
                return mul(power(ONE - c * c, e // 2), atom(A) if e % 2 else ONE)
    elif k == "ind":
        if e >= 2:
            return atom(A)
    elif k == "paren":
        if e > 0:
            return power(A.a[0], e)
    elif k == "el":
        n = UNIT.get(A.a[0])
        if n and e >= 2:
            last = A.a[-1]
            if last is const(n - 1):
                s = ONE
                for j in range(n - 1):
                    b = atom(mkatom("el", A.a[:-1] + (const(j),), A.sort))
                    s = s - b * b
                return mul(power(s, e // 2), atom(A) if e % 2 else ONE)
    return None


_mono_mul = {}


def _mmul(m1, m2):
    """product of monomials -> (mono or None, Poly or None)"""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    key = (m1, m2)
    r = _mono_mul.get(key)
    if r is not None:
        return r
    d = dict(m1)
    touched = []
    for a, e in m2:
        x = d.get(a)
        if x is None:
            d[a] = e
        else:
            x += e
            if x:
                d[a] = x
                touched.append(a)
            else:
                del d[a]
    sp = None
    for a in touched:
        if a in d:
            s = _special(a, d[a])
            if s is not None:
                sp = s if sp is None else mul(sp, s)
                del d[a]
    if sp is None:
        mono = tuple(sorted(d.items()))
        r = (mono, None)
    else:
        mono = tuple(sorted(d.items()))
        r = (None, mul(_mkpoly({mono: Fr(1)}), sp))
    _mono_mul[key] = r
    return r


_mul_cache = {}


def mul(p, q):
    if p is ZERO or q is ZERO:
        return ZERO
    if p is ONE:
        return q
    if q is ONE:
        return p
    key = (p.id, q.id) if p.id < q.id else (q.id, p.id)
    r = _mul_cache.get(key)
    if r is not None:
        return r
    if len(p.t) * len(q.t) > 20 * LIMITS["terms"]:
        raise Budget("polynomial product too large")
    d = {}
    extra = []
    for m1, c1 in p.t.items():
        for m2, c2 in q.t.items():
            mono, pol = _mmul(m1, m2)
            c = c1 * c2
            if pol is None:
                v = d.get(mono)
                d[mono] = c if v is None else v + c
            else:
                extra.append(scale(pol, c))
    r = _mkpoly({m: c for m, c in d.items() if c})
    if extra:
        r = sum_polys([r] + extra)
    _mul_cache[key] = r
    return r


def power(p, n):
    if isinstance(n, Poly):
        c = as_const(n)
        if c is None:
            return fn("pow", p, n)
        n = c
    if isinstance(n, float):
        n = Fr(repr(n))
    if isinstance(n, Fr):
        if n.denominator == 2:
            s = sqrt(p)
            return power(s, n.numerator)
        if n.denominator != 1:
            return fn("pow", p, const(n))
        n = n.numerator
    if n == 0:
        return ONE
    if n < 0:
        return inv(power(p, -n))
    r = ONE
    b = p
    while n:
        if n & 1:
            r = mul(r, b)
        n >>= 1
        if n:
            b = mul(b, b)
    return r


def mono_poly(m):
    return _mkpoly({m: Fr(1)})


def content(p):
    """p = c * mono * rest with rest primitive: returns (c, mono, rest)."""
    it = iter(p.t.items())
    m0, c0 = next(it)
    num, den = abs(c0.numerator), c0.denominator
    g = dict(m0)
    for m, c in it:
        num = gcd(num, c.numerator)
        den = den * c.denominator // gcd(den, c.denominator)
        md = dict(m)
        for a in list(g):
            e = md.get(a, 0)
            g[a] = min(g[a], e)
            if g[a] == 0:
                del g[a]
        for a, e in md.items():
            if e < 0 and a not in g:
                g[a] = e
    c = Fr(num, den)
    lead = max(p.t)
    if p.t[lead] < 0:
        c = -c
    gm = tuple(sorted(g.items()))
    if c == 1 and not gm:
        return c, gm, p
    rest = {}
    for m, v in p.t.items():
        d = dict(m)
        for a, e in g.items():
            x = d.get(a, 0) - e
            if x:
                d[a] = x
            else:
                d.pop(a, None)
        rest[tuple(sorted(d.items()))] = v / c
    up = {a for m in rest for a, e in m if e > 0 and ATOMS[a].k == "paren"}
    if up:
        out = []
        for m, v in rest.items():
            t = _mkpoly({tuple((a, e) for a, e in m if a not in up or e < 0): v})
            for a, e in m:
                if a in up and e > 0:
                    t = mul(t, power(ATOMS[a].a[0], e))
            out.append(t)
        r = sum_polys(out)
        c2, m2, r2 = content(r) if r.t else (Fr(1), (), r)
        return c * c2, _mmul_plain(gm, m2), r2
    return c, gm, _mkpoly(rest)


def _mmul_plain(a, b):
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted((k, e) for k, e in d.items() if e))


def inv(p):
    if p is ZERO:
        return atom(mkatom("const", ("div0",), "R"))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = const(1 / c)
        for a, e in m:
            A = ATOMS[a]
            if A is INF_ATOM:
                if e > 0:
                    return ZERO
            if A.k == "ind":
                r = mul(r, _invind(A))
                continue
            s = _special(a, -e)
            r = mul(r, s if s is not None else _mkpoly({((a, -e),): Fr(1)}))
        return r
    inds = indicators(p)
    if inds and len(inds) <= 3:
        i = inds[0]
        return ite(i.a[0], inv(assign_ind(p, i, True)), inv(assign_ind(p, i, False)))
    c, m, rest = content(p)
    r = const(1 / c)
    if m:
        r = mul(r, inv(mono_poly(m)))
    if rest is ONE:
        return r
    return mul(r, _mkpoly({((mkatom("paren", (rest,), "R").id, -1),): Fr(1)}))


INF_ATOM = mkatom("const", ("inf",), "R")


def _invind(A):
    return ite(A.a[0], ONE, atom(mkatom("const", ("div0",), "R")))


def div(p, q):
    if q is ONE:
        return p
    return mul(p, inv(q))


def as_const(p):
    """Fraction if p is a constant polynomial, else None."""
    if not p.t:
        return Fr(0)
    if len(p.t) == 1 and () in p.t:
        return p.t[()]
    return None


def as_int(p):
    if type(p) is int:
        return p
    c = as_const(P(p))
    if c is not None and c.denominator == 1:
        return c.numerator
    return None


def as_atom(p):
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return ATOMS[m[0][0]]
    return None


def poly_atoms(p):
    s = set()
    for m in p.t:
        for a, e in m:
            s.add(ATOMS[a])
    return s


def indicators(p):
    r = []
    for m in p.t:
        for a, e in m:
            A = ATOMS[a]
            if A.k == "ind" and A not in r:
                r.append(A)
    return sorted(r, key=lambda A: A.id)


def assign_ind(p, A, v):
    """Replace the top-level occurrences of indicator atom A by 1 or 0."""
    out = {}
    for m, c in p.t.items():
        d = dict(m)
        if A.id in d:
            if not v:
                continue
            del d[A.id]
            m = tuple(sorted(d.items()))
        out[m] = out.get(m, 0) + c
    return _mkpoly({m: c for m, c in out.items() if c})


def split_linear(p, A):
    """p = a*A + b with a, b free of A (top level); None if A occurs non-linearly."""
    da, db = {}, {}
    for m, c in p.t.items():
        d = dict(m)
        e = d.pop(A.id, 0)
        if e == 0:
            db[m] = c
        elif e == 1:
            da[tuple(sorted(d.items()))] = c
        else:
            return None
    a, b = _mkpoly(da), _mkpoly(db)
    for q in (a, b):
        for x in poly_atoms(q):
            if occurs(A, x):
                return None
    return a, b


def occurs(A, X):
    if A is X:
        return True
    if A.k in ("var", "idx", "bv"):
        return A.id in X.fv
    if not (A.fv <= X.fv):
        return False
    for y in X.a:
        if _occ(A, y):
            return True
    return False


def _occ(A, y):
    if isinstance(y, Poly):
        return any(occurs(A, x) for x in poly_atoms(y))
    if isinstance(y, Atom):
        return occurs(A, y)
    if isinstance(y, B):
        return any(_occ(A, z) for z in y.a)
    if isinstance(y, Lam):
        return _occ(A, y.body)
    if isinstance(y, (tuple, frozenset)):
        return any(_occ(A, z) for z in y)
    return False


# ---------------------------------------------------------------- booleans
_b_tab = {}
_b_cnt = [0]


class B:
    __slots__ = ("k", "a", "id", "h", "fv")

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show_b(self)

    def __and__(self, o):
        return band(self, toB(o))

    __rand__ = __and__

    def __or__(self, o):
        return bor(self, toB(o))

    __ror__ = __or__

    def __invert__(self):
        return bnot(self)

    def __bool__(self):
        raise Unsupported("truth value of a symbolic condition in a specification")


def mkb(k, *a):
    key = (k,) + a
    x = _b_tab.get(key)
    if x is None:
        x = B()
        x.k, x.a = k, a
        x.id = _b_cnt[0]
        _b_cnt[0] += 1
        h = 0
        fv = set()
        for y in a:
            if isinstance(y, frozenset):
                for z in y:
                    h = max(h, z.h)
                    fv |= z.fv
            else:
                hh, f = _hfv(y)
                h = max(h, hh)
                fv.update(f)
        x.h = h
        x.fv = frozenset(fv)
        _b_tab[key] = x
    return x


TRUE = mkb("T")
FALSE = mkb("F")


def toB(x):
    if isinstance(x, B):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if hasattr(x, "_cond"):
        return x._cond
    if isinstance(x, (int, Poly)):
        return bnot(eq(P(x), ZERO))
    raise Unsupported(f"cannot make a condition of {type(x).__name__}")


def bnot(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.k == "not":
        return b.a[0]
    if b.k == "le":
        return _cmp("lt", scale(b.a[0], -1))
    if b.k == "lt":
        return _cmp("le", scale(b.a[0], -1))
    if b.k == "and":
        return bor(*[bnot(x) for x in b.a[0]])
    if b.k == "or":
        return band(*[bnot(x) for x in b.a[0]])
    return mkb("not", b)


def band(*bs):
    s = set()
    for b in bs:
        b = toB(b)
        if b is FALSE:
            return FALSE
        if b is TRUE:
            continue
        if b.k == "and":
            s |= b.a[0]
        else:
            s.add(b)
    for b in s:
        if bnot(b) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return mkb("and", frozenset(s))


def bor(*bs):
    s = set()
    for b in bs:
        b = toB(b)
        if b is TRUE:
            return TRUE
        if b is FALSE:
            continue
        if b.k == "or":
            s |= b.a[0]
        else:
            s.add(b)
    for b in s:
        if bnot(b) in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    return mkb("or", frozenset(s))


def implies(a, b):
    return bor(bnot(toB(a)), toB(b))


def iff(a, b):
    return bor(band(a, b), band(bnot(a), bnot(b)))


def xor(a, b):
    return bnot(iff(a, b))


def _num_const(p):
    """float value of a polynomial in PI / inf only, or None"""
    v = 0.0
    for m, c in p.t.items():
        x = float(c)
        for a, e in m:
            if a == PI_ATOM.id:
                x *= _PI ** e
            elif a == INF_ATOM.id and e > 0:
                x *= float("inf")
            elif ATOMS[a].k == "fn" and all(_num_const(q) is not None for q in ATOMS[a].a[1:] if isinstance(q, Poly)):
                f = _NUMFN.get(ATOMS[a].a[0])
                if not f:
                    return None
                try:
                    x *= f(*[_num_const(q) for q in ATOMS[a].a[1:]]) ** e
                except Exception:
                    return None
            else:
                return None
        v += x
    return v


import math as _m

_NUMFN = {"sqrt": _m.sqrt, "cos": _m.cos, "sin": _m.sin, "exp": _m.exp, "log": _m.log, "acos": _m.acos, "abs": abs,
          "pow": pow}


def _clear_positive(p):
    """p times positive integer quantities that occur in denominators"""
    for _ in range(8):
        best = {}
        for m in p.t:
            for a, e in m:
                if e < 0:
                    best[a] = min(e, best.get(a, 0))
        for a, e in sorted(best.items()):
            A = ATOMS[a]
            q = A.a[0] if A.k == "paren" else atom(A)
            if q.int_ and nonneg(q - 1):
                break
        else:
            return p
        out = []
        for m, c in p.t.items():
            md = dict(m)
            x = md.pop(a, 0)
            out.append(mul(_mkpoly({tuple(sorted(md.items())): c}), power(q, x - e)))
        p = sum_polys(out)
    return p


def _cmp(k, p):
    c = as_const(p)
    if c is not None:
        if k == "le":
            return TRUE if c <= 0 else FALSE
        if k == "lt":
            return TRUE if c < 0 else FALSE
        return TRUE if c == 0 else FALSE
    v = _num_const(p)
    if v is not None and abs(v) > 1e-12:
        if k == "le" or k == "lt":
            return TRUE if v < 0 else FALSE
        return FALSE
    inds = indicators(p)
    if inds and len(inds) <= 6:
        i = inds[0]
        c = i.a[0]
        return bor(band(c, _cmp(k, assign_ind(p, i, True))), band(bnot(c), _cmp(k, assign_ind(p, i, False))))
    if INF_ATOM in poly_atoms(p):
        s = split_linear(p, INF_ATOM)
        if s:
            ca = as_const(s[0])
            if ca is not None:
                if k == "eq":
                    return FALSE
                return TRUE if ca < 0 else FALSE
    p = _clear_positive(p)
    c = as_const(p)
    if c is not None:
        return TRUE if (c <= 0 if k == "le" else c < 0 if k == "lt" else c == 0) else FALSE
    # normalise by a positive constant (and by sign for equality)
    c, m, rest = content(p)
    p = scale(p, 1 / abs(c))
    if k == "eq":
        if c < 0:
            p = scale(p, -1)
        if m and all(ATOMS[a].k in ("fn",) and ATOMS[a].a[0] == "exp" for a, e in m):
            p = rest
    if p.int_:
        if k == "lt":
            k, p = "le", add(p, ONE)
            c = as_const(p)
            if c is not None:
                return TRUE if c <= 0 else FALSE
        if k == "le":
            if nonneg(scale(p, -1)):
                return TRUE
            if nonneg(p - 1):
                return FALSE
        else:
            if nonneg(p - 1) or nonneg(-p - 1):
                return FALSE
    else:
        if k in ("le", "lt"):
            s = sign_syn(p)
            if s == "+":
                return FALSE
            if s == "-":
                return TRUE
            if s == "0+" and k == "lt":
                return FALSE
            if s == "0-" and k == "le":
                return TRUE
        elif k == "eq":
            if sign_syn(p) in ("+", "-"):
                return FALSE
    return mkb(k, p)


_POSFN = {"exp"}
_NNFN = {"sqrt", "abs", "acos"}


def atom_sign(A):
    if A.k == "const":
        return "+" if A.a[0] in ("pi", "inf") else None
    if A.k == "fn":
        n = A.a[0]
        if n in _POSFN:
            return "+"
        if n in _NNFN:
            return "0+"
        if n == "rmod":
            return "0+"
    if A.k == "ind":
        return "0+"
    if A.k == "paren":
        return sign_syn(A.a[0])
    if A.sort == "I":
        lo = lower(A)
        if lo is not None:
            return "+" if lo >= 1 else "0+" if lo >= 0 else None
    if A.k == "var" and len(A.a) > 1 and A.a[1] is not None:
        return "+" if A.a[1] > 0 else "0+" if A.a[1] >= 0 else None
    return None


def sign_syn(p):
    """syntactic sign: '+', '-', '0+', '0-' or None"""
    pos = neg = strict = False
    for m, c in p.t.items():
        s = "+"
        for a, e in m:
            t = atom_sign(ATOMS[a])
            if t is None:
                if e % 2 == 0:
                    t = "0+"
                elif p.int_ and len(p.t) <= 4:
                    return "+" if nonneg(p - 1) else "0+" if nonneg(p) else "-" if nonneg(-p - 1) else "0-" if nonneg(-p) else None
                else:
                    return None
            if t == "0+":
                s = "0+"
        if c > 0:
            pos = True
        else:
            neg = True
        if s == "+":
            strict = True
        if pos and neg:
            break
    if pos and neg:
        if p.int_ and len(p.t) <= 4:
            return "+" if nonneg(p - 1) else "0+" if nonneg(p) else "-" if nonneg(-p - 1) else "0-" if nonneg(-p) else None
        return None
    if pos:
        return "+" if strict else "0+"
    if neg:
        return "-" if strict else "0-"
    return None


def le(p, q):
    return _cmp("le", P(p) - P(q))


def lt(p, q):
    return _cmp("lt", P(p) - P(q))


def ge(p, q):
    return le(q, p)


def gt(p, q):
    return lt(q, p)


def eq(p, q):
    return _cmp("eq", P(p) - P(q))


def ne(p, q):
    return bnot(eq(p, q))


def bapp(name, *a):
    return mkb("ba", name, *a)


# hook: the prover can decide an indicator (case split) when it is being built
SPLIT = [None]


def ind(b):
    """1 if b else 0"""
    if b is TRUE:
        return ONE
    if b is FALSE:
        return ZERO
    if b.k == "not":
        return ONE - ind(b.a[0])
    if b.k == "and":
        r = ONE
        for x in sorted(b.a[0], key=lambda x: x.id):
            r = mul(r, ind(x))
            if r is ZERO:
                break
        return r
    if b.k == "or":
        r = ONE
        for x in sorted(b.a[0], key=lambda x: x.id):
            r = mul(r, ONE - ind(x))
            if r is ZERO:
                break
        return ONE - r
    if SPLIT[0] is not None:
        v = SPLIT[0](b)
        if v is not None:
            return ONE if v else ZERO
    if b.k in ("le", "lt"):
        p = b.a[0]
        if p.t[max(p.t)] < 0:
            return ONE - ind(bnot(b))
    return atom(mkatom("ind", (b,), "I"))


def ite(c, a, b):
    c = toB(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    i = ind(c)
    if i is ONE:
        return a
    if i is ZERO:
        return b
    return b + (a - b) * i


# ---------------------------------------------------------------- integer ranges
def var(name, sort="R", lo=None):
    return atom(mkatom("var", (name, lo), sort))


def idx(name, n):
    return atom(mkatom("idx", (name, P(n)), "I"))


_tmp = [0]


def temp(n):
    _tmp[0] += 1
    return mkatom("idx", ("t%d" % _tmp[0], P(n)), "I")


def upper_excl(A):
    """Poly n with A < n, or None (A an int atom)."""
    if A.k in ("idx", "bv"):
        return A.a[-1]
    if A.k == "mod":
        return A.a[1]
    if A.k == "ind":
        return const(2)
    if A.k == "app" and A.sort == "I":
        return INT_UPPER.get(A.a[0], lambda A: None)(A)
    if A.k == "fdiv":
        p, n = A.a
        u = upper_poly(p)
        if u is not None:
            q = exact_div(u, n)
            if q is not None:
                return q
    if A.k == "el" and A.sort == "I":
        b = EL_BOUND.get(A.a[0])
        if b is not None:
            return b[1]
    return None


INT_UPPER = {}
INT_LOWER = {}
EL_BOUND = {}


def lower(A):
    if A.k in ("idx", "bv", "mod", "ind"):
        return 0
    if A.k == "var":
        return A.a[1]
    if A.k == "fdiv":
        return 0 if nonneg(A.a[0]) else None
    if A.k == "app" and A.sort == "I":
        return INT_LOWER.get(A.a[0], 0)
    if A.k == "el" and A.sort == "I":
        b = EL_BOUND.get(A.a[0])
        if b is not None:
            return b[0]
    return None


def upper_poly(p):
    """a Poly u with p <= u - 1 (i.e. p < u), by maximising index atoms; None if unknown"""
    q = _extreme(p, True)
    return None if q is None else q + 1


def _extreme(p, hi):
    for _ in range(40):
        cands = [A for A in poly_atoms(p) if A.sort == "I" and A.k in ("idx", "bv", "mod", "fdiv", "ind") or (A.k == "app" and A.sort == "I" and upper_excl(A) is not None) or (A.k == "el" and A.sort == "I" and A.a[0] in EL_BOUND)]
        if not cands:
            return p
        done = False
        for A in cands:
            s = split_linear(p, A)
            if s is None:
                continue
            a, b = s
            if nonneg(a):
                sg = 1
            elif nonneg(scale(a, -1)):
                sg = -1
            else:
                continue
            if (sg > 0) == hi:
                u = upper_excl(A)
                if u is None:
                    continue
                p = a * (u - 1) + b
            else:
                lo = lower(A)
                if lo is None:
                    continue
                p = a * lo + b
            done = True
            break
        if not done:
            return None
    return None


_nn_cache = {}
_nn_depth = [0]


def nonneg(p):
    c = as_const(p)
    if c is not None:
        return c >= 0
    if not all(ATOMS[a].sort == "I" for m in p.t for a, e in m):
        return False
    r = _nn_cache.get(p.id)
    if r is not None:
        return r
    if _nn_depth[0] > 12:
        return False
    _nn_depth[0] += 1
    try:
        r = _nonneg(p)
    finally:
        _nn_depth[0] -= 1
    _nn_cache[p.id] = r
    return r


def _nonneg(p):
    q = _extreme(p, False)
    if q is None:
        return False
    # shift variables by their lower bounds; then all coefficients must be >= 0
    sub = {}
    for A in poly_atoms(q):
        lo = lower(A)
        if lo is None:
            return False
        if lo:
            sub[A] = atom(A) + lo
    if any(e < 0 for m in q.t for a, e in m):
        return False
    if sub:
        out = ZERO
        for m, c in q.t.items():
            t = const(c)
            for a, e in m:
                t = mul(t, power(sub.get(ATOMS[a], atom(ATOMS[a])), e))
            out = out + t
        q = out
    return all(c >= 0 for c in q.t.values())


def exact_div(p, n):
    """q with p = q*n for n a nonzero polynomial, or None"""
    if n is ONE:
        return p
    if p is ZERO:
        return ZERO
    if p is n:
        return ONE
    if len(n.t) == 1:
        (m, c), = n.t.items()
        out = {}
        md = dict(m)
        for m1, c1 in p.t.items():
            d = dict(m1)
            for a, e in md.items():
                x = d.get(a, 0) - e
                if x < 0:
                    return None
                if x:
                    d[a] = x
                else:
                    d.pop(a, None)
            out[tuple(sorted(d.items()))] = c1 / c
        return _mkpoly(out)
    # multivariate division by a polynomial
    lead = max(n.t, key=_mkey)
    rem = p
    q = ZERO
    for _ in range(200):
        if rem is ZERO:
            return q
        lm = max(rem.t, key=_mkey)
        d = dict(lm)
        for a, e in lead:
            x = d.get(a, 0) - e
            if x < 0:
                return None
            if x:
                d[a] = x
            else:
                d.pop(a, None)
        t = _mkpoly({tuple(sorted(d.items())): rem.t[lm] / n.t[lead]})
        q = q + t
        rem = rem - t * n
    return None


def _mkey(m):
    return (sum(e for a, e in m), m)


def _split_by(p, n):
    """p = n*q + r with q collecting every monomial divisible by n (n a monomial or poly)."""
    if len(n.t) == 1:
        (m, c), = n.t.items()
        md = dict(m)
        q, r = {}, {}
        for m1, c1 in p.t.items():
            d = dict(m1)
            ok = True
            for a, e in md.items():
                x = d.get(a, 0) - e
                if x < 0:
                    ok = False
                    break
                if x:
                    d[a] = x
                else:
                    d.pop(a, None)
            if ok and m:
                k = c1 / c
                kk = tuple(sorted(d.items()))
                if k.denominator == 1:
                    q[kk] = k
                else:
                    fl = Fr(k.numerator // k.denominator)
                    if fl:
                        q[kk] = fl
                    r[m1] = c1 - fl * c
            elif ok:
                k = c1 / c
                fl = Fr(k.numerator // k.denominator)
                if fl:
                    q[m1] = fl
                if c1 - fl * c:
                    r[m1] = c1 - fl * c
            else:
                r[m1] = c1
        return _mkpoly(q), _mkpoly(r)
    # polynomial divisor: greedy division on leading monomials
    lead = max(n.t, key=_mkey)
    q = ZERO
    r = p
    for _ in range(50):
        best = None
        for lm in r.t:
            d = dict(lm)
            ok = True
            for a, e in lead:
                x = d.get(a, 0) - e
                if x < 0:
                    ok = False
                    break
                if x:
                    d[a] = x
                else:
                    d.pop(a, None)
            if ok:
                best = _mkpoly({tuple(sorted(d.items())): r.t[lm] / n.t[lead]})
                break
        if best is None:
            break
        q = q + best
        r = r - best * n
    return q, r


def fdiv(p, n):
    """floor division of integers (n > 0)"""
    return _divmod(p, n)[0]


def imod(p, n):
    return _divmod(p, n)[1]


_dm_cache = {}


def _divmod(p, n):
    key = (p.id, n.id)
    r = _dm_cache.get(key)
    if r is None:
        r = _divmod0(p, n)
        if SPLIT[0] is None:
            _dm_cache[key] = r
    return r


def _divmod0(p, n):
    cn = as_const(n)
    if cn is not None and cn == 0:
        raise Unsupported("division by zero")
    if n is ONE:
        return p, ZERO
    cp = as_const(p)
    if cp is not None and cn is not None:
        q = cp // cn
        return const(q), const(cp - q * cn)
    inds = indicators(p)
    if inds and len(inds) <= 4:
        i = inds[0]
        q1, r1 = _divmod(assign_ind(p, i, True), n)
        q0, r0 = _divmod(assign_ind(p, i, False), n)
        return ite(i.a[0], q1, q0), ite(i.a[0], r1, r0)
    q, r = _split_by(p, n)
    if r is ZERO:
        return q, ZERO
    if nonneg(r) and nonneg(n - 1 - r):
        return q, r
    # borrow one
    r2 = r + n
    if nonneg(r2) and nonneg(n - 1 - r2):
        return q - 1, r2
    r2 = r - n
    if nonneg(r2) and nonneg(n - 1 - r2):
        return q + 1, r2
    # nested: (x mod (n*m)) ; (x div a) div b
    A = as_atom(r)
    if A is not None and A.k == "fdiv":
        return q + fdiv(A.a[0], A.a[1] * n), imod_atom(r, n)
    if A is not None and A.k == "mod":
        k = exact_div(A.a[1], n)
        if k is not None:
            # (x mod (n*k)) mod n = x mod n ; (x mod (n k)) div n = (x div n) mod k
            return q + imod(fdiv(A.a[0], n), k), imod(A.a[0], n)
    # n = f*m: (f*a + b) div (f*m) = a div m for 0 <= b < f
    if len(n.t) == 1:
        (m, co), = n.t.items()
        if sum(abs(e) for _, e in m) >= 2 and co == 1:
            fs = [a for a, e in m if e > 0]
            for k in range(1, 1 << min(len(fs), 4)):
                f = mono_poly(tuple(sorted((a, 1) for i, a in enumerate(fs) if k >> i & 1)))
                h = exact_div(n, f)
                if f is n or h is None or h is ONE:
                    continue
                a_, b_ = _split_by(r, f)
                if a_ is not ZERO and nonneg(b_) and nonneg(f - 1 - b_):
                    q2, r2 = _divmod(a_, h)
                    return q + q2, mul(f, r2) + b_
    if _backwards(r) and nonneg(n):
        # a div n = -1 - (-1 - a) div n ; a mod n = n - 1 - (-1 - a) mod n
        q2, r2 = _divmod(-1 - r, n)
        return q - 1 - q2, n - 1 - r2
    return q + fdiv_atom(r, n), imod_atom(r, n)


def _backwards(p):
    """one of p and -1 - p: the first monomial with a position counts downwards"""
    best = None
    for m, c in p.t.items():
        if any(ATOMS[a].k in ("idx", "bv") for a, _ in m) and (best is None or m < best[0]):
            best = (m, c)
    return best is not None and best[1] < 0


def fdiv_atom(p, n):
    return atom(mkatom("fdiv", (p, n), "I"))


def imod_atom(p, n):
    return atom(mkatom("mod", (p, n), "I"))


# ---------------------------------------------------------------- real functions
def _lift(f, ps):
    """lift a function through indicators in its arguments"""
    for k, p in enumerate(ps):
        inds = indicators(p)
        if inds:
            if len(inds) > 4:
                return None
            i = inds[0]
            a = list(ps)
            b = list(ps)
            for j in range(len(ps)):
                a[j] = assign_ind(ps[j], i, True)
                b[j] = assign_ind(ps[j], i, False)
            return ite(i.a[0], f(*a), f(*b))
    return None


def fn(name, *ps):
    ps = [P(p) for p in ps]
    r = _lift(lambda *a: fn(name, *a), ps)
    if r is not None:
        return r
    return atom(mkatom("fn", (name,) + tuple(ps), "R"))


def exp(p):
    p = P(p)
    if p is ZERO:
        return ONE
    return fn("exp", p)


def log(p):
    if P(p) is ONE:
        return ZERO
    return fn("log", p)


def is_nonneg_real(p):
    return sign_syn(p) in ("+", "0+")


def abs_(p):
    p = P(p)
    c = as_const(p)
    if c is not None:
        return const(abs(c))
    s = sign_syn(p)
    if s in ("+", "0+"):
        return p
    if s in ("-", "0-"):
        return -p
    r = _lift(abs_, [p])
    if r is not None:
        return r
    c, m, rest = content(p)
    r = const(abs(c))
    for a, e in m:
        A = ATOMS[a]
        if atom_sign(A) in ("+", "0+") or e % 2 == 0:
            r = mul(r, mono_poly(((a, e),)))
        else:
            x = atom(mkatom("fn", ("abs", atom(A)), "R"))
            r = mul(r, power(x, e) if e > 0 else inv(power(x, -e)))
    if rest is not ONE:
        if sign_syn(rest) in ("+", "0+"):
            r = mul(r, rest)
        else:
            r = mul(r, atom(mkatom("fn", ("abs", rest), "R")))
    return r


def _sq_part(n):
    """n = s*s*r with r squarefree-ish (small trial division)"""
    s, r = 1, n
    q = isqrt(n)
    if q * q == n:
        return q, 1
    f = 2
    while f * f <= r and f < 1000:
        while r % (f * f) == 0:
            r //= f * f
            s *= f
        f += 1
    return s, r


def sqrt(p):
    p = P(p)
    if p is ZERO or p is ONE:
        return p
    r = _lift(sqrt, [p])
    if r is not None:
        return r
    c, m, rest = content(p)
    if c < 0:
        c, rest = -c, -rest
    sn, rn = _sq_part(c.numerator * c.denominator)
    out = const(Fr(sn, c.denominator))
    inner = scale(rest, rn)
    extra = []
    for a, e in m:
        h, odd = divmod(e, 2)
        x = abs_(ATOMS[a].a[0] if ATOMS[a].k == "paren" else atom(ATOMS[a]))
        if h > 0:
            out = mul(out, power(x, h))
        elif h < 0:
            out = mul(out, inv(power(x, -h)))
        if odd:
            extra.append((a, 1))
    if extra:
        inner = mul(inner, mono_poly(tuple(extra)))
    if inner is ONE:
        return out
    q = _poly_sqrt(inner)
    if q is not None:
        return mul(out, abs_(q))
    if len(inner.t) == 2:
        # 1 - cos^2
        for m, c in inner.t.items():
            if c == -1 and len(m) == 1 and m[0][1] == 2 and ATOMS[m[0][0]].k == "fn" and ATOMS[m[0][0]].a[0] in ("cos", "sin"):
                A = ATOMS[m[0][0]]
                if inner is ONE - power(atom(A), 2):
                    x = atom(mkatom("fn", ("sin" if A.a[0] == "cos" else "cos", A.a[1]), "R"))
                    return mul(out, ite(le(ZERO, x), x, -x))
    return mul(out, atom(mkatom("fn", ("sqrt", inner), "R")))


def _poly_sqrt(p):
    """q with q*q = p for small p, else None"""
    if len(p.t) not in (3, 6, 10):
        return None
    roots = []
    for m, c in p.t.items():
        if all(e % 2 == 0 for a, e in m):
            s, r = _sq_part(c.numerator * c.denominator) if c > 0 else (0, 2)
            if r == 1:
                roots.append((tuple((a, e // 2) for a, e in m), Fr(s, c.denominator)))
    n = {3: 2, 6: 3, 10: 4}[len(p.t)]
    if len(roots) != n:
        return None
    import itertools
    for sg in itertools.product((1, -1), repeat=n - 1):
        q = _mkpoly({m: c * s for (m, c), s in zip(roots, (1,) + sg)})
        if mul(q, q) is p:
            return q
    return None


def _cs_atom(p):
    """(cos, sin) atoms of an angle that is a single monomial"""
    return atom(mkatom("fn", ("cos", p), "R")), atom(mkatom("fn", ("sin", p), "R"))


def _cmulc(a, b):
    return a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]


_cs_cache = {}


def cos_sin(p):
    p = P(p)
    r = _cs_cache.get(p.id)
    if r is None:
        r = _cos_sin(p)
        if SPLIT[0] is None:
            _cs_cache[p.id] = r
    return r


def _cos_sin(p):
    inds = indicators(p)
    if inds and len(inds) <= 4:
        i = inds[0]
        a = cos_sin(assign_ind(p, i, True))
        b = cos_sin(assign_ind(p, i, False))
        return ite(i.a[0], a[0], b[0]), ite(i.a[0], a[1], b[1])
    acc = (ONE, ZERO)
    for m, c in p.t.items():
        acc = _cmulc(acc, _cs_term(m, c))
    return acc


def _cs_term(m, c):
    if m == ((PI_ATOM.id, 1),):
        r = c % 2
        if (r * 2).denominator == 1:
            return [(ONE, ZERO), (ZERO, ONE), (-ONE, ZERO), (ZERO, -ONE)][int(r * 2)]
        # reduce to (0, 1/2)
        q, f = divmod(r, Fr(1, 2))
        base = [(ONE, ZERO), (ZERO, ONE), (-ONE, ZERO), (ZERO, -ONE)][int(q)]
        if f > Fr(1, 4):
            cs = _cs_atom(scale(PI, Fr(1, 2) - f))
            cs = (cs[1], cs[0])
        else:
            cs = _cs_atom(scale(PI, f))
        if f == Fr(1, 4):
            s = sqrt(const(Fr(1, 2)))
            cs = (s, s)
        return _cmulc(base, cs)
    md = dict(m)
    if md.get(PI_ATOM.id) == 1 and c.denominator == 1 and c % 2 == 0 and all(
            ATOMS[a].sort == "I" and e > 0 for a, e in m if a != PI_ATOM.id):
        return ONE, ZERO
    base = None
    if len(m) == 1 and m[0][1] == 1:
        A = ATOMS[m[0][0]]
        if A.k == "fn":
            n = A.a[0]
            if n == "acos":
                base = (A.a[1], sqrt(ONE - A.a[1] * A.a[1]))
            elif n == "asin":
                base = (sqrt(ONE - A.a[1] * A.a[1]), A.a[1])
            elif n == "atan2":
                y, x = A.a[1], A.a[2]
                r2 = x * x + y * y
                h = inv(sqrt(r2))
                # atan2(0, 0) = 0
                z = eq(r2, ZERO)
                base = (ite(z, ONE, x * h), ite(z, ZERO, y * h))
            elif n == "rmod":
                k = as_const(exact_div(A.a[2], scale(PI, 2)) or ZERO)
                if k and k.denominator == 1 and c.denominator == 1:
                    return cos_sin(scale(A.a[1], c))
    den = c.denominator
    num = c.numerator
    if base is None:
        base = _cs_atom(scale(mono_poly(m), Fr(1, den)))
    elif den != 1:
        base = _cs_atom(scale(mono_poly(m), Fr(1, den)))
    if num < 0:
        base = (base[0], -base[1])
        num = -num
    if num > 16:
        cs = _cs_atom(scale(mono_poly(m), abs(c)))
        return cs if c > 0 else (cs[0], -cs[1])
    acc = (ONE, ZERO)
    for _ in range(num):
        acc = _cmulc(acc, base)
    return acc


def cos(p):
    return cos_sin(p)[0]


def sin(p):
    return cos_sin(p)[1]


def acos(p):
    p = P(p)
    c = as_const(p)
    if c == 1:
        return ZERO
    if c == -1:
        return PI
    if c == 0:
        return scale(PI, Fr(1, 2))
    A = single_atom(p)
    if A is not None and A.k == "fn" and A.a[0] == "cos":
        t = A.a[1]
        return ite(band(le(ZERO, t), le(t, PI)), t, fn("acos", p))
    return fn("acos", p)


def single_atom(p):
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return ATOMS[m[0][0]]
    return None


def atan2(y, x):
    y, x = P(y), P(x)
    cy, cx = as_const(y), as_const(x)
    if cy == 0 and cx is not None:
        return ZERO if cx >= 0 else PI
    return fn("atan2", y, x)


def rmod(p, m):
    """real remainder with the sign of the (positive) modulus"""
    p, m = P(p), P(m)
    r = _lift(rmod, [p, m])
    if r is not None:
        return r
    out = ZERO
    for mono, c in p.t.items():
        if len(mono) == 1 and mono[0][1] == 1 and c.denominator == 1:
            A = ATOMS[mono[0][0]]
            if A.k == "fn" and A.a[0] == "rmod" and A.a[2] is m:
                out = out + scale(A.a[1], c)
                continue
        out = out + _mkpoly({mono: c})
    p = out
    cm, cp = as_const(m), as_const(p)
    if cm is not None and cp is not None and cm > 0:
        return const(cp - (cp // cm) * cm)
    # drop integer multiples of the modulus
    if len(m.t) == 1:
        (mm, mc), = m.t.items()
        d = {}
        for mono, c in p.t.items():
            dd = dict(mono)
            for a, e in mm:
                dd[a] = dd.get(a, 0) - e
            k = c / mc
            rest = [(a, e) for a, e in dd.items() if e]
            if mm and all(ATOMS[a].sort == "I" and e > 0 for a, e in rest):
                if k.denominator == 1:
                    continue
                if not rest:
                    k2 = k - (k.numerator // k.denominator)
                    d[mono] = k2 * mc
                    continue
            d[mono] = c
        p = _mkpoly(d)
    if p is ZERO:
        return ZERO
    if _num_const(p) is not None and _num_const(m):
        v, mv = _num_const(p), _num_const(m)
        q = _m.floor(v / mv)
        if abs(v / mv - round(v / mv)) > 1e-9:
            return p - scale(m, Fr(q))
    return atom(mkatom("fn", ("rmod", p, m), "R"))


# ---------------------------------------------------------------- binders
class Lam:
    """lambda over a tuple of bounded integer indices; body is a Poly or a B"""
    __slots__ = ("dims", "body", "h", "fv", "key")
    _tab = {}

    def __repr__(self):
        return "\\" + ",".join(f"<{show(d)}" for d in self.dims) + "." + repr(self.body)

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return self is o

    def at(self, *ix):
        return instantiate(self, ix)


def bvs(h, dims):
    return [mkatom("bv", (h, j, d), "I") for j, d in enumerate(dims)]


def lam(dims, f):
    dims = tuple(P(d) for d in dims)
    ts = [temp(d) for d in dims]
    body = f(*[atom(t) for t in ts])
    if not isinstance(body, B):
        body = P(body)
    return close_lam(dims, ts, body)


def close_lam(dims, ts, body):
    one = {t: ZERO for t, d in zip(ts, dims) if d is ONE and t.id in body.fv}
    if one:  # the only index of a dimension of size one
        body = subst(body, one)
    h = body.h + 1
    vs = bvs(h, dims)
    body2 = subst(body, {t: atom(v) for t, v in zip(ts, vs)}, raw=True)
    key = (dims, body2)
    L = Lam._tab.get(key)
    if L is None:
        L = Lam()
        L.dims, L.body, L.key = dims, body2, key
        L.h = h
        fv = set(body2.fv) - {v.id for v in vs}
        for d in dims:
            fv |= d.fv
        L.fv = frozenset(fv)
        Lam._tab[key] = L
    return L


def instantiate(L, ix):
    vs = bvs(L.h, L.dims)
    m = {}
    for v, i in zip(vs, ix):
        m[v] = P(i)
    return subst(L.body, m)


def open_lam(L):
    ts = [temp(d) for d in L.dims]
    return ts, instantiate(L, [atom(t) for t in ts])


def app(name, *args, sort="R", linear=()):
    """higher-order operation; args may be Poly, B, Lam, tuples, strings, ints, None.
    linear: positions of Lam arguments in which the operation is linear."""
    args = list(args)
    for pos in linear:
        L = args[pos]
        ts, body = open_lam(L)
        tid = {t.id for t in ts}
        groups = {}
        for m, c in body.t.items():
            out, inn = [], []
            for a, e in m:
                (inn if ATOMS[a].fv & tid else out).append((a, e))
            key = tuple(inn)
            groups.setdefault(key, []).append(_mkpoly({tuple(out): c}))
        if len(groups) == 1:
            (inn, outs), = groups.items()
            co = sum_polys(outs)
            if co is ONE:
                continue
        if not groups:
            return ZERO
        res = ZERO
        for inn, outs in sorted(groups.items()):
            co = sum_polys(outs)
            a2 = list(args)
            a2[pos] = close_lam(L.dims, ts, mono_poly(inn))
            res = res + mul(co, app(name, *a2, sort=sort, linear=linear))
        return res
    ARG_LINEAR[name] = linear
    s = APP_SIMP.get(name)
    if s:
        r = s(*args)
        if r is not None:
            return r
    args2 = tuple(P(x) if isinstance(x, (int, Fr)) and not isinstance(x, bool) else x for x in args)
    pp = [x for x in args2 if isinstance(x, Poly)]
    for k, x in enumerate(args2):
        if isinstance(x, Poly):
            inds = indicators(x)
            if inds and len(inds) <= 4:
                i = inds[0]
                mk = lambda v: app(name, *[assign_ind(y, i, v) if isinstance(y, Poly) else y for y in args2], sort=sort, linear=linear)
                return ite(i.a[0], mk(True), mk(False))
    return atom(mkatom("app", (name,) + args2, sort))


ARG_LINEAR = {}
APP_SIMP = {}


# constant tables: name -> (shape, flat list of terms)
TABLES = {}
TABLES_IDX = {}


def el(name, ix, sort="R"):
    """element of an input array"""
    ix = [P(i) for i in ix]
    if name in TABLES:
        cs = [as_int(i) for i in ix]
        if all(c is not None for c in cs):
            shape, vals = TABLES[name]
            k = 0
            for c, n in zip(cs, shape):
                if not 0 <= c < n:
                    return atom(mkatom("el", (name,) + tuple(ix), sort))
                k = k * n + c
            return vals[k]
    for k, p in enumerate(ix):
        inds = indicators(p)
        if inds:
            i = inds[0]
            return ite(i.a[0], el(name, [assign_ind(q, i, True) for q in ix], sort),
                       el(name, [assign_ind(q, i, False) for q in ix], sort))
    return atom(mkatom("el", (name,) + tuple(ix), sort))


def sum_(n, f):
    """sum over 0 <= t < n of f(t)"""
    n = P(n)
    c = as_int(n)
    if c is not None and c <= 16:
        return sum_polys([P(f(const(i))) for i in range(c)])
    t = temp(n)
    return close_sum(n, t, P(f(atom(t))))


def close_sum(n, t, body):
    c = as_int(n)
    if c is not None and c <= 16:
        return sum_polys([subst(body, {t: const(i)}) for i in range(c)])
    res = []
    groups = {}
    for m, c in body.t.items():
        out, inn = [], []
        for a, e in m:
            (inn if t.id in ATOMS[a].fv else out).append((a, e))
        groups.setdefault(tuple(inn), []).append(_mkpoly({tuple(out): c}))
    for inn, outs in groups.items():
        co = sum_polys(outs)
        if co is ZERO:
            continue
        if not inn:
            res.append(mul(co, n))
            continue
        # one-hot elimination: ind(t == e)
        done = False
        for a, e in inn:
            A = ATOMS[a]
            if A.k == "ind" and A.a[0].k == "eq":
                s = split_linear(A.a[0].a[0], t)
                if s and as_const(s[0]) in (1, -1) and t.id not in s[1].fv:
                    val = -s[1] if as_const(s[0]) == 1 else s[1]
                    rest = mono_poly(tuple(x for x in inn if x[0] != a))
                    r = subst(rest, {t: val})
                    g = ind(band(le(0, val), lt(val, n)))
                    res.append(mul(mul(co, g), r))
                    done = True
                    break
        if done:
            continue
        res.append(mul(co, _sum_atom(n, t, mono_poly(inn))))
    return sum_polys(res)


def _sum_atom(n, t, body):
    """sum atom for a monomial body; a bound that is a product splits into nested sums when the
    body uses the quotient / remainder by a factor"""
    for A in _divmod_atoms(body, t):
        d = A.a[1]
        q = exact_div(n, d)
        if q is not None and d is not n and as_const(d) != 1 and q is not ONE:
            a, b = temp(q), temp(d)
            body2 = subst(body, {t: atom(a) * d + atom(b)})
            return close_sum(q, a, close_sum(d, b, body2))
    s = SUM_SIMP[0]
    if s:
        r = s(n, t, body)
        if r is not None:
            return r
    ax, rest = _nest(n, t, body)
    if len(ax) > 1 or as_atom(rest) is not None and as_atom(rest).k == "el":
        r = _ordered_sum(ax, rest)
        if r is not None:
            return r
    return _raw_sum(n, t, body)


def _raw_sum(n, t, body):
    h = body.h + 1
    v = mkatom("bv", (h, 0, n), "I")
    body2 = subst(body, {t: atom(v)}, raw=True)
    return atom(mkatom("sum", (n, body2, h), "R" if not body2.int_ else "I"))


def _nest(n, t, body):
    """the sums directly below one another, outermost first, and the summand"""
    ax = [(n, t)]
    while True:
        (m, c), = body.t.items()
        sums = [a for a, e in m if ATOMS[a].k == "sum"]
        if len(sums) != 1 or dict(m)[sums[0]] != 1 or c != 1:
            return ax, body
        A = ATOMS[sums[0]]
        if any(u.id in A.a[0].fv for _, u in ax):
            return ax, body
        n2, t2, b = open_sum(A)
        b = mul(mono_poly(tuple(x for x in m if x[0] != sums[0])), b)
        if len(b.t) != 1:
            return ax, body
        ax.append((n2, t2))
        body = b


def _ordered_sum(ax, body):
    """finite sums commute and may run backwards: the same representative for all orders"""
    def build(ax, b):
        for n, t in reversed(ax):
            (m, c), = b.t.items()
            out = mono_poly(tuple(x for x in m if t.id not in ATOMS[x[0]].fv))
            inn = tuple(x for x in m if t.id in ATOMS[x[0]].fv)
            b = mul(out, _raw_sum(n, t, mono_poly(inn)) if inn else n)
            if len(b.t) != 1:
                return None
        return b
    key = {t: (repr(n), _place(body, t)) for n, t in ax}
    ax = sorted(ax, key=lambda e: key[e[1]])
    A = as_atom(body)
    flips = [()]
    if A is not None and A.k == "el":
        flips = list(itertools.product(*[_directions(A, t) for _, t in ax])) if len(ax) <= 6 else [()]
    groups = [list(g) for _, g in itertools.groupby(ax, key=lambda e: key[e[1]])]
    if any(len(g) > 3 for g in groups):
        return build(ax, body)
    best = None
    for flip in flips:
        b = subst(body, {t: n - 1 - atom(t) for (n, t), f in zip(ax, flip) if f}) if any(flip) else body
        if len(b.t) != 1:
            continue
        for perm in itertools.product(*[itertools.permutations(g) for g in groups]):
            r = build([e for g in perm for e in g], b)
            if r is not None and (best is None or _ids(r) < _ids(best)):
                best = r
    return best


def _place(body, t):
    """where an index occurs first, independent of the numbering of atoms"""
    out = []
    for a, e in next(iter(body.t)):
        A = ATOMS[a]
        if t.id in A.fv:
            js = [j for j, x in enumerate(A.a) if isinstance(x, (Poly, B, Lam, Atom)) and t.id in x.fv]
            out.append((A.k, A.a[0] if isinstance(A.a[0], str) else "", e, js))
    return repr(sorted(out))


def _directions(A, t):
    """ways to run through an index of an element: forwards where it first occurs, if that is plain"""
    for x in A.a[1:]:
        if t.id in x.fv:
            s = split_linear(x, t)
            c = as_const(s[0]) if s else None
            return (0, 1) if not c else (0,) if c > 0 else (1,)
    return (0,)


def _ids(p):
    return sorted((m, c) for m, c in p.t.items())


SUM_SIMP = [None]


def _divmod_atoms(x, t, seen=None):
    out = []

    def walk(y):
        if isinstance(y, Poly):
            if t.id not in y.fv:
                return
            for A in poly_atoms(y):
                walk(A)
        elif isinstance(y, Atom):
            if t.id not in y.fv:
                return
            if y.k in ("fdiv", "mod") and as_atom(y.a[0]) is t:
                out.append(y)
            for z in y.a:
                walk(z)
        elif isinstance(y, B):
            for z in y.a:
                walk(z)
        elif isinstance(y, Lam):
            walk(y.body)
        elif isinstance(y, (tuple, frozenset)):
            for z in y:
                walk(z)

    walk(x)
    out.sort(key=lambda A: A.id)
    return out


def open_sum(A):
    n, body, h = A.a
    v = mkatom("bv", (h, 0, n), "I")
    t = temp(n)
    return n, t, subst(body, {v: atom(t)}, raw=True)


# ---------------------------------------------------------------- substitution
def subst(x, m, raw=False):
    """Replace atoms by polynomials everywhere (capture-avoiding: binders are re-opened).
    raw=True renames variables without re-simplifying bound structure."""
    if not m:
        return x
    ids = set()
    for A in m:
        if A.k in ("var", "idx", "bv"):
            ids.add(A.id)
        else:
            ids = None
            break
    return _Sub(m, ids, raw).go(x)


class _Sub:
    def __init__(self, m, ids, raw):
        self.m, self.ids, self.raw = m, ids, raw
        self.memo = {}
        self.need = None if ids is not None else [A.fv for A in m]

    def hit(self, fv):
        if self.ids is not None:
            return not self.ids.isdisjoint(fv)
        return any(f <= fv for f in self.need)

    def go(self, x):
        if isinstance(x, Poly):
            if not self.hit(x.fv):
                return x
            r = self.memo.get(x)
            if r is None:
                r = self.poly(x)
                self.memo[x] = r
            return r
        if isinstance(x, B):
            if x.a == () or not self.hit(x.fv):
                return x
            r = self.memo.get(x)
            if r is None:
                r = self.b(x)
                self.memo[x] = r
            return r
        if isinstance(x, Lam):
            if not self.hit(x.fv):
                return x
            ts, body = open_lam(x)
            return close_lam(tuple(self.go(d) for d in x.dims), ts, self.go(_retime(ts, body, x, self)))
        if isinstance(x, tuple):
            return tuple(self.go(y) for y in x)
        if isinstance(x, frozenset):
            return frozenset(self.go(y) for y in x)
        return x

    def poly(self, p):
        out = []
        for m, c in p.t.items():
            t = None
            keep = []
            for a, e in m:
                A = ATOMS[a]
                r = self.atom(A)
                if r is None:
                    keep.append((a, e))
                else:
                    f = power(r, e) if e > 0 else inv(power(r, -e))
                    t = f if t is None else mul(t, f)
            k = _mkpoly({tuple(keep): c})
            out.append(k if t is None else mul(k, t))
        return sum_polys(out)

    def atom(self, A):
        """replacement Poly or None if unchanged"""
        r = self.m.get(A)
        if r is not None:
            return r
        if not self.hit(A.fv):
            return None
        key = ("a", A)
        r = self.memo.get(key)
        if r is None:
            r = self.atom0(A)
            self.memo[key] = r
        return r

    def atom0(self, A):
        k = A.k
        if k in ("var", "const"):
            return atom(A)
        if k in ("idx", "bv"):
            n = self.go(A.a[-1])
            if n is A.a[-1]:
                return atom(A)
            return atom(mkatom(k, A.a[:-1] + (n,), "I"))
        if k == "el":
            return el(A.a[0], [self.go(i) for i in A.a[1:]], A.sort)
        if k == "fn":
            return mkfn(A.a[0], [self.go(p) for p in A.a[1:]])
        if k == "ind":
            return ind(self.go(A.a[0]))
        if k == "fdiv":
            return fdiv(self.go(A.a[0]), self.go(A.a[1]))
        if k == "mod":
            return imod(self.go(A.a[0]), self.go(A.a[1]))
        if k == "paren":
            # only occurs with negative exponent; the caller applies it
            return self.go(A.a[0])
        if k == "sum":
            if self.raw:
                n, body, h = A.a
                return atom(mkatom("sum", (self.go(n), self.go(body), h), A.sort))
            n, t, body = open_sum(A)
            n2 = self.go(n)
            if n2 is not n:
                t2 = temp(n2)
                body = subst(body, {t: atom(t2)})
                t = t2
            return close_sum(n2, t, self.go(body))
        if k == "app":
            return app(A.a[0], *[self.go(y) for y in A.a[1:]], sort=A.sort, linear=ARG_LINEAR.get(A.a[0], ()))
        raise Unsupported("subst " + k)

    def b(self, x):
        k = x.k
        if k in ("le", "lt", "eq"):
            return _cmp(k, self.go(x.a[0]))
        if k == "not":
            return bnot(self.go(x.a[0]))
        if k == "and":
            return band(*[self.go(y) for y in x.a[0]])
        if k == "or":
            return bor(*[self.go(y) for y in x.a[0]])
        if k == "ba":
            f = BAPP_SIMP.get(x.a[0])
            a = [self.go(y) for y in x.a[1:]]
            if f:
                return f(*a)
            return mkb("ba", x.a[0], *a)
        raise Unsupported("subst " + k)


BAPP_SIMP = {}


def _retime(ts, body, L, sub):
    nd = tuple(sub.go(d) for d in L.dims)
    if nd == L.dims:
        return body
    m = {}
    for k, (t, d) in enumerate(zip(list(ts), nd)):
        if d is not L.dims[k]:
            t2 = temp(d)
            m[t] = atom(t2)
            ts[k] = t2
    return subst(body, m)


def mkfn(name, ps):
    if name == "cos":
        return cos(ps[0])
    if name == "sin":
        return sin(ps[0])
    if name == "acos":
        return acos(ps[0])
    if name == "atan2":
        return atan2(*ps)
    if name == "sqrt":
        return sqrt(ps[0])
    if name == "abs":
        return abs_(ps[0])
    if name == "exp":
        return exp(ps[0])
    if name == "log":
        return log(ps[0])
    if name == "rmod":
        return rmod(*ps)
    if name == "pow":
        return power(ps[0], ps[1])
    return fn(name, *ps)


# ---------------------------------------------------------------- printing
def show(p):
    if not p.t:
        return "0"
    out = []
    for m, c in sorted(p.t.items(), key=lambda x: (len(x[0]), x[0])):
        s = "*".join(show_atom(ATOMS[a]) + ("" if e == 1 else f"^{e}") for a, e in m)
        if not s:
            out.append(str(c))
        elif c == 1:
            out.append(s)
        elif c == -1:
            out.append("-" + s)
        else:
            out.append(f"{c}*{s}")
        if len(out) > 12:
            out.append(f"...({len(p.t)} terms)")
            break
    return " + ".join(out)


def show_any(y):
    if isinstance(y, Poly):
        return show(y)
    if isinstance(y, Lam):
        return repr(y)
    return str(y)


def show_atom(A):
    k = A.k
    if k == "const":
        return str(A.a[0])
    if k in ("var", "idx"):
        return str(A.a[0])
    if k == "bv":
        return f"#{A.a[0]}.{A.a[1]}"
    if k == "el":
        return f"{A.a[0]}[{','.join(show(i) for i in A.a[1:])}]"
    if k == "fn":
        return f"{A.a[0]}({', '.join(show(i) for i in A.a[1:])})"
    if k == "ind":
        return f"[{show_b(A.a[0])}]"
    if k == "fdiv":
        return f"({show(A.a[0])} div {show(A.a[1])})"
    if k == "mod":
        return f"({show(A.a[0])} mod {show(A.a[1])})"
    if k == "paren":
        return f"({show(A.a[0])})"
    if k == "sum":
        return f"SUM(#{A.a[2]}.0<{show(A.a[0])}: {show(A.a[1])})"
    if k == "app":
        return f"{A.a[0]}({'; '.join(show_any(y) for y in A.a[1:])})"
    return k


def show_b(b):
    if b.k in ("T", "F"):
        return b.k
    if b.k == "le":
        return show(b.a[0]) + " <= 0"
    if b.k == "lt":
        return show(b.a[0]) + " < 0"
    if b.k == "eq":
        return show(b.a[0]) + " == 0"
    if b.k == "not":
        return f"!({show_b(b.a[0])})"
    if b.k in ("and", "or"):
        return "(" + f" {b.k} ".join(show_b(x) for x in b.a[0]) + ")"
    return f"{b.a[0]}({', '.join(show_any(y) for y in b.a[1:])})"
