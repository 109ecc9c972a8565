"""Path exploration and discharge of obligations."""
import time
import z3
from . import terms as T
from .terms import (Poly, B, Lam, ATOMS, TRUE, FALSE, ZERO, ONE, P, atom, band, bnot, subst,
                    Unsupported, Budget)


class Infeasible(Exception):
    pass


class PathLimit(Exception):
    pass


# ------------------------------------------------------------------ z3 translation
class Z:
    """translation of one set of formulas into z3"""

    def __init__(self, timeout=300, light=False, linear=False):
        self.linear = linear
        light = light or linear
        self.s = z3.Solver()
        self.s.set("timeout", timeout)
        self.c = {}
        self.pc = {}
        self.light = light

    def poly(self, p):
        r = self.pc.get(p)
        if r is not None:
            return r
        ts = []
        allint = all(ATOMS[a].sort == "I" and e > 0 for m in p.t for a, e in m)
        allint = allint and all(c.denominator == 1 for c in p.t.values())
        for m, c in p.t.items():
            if allint:
                t = z3.IntVal(c.numerator)
            else:
                t = z3.RealVal(str(c.numerator)) / z3.RealVal(str(c.denominator)) if c.denominator != 1 else z3.RealVal(str(c.numerator))
            fs = []
            if self.linear and not allint and (len(m) > 1 or (m and m[0][1] != 1)):
                # linear abstraction: one unknown per nonlinear monomial
                w = self.c.get(("mono", m))
                if w is None:
                    w = z3.Real(f"m{len(self.c)}")
                    self.c[("mono", m)] = w
                    if all(e % 2 == 0 for a, e in m):
                        self.s.add(w >= 0)
                ts.append(t * w)
                continue
            for a, e in m:
                v = self.atom(ATOMS[a])
                if not allint and v.sort() == z3.IntSort():
                    v = z3.ToReal(v)
                if e < 0:
                    key = ("inv", a)
                    w = self.c.get(key)
                    if w is None:
                        w = z3.Real(f"inv{a}")
                        self.c[key] = w
                        self.s.add(z3.Implies(v != 0, w * v == 1))
                    v, e = w, -e
                for _ in range(e):
                    fs.append(v)
            x = None
            for f in fs:
                x = f if x is None else x * f
            if x is None:
                x = t
            elif c != 1:
                x = t * x
            ts.append(x)
        if not ts:
            r = z3.IntVal(0)
        else:
            r = ts[0]
            for t in ts[1:]:
                r = r + t
        self.pc[p] = r
        return r

    def real(self, p):
        r = self.poly(p)
        return z3.ToReal(r) if r.sort() == z3.IntSort() else r

    def atom(self, A):
        v = self.c.get(A)
        if v is not None:
            return v
        v = z3.Int(f"i{A.id}") if A.sort == "I" else z3.Real(f"r{A.id}")
        self.c[A] = v
        s = self.s
        k = A.k
        if A.sort == "I":
            lo = T.lower(A)
            if lo is not None:
                s.add(v >= lo)
            if k in ("idx", "bv"):
                n = A.a[-1]
                s.add(v < self.poly(n))
            elif k == "mod":
                q = z3.Int(f"q{A.id}")
                n = self.poly(A.a[1])
                s.add(z3.Implies(n > 0, z3.And(v < n, self.poly(A.a[0]) == n * q + v)))
            elif k == "fdiv":
                r = z3.Int(f"q{A.id}")
                n = self.poly(A.a[1])
                s.add(z3.Implies(n > 0, z3.And(0 <= r, r < n, self.poly(A.a[0]) == n * v + r)))
            elif k == "ind":
                s.add(v <= 1, (v == 1) == self.b(A.a[0]))
            else:
                u = T.upper_excl(A)
                if u is not None and k == "app" and A.a[0] == "rank":
                    # the number of selected positions before this one: below the total where this one is selected
                    s.add(v <= self.poly(u), z3.Implies(self.b(T.instantiate(A.a[1], A.a[2:])), v < self.poly(u)))
                elif u is not None and k == "app" and A.a[0] == "sel":
                    s.add(z3.Implies(z3.And(self.poly(A.a[3]) >= 0, self.poly(A.a[3]) < self.poly(T.app("nnz", A.a[2], sort="I"))), v < self.poly(u)))
                elif u is not None:
                    s.add(v < self.poly(u))
        elif k == "const":
            if A.a[0] == "pi":
                s.add(v > z3.RealVal("3.14159265"), v < z3.RealVal("3.14159266"))
            elif A.a[0] == "inf":
                s.add(v > 10 ** 30)
        elif k == "var":
            if A.a[1] is not None:
                s.add(v >= z3.RealVal(str(A.a[1])))
        elif k == "el":
            r = REAL_RANGE.get(A.a[0])
            if r is not None:
                s.add(v >= z3.RealVal(str(r[0])), v < z3.RealVal(str(r[1])))
            n = T.UNIT.get(A.a[0])
            if n and not self.light:
                s.add(v >= -1, v <= 1)
                if T.as_int(A.a[-1]) is not None:
                    cs = [self.atom(T.mkatom("el", A.a[:-1] + (T.const(j),), A.sort)) for j in range(n)]
                    key = ("unit", A.a[:-1])
                    if key not in self.c:
                        self.c[key] = True
                        s.add(sum(x * x for x in cs) == 1)
        elif k == "fn" and self.linear:
            n = A.a[0]
            if n in ("acos", "abs", "exp", "cos", "sin", "sqrt", "atan2"):
                a = [self.real(p) for p in A.a[1:]]
                pi = self.real(T.PI)
                if n == "acos":
                    self.acos(v, a[0], pi)
                elif n == "abs":
                    s.add(v >= 0, z3.Or(v == a[0], v == -a[0]))
                elif n == "exp":
                    self.exp(v, a[0])
                elif n == "sqrt":
                    s.add(v >= 0)
                elif n == "atan2":
                    s.add(v >= -pi, v <= pi)
                else:
                    s.add(v <= 1, v >= -1)
                    if n == "sin":
                        s.add(z3.Implies(z3.And(a[0] > 0, a[0] < pi), v > 0), z3.Implies(z3.And(a[0] >= 0, a[0] <= pi), v >= 0),
                          z3.Implies(z3.And(a[0] >= -pi, a[0] <= 0), v <= 0))
        elif k == "fn" and not self.light:
            n = A.a[0]
            a = [self.real(p) for p in A.a[1:]]
            pi = self.real(T.PI)
            if n == "sqrt":
                s.add(v >= 0, z3.Implies(a[0] >= 0, v * v == a[0]), z3.Implies(a[0] == 0, v == 0))
            elif n == "abs":
                s.add(v >= 0, z3.Or(v == a[0], v == -a[0]))
            elif n == "exp":
                self.exp(v, a[0])
            elif n in ("cos", "sin"):
                s.add(v <= 1, v >= -1)
                o = T.mkatom("fn", ("sin" if n == "cos" else "cos", A.a[1]), "R")
                if n == "cos":
                    w = self.atom(o)
                    s.add(v * v + w * w == 1)
                else:
                    self.atom(o)
                    s.add(z3.Implies(z3.And(a[0] > 0, a[0] < pi), v > 0), z3.Implies(z3.And(a[0] >= 0, a[0] <= pi), v >= 0),
                          z3.Implies(z3.And(a[0] >= -pi, a[0] <= 0), v <= 0))
            elif n == "acos":
                self.acos(v, a[0], pi)
            elif n == "atan2":
                s.add(v >= -pi, v <= pi)
                y, x = a
                s.add(z3.Implies(z3.And(y == 0, x >= 0), v == 0), z3.Implies(z3.And(y == 0, x < 0), v == pi),
                      z3.Implies(y > 0, z3.And(v > 0, v < pi)), z3.Implies(y < 0, z3.And(v > -pi, v < 0)))
            elif n == "rmod":
                s.add(z3.Implies(a[1] > 0, z3.And(v >= 0, v < a[1])))
                q = z3.Int(f"q{A.id}")
                s.add(a[0] == a[1] * z3.ToReal(q) + v)
        return v

    def exp(self, v, x):
        s = self.s
        s.add(v > 0, z3.Implies(x >= 0, v >= 1), z3.Implies(x <= 0, v <= 1))
        L = self.c.setdefault("exp", [])
        for w, y in L:
            s.add(z3.Implies(x < y, v < w), z3.Implies(y < x, w < v), z3.Implies(x == y, v == w))
        L.append((v, x))

    def acos(self, v, x, pi):
        s = self.s
        s.add(v >= 0, v <= pi, z3.Implies(x >= 0, 2 * v <= pi), z3.Implies(x <= 0, 2 * v >= pi),
              z3.Implies(z3.And(x < 1, x >= -1), v > 0), z3.Implies(x == 1, v == 0))
        L = self.c.setdefault("acos", [])
        for w, y in L:
            s.add(z3.Implies(z3.And(-1 <= x, x < y, y <= 1), v > w), z3.Implies(z3.And(-1 <= y, y < x, x <= 1), v < w), z3.Implies(x == y, v == w))
        L.append((v, x))

    def b(self, b):
        k = b.k
        if k == "T":
            return z3.BoolVal(True)
        if k == "F":
            return z3.BoolVal(False)
        if k in ("le", "lt", "eq"):
            p = self.poly(b.a[0])
            return p <= 0 if k == "le" else p < 0 if k == "lt" else p == 0
        if k == "not":
            return z3.Not(self.b(b.a[0]))
        if k == "and":
            return z3.And(*[self.b(x) for x in b.a[0]])
        if k == "or":
            return z3.Or(*[self.b(x) for x in b.a[0]])
        v = self.c.get(("b", b))
        if v is None:
            v = z3.Bool(f"b{b.id}")
            self.c[("b", b)] = v
            if b.a and b.a[0] == "argmax_is":
                L, j = b.a[1], T.as_int(b.a[2])
                n = T.as_int(L.dims[0])
                x = self.real(T.instantiate(L, (T.const(j),)))
                for q in range(n):
                    if q != j:
                        y = self.real(T.instantiate(L, (T.const(q),)))
                        # the first maximal element is not promised by torch; any maximal one may be returned
                        self.s.add(z3.Implies(v, x >= y))
        return v

    def add(self, b):
        self.s.add(self.b(b))

    def check(self):
        STATS["z3_calls"] += 1
        t = time.time()
        try:
            r = self.s.check()
        except z3.Z3Exception:
            r = z3.unknown
        STATS["z3_s"] += time.time() - t
        return r


REAL_RANGE = {}
STATS = {"z3_calls": 0, "z3_s": 0.0, "paths": 0, "leaves": 0, "prove_s": 0.0}


def relevant(facts, goal_fv):
    """facts connected to the goal by shared variables (all facts without variables kept)"""
    fv = set(goal_fv)
    out = []
    rest = list(facts)
    for _ in range(4):
        keep = []
        for f in rest:
            if not f.fv or f.fv & fv:
                out.append(f)
                keep.append(f)
        if not keep:
            break
        rest = [f for f in rest if f not in keep]
        for f in keep:
            fv |= f.fv
    return out


def feasible(facts, b, timeout=150):
    """False only if facts and b are contradictory"""
    rel = relevant(facts, b.fv)
    for kw in (dict(linear=True), {}):
        z = Z(timeout, **kw)
        for f in rel:
            z.add(f)
        z.add(b)
        r = z.check()
        if r == z3.unsat:
            return False
    return True


def implied(facts, b, timeout=1500):
    rel = relevant(facts, b.fv)
    for kw in (dict(linear=True), {}):
        z = Z(timeout, **kw)
        for f in rel:
            z.add(f)
        z.add(bnot(b))
        if z.check() == z3.unsat:
            return True
    return False


def contradiction(facts, timeout=4000):
    for kw in (dict(linear=True), {}):
        z = Z(timeout, **kw)
        for f in facts:
            z.add(f)
        if z.check() == z3.unsat:
            return True
    return False


# ------------------------------------------------------------------ explorer
class Explorer:
    """Depth-first exploration of the paths of a Python function by re-execution."""

    cur = None

    def __init__(self, max_paths=400):
        self.max_paths = max_paths
        self.base = []
        self.memo = {}

    def run(self, f):
        """yield-like: calls f(self) once per feasible path"""
        prefix = []
        n = 0
        while True:
            self.facts = list(self.base)
            self.known = {}
            self.trace = []
            self.prefix = prefix
            self.pos = 0
            self.fresh = 0
            self.epoch = new_epoch()
            Explorer.cur = self
            try:
                f(self)
            except Infeasible:
                pass
            n += 1
            STATS["paths"] += 1
            if n > self.max_paths:
                raise PathLimit(f"more than {self.max_paths} paths")
            # backtrack
            tr = self.trace
            while tr and (tr[-1][1] + 1 >= tr[-1][2]):
                tr.pop()
            if not tr:
                return n
            prefix = [(b, v, k) for b, v, k in tr]
            b, v, k = prefix[-1]
            prefix[-1] = (b, v + 1, k)

    def assume(self, b):
        b = T.toB(b)
        if b is TRUE:
            return
        if b is FALSE:
            raise Infeasible()
        if b.k == "and":
            for x in b.a[0]:
                self.assume(x)
            return
        if b not in self.facts:
            self.facts.append(b)
            self.known[b] = True
            self.known[bnot(b)] = False

    def choose(self, n, tag=None):
        """nondeterministic choice among n alternatives"""
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos][1]
        else:
            v = 0
        self.trace.append((tag, v, n))
        self.pos += 1
        return v

    def decide(self, b):
        b = T.toB(b)
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        k = self.known.get(b)
        if k is not None:
            return k
        if b.k == "and":
            return all(self.decide(x) for x in sorted(b.a[0], key=lambda x: x.id))
        if b.k == "or":
            return any(self.decide(x) for x in sorted(b.a[0], key=lambda x: x.id))
        # remembered: a re-execution must meet the same decisions, whatever the solver's timing
        key = (b, tuple(self.facts))
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = 1 if not feasible(self.facts, bnot(b)) else 0 if not feasible(self.facts, b) else 2
        if r != 2:
            self.known[b] = r == 1
            self.known[bnot(b)] = r == 0
            return r == 1
        v = self.choose(2, b) == 0
        self.known[b] = v
        self.known[bnot(b)] = not v
        self.facts.append(b if v else bnot(b))
        return v


_epoch = [0]


def new_epoch():
    _epoch[0] += 1
    return _epoch[0]


def epoch():
    return _epoch[0]


# ------------------------------------------------------------------ goals
class Result:
    def __init__(self, status, backend="", detail="", leaves=0, facts=()):
        self.status, self.backend, self.detail, self.leaves = status, backend, detail, leaves
        self.facts = facts

    def __repr__(self):
        return f"<{self.status} {self.backend} {self.detail}>"


def _splittable(b):
    for i in b.fv:
        A = ATOMS[i]
        if A.k == "bv" or (A.k == "idx" and isinstance(A.a[0], str) and A.a[0][0] == "t" and A.a[0][1:].isdigit()):
            return False
    return True


class Cases:
    """enumerate the feasible combinations of conditions met while evaluating a goal"""

    def __init__(self, facts, limit=600):
        self.base = list(facts)
        self.limit = limit
        self.univ = (-1, [])

    def run(self, thunk, leaf):
        """thunk() evaluates the goal; leaf(value, facts) -> Result. Stops at the first failure."""
        prefix = []
        n = 0
        last = None
        outer = T.SPLIT[0]
        backends = set()
        while True:
            self.facts = list(self.base)
            self.known = {}
            for f in self.facts:
                self.known[f] = True
                self.known[bnot(f)] = False
            self.trace = []
            self.univ = (-1, [])
            self.prefix = prefix
            self.pos = 0
            new_epoch()
            T.SPLIT[0] = self.split
            try:
                v = thunk()
                T.SPLIT[0] = None
                new_epoch()
                r = leaf(v, self.facts)
            except Infeasible:
                r = Result("proved", "infeasible")
            finally:
                T.SPLIT[0] = outer
                new_epoch()
            n += 1
            STATS["leaves"] += 1
            backends.add(r.backend)
            if r.status != "proved":
                r.leaves = n
                return r
            if n > self.limit:
                return Result("unknown", "", f"more than {self.limit} cases", n)
            tr = self.trace
            while tr and not tr[-1][1]:
                tr.pop()
            if not tr:
                return Result("proved", "+".join(sorted(b for b in backends if b)) or "nf", "", n)
            prefix = tr[:-1] + [(tr[-1][0], False)]

    def split(self, b):
        k = self.known.get(b)
        if k is not None:
            return k
        if not _splittable(b):
            return None
        if _closed_argmax(b):
            b2 = resimp(b)
            if b2 is TRUE or b2 is FALSE:
                return b2 is TRUE
            if b2 is not b:
                return self.split(b2)
        T.SPLIT[0] = None
        try:
            u = self.everywhere(b)
            if u is not None:
                self.known[b] = u
                self.known[bnot(b)] = not u
                return u
            t = feasible(self.facts, b)
            f = feasible(self.facts, bnot(b))
        finally:
            T.SPLIT[0] = self.split
        if not t and not f:
            raise Infeasible()
        if t and f:
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos][1]
            else:
                v = True
            self.trace.append((b, v))
            self.pos += 1
            self.facts.append(b if v else bnot(b))
        else:
            v = t
            if _nonlinear(b):
                # remembered: the solver need not find it again
                self.facts.append(b if v else bnot(b))
        self.known[b] = v
        self.known[bnot(b)] = not v
        return v


    def everywhere(self, b):
        """a condition that the facts state for no position (count zero) or for every position (count equal to the size)"""
        if len(self.facts) != self.univ[0]:
            out = []
            for f in self.facts:
                if f.k != "eq":
                    continue
                p = f.a[0]
                for A in T.poly_atoms(p):
                    if A.k == "app" and A.a[0] == "nnz" and len(A.a[1].dims) == 1:
                        L = A.a[1]
                        x = atom(A)
                        if p is x or p is T.scale(x, -1):
                            out.append((L, False))
                        elif p is x - L.dims[0] or p is L.dims[0] - x:
                            out.append((L, True))
            self.univ = (len(self.facts), out)
        for L, v in self.univ[1]:
            for i in b.fv:
                A = T.ATOMS[i]
                if A.k == "idx" and A.a[-1] is L.dims[0]:
                    x = T.instantiate(L, (atom(A),))
                    if not v:
                        x = bnot(x)
                    xs = x.a[0] if x.k == "and" else (x,)
                    if b in xs:
                        return True
                    if bnot(b) in xs:
                        return False
        return None


def _closed_argmax(b):
    if b.k in ("le", "lt", "eq"):
        return any(A.k == "app" and A.a[0] == "argmax" for A in T.poly_atoms(b.a[0]))
    if b.k == "not":
        return _closed_argmax(b.a[0])
    if b.k in ("and", "or"):
        return any(_closed_argmax(x) for x in b.a[0])
    return False


def _nonlinear(b):
    return b.k in ("le", "lt", "eq") and any(len(m) > 1 or (m and m[0][1] != 1) for m in b.a[0].t) and any(A.sort == "R" for A in T.poly_atoms(b.a[0]))


def orient(facts):
    """rewrite rules atom -> polynomial from equality facts"""
    rules = {}
    for f in facts:
        if f.k != "eq":
            continue
        p = f.a[0]
        if rules:
            p = subst(p, rules)
        best = None
        for A in sorted(T.poly_atoms(p), key=lambda A: -A.id):
            if A.k in ("const",):
                continue
            s = T.split_linear(p, A)
            if s is None:
                continue
            c = T.as_const(s[0])
            if c is None or c == 0:
                continue
            rank = {"el": 3, "fn": 2, "app": 2, "var": 1, "idx": 1}.get(A.k, 0)
            if best is None or rank > best[0]:
                best = (rank, A, T.scale(s[1], -1 / c))
        if best:
            A, e = best[1], best[2]
            try:
                rules = {k: subst(v, {A: e}) for k, v in rules.items()}
            except Unsupported:
                continue
            rules[A] = e
    return rules


def clear_denominators(d):
    for _ in range(10):
        dens = {}
        for m in d.t:
            for a, e in m:
                if e < 0 and ATOMS[a].k == "paren":
                    dens[a] = min(dens.get(a, 0), e)
        if not dens:
            return d
        a, e = sorted(dens.items())[0]
        q = ATOMS[a].a[0]
        out = []
        for m, c in d.t.items():
            md = dict(m)
            x = md.pop(a, 0)
            out.append(T.mul(T._mkpoly({tuple(sorted(md.items())): c}), T.power(q, -e + x)))
        d = T.sum_polys(out)
    return d


_depth = [0]


def prove_eq(p, q, facts, deadline=None):
    p, q = P(p), P(q)
    d = p - q
    if d is ZERO:
        return Result("proved", "nf")
    t0 = time.time()
    try:
        return _prove_zero(d, facts)
    except Budget as e:
        return Result("unknown", "", "budget: " + str(e))
    finally:
        if _depth[0] == 0:
            STATS["prove_s"] += time.time() - t0


def _prove_zero(d, facts):
    d = clear_denominators(d)
    if d is ZERO:
        return Result("proved", "nf")
    rules = orient(facts)
    if rules:
        d = clear_denominators(subst(d, rules))
        if d is ZERO:
            return Result("proved", "nf+facts")
    if _depth[0] < 4:
        d2 = congruence(d, facts, rules)
        if d2 is ZERO:
            return Result("proved", "congruence")
        d = d2
    inds = [A for A in all_inds(d) if _splittable(A.a[0])]
    if inds and _depth[0] < 6:
        _depth[0] += 1
        try:
            c = Cases(facts)
            d0 = d
            r = c.run(lambda: resimp(d0), lambda v, fs: prove_eq(v, ZERO, fs) if v is not d0 else Result("unknown", "", "no progress"))
        finally:
            _depth[0] -= 1
        if r.status == "proved":
            return r
    # solver
    if len(d.t) <= 200:
        z = Z(1500)
        for f in relevant(facts, d.fv):
            z.add(f)
        z.s.add(z.poly(d) != 0)
        if z.check() == z3.unsat:
            return Result("proved", "z3")
    return Result(classify(d, facts), "", "residual: " + T.show(d)[:400], facts=tuple(facts))


def all_inds(d):
    seen = set()
    out = []

    def walk(y):
        if isinstance(y, Poly):
            for A in T.poly_atoms(y):
                walk(A)
        elif isinstance(y, T.Atom):
            if y in seen:
                return
            seen.add(y)
            if y.k == "ind":
                out.append(y)
            for z in y.a:
                walk(z)
        elif isinstance(y, B):
            for z in y.a:
                walk(z)
        elif isinstance(y, Lam):
            walk(y.body)
        elif isinstance(y, (tuple, frozenset)):
            for z in y:
                walk(z)

    walk(d)
    return sorted(out, key=lambda A: A.id)


class _Resimp(T._Sub):
    def __init__(self):
        super().__init__({}, set(), False)

    def hit(self, fv):
        return True

    def atom(self, A):
        if A.k in ("var", "const", "idx", "bv"):
            return None
        return super().atom(A)


def resimp(d):
    return _Resimp().go(d)


def classify(d, facts):
    """'refuted' if the residual is a non-zero polynomial over unconstrained atoms"""
    for A in T.poly_atoms(d):
        if A.k == "el" or A.k == "var" or A.k == "const":
            continue
        if A.k == "fn" and A.a[0] in ("cos", "sin"):
            continue
        return "unknown"
    return "refuted"


def congruence(d, facts, rules):
    """merge higher-order atoms with provably equal arguments"""
    for _ in range(20):
        hos = [A for A in T.poly_atoms(d) if A.k in ("app", "sum") or (A.k == "fn") or A.k == "el" or A.k == "ind"]
        hos.sort(key=lambda A: A.id)
        merged = False
        for i, A in enumerate(hos):
            for C in hos[i + 1:]:
                if A.k != C.k or A.sort != C.sort:
                    continue
                if A.k in ("app", "fn", "el") and (A.a[0] != C.a[0] or len(A.a) != len(C.a)):
                    continue
                if A.k == "ind":
                    continue
                if same_args(A, C, facts):
                    d = subst(d, {C: atom(A)})
                    merged = True
                    break
            if merged:
                break
        if not merged or d is ZERO:
            return d
    return d


_same_cache = {}


def same_args(A, C, facts):
    key = (A, C, tuple(f.id for f in facts))
    r = _same_cache.get(key)
    if r is not None:
        return r
    _same_cache[key] = False
    _depth[0] += 1
    try:
        if A.k == "sum":
            r = False
            if same(A.a[0], C.a[0], facts):
                n, t, b1 = T.open_sum(A)
                v = T.bvs(C.a[2], (C.a[0],))[0]
                b2 = subst(C.a[1], {v: atom(t)})
                sk = skolem(n)
                r = same(subst(b1, {t: sk}), subst(b2, {t: sk}), facts)
        else:
            r = all(same(x, y, facts) for x, y in zip(A.a, C.a))
    except (Unsupported, Budget):
        r = False
    finally:
        _depth[0] -= 1
    _same_cache[key] = r
    return r


_sk = [0]


def skolem(n, name="k"):
    _sk[0] += 1
    return atom(T.mkatom("idx", (f"{name}!{_sk[0]}", P(n)), "I"))


def same(x, y, facts):
    if x is y:
        return True
    if isinstance(x, Poly) and isinstance(y, Poly):
        return prove_cases(x, y, facts).status == "proved"
    if isinstance(x, Lam) and isinstance(y, Lam):
        if len(x.dims) != len(y.dims) or not all(same(a, b, facts) for a, b in zip(x.dims, y.dims)):
            return False
        ks = [skolem(n) for n in x.dims]
        return same(T.instantiate(x, ks), T.instantiate(y, ks), facts)
    if isinstance(x, B) and isinstance(y, B):
        return implied(facts, T.iff(x, y))
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return all(same(a, b, facts) for a, b in zip(x, y))
    return x == y


def prove_cases(x, y, facts):
    d = x - y
    if d is ZERO:
        return Result("proved", "nf")
    if _depth[0] > 6:
        return Result("unknown", "", "depth")
    inds = [A for A in all_inds(d) if _splittable(A.a[0])]
    if not inds:
        return prove_eq(x, y, facts)
    return Cases(facts).run(lambda: resimp(d), lambda v, fs: prove_eq(v, ZERO, fs))


def prove_b(b, facts):
    b = T.toB(b)
    if b is TRUE:
        return Result("proved", "nf")
    if b in facts:
        return Result("proved", "fact")
    if b.k == "eq":
        r = prove_eq(b.a[0], ZERO, facts)
        return r
    if b.k == "and":
        bs = set()
        for x in sorted(b.a[0], key=lambda x: x.id):
            r = prove_b(x, facts)
            if r.status != "proved":
                return r
            bs.add(r.backend)
        return Result("proved", "+".join(sorted(bs)))
    if b is FALSE:
        # contradiction of the path?
        z = Z(1000)
        for f in facts:
            z.add(f)
        if z.check() == z3.unsat:
            return Result("proved", "infeasible")
        return Result("refuted", "", "condition is false", facts=tuple(facts))
    if implied(facts, b, 3000):
        return Result("proved", "z3")
    z = Z(1500)
    for f in facts:
        z.add(f)
    z.add(bnot(b))
    st = "refuted" if z.check() == z3.sat and classify_b(b) else "unknown"
    return Result(st, "", "not implied: " + T.show_b(b)[:400], facts=tuple(facts))


def classify_b(b):
    ok = [True]

    def walk(y):
        if isinstance(y, Poly):
            for A in T.poly_atoms(y):
                if A.k in ("app", "sum", "fn"):
                    ok[0] = False
        elif isinstance(y, B):
            if y.k == "ba":
                ok[0] = False
            for z in y.a:
                walk(z)
        elif isinstance(y, frozenset):
            for z in y:
                walk(z)

    walk(b)
    return ok[0]


def int_model(facts, names):
    """a model of the integer variables under the facts: {name: int} or None"""
    z = Z(2000)
    vs = {}
    for n, p in names.items():
        vs[n] = z.poly(p)
    for f in facts:
        try:
            z.add(f)
        except Exception:
            pass
    z.s.push()
    for v in vs.values():
        z.s.add(v <= 12)
    if z.check() != z3.sat:
        z.s.pop()
        z.s.push()
        for v in vs.values():
            z.s.add(v <= 5000)
        if z.check() != z3.sat:
            return None
    m = z.s.model()
    out = {}
    for n, v in vs.items():
        x = m.eval(v, model_completion=True)
        try:
            out[n] = x.as_long()
        except Exception:
            pass
    return out
