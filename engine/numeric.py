"""numerical value of a term: used to compare the symbolic torch operations with the real ones (tools/opcheck.py)"""
import math
from fractions import Fraction as Fr

from . import terms as T


class NoValue(Exception):
    pass


FN = dict(sin=math.sin, cos=math.cos, sqrt=lambda x: math.sqrt(max(x, 0.0)), abs=abs, acos=lambda x: math.acos(min(1.0, max(-1.0, x))), asin=math.asin, atan=math.atan,
          atan2=math.atan2, exp=math.exp, log=math.log, tanh=math.tanh, sigmoid=lambda x: 1 / (1 + math.exp(-x)), softplus=lambda x: math.log1p(math.exp(x)),
          rmod=lambda x, m: x - m * math.floor(x / m), pow=lambda x, y: x ** y, tan=math.tan, gelu_tanh=lambda x: 0.5 * x * (1 + math.tanh(math.sqrt(2 / math.pi) * (x + 0.044715 * x ** 3))), gelu_none=lambda x: 0.5 * x * (1 + math.erf(x / math.sqrt(2))))


class Ev:
    def __init__(self, vars, arrays, tol=1e-9):
        self.vars, self.arrays, self.tol = vars, arrays, tol
        self.memo = {}

    def poly(self, p, env):
        if not isinstance(p, T.Poly):
            p = T.P(p)
        key = (p, tuple((A.id, v) for A, v in env.items() if A.id in p.fv))
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self.poly_(p, env)
        return r

    def poly_(self, p, env):
        tot = 0
        for m, c in p.t.items():
            x = c
            for a, e in sorted(m, key=lambda x: T.ATOMS[x[0]].k != "ind"):
                v = self.atom(T.ATOMS[a], env)
                if e < 0 and v == 0:
                    raise NoValue("division by zero")
                if isinstance(v, float) and isinstance(x, Fr):
                    x = float(x)
                x = x * (Fr(v) ** e if isinstance(v, int) else v ** e)
                if x == 0:
                    break
            tot = tot + (float(x) if isinstance(tot, float) else x)
        return int(tot) if isinstance(tot, Fr) and tot.denominator == 1 else tot

    def b(self, b, env):
        if b.k in ("T", "F"):
            return b.k == "T"
        if b.k == "not":
            return not self.b(b.a[0], env)
        if b.k == "and":
            return all(self.b(x, env) for x in b.a[0])
        if b.k == "or":
            return any(self.b(x, env) for x in b.a[0])
        if b.k in ("le", "lt", "eq", "ge", "gt"):
            v = self.poly(b.a[0], env)
            if isinstance(v, float) and abs(v) < self.tol:
                v = 0
            return {"le": v <= 0, "lt": v < 0, "eq": v == 0, "ge": v >= 0, "gt": v > 0}[b.k]
        raise NoValue("condition " + b.k)

    def atom(self, A, env):
        if A in env:
            return env[A]
        k = A.k
        if k == "const":
            return {"pi": math.pi, "inf": math.inf}.get(A.a[0], None) if A.a[0] != "div0" else self.none("div0")
        if k == "var":
            if A.a[0] in self.vars:
                return self.vars[A.a[0]]
            raise NoValue("variable " + str(A.a[0]))
        if k == "ind":
            return int(self.b(A.a[0], env))
        if k == "el":
            x = self.arrays.get(A.a[0])
            if x is None:
                raise NoValue("array " + str(A.a[0]))
            for i in A.a[1:]:
                j = int(self.poly(i, env))
                if not 0 <= j < len(x):
                    return 0.37  # guarded by a condition that fails: any value
                x = x[j]
            return x
        if k in ("fdiv", "mod"):
            x, n = self.poly(A.a[0], env), self.poly(A.a[1], env)
            return x // n if k == "fdiv" else x % n
        if k == "paren":
            return self.poly(A.a[0], env)
        if k == "sum":
            n, body, h = A.a
            v = T.mkatom("bv", (h, 0, n), "I")
            tot = 0
            for i in range(int(self.poly(n, env))):
                tot = tot + self.num(self.poly(body, {**env, v: i}))
            return tot
        if k == "fn":
            xs = [float(self.poly(x, env)) for x in A.a[1:]]
            f = FN.get(A.a[0])
            if f is None:
                raise NoValue("function " + A.a[0])
            return float(f(*xs))
        if k == "app":
            return self.app(A.a[0], A.a[1:], env)
        raise NoValue(k + " " + repr(A)[:80])

    def none(self, w):
        raise NoValue(w)

    @staticmethod
    def num(x):
        return float(x) if isinstance(x, Fr) else x

    def table(self, L, env):
        """all values of a lambda in order, with their positions"""
        ds = [int(self.poly(d, env)) for d in L.dims]
        vs = T.bvs(L.h, L.dims)
        out = []

        def rec(k, e, pos):
            if k == len(ds):
                out.append((pos, self.b(L.body, e) if isinstance(L.body, T.B) else float(self.poly(L.body, e))))
                return
            for i in range(ds[k]):
                rec(k + 1, {**e, vs[k]: i}, pos + (i,))
        rec(0, dict(env), ())
        return ds, out

    def app(self, n, a, env):
        if n in ("max", "argmax", "sort", "argsort"):
            ds, t = self.table(a[0], env)
            v = [x for _, x in t]
            if n == "max":
                return max(v)
            if n == "argmax":
                return v.index(max(v))
            o = sorted(range(len(v)), key=lambda i: (v[i], i))
            i = int(self.poly(a[1], env))
            return v[o[i]] if n == "sort" else o[i]
        if n == "nnz":
            return sum(x for _, x in self.table(a[0], env)[1])
        if n == "rank":
            pos = tuple(int(self.poly(x, env)) for x in a[1:])
            return sum(x for p, x in self.table(a[0], env)[1] if p < pos)
        if n == "sel":
            hit = [p for p, x in self.table(a[1], env)[1] if x]
            k = int(self.poly(a[2], env))
            return hit[k][int(self.poly(a[0], env))] if 0 <= k < len(hit) else 0
        if n in ("solve", "lstsq"):
            import numpy as np
            da, A = self.table(a[0], env)
            _, B = self.table(a[1], env)
            A = np.array([x for _, x in A]).reshape(da)
            B = np.array([x for _, x in B])
            x = np.linalg.solve(A, B) if n == "solve" else np.linalg.lstsq(A, B, rcond=None)[0]
            return float(x[int(self.poly(a[2], env))])
        if n == "GS":
            ds, t = self.table(a[0], env)
            if a[2] != "zeros" or a[1] not in ("bilinear", "nearest"):
                raise NoValue("grid_sample " + a[1] + a[2])
            v = dict(t)
            co = [float(self.poly(x, env)) for x in a[4:]][::-1]
            px = [(c + 1) / 2 * (d - 1) if a[3] == "ac" else ((c + 1) * d - 1) / 2 for c, d in zip(co, ds)]
            tot = 0.0
            if a[1] == "nearest":
                return v.get(tuple(round(p) for p in px), 0.0)
            for corner in range(2 ** len(ds)):
                w, pos = 1.0, []
                for k, p in enumerate(px):
                    f = math.floor(p)
                    hi = corner >> k & 1
                    w *= (p - f) if hi else 1 - (p - f)
                    pos.append(f + hi)
                tot += w * v.get(tuple(pos), 0.0)
            return tot
        if n.rstrip("23") in ("maxpool", "avgpool", "aavgpool", "amaxpool"):
            ds, t = self.table(a[0], env)
            v, k = dict(t), len(ds)
            par = [x if isinstance(x, bool) or x is None else int(self.poly(x, env)) for x in a[1]]
            ix = [int(self.poly(x, env)) for x in a[2:]]
            n = n.rstrip("23")
            if n.startswith("a") and n != "avgpool":
                win = [(i * d // o, -(-((i + 1) * d) // o)) for i, d, o in zip(ix, ds, par)]
                steps = [1] * k
            else:
                ks, st, pd = par[:k], par[k:2 * k], par[2 * k:3 * k]
                steps = par[3 * k:4 * k] if n == "maxpool" else [1] * k
                win = [(i * s - p, i * s - p + (z - 1) * q + 1) for i, s, p, z, q in zip(ix, st, pd, ks, steps)]
                full = 1
                for (lo, hi), d, p in zip(win, ds, pd):
                    full *= min(hi, d + p) - lo
            pos = [()]
            for (lo, hi), q, d in zip(win, steps, ds):
                pos = [x + (j,) for x in pos for j in range(lo, hi, q) if 0 <= j < d]
            xs = [v[x] for x in pos]
            if n in ("maxpool", "amaxpool"):
                return max(xs)
            if n == "aavgpool":
                return sum(xs) / len(xs)
            div = par[3 * k + 2]
            return sum(xs) / (div if div is not None else full if par[3 * k + 1] else len(xs))
        raise NoValue("application " + n)
