"""Symbolic context: runs one contract and discharges its obligations."""
import signal
import time
import traceback
import itertools
from . import terms as T
from .terms import P, Poly, B, ZERO, ONE, TRUE, FALSE, const, atom, Unsupported, Budget
from . import symtorch as S, symnn as N, prover as PR
from .prover import Explorer, Infeasible, PathLimit, Result
from .symtorch import Tensor, SymInt, SymFloat, mkint


class TimeOut(Exception):
    pass


class Goal:
    __slots__ = ("k", "a")

    def __init__(self, k, *a):
        self.k, self.a = k, a

    def __and__(self, o):
        return Goal("all", self, o)


class Elems:
    """element accessor over a snapshot of a tensor"""

    def __init__(self, t):
        self.f = t._rd()
        self.n = t.ndim
        self.bool = t.dtype is S.bool_

    def __getitem__(self, ix):
        if not isinstance(ix, tuple):
            ix = (ix,)
        if len(ix) != self.n:
            raise SpecShape(f"element access with {len(ix)} indices on a {self.n}-dimensional tensor")
        return self.f(tuple(P(i) for i in ix))


class SpecShape(Exception):
    pass


class Namespace:
    pass


class Called(Exception):
    """an exception escaped from the code under contract"""

    def __init__(self, e):
        self.e = e


class Stop(Exception):
    """stop the current path (a required postcondition already failed)"""


class _Cut:
    """loop contract: see SymCtx.iterations"""

    def __init__(self, enter, leave):
        self.enter, self.leave = enter, leave

    def __enter__(self):
        outer = self

        class Loop:
            def __init__(self, n):
                self.n = n

            def __iter__(self):
                leaf = list(S.LEAVES.values())[-1] if S.LEAVES else None
                yield outer.enter(self.n, leaf)
                outer.leave(leaf)

            def __getattr__(self, n):
                if n in ("set_postfix_str", "set_postfix", "set_description", "set_description_str", "update", "close", "refresh"):
                    return lambda *a, **k: None
                raise Unsupported(f"loop.{n}")
        N.TRANGE[0] = Loop
        S.LEAVES.clear()

    def __exit__(self, *a):
        N.TRANGE[0] = None


class SymCtx:
    symbolic = True

    def __init__(self, contract, mods, torch, only=None, deadline=None, frame_only=False, verbose=False, forced=None):
        self.forced = dict(forced or {})
        self.contract, self.mods, self.torch = contract, mods, torch
        self.nn = torch.nn
        self.F = torch.nn.functional
        self.obl = []
        self.deadline = deadline
        self.frame_only = frame_only
        self.verbose = verbose
        g = self.g = Namespace()
        for n, m in mods.items():
            setattr(g, n.split(".")[-1] if n.count(".") else n, m)
        g.pkg = mods["gconv"]
        self.pi = T.PI
        self.inf = T.INF
        self.calls = 0

    def mod(self, name):
        return self.mods[name]

    # ---------------------------------------------------------- path state
    def begin(self, ex):
        self.ex = ex
        self.dims = {}
        self.choices = {}
        self.denoms0 = len(S.DENOMS)
        S.DENOMS.clear()
        S.WRITES.clear()
        S.LEAVES.clear()
        S.NO_GRAD[0] = False
        N.MODE[0] = None

    # ---------------------------------------------------------- inputs
    def dim(self, name, lo=0, hi=None):
        p = T.var(name, "I", lo)
        self.dims[name] = p
        if hi is not None:
            self.ex.assume(T.le(p, P(hi)))
        return SymInt(p)

    def num(self, name, lo=None, hi=None, pos=False):
        """a real parameter"""
        p = T.var(name, "R", 0 if pos else lo)
        if pos:
            self.ex.assume(T.lt(ZERO, p))
        if hi is not None:
            self.ex.assume(T.le(p, P(hi)))
        return SymFloat(p)

    def choice(self, name, options):
        options = list(options)
        if name in self.forced:
            k = self.choices[name] = self.forced[name]
            if k >= len(options):
                raise Infeasible()
            return options[k]
        k = self.ex.choose(len(options), ("choice", name))
        self.choices[name] = k
        return options[k]

    def assume(self, b):
        self.ex.assume(self._cond(b))

    def _cond(self, b):
        if isinstance(b, Goal):
            return self._goal_cond(b)
        return T.toB(b)

    def _goal_cond(self, g):
        if g.k == "eq":
            return T.eq(P(g.a[0]), P(g.a[1]))
        if g.k == "b":
            return T.toB(g.a[0])
        if g.k == "all":
            return T.band(*[self._goal_cond(x) for x in g.a])
        raise Unsupported("goal used as condition")

    def batch(self, name, ranks=(0, 1, 2)):
        """a batch shape of any of the given ranks with arbitrary sizes"""
        r = self.choice(name + "_rank", ranks)
        return tuple(self.dim(f"{name}{j}") for j in range(r))

    def tensor(self, name, *shape, dtype=None, lay="c", grad=False, range=None):
        dt = dtype or S.float32
        if range is not None:
            PR.REAL_RANGE[name] = range
        if lay == "perm" and len(shape) > 1:
            n = len(shape)
            base = S.named(name, [P(s) for s in reversed(shape)], dt)
            t = base.permute(*reversed([k for k in __import__("builtins").range(n)]))
        else:
            t = S.named(name, [P(s) for s in shape], dt)
        if grad:
            t._rg = True
        return t

    def int_tensor(self, name, *shape, lo=0, hi=None):
        T.EL_BOUND[name] = (lo, P(hi)) if hi is not None else (lo, None)
        return S.named(name, [P(s) for s in shape], S.int64)

    def bool_tensor(self, name, *shape):
        return S.named(name, [P(s) for s in shape], S.bool_)

    def unit(self, name, *shape):
        """unit vectors along the last axis"""
        T.UNIT[name] = int(shape[-1])
        return S.named(name, [P(s) for s in shape])

    def quat(self, name, *batch):
        return self.unit(name, *batch, 4)

    def rotmat(self, name, *batch):
        """rotation matrices: every proper rotation is the matrix of some unit quaternion"""
        T.UNIT[name] = 4
        b = [P(s) for s in batch]

        def f(ix):
            q = [T.el(name, ix[:-2] + (const(k),)) for k in range(4)]
            M = self.quat_entries(q)
            i, j = T.as_int(ix[-2]), T.as_int(ix[-1])
            if i is not None and j is not None:
                if i > 2 or j > 2:
                    return T.app("out_of_range", *ix)
                return M[i][j]
            return _table2(M, ix[-2], ix[-1])
        return Tensor._mk(b + [const(3), const(3)], f)

    @staticmethod
    def quat_entries(q):
        a, b, c, d = q
        return [[1 - 2 * c * c - 2 * d * d, 2 * b * c - 2 * a * d, 2 * b * d + 2 * a * c],
                [2 * b * c + 2 * a * d, 1 - 2 * b * b - 2 * d * d, 2 * c * d - 2 * a * b],
                [2 * b * d - 2 * a * c, 2 * c * d + 2 * a * b, 1 - 2 * b * b - 2 * c * c]]

    def sign_of(self, name, *ix):
        return 1 - 2 * T.ind(T.bapp(name, *[P(i) for i in ix]))

    def o3(self, name, *batch, sign=None):
        """O(3) elements (coefficient, flattened rotation matrix), all of the given sign if any"""
        co = (lambda *ix: self.sign_of(name + "_refl", *ix)) if sign is None else (lambda *ix: const(sign))
        R = self.rotmat(name, *batch)._rd()

        def f(ix):
            k = T.as_int(ix[-1])
            if k is None:
                r = None
                out = f(ix[:-1] + (const(9),))
                for v in range(8, -1, -1):
                    out = T.ite(T.eq(ix[-1], const(v)), f(ix[:-1] + (const(v),)), out)
                return out
            if k == 0:
                return co(*ix[:-1])
            return R(ix[:-1] + (const((k - 1) // 3), const((k - 1) % 3)))
        return Tensor._mk([P(s) for s in batch] + [const(10)], f)

    def o2(self, name, *batch, sign=None):
        """O(2) elements (coefficient, angle), all of the given sign if any"""
        co = (lambda *ix: self.sign_of(name + "_refl", *ix)) if sign is None else (lambda *ix: const(sign))
        def f(ix):
            k = T.as_int(ix[-1])
            if k is None:
                return T.ite(T.eq(ix[-1], ZERO), f(ix[:-1] + (ZERO,)), f(ix[:-1] + (ONE,)))
            if k == 0:
                return co(*ix[:-1])
            return T.el(name, ix[:-1])
        return Tensor._mk([P(s) for s in batch] + [const(2)], f)

    def permuted(self, t):
        """same values, non-contiguous memory"""
        n = t.ndim
        if sum(d is not ONE for d in t._dims) < 2:
            return t
        f = t._rd()
        base = Tensor._mk(tuple(reversed(t._dims)), lambda ix: f(tuple(reversed(ix))), t.dtype)
        return base.permute(*range(n - 1, -1, -1))

    def func(self, name):
        """an uninterpreted real function of element vectors"""
        def f(*a):
            return T.app(name, *[P(x) for x in a])
        return f

    def unsupported(self, what):
        raise Unsupported(what)

    def opaque(self, name, *args):
        """an arbitrary (uninterpreted) function of the arguments; (dims, f) stands for the function f of indices below dims"""
        out = []
        for x in args:
            if isinstance(x, tuple) and len(x) == 2 and callable(x[1]):
                out.append(T.lam(tuple(P(d) for d in x[0]), lambda *i, f=x[1]: P(f(*i))))
            elif isinstance(x, (str, bool, type(None))):
                out.append(str(x))
            elif isinstance(x, (list, tuple)):
                out += [P(y) for y in x]
            elif isinstance(x, Tensor):
                out.append(P(x._rd()(())))
            else:
                out.append(P(x))
        return T.app(name, *out)

    def either(self, name, dims, fs):
        """one of the alternatives holds for all indices"""
        first = None
        n = len(self.obl)
        for f in fs:
            self.forall(name, dims, f)
            if all(o["status"] == "proved" for o in self.obl[n:]):
                return
            first = first or self.obl[n:]
            del self.obl[n:]
        self.obl += first or []

    def build(self, dims, f, dtype=None):
        """the tensor with entries f(*indices)"""
        def g(ix):
            ix = [T.as_int(i) if T.as_int(i) is not None else i for i in ix]
            return P(f(*ix))
        return Tensor._mk([P(d) for d in dims], g, dtype or S.float32)

    def rowfn(self, name, *shape):
        """an arbitrary function of the element vectors (last axis) of two tensors, with broadcasting"""
        def f(x, y):
            if x.ndim < 1 or y.ndim < 1:
                raise Unsupported("rowfn argument")
            n = T.as_int(x._dims[-1])
            if T.as_int(y._dims[-1]) != n or n is None:
                raise RuntimeError("row functions need rows of the same length")
            x, y = S.broadcast_tensors(x, y)
            a, b = x._rd(), y._rd()
            ks = [const(k) for k in range(n)]
            return S._g(Tensor._mk(x._dims[:-1], lambda ix: T.app(name, *[a(tuple(ix) + (k,)) for k in ks], *[b(tuple(ix) + (k,)) for k in ks]), x.dtype), x, y)

        def entries(u, v):
            return T.app(name, *[P(z) for z in u], *[P(z) for z in v])
        return f, entries

    def argmin_over(self, n, f):
        return S._arg_term(T.lam((P(n),), lambda i: P(f(i))), False)

    def argsort_over(self, n, f, i):
        return S.sort_index(T.lam((P(n),), lambda i: P(f(i))), i)

    # ---------------------------------------------------------- calls
    def stub(self, mod, name, nin, *out):
        """with-block in which mod.name is known by its contract only: an element-wise conversion whose result depends on
        the nin trailing axes of the argument's element (no body); further arguments must be equal constants"""
        import inspect
        sig = inspect.signature(getattr(mod, name))

        def f(*a, **k):
            ba = sig.bind(*a, **k)
            ba.apply_defaults()
            (_, t), *rest = ba.arguments.items()
            if not isinstance(t, Tensor) or t.ndim < nin:
                raise Unsupported("stub argument")
            rd = t._rd()
            ins = [int(T.as_int(d)) for d in t._dims[t.ndim - nin:]]
            b = t._dims[:t.ndim - nin]
            tag = f"{name}{rest}"

            def g(ix):
                args = [rd(tuple(ix[:len(b)]) + tuple(const(j) for j in c)) for c in itertools.product(*[range(n) for n in ins])]
                return T.app(tag, *ix[len(b):], *args)
            return Tensor._mk(list(b) + [const(o) for o in out], g)
        return _Patch(mod, name, f)

    def summary(self, mod, name, f):
        """with-block in which mod.name is known by its contract only: f builds an arbitrary result the contract allows"""
        return _Patch(mod, name, f)

    def havoc(self, t, name):
        """arbitrary new contents for t (in place)"""
        t._write(lambda ix: T.el(name, ix))
        return t

    def call(self, f, *a, **k):
        snap = self._snapshot([f, a, k])
        try:
            r = f(*a, **k)
        except (Unsupported, Budget, Infeasible, PathLimit, TimeOut):
            raise
        except Exception as e:
            self.exception(f, e)
            raise Stop()
        self._check_frame(f, snap)
        return r

    def state(self, t, name):
        """arbitrary contents, named: what is differentiated"""
        t._write(lambda ix: T.el(name, ix))
        t._st.tag = name

    def iterations(self, enter, leave):
        """with-block in which a counted loop of the code is cut at its invariant: enter(trip count) gives the value of
        the loop variable of an arbitrary iteration, leave() is called (both also get the
        tensor being optimised) at the end of its body and sets the state after the loop"""
        return _Cut(enter, leave)

    def writes(self, allow, f, *a, **k):
        """call that may write the given tensors and nothing else"""
        snap = self._snapshot([f, a, k])
        try:
            r = f(*a, **k)
        except (Unsupported, Budget, Infeasible, PathLimit, TimeOut):
            raise
        except Exception as e:
            self.exception(f, e)
            raise Stop()
        self._check_frame(f, snap, allow)
        return r

    def exception(self, f, e):
        tb = traceback.extract_tb(e.__traceback__)
        where = ""
        if "/engine/" in tb[-1].filename and "raise " not in (tb[-1].line or ""):
            raise Unsupported(f"engine: {type(e).__name__}: {e} at {tb[-1].filename.split('/')[-1]}:{tb[-1].lineno}")
        if isinstance(e, (TypeError, AttributeError, NotImplementedError)) and not (tb[-1].line or "").startswith("raise"):
            # how the modelled operations are called differs in detail from torch: the concrete runs decide these
            raise Unsupported(f"{type(e).__name__}: {e} at {tb[-1].filename.split('/gconv/')[-1]}:{tb[-1].lineno}")
        for fr in tb:
            if "/gconv/" in fr.filename:
                where = f" at {fr.filename.split('/gconv/')[-1]}:{fr.lineno}"
        self.record("no exception from " + _nm(f), Result("refuted", "", f"{type(e).__name__}: {e}{where}", facts=tuple(self.ex.facts)))

    def quiet(self, f, *a, **k):
        """call without frame obligations"""
        try:
            return f(*a, **k)
        except (Unsupported, Budget, Infeasible, PathLimit, TimeOut):
            raise
        except Exception as e:
            self.exception(f, e)
            raise Stop()

    def raises(self, exc, name, f, *a, **k):
        try:
            f(*a, **k)
        except exc:
            self.record(name, Result("proved", "exec"))
            return
        except (Unsupported, Budget, Infeasible, PathLimit, TimeOut):
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            if "/engine/" in tb[-1].filename and "raise " not in (tb[-1].line or ""):
                raise Unsupported(f"engine: {type(e).__name__}: {e}")
            self.record(name, Result("refuted", "", f"raised {type(e).__name__}: {e} instead of {exc.__name__}", facts=tuple(self.ex.facts)))
            return
        self.record(name, Result("refuted", "", f"did not raise {exc.__name__}", facts=tuple(self.ex.facts)))

    def _snapshot(self, roots):
        seen = {}
        mods = {}

        def walk(x, path):
            if isinstance(x, Tensor):
                if id(x) not in seen:
                    seen[id(x)] = (path, x, x._st, x._st.version, x._rd(), x._dims, x._rg)
            elif isinstance(x, (tuple, list)):
                for i, y in enumerate(x):
                    walk(y, f"{path}[{i}]")
            elif isinstance(x, dict):
                for i, y in x.items():
                    walk(y, f"{path}.{i}")
            elif isinstance(x, N.Module):
                if id(x) in mods:
                    return
                simple = {n: v for n, v in x.__dict__.items() if not n.startswith("_") and isinstance(v, (int, str, tuple, bool, type(None)))
                          and not isinstance(v, (S._Num,))}
                mods[id(x)] = (path, x, simple)
                for n, v in x._parameters.items():
                    walk(v, f"{path}.{n}")
                for n, v in x._buffers.items():
                    walk(v, f"{path}.{n}")
                for n, v in x._modules.items():
                    walk(v, f"{path}.{n}")
                for n, v in x.__dict__.items():
                    if isinstance(v, Tensor):
                        walk(v, f"{path}.{n}")
            elif hasattr(x, "__self__") and isinstance(getattr(x, "__self__", None), N.Module):
                walk(x.__self__, path)
        walk(roots[0], "self")
        for i, y in enumerate(roots[1]):
            walk(y, f"arg{i}")
        for n, y in roots[2].items():
            walk(y, n)
        # module-level tensors of the package
        for mn, m in self.mods.items():
            for n, v in list(m.__dict__.items()):
                if isinstance(v, Tensor):
                    walk(v, f"{mn}.{n}")
        return seen, mods, dict(gradients=S.NO_GRAD[0], seed=S.SEEDED[0])

    def _check_frame(self, f, snap, allow=()):
        seen, mods, glob = snap
        bad = [(k, "global state changed") for k, v in dict(gradients=S.NO_GRAD[0], seed=S.SEEDED[0]).items() if v != glob[k]]
        S.NO_GRAD[0] = glob["gradients"]
        for path, x, st, ver, rd, dims, rg in seen.values():
            if any(x is y for y in allow):
                continue
            if x._st is not st or x._dims != dims:
                bad.append((path, "rebound"))
                continue
            if x._rg != rg:
                bad.append((path, "requires_grad changed"))
            if st.version != ver:
                ks = [PR.skolem(d, "f") for d in dims]
                new = x._rd()
                if x.dtype is S.bool_:
                    r = PR.prove_b(T.iff(new(tuple(ks)), rd(tuple(ks))), self.ex.facts)
                else:
                    r = PR.prove_cases(new(tuple(ks)), rd(tuple(ks)), self.ex.facts)
                if r.status != "proved":
                    bad.append((path, "written: " + r.detail))
        for path, x, simple in mods.values():
            for n, v in simple.items():
                if n not in x.__dict__ or (x.__dict__[n] is not v and x.__dict__[n] != v):
                    bad.append((f"{path}.{n}", "attribute changed"))
        if bad:
            self.record("frame of " + _nm(f), Result("refuted", "", f"modified: {bad}", facts=tuple(self.ex.facts)), kind="frame")
        else:
            self.record("frame of " + _nm(f), Result("proved", "frame"), kind="frame")

    # ---------------------------------------------------------- obligations
    def record(self, name, r, kind="post"):
        o = dict(contract=self.contract.name, name=name, status=r.status, backend=r.backend, detail=r.detail, kind=kind, leaves=r.leaves,
                 path=self.ex.trace and [str(t[1]) for t in self.ex.trace] or [])
        if r.status != "proved":
            facts = list(r.facts) or list(self.ex.facts)
            try:
                o["model"] = PR.int_model(facts, {n: p for n, p in self.dims.items()}) if self.dims else {}
            except Exception:
                o["model"] = None
            o["choices"] = dict(self.choices)
            o["pc"] = [T.show_b(f)[:200] for f in self.ex.facts][:20]
            # choice names are on the trace
        self.obl.append(o)
        if self.verbose and r.status != "proved":
            print("   ", o)

    def shape_is(self, t, *dims, name="shape"):
        if not isinstance(t, Tensor):
            self.record(name, Result("refuted", "", f"not a tensor: {type(t).__name__}"))
            raise Stop()
        if t.ndim != len(dims):
            self.record(name, Result("refuted", "", f"rank {t.ndim} instead of {len(dims)}", facts=tuple(self.ex.facts)))
            raise Stop()
        for a, b in zip(t._dims, dims):
            r = PR.prove_eq(a, P(b), self.ex.facts)
            if r.status != "proved":
                self.record(name, Result(r.status, "", f"size {T.show(a)} instead of {T.show(P(b))}; {r.detail}", facts=tuple(self.ex.facts)))
                raise Stop()
        self.record(name, Result("proved", "nf"))

    def same_object(self, name, x, y):
        self.record(name, Result("proved", "exec") if x is y else Result("refuted", "", "different objects"))

    def is_value(self, name, x, y):
        """equality of plain python values"""
        try:
            ok = (x == y)
            if isinstance(ok, S.SymBool) or type(ok) is S.SymBool:
                self.check(name, Goal("b", ok._cond))
                return
        except Unsupported:
            raise
        self.record(name, Result("proved", "exec") if ok else Result("refuted", "", f"{x!r} instead of {y!r}", facts=tuple(self.ex.facts)))

    def check(self, name, goal):
        self.forall(name, (), lambda: goal if not callable(goal) else goal())

    def forall(self, name, dims, f, hyp=None):
        """for all indices below dims: the goals returned by f"""
        if self.frame_only:
            return
        axes = []
        for d in dims:
            c = T.as_int(P(d))
            if c is not None and c <= 4:
                axes.append([const(i) for i in range(c)])
            else:
                axes.append([None])
        for combo in itertools.product(*axes):
            ks = [PR.skolem(P(d), "k") if i is None else i for i, d in zip(combo, dims)]
            hs = []
            for d, i in zip(dims, combo):
                if i is None and not T.nonneg(P(d) - 1):
                    hs.append(T.lt(ZERO, P(d)))
            t0 = time.time()

            def thunk():
                g = f(*ks)
                return g

            def leaf(g, facts):
                return self._prove(g, facts)
            facts = list(self.ex.facts)
            for h in hs:
                if h not in facts:
                    facts.append(h)
            if hyp is not None:
                h = T.toB(hyp(*ks)) if not isinstance(hyp(*ks), Goal) else self._goal_cond(hyp(*ks))
                if h is FALSE:
                    continue
                if h is not TRUE:
                    for x in (h.a[0] if h.k == "and" else [h]):
                        facts.append(x)
            try:
                with _limit(self.deadline):
                    r = PR.Cases(facts).run(thunk, leaf)
            except Budget as e:
                r = Result("unknown", "", "budget: " + str(e))
            except SpecShape as e:
                r = Result("refuted", "", str(e))
            if r.status != "proved" and hs and not PR.feasible(facts, T.band(*hs), 1000):
                r = Result("proved", "empty")  # no such position on this path
            nm = name + ("" if all(i is None for i in combo) else "[" + ",".join("*" if i is None else str(i) for i in combo) + "]")
            self.record(nm, r)
            if self.verbose:
                print("     ", nm, r.status, r.backend, r.leaves, f"{time.time() - t0:.2f}s")
            if r.status != "proved":
                return

    def _prove(self, g, facts):
        if isinstance(g, (list, tuple)):
            bs = set()
            for x in g:
                r = self._prove(x, facts)
                if r.status != "proved":
                    return r
                bs.add(r.backend)
            return Result("proved", "+".join(sorted(b for b in bs if b)))
        if isinstance(g, bool):
            g = Goal("b", TRUE if g else FALSE)
        if isinstance(g, B):
            g = Goal("b", g)
        if g.k == "eq":
            x, y = g.a
            if isinstance(x, B) or isinstance(y, B):
                return PR.prove_b(T.iff(T.toB(x), T.toB(y)), facts)
            return PR.prove_cases(P(x), P(y), facts)
        if g.k == "b":
            return PR.prove_b(T.toB(g.a[0]), facts)
        if g.k == "all":
            return self._prove(list(g.a), facts)
        if g.k == "imp":
            h = self._cond(g.a[0])
            if h is FALSE:
                return Result("proved", "vacuous case")
            fs = list(facts)
            if h is not TRUE:
                fs += list(h.a[0]) if h.k == "and" else [h]
                if not PR.feasible(facts, h):
                    return Result("proved", "z3")
            goal = g.a[1]
            return PR.Cases(fs).run(goal if callable(goal) else (lambda: goal), lambda v, ff: self._prove(v, ff))
        raise Unsupported("goal " + g.k)

    def lemma(self, name, goal):
        self.check(name, goal)

    def well_defined(self, name="well defined"):
        """denominators are non-zero, arguments of acos and sqrt are in their domain"""
        for kind, dims, f in list(S.DENOMS):
            def goal(*ix, kind=kind, f=f):
                v = f(tuple(ix))
                if "zero" in kind:
                    return Goal("b", T.ne(v, ZERO))
                if "acos" in kind:
                    return Goal("b", T.band(T.le(v, ONE), T.le(-1, v)))
                if "negative number" in kind:
                    return Goal("b", T.le(ZERO, v))
                return Goal("b", T.lt(ZERO, v))
            self.forall(f"{name}: no {kind}", dims, goal)

    def clear_denoms(self):
        S.DENOMS.clear()

    # ---------------------------------------------------------- spec language
    def E(self, t):
        return Elems(t)

    def eq(self, x, y, tol=None):
        return Goal("eq", x, y)

    def eq_angle(self, x, y, tol=None):
        """equal up to full turns"""
        x, y = P(x), P(y)
        return Goal("all", Goal("eq", T.cos(x), T.cos(y)), Goal("eq", T.sin(x), T.sin(y)))

    def eq_fmod(self, o, v, m):
        """o is v modulo m (in [0, m))"""
        return Goal("eq", o, T.rmod(P(v), P(m)))

    def le(self, x, y, tol=None):
        return Goal("b", T.le(P(x), P(y)))

    def lt(self, x, y, tol=None):
        return Goal("b", T.lt(P(x), P(y)))

    def ne(self, x, y):
        return Goal("b", T.ne(P(x), P(y)))

    def iff(self, x, y):
        return Goal("b", T.iff(self._cond(x), self._cond(y)))

    def true(self, x):
        return Goal("b", T.toB(x) if not isinstance(x, Goal) else self._goal_cond(x))

    def implies(self, h, goal):
        return Goal("imp", h, goal)

    def cond_lt(self, x, y):
        return T.lt(P(x), P(y))

    def cond_le(self, x, y):
        return T.le(P(x), P(y))

    def cond_eq(self, x, y):
        return T.eq(P(x), P(y))

    def band(self, *a):
        return T.band(*a)

    def bor(self, *a):
        return T.bor(*a)

    def bnot(self, a):
        return T.bnot(T.toB(a))

    def ite(self, c, a, b):
        return T.ite(T.toB(c), P(a), P(b))

    def ind(self, c):
        return T.ind(T.toB(c))

    def sum(self, n, f):
        return T.sum_(P(n), lambda i: P(f(i)))

    def min_over(self, n, f):
        """minimum over the indices below n (n >= 1)"""
        return S.ext_value(T.lam((P(n),), lambda i: P(f(i))), False)

    def max_over(self, n, f):
        return S.ext_value(T.lam((P(n),), lambda i: P(f(i))), True)

    def cos(self, x):
        return T.cos(P(x))

    def sin(self, x):
        return T.sin(P(x))

    def sqrt(self, x):
        return T.sqrt(P(x))

    def abs(self, x):
        return T.abs_(P(x))

    def exp(self, x):
        return T.exp(P(x))

    def log(self, x):
        return T.log(P(x))

    def acos(self, x):
        return T.acos(P(x))

    def atan2(self, y, x):
        return T.atan2(P(y), P(x))

    def fmod(self, x, m):
        return T.rmod(P(x), P(m))

    def fdiv(self, x, n):
        return T.fdiv(P(x), P(n))

    def imod(self, x, n):
        return T.imod(P(x), P(n))

    def div(self, x, y):
        return T.div(P(x), P(y))

    def int(self, x):
        return mkint(P(x))

    def pyint(self, x):
        """a plain python integer (constant indices only)"""
        return T.as_int(P(x))

    def numel(self, *dims):
        r = ONE
        for d in dims:
            r = r * P(d)
        return mkint(r)

    def with_grad_off(self):
        return S.no_grad()


def _table2(M, i, j):
    out = None
    n = len(M)
    for a in range(n - 1, -1, -1):
        row = None
        for b in range(len(M[a]) - 1, -1, -1):
            row = M[a][b] if row is None else T.ite(T.eq(j, const(b)), M[a][b], row)
        out = row if out is None else T.ite(T.eq(i, const(a)), row, out)
    return out


def _nm(f):
    if isinstance(f, N.Module):
        return type(f).__name__ + ".forward"
    return getattr(f, "__qualname__", getattr(f, "__name__", str(f)))


class _Patch:
    def __init__(self, mod, name, f):
        self.m, self.n, self.f = mod, name, f

    def __enter__(self):
        self.old = getattr(self.m, self.n)
        setattr(self.m, self.n, self.f)

    def __exit__(self, *a):
        setattr(self.m, self.n, self.old)


class _limit:
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        pass

    def __exit__(self, *a):
        pass


def run_contract(con, mods, torch, timeout=120, frame_only=False, verbose=False, forced=None):
    """run one contract symbolically; returns a summary dict"""
    t0 = time.time()
    ctx = SymCtx(con, mods, torch, frame_only=frame_only, verbose=verbose, forced=forced)
    ex = Explorer(con.paths)
    ex.base = []
    status, detail = "ok", ""

    def alarm(*a):
        raise TimeOut()
    old = signal.signal(signal.SIGALRM, alarm)
    signal.alarm(int(timeout))

    done = [0, 0, 0]

    def contradictory(e):
        r = done[2] < 6 and PR.contradiction(list(e.facts))
        done[2] += not r
        return r

    def path(e):
        ctx.begin(e)
        n0 = len(ctx.obl)
        try:
            con.f(ctx)
        except Stop:
            pass
        except (Unsupported, ArithmeticError, SpecShape):
            if not contradictory(e):
                raise
            del ctx.obl[n0:]
            raise Infeasible()
        if any(o["status"] not in ("proved", "bounded") for o in ctx.obl[n0:]) and contradictory(e):
            # a branch the solver had not excluded in time
            del ctx.obl[n0:]
            raise Infeasible()
        done[0] += 1
        # canary: a false goal must not be provable from the assumptions of this path
        if done[1] < 8:
            if PR.prove_b(FALSE, list(e.facts)).status == "proved":
                ctx.obl.append(dict(contract=con.name, name="vacuity canary", status="vacuous", backend="", detail="assumptions of a path are contradictory", kind="canary", leaves=0, path=[]))
            done[1] += 1
    npaths = 0
    try:
        npaths = ex.run(path)
        if not done[0]:
            status, detail = "infeasible", "no feasible path"
    except TimeOut:
        status, detail = "timeout", f"after {timeout}s"
    except Unsupported as e:
        status = "unsupported"
        tb = traceback.extract_tb(e.__traceback__)
        where = ""
        for fr in tb:
            if "/gconv/" in fr.filename or "contracts/" in fr.filename:
                where = f" at {fr.filename.split('/repo/')[-1]}:{fr.lineno}"
        detail = str(e) + where
        if verbose:
            traceback.print_exc()
    except (Budget, PathLimit) as e:
        status, detail = "budget", str(e)
    except Infeasible:
        status, detail = "infeasible", "contradictory precondition"
    except SpecShape as e:
        ctx.record("specification", Result("refuted", "", str(e)))
    except RecursionError as e:
        status, detail = "crash", "recursion limit"
        if verbose:
            import collections
            detail += str(collections.Counter(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in traceback.extract_tb(e.__traceback__)).most_common(14))
    except Exception as e:
        status = "crash"
        detail = f"{type(e).__name__}: {e}\n" + "".join(traceback.format_exc()[-1500:])
        if verbose:
            traceback.print_exc()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        T.SPLIT[0] = None
    return dict(contract=con.name, status=status, detail=detail, obligations=ctx.obl, paths=npaths, seconds=time.time() - t0,
                stats=dict(PR.STATS))
