"""Concrete context: the same contracts on the real torch (counterexample replay, cross-check of the
trusted torch semantics, bounded stand-ins)."""
import contextlib
import itertools
import math
import random
import traceback
import torch
from torch import Tensor


class Stop(Exception):
    pass


class Skip(Exception):
    pass


class G:
    __slots__ = ("ok", "msg")

    def __init__(self, ok, msg=""):
        self.ok, self.msg = bool(ok), msg


class Elems:
    def __init__(self, t):
        self.n = t.dim()
        self.v = (t.detach().cpu() if t.dtype == torch.bool else t.detach().cpu().double() if t.dtype.is_floating_point else t.detach().cpu()).tolist()

    def __getitem__(self, ix):
        if not isinstance(ix, tuple):
            ix = (ix,)
        if len(ix) != self.n:
            raise SpecShape(f"element access with {len(ix)} indices on a {self.n}-dimensional tensor")
        v = self.v
        for i in ix:
            i = int(i)
            if i < 0:
                raise IndexError("negative index in specification")
            v = v[i]
        return v


class SpecShape(Exception):
    pass


class Namespace:
    pass


SPECIAL = [0.0, math.pi / 2, math.pi, 3 * math.pi / 2, 2 * math.pi, -math.pi / 2, -math.pi, 1e-3, 7.0, -9.0]


LARGE = dict(c01_planar=2100, c02_spatial=2100, c03_det=2100, c04_convert=2100, c05_metrics=1100, c12_lifting=300, c13_group=130, c14_kernels=130)
LARGE["c07_interp.interpolate_NN"] = 2100


class RealCtx:
    symbolic = False

    def __init__(self, contract, mods, seed, hints=None, dtype=torch.float64):
        self.contract, self.mods = contract, mods
        self.torch, self.nn, self.F = torch, torch.nn, torch.nn.functional
        self.rng = random.Random(seed)
        self.edgy = seed % 4 == 3
        grads = "C21" not in contract.props and "C21" != contract.props
        torch.set_grad_enabled(not (grads and seed % 5 == 2))
        # every third trial: modules are in evaluation mode unless the contract sets the mode itself
        self.evaluate = seed // 5 % 3 == 1 and not contract.name.startswith(("c20_state.", "c19_norm.batch", "c19_norm.instance", "c19_norm.wrap"))
        # every twelfth trial of the contracts listed: one unbounded size is large
        self.large = LARGE.get(contract.name.split(".")[0] if contract.name not in LARGE else contract.name, 0) if seed % 12 == 5 else 0
        self.leaves = grads and seed % 5 == 4
        torch.manual_seed(seed)
        self.hints = hints or {}
        self.pi = math.pi
        self.inf = math.inf
        self.f32 = dtype == torch.float32
        torch.set_default_dtype(dtype)
        self.dt = dtype
        self.tol = 1e-3 if self.f32 else 1e-6
        self.dims, self.choices, self.inputs, self.kept = {}, {}, {}, {}
        self.fail = []
        self.checks = 0
        g = self.g = Namespace()
        for n, m in mods.items():
            setattr(g, n.split(".")[-1] if n.count(".") else n, m)
        g.pkg = mods["gconv"]
        self.posts = 0

    def mod(self, name):
        return self.mods[name]

    # ------------------------------------------------------ inputs
    def dim(self, name, lo=0, hi=None):
        h = self.hints.get("dims", {}).get(name, self.dims.get(name))
        if h is not None and h >= lo and (hi is None or h <= hi):
            v = h
        else:
            top = lo + 4 if hi is None else min(hi, lo + 6)
            v = self.rng.randint(lo, top)
            if lo == 0 and v == 0 and self.rng.random() < 0.8:
                v = self.rng.randint(1, max(1, top))
            if hi is None and self.large and self.rng.random() < 0.5:
                v = self.large if self.rng.random() < 0.5 else self.rng.choice([s for s in (20, 70, 130, 300, 1100, 2100) if s <= self.large])
                self.large = 0
        self.dims[name] = v
        return v

    def num(self, name, lo=None, hi=None, pos=False):
        if lo is None and not pos:
            v = self.rng.uniform(-2, 2)
        else:
            a = 0.05 if pos and not lo else lo
            v = self.rng.uniform(a, hi if hi is not None else a + 2)
        self.inputs[name] = v
        return v

    def choice(self, name, options):
        options = list(options)
        k = self.hints.get("choices", {}).get(name)
        if k is None or not 0 <= k < len(options):
            k = self.rng.randrange(len(options))
        self.choices[name] = k
        return options[k]

    def assume(self, b):
        if isinstance(b, G):
            b = b.ok
        if not b:
            raise Skip()

    def batch(self, name, ranks=(0, 1, 2)):
        r = self.choice(name + "_rank", ranks)
        return tuple(self.dim(f"{name}{j}") for j in range(r))

    def _keep(self, name, t):
        key = name, t.shape, t.dtype
        old = self.kept.get(key)
        if old is not None:
            t = old.clone().requires_grad_(t.requires_grad)  # the same name, the same contents
        else:
            self.kept[key] = t.detach().clone()
        self.inputs[name] = self.kept[key]
        if self.leaves and t.is_floating_point() and not t.requires_grad:
            return t.requires_grad_().clone()  # every fifth trial: all inputs track gradients
        return t

    def tensor(self, name, *shape, dtype=None, lay="c", grad=False, range=None):
        shape = tuple(int(s) for s in shape)
        if dtype == torch.bool:
            return self._keep(name, torch.rand(shape) > 0.5)
        if lay == "perm" and len(shape) > 1:
            t = torch.empty(tuple(reversed(shape))).permute(*reversed([k for k in __import__("builtins").range(len(shape))]))
        else:
            t = torch.empty(shape)
        if range is not None:
            t.uniform_(*range)
        else:
            t.normal_()
            if self.rng.random() < 0.5:
                t.mul_(3)
            m = torch.rand(t.shape) < 0.15
            if m.any() and self.rng.random() < 0.6:
                sp = torch.tensor(SPECIAL, dtype=t.dtype)
                t[m] = sp[torch.randint(0, len(SPECIAL), (int(m.sum()),))]
        if dtype is not None:
            t = t.to(dtype)
        t.requires_grad_(grad)
        return self._keep(name, t)

    def int_tensor(self, name, *shape, lo=0, hi=None):
        return self._keep(name, torch.randint(lo, hi if hi is not None else lo + 10, tuple(shape)))

    def bool_tensor(self, name, *shape):
        return self._keep(name, torch.rand(*shape) > 0.5)

    def unit(self, name, *shape):
        t = torch.randn(*shape, dtype=torch.float64)
        n = shape[-1]
        flat = t.reshape(-1, n)
        for i in range(flat.shape[0]):
            r = self.rng.random()
            if r < 0.15:
                flat[i] = 0
                flat[i, self.rng.randrange(n)] = self.rng.choice([1.0, -1.0])
            elif r < 0.25 and n >= 2:
                flat[i] = 0
                a, b = self.rng.sample(range(n), 2)
                flat[i, a], flat[i, b] = self.rng.choice([1.0, -1.0]), self.rng.choice([1.0, -1.0])
            elif r < 0.3:
                flat[i, self.rng.randrange(n)] = 0
        flat = flat / flat.norm(dim=-1, keepdim=True)
        return self._keep(name, flat.reshape(shape).to(self.dt))

    def quat(self, name, *batch):
        return self.unit(name, *batch, 4)

    def rotmat(self, name, *batch):
        q = self.unit(name, *batch, 4).double()
        a, b, c, d = q.unbind(-1)
        M = [1 - 2 * c * c - 2 * d * d, 2 * b * c - 2 * a * d, 2 * b * d + 2 * a * c,
             2 * b * c + 2 * a * d, 1 - 2 * b * b - 2 * d * d, 2 * c * d - 2 * a * b,
             2 * b * d - 2 * a * c, 2 * c * d + 2 * a * b, 1 - 2 * b * b - 2 * c * c]
        t = torch.stack(M, -1).reshape(tuple(batch) + (3, 3)).to(self.dt)
        return self._keep(name, t)

    @staticmethod
    def quat_entries(q):
        a, b, c, d = q
        return [[1 - 2 * c * c - 2 * d * d, 2 * b * c - 2 * a * d, 2 * b * d + 2 * a * c],
                [2 * b * c + 2 * a * d, 1 - 2 * b * b - 2 * d * d, 2 * c * d - 2 * a * b],
                [2 * b * d - 2 * a * c, 2 * c * d + 2 * a * b, 1 - 2 * b * b - 2 * c * c]]

    def _signs(self, *batch):
        s = (torch.rand(*batch) > 0.5).to(self.dt) * 2 - 1
        r = self.rng.random()
        if r < 0.1:
            s.fill_(1)
        elif r < 0.2:
            s.fill_(-1)
        return s

    def o3(self, name, *batch, sign=None):
        R = self.rotmat(name, *batch).flatten(-2)
        c = self._signs(*batch, 1) if sign is None else torch.full((*batch, 1), float(sign))
        return self._keep(name, torch.cat((c, R), -1))

    def o2(self, name, *batch, sign=None):
        a = self.tensor(name, *batch, 1)
        c = self._signs(*batch, 1) if sign is None else torch.full((*batch, 1), float(sign))
        return self._keep(name, torch.cat((c, a), -1))

    def permuted(self, t):
        n = t.dim()
        if n < 2:
            return t
        r = torch.empty(tuple(reversed(t.shape)), dtype=t.dtype).permute(*range(n - 1, -1, -1))
        r.copy_(t)
        return r

    def func(self, name):
        r = random.Random(name)

        def f(*a):
            return sum(math.sin(float(x) * (1 + r.random())) for x in a)
        return f

    def build(self, dims, f, dtype=None):
        dims = [int(d) for d in dims]
        t = torch.zeros(dims, dtype=dtype or self.dt)
        for ix in itertools.product(*[range(d) for d in dims]):
            t[ix] = f(*ix)
        return t

    def unsupported(self, what):
        raise Skip()

    def rowfn(self, name, *shape):
        def f(x, y):
            return ((x - y) ** 2).sum(-1).sqrt()

        def entries(u, v):
            return math.sqrt(sum((a - b) ** 2 for a, b in zip(u, v)))
        return f, entries

    def argsort_over(self, n, f, i):
        return sorted(range(int(n)), key=f)[int(i)]

    def argmin_over(self, n, f):
        return min(range(int(n)), key=f)

    # ------------------------------------------------------ calls
    def stub(self, mod, name, nin, *out):
        import contextlib
        return contextlib.nullcontext()

    def summary(self, mod, name, f):
        import contextlib
        return contextlib.nullcontext()

    def call(self, f, *a, **k):
        if self.evaluate and isinstance(f, torch.nn.Module):
            f.eval()
        snap = self._snapshot([f, a, k])
        try:
            with self.draws():
                r = f(*a, **k)
        except Exception as e:
            self.exception(f, e)
            raise Stop()
        self._check_frame(f, snap)
        return r

    @contextlib.contextmanager
    def draws(self):
        """every fourth trial: uniform draws hit their extreme and middle values"""
        if not self.edgy or getattr(torch.rand, "edgy", False):
            yield
            return
        rand = torch.rand

        def edges(*a, **k):
            t = rand(*a, **k)
            u = rand(t.shape)
            for j, v in enumerate((0.0, 0.5, 1 - 2.0 ** -24)):
                t = torch.where(((0.2 * j <= u) & (u < 0.2 * j + 0.2)).to(t.device), torch.full_like(t, v), t)
            return t
        edges.edgy = True
        torch.rand = edges
        try:
            yield
        finally:
            torch.rand = rand

    def writes(self, allow, f, *a, **k):
        if self.evaluate and isinstance(f, torch.nn.Module):
            f.eval()
        snap = self._snapshot([f, a, k])
        try:
            with self.draws():
                r = f(*a, **k)
        except Exception as e:
            self.exception(f, e)
            raise Stop()
        self._check_frame(f, snap, allow)
        return r

    def exception(self, f, e):
        where = ""
        for fr in traceback.extract_tb(e.__traceback__):
            if "/gconv/" in fr.filename:
                where = f" at {fr.filename.split('/gconv/')[-1]}:{fr.lineno}"
        self.record("no exception from " + _nm(f), False, f"{type(e).__name__}: {e}{where}")

    def quiet(self, f, *a, **k):
        try:
            return f(*a, **k)
        except Exception as e:
            self.exception(f, e)
            raise Stop()

    def raises(self, exc, name, f, *a, **k):
        try:
            f(*a, **k)
        except exc:
            self.record(name, True, "")
            return
        except Exception as e:
            self.record(name, False, f"raised {type(e).__name__}: {e} instead of {exc.__name__}")
            return
        self.record(name, False, f"did not raise {exc.__name__}")

    def _snapshot(self, roots):
        seen, mods = {}, {}

        def walk(x, path):
            if isinstance(x, Tensor):
                if id(x) not in seen:
                    seen[id(x)] = (path, x, x.detach().clone(), x.requires_grad, tuple(x.shape))
            elif isinstance(x, (tuple, list)):
                for i, y in enumerate(x):
                    walk(y, f"{path}[{i}]")
            elif isinstance(x, dict):
                for i, y in x.items():
                    walk(y, f"{path}.{i}")
            elif isinstance(x, torch.nn.Module):
                if id(x) in mods:
                    return
                simple = {n: v for n, v in x.__dict__.items() if not n.startswith("_") and isinstance(v, (int, float, str, tuple, bool, type(None)))}
                mods[id(x)] = (path, x, simple)
                for d in (x._parameters, x._buffers, x._modules):
                    for n, v in d.items():
                        walk(v, f"{path}.{n}")
                for n, v in x.__dict__.items():
                    if isinstance(v, Tensor):
                        walk(v, f"{path}.{n}")
            elif isinstance(getattr(x, "__self__", None), torch.nn.Module):
                walk(x.__self__, path)
        walk(roots[0], "self")
        for i, y in enumerate(roots[1]):
            walk(y, f"arg{i}")
        for n, y in roots[2].items():
            walk(y, n)
        for mn, m in self.mods.items():
            for n, v in list(m.__dict__.items()):
                if isinstance(v, Tensor):
                    walk(v, f"{mn}.{n}")
        return seen, mods, self._globals()

    @staticmethod
    def _globals():
        return {"gradients": torch.is_grad_enabled(), "seed": torch.initial_seed(), "default dtype": torch.get_default_dtype()}

    def _check_frame(self, f, snap, allow=()):
        seen, mods, glob = snap
        bad = [(k, "global state changed") for k, v in self._globals().items() if v != glob[k]]
        torch.set_grad_enabled(glob["gradients"])
        torch.set_default_dtype(glob["default dtype"])
        for path, x, old, rg, shape in seen.values():
            if any(x is y for y in allow):
                continue
            if tuple(x.shape) != shape or not torch.equal(torch.nan_to_num(x.detach()) if x.is_floating_point() else x.detach(),
                                                           torch.nan_to_num(old) if old.is_floating_point() else old):
                bad.append((path, "modified"))
            if x.requires_grad != rg:
                bad.append((path, "requires_grad changed"))
        for path, x, simple in mods.values():
            for n, v in simple.items():
                if n not in x.__dict__ or (x.__dict__[n] is not v and x.__dict__[n] != v):
                    bad.append((f"{path}.{n}", "attribute changed"))
        self.record("frame of " + _nm(f), not bad, f"modified: {bad}", kind="frame")

    # ------------------------------------------------------ obligations
    def record(self, name, ok, detail="", kind="post"):
        self.checks += 1
        if kind == "post":
            self.posts += 1
        if not ok:
            self.fail.append(dict(name=name, detail=str(detail)[:2000], kind=kind))

    def shape_is(self, t, *dims, name="shape"):
        if not isinstance(t, Tensor):
            self.record(name, False, f"not a tensor: {type(t).__name__}")
            raise Stop()
        ok = tuple(t.shape) == tuple(int(d) for d in dims)
        self.record(name, ok, f"{tuple(t.shape)} instead of {dims}")
        if not ok:
            raise Stop()

    def same_object(self, name, x, y):
        self.record(name, x is y, "different objects")

    def is_value(self, name, x, y):
        self.record(name, bool(x == y), f"{x!r} instead of {y!r}")

    def check(self, name, goal):
        self.forall(name, (), lambda: goal if not callable(goal) else goal())

    lemma = check

    def forall(self, name, dims, f, hyp=None, cap=150):
        dims = [int(d) for d in dims]
        tot = 1
        for d in dims:
            tot *= d
        if tot == 0:
            return
        if tot <= cap:
            it = itertools.product(*[range(d) for d in dims])
        else:
            it = [tuple(self.rng.randrange(d) for d in dims) for _ in range(cap)]
        for ix in it:
            if hyp is not None:
                h = hyp(*ix)
                if not (h.ok if isinstance(h, G) else h):
                    continue
            try:
                gs = f(*ix)
            except SpecShape as e:
                self.record(name, False, str(e))
                return
            for g in self._flat(gs):
                self.checks += 1
                self.posts += 1
                if not g.ok:
                    self.record(name, False, f"at {ix}: {g.msg}")
                    return

    def either(self, name, dims, fs):
        n, first, st = len(self.fail), None, self.rng.getstate()
        for f in fs:
            self.rng.setstate(st)
            self.forall(name, dims, f)
            if len(self.fail) == n:
                return
            first = first or self.fail[n:]
            del self.fail[n:]
        self.fail += first or []

    def _flat(self, g):
        if isinstance(g, (list, tuple)):
            for x in g:
                yield from self._flat(x)
        elif isinstance(g, G):
            yield g
        else:
            yield G(g, "condition is false")

    def well_defined(self, name=""):
        pass

    def clear_denoms(self):
        pass

    # ------------------------------------------------------ spec language
    def E(self, t):
        return Elems(t)

    def _t(self, tol):
        return self.tol if tol is None else max(tol, self.tol)

    def eq(self, x, y, tol=None):
        if isinstance(x, bool) or isinstance(y, bool):
            return G(bool(x) == bool(y), f"{x} != {y}")
        if isinstance(x, int) and isinstance(y, int):
            return G(x == y, f"{x} != {y}")
        x, y = float(x), float(y)
        if x == y:
            return G(True)
        t = self._t(tol)
        return G(abs(x - y) <= t * (1 + max(abs(x), abs(y))), f"{x} != {y}")

    def eq_angle(self, x, y, tol=None):
        t = self._t(tol)
        d = math.remainder(float(x) - float(y), 2 * math.pi)
        return G(abs(d) <= t * 10, f"angle {x} != {y}")

    def eq_fmod(self, o, v, m):
        d = math.remainder(float(o) - float(v), m)
        return G(abs(d) <= self.tol * (1 + abs(v)) and -self.tol <= o <= m + self.tol, f"{o} is not {v} modulo {m}")

    def le(self, x, y, tol=None):
        t = self._t(tol)
        return G(float(x) <= float(y) + t * (1 + abs(float(y)) if math.isfinite(float(y)) else 1), f"{x} > {y}")

    def lt(self, x, y, tol=None):
        if isinstance(x, int) and isinstance(y, int):
            return G(x < y, f"{x} >= {y}")
        t = self._t(tol)
        return G(float(x) < float(y) + t * (1 + abs(float(y)) if math.isfinite(float(y)) else 1), f"{x} >= {y}")

    def ne(self, x, y):
        return G(x != y, f"{x} == {y}")

    def iff(self, x, y):
        x = x.ok if isinstance(x, G) else bool(x)
        y = y.ok if isinstance(y, G) else bool(y)
        return G(x == y, f"{x} is not equivalent to {y}")

    def true(self, x):
        return x if isinstance(x, G) else G(bool(x), "condition is false")

    def implies(self, h, goal):
        if not (h.ok if isinstance(h, G) else h):
            return []
        return goal() if callable(goal) else goal

    def cond_lt(self, x, y):
        return x < y

    def cond_le(self, x, y):
        return x <= y

    def cond_eq(self, x, y):
        return x == y

    def band(self, *a):
        return all(a)

    def bor(self, *a):
        return any(a)

    def bnot(self, a):
        return not a

    def ite(self, c, a, b):
        return a if c else b

    def ind(self, c):
        return 1 if c else 0

    def sum(self, n, f):
        return sum(f(i) for i in range(int(n)))

    def min_over(self, n, f):
        return min(f(i) for i in range(int(n)))

    def max_over(self, n, f):
        return max(f(i) for i in range(int(n)))

    def cos(self, x):
        return math.cos(x)

    def sin(self, x):
        return math.sin(x)

    def sqrt(self, x):
        return math.sqrt(max(x, 0.0))

    def abs(self, x):
        return abs(x)

    def exp(self, x):
        return math.exp(x)

    def log(self, x):
        return math.log(x)

    def acos(self, x):
        return math.acos(max(-1.0, min(1.0, x)))

    def atan2(self, y, x):
        return math.atan2(y, x)

    def fmod(self, x, m):
        return x % m

    def fdiv(self, x, n):
        return x // n

    def imod(self, x, n):
        return x % n

    def div(self, x, y):
        return x / y

    def int(self, x):
        return int(x)

    def pyint(self, x):
        return int(x)

    def numel(self, *dims):
        r = 1
        for d in dims:
            r *= d
        return r

    def with_grad_off(self):
        return torch.no_grad()


def _nm(f):
    if isinstance(f, torch.nn.Module):
        return type(f).__name__ + ".forward"
    return getattr(f, "__qualname__", getattr(f, "__name__", str(f)))


def short(x):
    if isinstance(x, Tensor):
        return {"shape": list(x.shape), "dtype": str(x.dtype), "values": x.detach().double().reshape(-1).tolist()[:400] if x.numel() else []}
    return x


def run_trial(con, mods, seed, hints=None, f32=False):
    ctx = RealCtx(con, mods, seed, hints, torch.float32 if f32 else torch.float64)
    try:
        con.f(ctx)
    except Stop:
        pass
    except Skip:
        return None
    except SpecShape as e:
        ctx.record("specification", False, str(e))
    finally:
        torch.set_default_dtype(torch.float32)
        torch.set_grad_enabled(True)
    return ctx
