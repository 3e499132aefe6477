"""One harness, two worlds.

SymWorld : the real code is executed on symbolic tensors; every W.* obligation is a
           verification condition handed to the prover.
ConcWorld: the same harness on real torch tensors (float64) with literal sizes;
           used to replay counter-models, to cross-check the symbolic engine and as
           the bounded stand-in where the engine cannot reach.
"""
from __future__ import annotations
import math, random, time, traceback, itertools, sys
import torch


class Fail(Exception):
    """obligation failed in the concrete world"""

    def __init__(self, name, msg):
        self.name, self.msg = name, msg
        super().__init__(f"{name}: {msg}")


class Skip(Exception):
    """instance outside the precondition"""


# =============================================================== concrete
class ConcWorld:
    sym = False

    def __init__(self, seed, dims=None, maxdim=3, forced=None):
        self.forced = forced or {}      # counter-model: "fn[i, j]" -> value
        self.drawlog = []
        self.rng = random.Random(seed)
        self.seed = seed
        self.dims = dict(dims or {})
        self.maxdim = maxdim
        self.used = {}
        self.inputs = {}
        self.n_checks = 0
        self.names = {}
        self.notes = []

    def dim(self, name, lo=1, hi=None):
        if name not in self.used:
            if name in self.dims:
                v = max(lo, int(self.dims[name]))
            else:
                v = self.rng.randint(lo, max(lo, min(hi - 1 if hi else 10 ** 9, lo + self.maxdim - 1)))
            self.used[name] = v
        return self.used[name]

    def choice(self, name, options):
        if name in self.dims and self.dims[name] in options:
            v = self.dims[name]
        else:
            v = self.rng.choice(list(options))
        self.used[name] = v
        return v

    def tensor(self, name, shape, kind="real", lo=None, hi=None):
        shape = [int(s) for s in shape]
        n = math.prod(shape)
        r = self.rng
        if kind == "real":
            v = [r.choice([r.gauss(0, 1.5), r.gauss(0, 1.5), 0.0, r.uniform(-4, 4)]) for _ in range(n)]
        elif kind == "pos":
            v = [math.exp(r.uniform(-2, 2)) for _ in range(n)]
        elif kind == "unit":   # (0,1)
            v = [r.uniform(0.02, 0.98) for _ in range(n)]
        elif kind == "ll":     # log-likelihoods, including -inf rarely
            v = [-math.inf if r.random() < 0.04 else r.uniform(-6, 1.5) for _ in range(n)]
        elif kind == "bool":
            v = [r.random() < 0.5 for _ in range(n)]
        elif kind == "int":
            v = [r.randrange(lo, hi) for _ in range(n)]
        else:
            raise KeyError(kind)
        if self.forced:
            for k, i in enumerate(itertools.product(*[range(s) for s in shape])):
                x = self.forced.get(f"{name}{list(i)}")
                if x is not None:
                    v[k] = x / (1 + x) if kind == "unit" else x
        d = torch.bool if kind == "bool" else torch.int64 if kind == "int" else torch.get_default_dtype()
        t = torch.tensor(v, dtype=d).reshape(shape)
        self.inputs[name] = t.clone()
        return t

    def data(self, name, shape, kind="real", nan=True, lo=None, hi=None):
        """data tensor with NaN holes; returns (tensor, miss(i,j)->bool, val(i,j))"""
        t = self.tensor(name, shape, kind, lo, hi)
        if t.dtype != torch.get_default_dtype():
            t = t.to(torch.get_default_dtype())
        base = t.clone()
        p = self.rng.choice([0.0, 0.3, 0.6, 1.0]) if nan else 0.0
        m = torch.tensor([self.rng.random() < p for _ in range(base.numel())], dtype=torch.bool).reshape(base.shape)
        if self.forced:
            for i in itertools.product(*[range(int(s)) for s in shape]):
                x = self.forced.get(f"{name}?{list(i)}")
                if x is not None:
                    m[i] = bool(x) and nan
        t[m] = math.nan
        self.inputs[name] = t.clone()
        return t, (lambda *i: bool(m[i])), (lambda *i: base[i].item())

    def require(self, c):
        if not c:
            raise Skip()

    def at(self, t, *idx):
        return t[tuple(int(i) for i in idx)].item()

    # spec language
    def sum(self, dim, f):
        return sum(f(i) for i in range(int(dim)))

    def prod(self, dim, f):
        return math.prod(f(i) for i in range(int(dim)))

    def max(self, dim, f):
        return max(f(i) for i in range(int(dim)))

    def all(self, dim, f):
        return all(f(i) for i in range(int(dim)))

    def any(self, dim, f):
        return any(f(i) for i in range(int(dim)))

    def argmax(self, dim, f):
        xs = [f(i) for i in range(int(dim))]
        return max(range(len(xs)), key=lambda i: (xs[i], -i))

    def exp(self, x):
        try:
            return math.exp(x)
        except OverflowError:
            return math.inf

    def log(self, x):
        if x != x:
            return math.nan
        return -math.inf if x <= 0 else math.log(x)

    def ite(self, c, a, b):
        return (a() if callable(a) else a) if c else (b() if callable(b) else b)

    def and_(self, *c):
        return all(c)

    def or_(self, *c):
        return any(c)

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or b

    def eq(self, a, b):
        return a == b

    def eq_bool(self, a, b):
        return bool(a) == bool(b)

    def same(self, a, b):
        return close(a, b, 1e-9)

    def lt(self, a, b):
        return a < b

    def le(self, a, b):
        return a <= b

    def fn(self, name, *x):
        from .prove import Env
        return Env({}).fn(name, [float(v) for v in x])

    def sqrt(self, x):
        return math.sqrt(x)

    def perm(self, name, n):
        if name not in self.used:
            p = list(range(n))
            self.rng.shuffle(p)
            self.used[name] = p
        return self.used[name]

    def frac(self, a, b):
        """the rational number a/b"""
        return a / b

    def pick(self, i, n, f):
        return f(int(i))

    def fdiv(self, a, b):
        return int(a) // int(b)

    def fmod(self, a, b):
        return int(a) % int(b)

    def isnan(self, x):
        return x != x

    nan = math.nan
    ninf = -math.inf

    # obligations
    def _rec(self, name):
        self.n_checks += 1
        self.names[name] = self.names.get(name, 0) + 1

    def check_eq(self, name, t, shape, spec, tol=1e-7, note=""):
        self._rec(name)
        shape = [int(s) for s in shape]
        if list(t.shape) != shape:
            raise Fail(name, f"result has shape {list(t.shape)}, expected {shape}")
        for i in itertools.product(*[range(s) for s in shape]):
            got = t[i].item()
            want = spec(*i)
            if not close(got, want, tol):
                raise Fail(name, f"element {list(i)}: code gives {got!r}, specification says {want!r}")

    def check(self, name, cond, msg=""):
        self._rec(name)
        if not cond:
            raise Fail(name, msg() if callable(msg) else msg or "condition is false")

    def check_all(self, name, shape, f, msg=""):
        self._rec(name)
        for i in itertools.product(*[range(int(s)) for s in shape]):
            if not f(*i):
                raise Fail(name, f"fails at index {list(i)} {msg}")

    def check_val(self, name, a, b, tol=1e-7):
        self._rec(name)
        if not close(a, b, tol):
            raise Fail(name, f"code gives {a!r}, specification says {b!r}")

    def raises(self, name, exc, f):
        """obligation: f() raises one of exc"""
        self._rec(name)
        try:
            f()
        except exc:
            return
        except Exception as e:
            raise Fail(name, f"raised {type(e).__name__}: {e} instead of {exc}")
        raise Fail(name, "was accepted (no exception raised)")

    def note(self, s):
        self.notes.append(s)

    def draws(self):
        return list(self.drawlog)


class Draw:
    """one logged random draw: kind, shape of the result, val(*idx), prob(*row, k) (unnormalised)"""

    def __init__(self, kind, shape, val, prob=None):
        self.kind, self.shape, self.val, self.prob = kind, shape, val, prob


from torch.utils._python_dispatch import TorchDispatchMode


class DrawMode(TorchDispatchMode):
    """concrete world: log random draws; categorical outcomes are picked uniformly from the
    support so that rare outcomes are exercised."""

    def __init__(self, W):
        super().__init__()
        self.W = W

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        n = func._schema.name.split("::")[1]
        if n == "multinomial":
            p = args[0].detach().clone()
            ns = args[1] if len(args) > 1 else kwargs["num_samples"]
            flat = p.reshape(-1, p.shape[-1])
            if torch.isnan(p).any() or (p < 0).any() or torch.isinf(p).any() or (flat.sum(-1) <= 0).any():
                return func(*args, **kwargs)    # let torch complain
            out = torch.zeros(flat.shape[0], ns, dtype=torch.int64)
            for r in range(flat.shape[0]):
                sup = [k for k in range(flat.shape[1]) if flat[r, k] > 0]
                for s in range(ns):
                    out[r, s] = self.W.rng.choice(sup)
            out = out.reshape(list(p.shape[:-1]) + [ns])
            o2 = out.clone()
            self.W.drawlog.append(Draw("multinomial", list(out.shape), lambda *i: o2[tuple(map(int, i))].item(),
                                   lambda *i: p[tuple(map(int, i))].item()))
            return out
        out = func(*args, **kwargs)
        if n in ("bernoulli", "normal", "normal_", "rand", "rand_like", "randn", "randn_like", "uniform_", "exponential_",
                 "randint", "poisson", "binomial", "_standard_gamma", "bernoulli_", "normal_functional", "randperm"):
            o2 = out.detach().clone()
            k = n.rstrip("_")
            pr = None
            if n == "bernoulli" and isinstance(args[0], torch.Tensor):
                pp = args[0].detach().clone()
                pr = lambda *i: pp[tuple(map(int, i))].item()
            self.W.drawlog.append(Draw(k, list(o2.shape), lambda *i: o2[tuple(map(int, i))].item(), pr))
        return out


def close(a, b, tol):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    a, b = float(a), float(b)
    if a != a or b != b:
        return a != a and b != b
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


# =============================================================== symbolic
class SymWorld:
    sym = True

    def __init__(self, path, conc_dims=None, bounds_=None):
        from . import terms as tm
        from . import symt
        self.tm, self.st, self.path = tm, symt, path
        self.fixed = dict(conc_dims or {})
        self.dimvars = {}
        self.obl = []
        self.inputs = {}
        self.choices = {}
        self.notes = []

    def dim(self, name, lo=1, hi=None):
        if name in self.fixed:
            return max(lo, self.fixed[name])
        if name not in self.dimvars:
            tm = self.tm
            self.dimvars[name] = tm.var(name, tm.C(lo), None)      # hi limits the concrete lane only
        return self.st.to_size(self.dimvars[name])

    def choice(self, name, options):
        v = self.choices.get(name)
        if name in self.fixed and self.fixed[name] in options:
            return self.fixed[name]
        # enumerate every option as separate path
        options = list(options)
        k = self.tm.var("choice:" + name, self.tm.C(0), self.tm.C(len(options)))
        for i, o in enumerate(options[:-1]):
            if self.path.decide(self.tm.eq(k, self.tm.C(i)), "choice " + name):
                self.choices[name] = o
                return o
        self.choices[name] = options[-1]
        return options[-1]

    def tensor(self, name, shape, kind="real", lo=None, hi=None):
        tm = self.tm
        gen = None
        if kind == "unit":
            gen = lambda rng, env, idx: rng.uniform(0.02, 0.98)
        f = tm.Fn(name, "bool" if kind == "bool" else "int" if kind == "int" else "real",
                  None if lo is None else self.st.of_size(lo), None if hi is None else self.st.of_size(hi),
                  kind in ("pos", "unit"), gen)
        d = torch.bool if kind == "bool" else torch.int64 if kind == "int" else torch.get_default_dtype()
        self.inputs[name] = (f, kind, [self.st.of_size(s) for s in shape])
        if kind == "unit":
            # 0 < x < 1: x = u/(1+u), u > 0
            g = lambda *i: (lambda u: tm.div(u, tm.C(1) + u))(f(*i))
            f.gen = lambda rng, env, idx: math.exp(rng.uniform(-2, 2))
            return self.st.sym_tensor(g, shape, d)
        return self.st.sym_tensor(f, shape, d)

    def data(self, name, shape, kind="real", nan=True, lo=None, hi=None):
        tm = self.tm
        f = tm.Fn(name, "int" if kind == "int" else "real", None if lo is None else self.st.of_size(lo),
                  None if hi is None else self.st.of_size(hi), kind == "pos")
        m = tm.Fn(name + "?", "bool")
        self.inputs[name] = (f, kind, [self.st.of_size(s) for s in shape])
        if nan:
            t = self.st.sym_tensor(lambda *i: tm.ite(m(*i), tm.NAN, f(*i)), shape)
        else:
            t = self.st.sym_tensor(f, shape)
        return t, (lambda *i: m(*i) if nan else tm.FALSE), (lambda *i: f(*i))

    def require(self, c):
        if isinstance(c, bool):
            if not c:
                raise self.st.Infeasible()
            return
        self.path.assume(self._b(c))

    def _b(self, c):
        if isinstance(c, bool):
            return self.tm.bconst(c)
        if isinstance(c, torch.SymBool):
            return c.node.e
        return c

    def at(self, t, *idx):
        if isinstance(t, self.st.ST):
            return t.at(*idx)
        return self.st.real_reader(t)(tuple(self.tm.lift(i) for i in idx))

    def sum(self, dim, f):
        return self.tm.Sum(self.st.of_size(dim), f)

    def prod(self, dim, f):
        return self.tm.Prod(self.st.of_size(dim), f)

    def max(self, dim, f):
        return self.tm.Max(self.st.of_size(dim), f)

    def all(self, dim, f):
        return self.tm.All(self.st.of_size(dim), lambda i: self._b(f(i)))

    def any(self, dim, f):
        return self.tm.Any(self.st.of_size(dim), lambda i: self._b(f(i)))

    def argmax(self, dim, f):
        return self.tm.Argmax(self.st.of_size(dim), f)

    def exp(self, x):
        return self.tm.exp(self.tm.lift(x))

    def log(self, x):
        return self.tm.log(self.tm.lift(x))

    def ite(self, c, a, b):
        c = self._b(c)
        if c is self.tm.TRUE:
            return self.tm.lift(a() if callable(a) else a)
        if c is self.tm.FALSE:
            return self.tm.lift(b() if callable(b) else b)
        a = a() if callable(a) else a
        b = b() if callable(b) else b
        return self.tm.ite(c, self.tm.lift(a), self.tm.lift(b))

    def and_(self, *c):
        return self.tm.and_(*[self._b(x) for x in c])

    def or_(self, *c):
        return self.tm.or_(*[self._b(x) for x in c])

    def not_(self, c):
        return self.tm.not_(self._b(c))

    def implies(self, a, b):
        return self.tm.implies(self._b(a), self._b(b))

    def eq(self, a, b):
        return self.tm.eq(self.tm.lift(a), self.tm.lift(b))

    def same(self, a, b):
        return self.eq(a, b)

    def eq_bool(self, a, b):
        a, b = self._b(a), self._b(b)
        return self.tm.and_(self.tm.implies(a, b), self.tm.implies(b, a))

    def lt(self, a, b):
        return self.tm.lt(self.tm.lift(a), self.tm.lift(b))

    def le(self, a, b):
        return self.tm.le(self.tm.lift(a), self.tm.lift(b))

    def fn(self, name, *x):
        if name == "pi":
            return self.tm.PI
        return self.tm.fn(name, *x)

    def sqrt(self, x):
        return self.tm.sqrt(self.tm.lift(x))

    def perm(self, name, n):
        """an arbitrary but fixed permutation (a literal one in this lane: bounded)"""
        p = list(range(n))
        random.Random(n * 7 + 1).shuffle(p)
        return p

    def frac(self, a, b):
        from fractions import Fraction
        return self.tm.C(Fraction(a, b))

    def pick(self, i, n, f):
        """f(i) for an index i in [0, n), n literal: case analysis on i"""
        n = int(n)
        i = self.tm.lift(i)
        out = self.tm.lift(f(n - 1))
        for k in reversed(range(n - 1)):
            out = self.tm.ite(self.tm.eq(i, self.tm.C(k)), self.tm.lift(f(k)), out)
        return out

    def fdiv(self, a, b):
        return self.tm.idiv(self._i(a), self._i(b))

    def fmod(self, a, b):
        return self.tm.imod(self._i(a), self._i(b))

    def _i(self, a):
        return self.st.of_size(a) if isinstance(a, torch.SymInt) else self.tm.lift(a)

    def isnan(self, x):
        return self.tm.isnan(x)

    @property
    def nan(self):
        return self.tm.NAN

    @property
    def ninf(self):
        return self.tm.NINF

    # obligations -----------------------------------------------------
    def check_eq(self, name, t, shape, spec, tol=None, note=""):
        st, tm = self.st, self.tm
        want = [st.of_size(s) for s in shape]
        got = st.shp(t)
        if len(want) != len(got):
            self.obl.append(dict(name=name + "/shape", kind="fail", ctx=self.path.ctx,
                                 msg=f"result has {len(got)} dims, expected {len(want)}"))
            return
        for k, (w, g) in enumerate(zip(want, got)):
            if w != g:
                self.obl.append(dict(name=f"{name}/shape{k}", kind="b", goal=tm.eq(w, g), ctx=self.path.ctx))
        idx = self._idx(name, want)
        lhs = st.rd(t)(idx)
        rhs = spec(*idx)
        if isinstance(lhs, tm.B):
            rhs = self._b(rhs)
            self.obl.append(dict(name=name, kind="b", ctx=self.path.ctx, idx=idx,
                                 goal=tm.and_(tm.implies(lhs, rhs), tm.implies(rhs, lhs))))
        else:
            self.obl.append(dict(name=name, kind="eq", a=lhs, b=tm.lift(rhs), ctx=self.path.ctx, idx=idx))

    def _idx(self, name, dims):
        tm = self.tm
        return tuple(tm.C(0) if w.const() == 1 else tm.var(f"i{k}@{name}", tm.C(0), w) for k, w in enumerate(dims))

    def check(self, name, cond, msg=""):
        self.obl.append(dict(name=name, kind="b", goal=self._b(cond), ctx=self.path.ctx, idx=()))

    def check_all(self, name, shape, f, msg=""):
        tm = self.tm
        idx = self._idx(name, [self.st.of_size(w) for w in shape])
        self.obl.append(dict(name=name, kind="b", goal=self._b(f(*idx)), ctx=self.path.ctx, idx=idx))

    def check_val(self, name, a, b, tol=None):
        self.obl.append(dict(name=name, kind="eq", a=self.tm.lift(a), b=self.tm.lift(b), ctx=self.path.ctx, idx=()))

    def raises(self, name, exc, f):
        try:
            f()
        except exc:
            self.obl.append(dict(name=name, kind="b", goal=self.tm.TRUE, ctx=self.path.ctx, idx=()))
            return
        except Exception as e:
            self.obl.append(dict(name=name, kind="fail", ctx=self.path.ctx,
                                 msg=f"raised {type(e).__name__}: {str(e)[:200]} instead of {exc}"))
            return
        self.obl.append(dict(name=name, kind="fail", ctx=self.path.ctx, msg="was accepted (no exception raised)"))

    def note(self, s):
        self.notes.append(s)

    def draws(self):
        out = []
        for d in self.path.draws:
            f, info = d["fn"], d.get("info") or {}
            pr = None
            if "probs" in info:
                pr = (lambda g: lambda *i: g(tuple(self.tm.lift(x) for x in i)))(info["probs"])
            elif "p" in info:
                pr = (lambda g: lambda *i: g(tuple(self.tm.lift(x) for x in i)))(info["p"])
            out.append(Draw(d["kind"], [self.st.to_size(self.st.of_size(x)) for x in d["shape"]],
                            (lambda f: lambda *i: f(*i))(f), pr))
        return out
