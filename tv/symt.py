"""Symbolic tensors: the real spflow/torch code runs unmodified; every ATen call is
intercepted and given index-level semantics over terms.  Sizes are torch.SymInt
backed by polynomials (class Node)."""
from __future__ import annotations
import itertools
import math, time, sys
from fractions import Fraction
import torch
from torch.utils._python_dispatch import TorchDispatchMode, _disable_current_modes
import torch.utils._pytree as pt
from . import terms as tm
from .terms import *
from .terms import _divide, _mk
from .prove import Ctx, prove_eq, prove_b, Budget, Timeout, has_bvar

aten = torch.ops.aten


class Unsupported(BaseException):
    pass


class NeedConcrete(BaseException):
    def __init__(self, t):
        self.t = t
        super().__init__(f"needs a literal value for {t}")


class Infeasible(BaseException):
    pass


# ---------------------------------------------------------------- path explorer
class Path:
    def __init__(self, prefix=(), deadline=None):
        self.prefix = list(prefix)
        self.taken = []
        self.alts = []
        self.ctx = Ctx(deadline=deadline)
        self.draws = []        # logged random draws
        self.fresh = {}
        self.log = []

    def decide(self, b, why=""):
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        r = self.ctx.decide(b)
        if r is not None:
            return r
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = True
            self.alts.append(self.taken + [False])
            if len(self.taken) > 40:
                raise Unsupported("too many forks")
        self.taken.append(v)
        self.log.append((v, b, why))
        c = self.ctx.with_fact(b if v else not_(b))
        if c is None:
            raise Infeasible()
        self.ctx = c
        return v

    def assume(self, b):
        c = self.ctx.with_fact(b)
        if c is None:
            raise Infeasible()
        self.ctx = c


CUR: list = [None]


def cur() -> Path:
    return CUR[0]


def fresh_size_index(n):
    """an arbitrary index into range(n)"""
    return torch.SymInt(Node(fresh_index(of_size(n))))


def isqrt(t):
    """square root of a term that is a perfect square monomial of non-negative sizes"""
    t = cur().ctx.simp(t) if cur() is not None else t
    if len(t.m) == 1:
        (mono, c), = t.m.items()
        r = math.isqrt(int(c)) if c == int(c) and c >= 0 else -1
        if r * r == c and all(e % 2 == 0 and a.sort == "int" for a, e in mono):
            out = C(r)
            for a, e in mono:
                for _ in range(e // 2):
                    out = out * tm.A(a)
            return out
    raise Unsupported("square root of a size")


# ---------------------------------------------------------------- SymInt nodes
class Node:
    __slots__ = ("e", "k")

    def __init__(self, e, k="int"):
        self.e, self.k = e, k

    def is_int(self):
        return self.k == "int"

    def is_bool(self):
        return self.k == "bool"

    def is_float(self):
        return self.k == "float"

    def is_nested_int(self):
        return False

    def is_symbolic(self):
        return True

    def is_constant(self):
        return False

    def maybe_as_int(self):
        c = self.e.const() if self.k == "int" else None
        return int(c) if c is not None else None

    def constant_int(self):
        return None

    def constant_bool(self):
        return None

    def has_hint(self):
        return False

    def singleton_int(self):
        return None

    def nested_int(self):
        return None

    def wrap_int(self, n):
        return Node(C(int(n)))

    def wrap_bool(self, n):
        return Node(bconst(n), "bool")

    def wrap_float(self, n):
        return Node(C(float(n)), "float")

    def clone(self):
        return self

    def str(self):
        return show(self.e) if self.k != "bool" else show_b(self.e)

    _graph_repr = str

    def __repr__(self):
        return self.str()

    def guard_int(self, f="", l=0):
        c = self.e.const()
        if c is None:
            s = cur().ctx.simp(self.e)
            c = s.const()
        if c is None:
            raise NeedConcrete(self.e)
        return int(c)

    int_ = guard_int

    def guard_float(self, f="", l=0):
        c = self.e.const()
        if c is None:
            raise NeedConcrete(self.e)
        return float(c)

    def guard_bool(self, f="", l=0):
        return cur().decide(self.e if self.k == "bool" else not_(tm.eq(self.e, C(0))), "size")

    bool_ = guard_bool

    def guard_size_oblivious(self, f="", l=0):
        return cur().decide(self.e, "size")

    def guard_or_false(self, f="", l=0):
        return cur().ctx.decide(self.e, z=False) is True

    def guard_or_true(self, f="", l=0):
        return cur().ctx.decide(self.e, z=False) is not False

    def expect_true(self, f="", l=0):
        return cur().decide(self.e, "size")

    def expect_size(self, f="", l=0):
        return True

    def statically_known_true(self, f="", l=0):
        return cur().ctx.decide(self.e, z=False) is True

    def is_contiguous(self, *a):
        return self.wrap_bool(True)

    def is_non_overlapping_and_dense(self, *a):
        return self.wrap_bool(True)

    def is_channels_last_contiguous_2d(self, *a):
        return self.wrap_bool(False)
    is_channels_last_contiguous_3d = is_channels_last_strides_2d = is_channels_last_strides_3d = \
        is_channels_last_contiguous_2d

    def is_non_overlapping_and_dense_indicator(self, *a):
        return self.wrap_int(1)

    def _b(f, k):
        def g(self, o):
            return Node(f(self.e, o.e), k if k != "num" else
                        ("float" if "float" in (self.k, o.k) else "int"))
        return g
    add = _b(lambda a, b: a + b, "num")
    sub = _b(lambda a, b: a - b, "num")
    mul = _b(lambda a, b: a * b, "num")
    floordiv = int_floordiv = _b(idiv, "int")
    mod = _b(imod, "int")
    truediv = int_truediv = float_truediv = _b(div, "float")
    pow = _b(lambda a, b: isqrt(a) if b.const() is not None and float(b.const()) == 0.5 else tm.fn("pow", a, b), "num")

    def sqrt(self):
        return Node(isqrt(self.e), "float")
    sym_sqrt = sqrt
    float_pow = _b(lambda a, b: isqrt(a) if b.const() is not None and float(b.const()) == 0.5 else tm.fn("pow", a, b), "num")
    pow_by_natural = pow
    eq = _b(tm.eq, "bool")
    ne = _b(lambda a, b: not_(tm.eq(a, b)), "bool")
    lt = _b(lt, "bool")
    le = _b(le, "bool")
    gt = _b(lambda a, b: tm.lt(b, a), "bool")
    ge = _b(lambda a, b: tm.le(b, a), "bool")
    sym_max = _b(tmax, "num")
    sym_min = _b(tmin, "num")
    and_ = sym_and = _b(tm.and_, "bool")
    or_ = sym_or = _b(tm.or_, "bool")

    def neg(self):
        return Node(-self.e, self.k)

    def sym_not(self):
        return Node(not_(self.e), "bool")

    def sym_float(self):
        return Node(self.e, "float")

    def sym_int(self):
        return Node(tm.fn("trunc", self.e), "int")

    def ceil(self):
        return Node(tm.fn("ceil", self.e), "int")

    def floor(self):
        return Node(tm.fn("floor", self.e), "int")

    def trunc(self):
        return Node(tm.fn("trunc", self.e), "int")

    def round(self, n=None):
        return Node(tm.fn("round", self.e), "int")

    def sym_sum(self, args):
        r = C(0)
        for a in args:
            r = r + a.e
        return Node(r)

    def sym_ite(self, a, b):
        return Node(ite(self.e, a.e, b.e), a.k)


def to_size(t):
    if isinstance(t, int):
        return t
    c = t.const()
    if c is None and cur() is not None and cur().ctx.sub:
        t = cur().ctx.simp(t)
        c = t.const()
    return int(c) if c is not None else torch.SymInt(Node(t))


def of_size(s):
    """int/SymInt -> T"""
    if isinstance(s, torch.SymInt):
        return s.node.e
    if isinstance(s, (torch.SymFloat,)):
        return s.node.e
    if isinstance(s, torch.SymBool):
        return ite(s.node.e, C(1), C(0))
    if isinstance(s, T):
        return s
    return C(s)


def _lift(v):
    if isinstance(v, (torch.SymInt, torch.SymFloat, torch.SymBool)):
        return of_size(v)
    if isinstance(v, torch.Tensor) and v.dim() == 0:
        if isinstance(v, ST):
            return v.at()
        return C(v.item())
    import numpy as np
    if isinstance(v, (np.integer,)):
        return C(int(v))
    if isinstance(v, (np.floating,)):
        return C(float(v))
    raise TypeError(f"cannot lift {type(v)}")


tm.lift_hook[0] = _lift


# ---------------------------------------------------------------- symbolic tensor
def memo(fn):
    d = {}

    def g(idx):
        r = d.get(idx)
        if r is None:
            r = d[idx] = fn(idx)
        return r
    g.memoized = True
    return g


_UID = itertools.count(1)


def symint_index(x, ix):
    """x[ix] with the symbolic integers of a plain index applied first (torch's indexing takes literal ones only)"""
    t = ix if isinstance(ix, tuple) else (ix,)
    if not any(isinstance(k, torch.SymInt) for k in t) or any(k is Ellipsis or isinstance(k, (list, bool)) for k in t):
        return x, ix
    d, rest = 0, []
    for k in t:
        if isinstance(k, torch.SymInt):
            x = x.select(d, k)
            continue
        rest.append(k)
        d += 0 if k is None else k.dim() if isinstance(k, torch.Tensor) and k.dtype == torch.bool else 1
    # the leading None entries have no place in x itself
    return x, (tuple(rest) if rest else Ellipsis)


class ST(torch.Tensor):
    @staticmethod
    def __new__(cls, shape, dtype, fn, base=None, imap=None, inv=None, requires_grad=False):
        shp = [s if isinstance(s, T) else of_size(s) for s in shape]
        size = [to_size(s) for s in shp]
        r = torch.Tensor._make_wrapper_subclass(cls, size, dtype=dtype, device=torch.device("cpu"),
                                                requires_grad=False)
        r._shp = [of_size(s) for s in size]
        r._fn = fn if fn is None or getattr(fn, "memoized", False) else memo(fn)
        r._tvb, r._imap, r._inv = base, imap, inv
        r._lazy = None
        return r

    __torch_function__ = None

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        f = TF.get(func)
        if f is not None:
            return f(*args, **kwargs)
        with torch._C.DisableTorchFunctionSubclass():
            if func is torch.Tensor.__getitem__ and len(args) == 2:
                args = symint_index(*args)
            return func(*args, **kwargs)

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})

    def snap(self):
        if self._tvb is not None:
            b, m = self._tvb.snap(), self._imap
            return lambda idx: b(m(idx))
        return self._fn

    def at(self, *idx):
        return self.snap()(tuple(lift(i) for i in idx))

    def set_fn(self, fn):
        if self._tvb is not None:
            raise Unsupported("set_fn on view")
        self._fn = memo(fn)

    def write(self, val):
        """val: idx -> term for every index of self (self's own coordinates)."""
        self.write_where(lambda idx: TRUE, val)

    def write_where(self, cond, val):
        if self._tvb is not None:
            inv = self._inv
            if inv is None:
                raise Unsupported("in-place write through this view")

            def bc(bidx):
                c, i = inv(bidx)
                return tm.and_(c, cond(i)) if c is not FALSE else FALSE

            def bv(bidx):
                return val(inv(bidx)[1])
            self._tvb.write_where(bc, bv)
            return
        old = self._fn
        isb = self.dtype == torch.bool

        def fn(idx):
            c = cond(idx)
            if c is TRUE:
                return val(idx)
            if c is FALSE:
                return old(idx)
            if isb:
                return bite(c, val(idx), old(idx))
            return ite(c, val(idx), old(idx))
        self._fn = memo(fn)

    def concrete(self):
        """materialise as a real tensor if every element is literal."""
        dims = [s.const() for s in self._shp]
        if any(d is None for d in dims):
            d = next(s for s in self._shp if s.const() is None)
            raise NeedConcrete(d)
        dims = [int(d) for d in dims]
        f = self.snap()
        import itertools
        out = []
        for i in itertools.product(*[range(d) for d in dims]):
            x = f(tuple(C(j) for j in i))
            out.append(_literal(x))
        with _disable_current_modes():
            return torch.tensor(out, dtype=self.dtype).reshape(dims)

    def tolist(self):
        return _symlist(self)

    def numpy(self, *a, **k):
        return self.concrete().numpy()

    def __array__(self, *a, **k):
        return self.concrete().numpy()

    def __repr__(self, **k):
        return f"ST({[show(s) for s in self._shp]}, {self.dtype})"

    def __deepcopy__(self, memo_):
        r = ST(self._shp, self.dtype, self.snap())
        if getattr(self, "_is_param", False):
            r._is_param = True
        memo_[id(self)] = r
        return r

    def data_ptr(self):
        """storage identity: one fresh number per distinct symbolic contents of the base tensor"""
        t = self
        while t._tvb is not None:
            t = t._tvb
        f = t._fn
        if not hasattr(f, "uid"):
            f.uid = next(_UID)
        return f.uid

    def __hash__(self):
        return id(self)

    def __format__(self, spec):
        return repr(self)


def _symlist(t):
    return t.concrete().tolist()


def _literal(x):
    if isinstance(x, B):
        if x in (TRUE, FALSE):
            return x is TRUE
        return cur().decide(x, "materialise")
    c = x.const()
    if c is None:
        if is_special(x):
            return {"ninf": -math.inf, "pinf": math.inf, "nan": math.nan}[x.atom().args[0]]
        x2 = cur().ctx.simp(x)
        c = x2.const()
        if c is None:
            raise Unsupported(f"literal value needed for {show(x)[:200]}")
    return int(c) if c.denominator == 1 else float(c)


def shp(t):
    if isinstance(t, ST):
        return list(t._shp)
    return [of_size(s) for s in t.shape]


def rd(t):
    """snapshot reader for any tensor / python scalar operand."""
    if isinstance(t, ST):
        return t.snap()
    if isinstance(t, torch.Tensor):
        return real_reader(t)
    v = lift(t)
    return lambda idx: v


def real_reader(t):
    with _disable_current_modes(), torch._C.DisableTorchFunctionSubclass():
        vals = t.detach().cpu().clone()
        flat = vals.reshape(-1).tolist()
    shape = [int(s) for s in t.shape]
    isb = t.dtype == torch.bool
    strides = []
    acc = 1
    for s in reversed(shape):
        strides.insert(0, acc)
        acc *= s
    uniform = len(set(map(repr, flat))) == 1

    def conv(v):
        return bconst(v) if isb else C(v)

    def fn(idx):
        if not flat:
            return conv(False if isb else 0)     # no element: only generic reads get here
        if uniform:
            return conv(flat[0])

        def go(k, off):
            if k == len(shape):
                return conv(flat[off])
            i = idx[k]
            c = i.const()
            if c is not None:
                return go(k + 1, off + int(c) * strides[k])
            if shape[k] > 64:
                raise Unsupported("symbolic index into large literal tensor")
            r = go(k + 1, off + (shape[k] - 1) * strides[k])
            for j in reversed(range(shape[k] - 1)):
                x = go(k + 1, off + j * strides[k])
                cnd = tm.eq(i, C(j))
                r = bite(cnd, x, r) if isb else ite(cnd, x, r)
            return r
        return go(0, 0)
    return memo(fn)


def literal_tensor(x):
    """the plain tensor a symbolic tensor denotes when its shape and all its elements are literal (else None)"""
    shp = [of_size(n).const() for n in x.shape]
    if any(n is None for n in shp) or math.prod(int(n) for n in shp) > 4096:
        return None
    shp = [int(n) for n in shp]
    f, out = x.snap(), []
    for idx in itertools.product(*[range(n) for n in shp]):
        v = f(tuple(C(i) for i in idx))
        if x.dtype == torch.bool:
            if v is not TRUE and v is not FALSE:
                return None
            out.append(v is TRUE)
            continue
        if is_special(v):
            out.append({"ninf": -math.inf, "pinf": math.inf, "nan": math.nan}[v.atom().args[0]])
            continue
        c = v.const()
        if c is None:
            return None
        out.append(float(c) if x.dtype.is_floating_point else int(c))
    with _disable_current_modes():
        return torch.tensor(out, dtype=x.dtype).reshape(shp)


def as_st(t):
    if isinstance(t, ST):
        return t
    return ST(list(t.shape), t.dtype, real_reader(t))


def cast(x, src, dst):
    """element conversion between dtypes."""
    if src == dst:
        return x
    if src == torch.bool:
        return x if dst == torch.bool else ite(x, C(1), C(0))
    if dst == torch.bool:
        return not_(tm.eq(x, C(0)))
    sf, df = src.is_floating_point, dst.is_floating_point
    if sf and not df:
        if special(x):
            if is_special(x):
                return C(-(2 ** 63))
            c, p, q = x.atom().args
            return ite(c, cast(p, src, dst), cast(q, src, dst))
        return tm.fn("trunc", x)
    return x


def dt(x):
    if isinstance(x, torch.Tensor):
        return x.dtype
    if isinstance(x, (bool, torch.SymBool)):
        return torch.bool
    if isinstance(x, (int, torch.SymInt)):
        return torch.int64
    return torch.get_default_dtype()


def result_type(*xs):
    with _disable_current_modes():
        m = []
        for x in xs:
            if isinstance(x, torch.Tensor):
                m.append(torch.empty((1,) if len(x.shape) else (), dtype=x.dtype))
            elif isinstance(x, (bool, torch.SymBool)):
                m.append(True)
            elif isinstance(x, (int, torch.SymInt)):
                m.append(1)
            else:
                m.append(1.0)
        r = m[0]
        if len(m) == 1:
            return dt(xs[0])
        d = torch.result_type(m[0], m[1])
        for x in m[2:]:
            d = torch.promote_types(d, torch.result_type(x, x) if isinstance(x, torch.Tensor) else d)
        return d


def same_dim(a, b):
    """decide a == b (forking when open)."""
    if a == b:
        return True
    return cur().decide(tm.eq(a, b), "dim")


def bshape(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        d = C(1)
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            x = s[j]
            if x == C(1):
                continue
            if d == C(1):
                d = x
            elif d != x:
                if same_dim(d, x):
                    continue
                if same_dim(d, C(1)):
                    d = x
                elif same_dim(x, C(1)):
                    continue
                else:
                    raise RuntimeError(f"The size of tensor a ({show(d)}) must match the size of tensor b ({show(x)})")
        out.append(d)
    return out


def bread(t, s, out):
    """reader of t (shape s) in broadcast coordinates out."""
    f = rd(t)
    n = len(out)
    off = n - len(s)
    ones = []
    for k, d in enumerate(s):
        o = out[off + k]
        if d == o:
            ones.append(False)
        else:
            ones.append(d == C(1) or (o != C(1) and not same_dim(d, o)) or (d != o and same_dim(d, C(1))))
    if off == 0 and not any(ones):
        return f
    z = C(0)
    return lambda idx: f(tuple(z if o else idx[off + k] for k, o in enumerate(ones)))


def new(shape, dtype, fn):
    return ST(shape, dtype, fn)


def elementwise(f, args, dtype, in_dtype=None):
    """f over terms; args: tensors/scalars broadcast.  in_dtype: cast operands."""
    ss = [shp(a) if isinstance(a, torch.Tensor) else [] for a in args]
    out = bshape(*ss)
    rs = [bread(a, s, out) if isinstance(a, torch.Tensor) else rd(a) for a, s in zip(args, ss)]
    if in_dtype is not None:
        ds = [dt(a) if isinstance(a, torch.Tensor) else None for a in args]

        def g(idx):
            xs = []
            for r, d in zip(rs, ds):
                x = r(idx)
                if d is not None:
                    x = cast(x, d, in_dtype)
                elif isinstance(x, T) and in_dtype == torch.bool:
                    x = not_(tm.eq(x, C(0)))
                xs.append(x)
            return f(*xs)
    else:
        def g(idx):
            return f(*[r(idx) for r in rs])
    return new(out, dtype, g)


def norm_dim(d, n):
    d = int(d)
    if d < -max(n, 1) or d >= max(n, 1):
        raise IndexError(f"Dimension out of range (got {d} for {n}-d)")
    return d + n if d < 0 else d


def norm_dims(dims, n):
    if dims is None or (isinstance(dims, (list, tuple)) and len(dims) == 0):
        return list(range(n))
    if isinstance(dims, int):
        dims = [dims]
    return [norm_dim(d, n) for d in dims]


def view_of(base, shape, imap, inv, dtype=None):
    return ST(shape, dtype or base.dtype, None, base=base, imap=imap, inv=inv)


def numel(s):
    r = C(1)
    for x in s:
        r = r * x
    return r


def factor_groups(old, newd):
    """match dims of two shapes of equal numel into contiguous groups."""
    groups = []
    i = j = 0
    while i < len(old) or j < len(newd):
        gi, gj = [], []
        if i < len(old):
            gi.append(i)
            i += 1
        if j < len(newd):
            gj.append(j)
            j += 1
        po = numel([old[k] for k in gi])
        pn = numel([newd[k] for k in gj])
        for _ in range(64):
            if po == pn:
                break
            # grow the side that divides the other
            q, r = _divide(pn, po) if not po.is_zero() else (None, None)
            if q is not None and r.is_zero() and i < len(old):
                gi.append(i)
                po = po * old[i]
                i += 1
                continue
            q, r = _divide(po, pn) if not pn.is_zero() else (None, None)
            if q is not None and r.is_zero() and j < len(newd):
                gj.append(j)
                pn = pn * newd[j]
                j += 1
                continue
            if i < len(old) and (j >= len(newd) or (po.const() is not None and pn.const() is not None and po.const() < pn.const())):
                gi.append(i)
                po = po * old[i]
                i += 1
                continue
            if j < len(newd) and (i >= len(old) or (po.const() is not None and pn.const() is not None)):
                gj.append(j)
                pn = pn * newd[j]
                j += 1
                continue
            # give up: all in one group
            gi += list(range(i, len(old)))
            gj += list(range(j, len(newd)))
            i, j = len(old), len(newd)
            po = numel([old[k] for k in gi])
            pn = numel([newd[k] for k in gj])
            break
        groups.append((gi, gj))
    return groups


def linear(idx, dims):
    r = C(0)
    for i, d in zip(idx, dims):
        r = r * d + i
    return r


def delinear(lin, dims):
    out = []
    rem = lin
    n = len(dims)
    for k in range(n - 1, -1, -1):
        if k == 0:
            out.insert(0, rem)
        else:
            out.insert(0, imod(rem, dims[k]))
            rem = idiv(rem, dims[k])
    return out


def reshape_maps(old, newd):
    groups = factor_groups(old, newd)

    def mk_map(src, dst, gs):
        # idx in src coords -> idx in dst coords
        def f(idx):
            out = [None] * len(dst)
            for gsrc, gdst in gs:
                if len(gsrc) == 1 and len(gdst) == 1:
                    out[gdst[0]] = idx[gsrc[0]]
                    continue
                # drop unit dims
                a = [k for k in gsrc if src[k] != C(1)]
                b = [k for k in gdst if dst[k] != C(1)]
                for k in gdst:
                    if dst[k] == C(1):
                        out[k] = C(0)
                if len(a) == 1 and len(b) == 1:
                    out[b[0]] = idx[a[0]]
                elif not b:
                    pass
                elif not a:
                    for k in b:
                        out[k] = C(0)
                else:
                    lin = linear([idx[k] for k in a], [src[k] for k in a])
                    for k, v in zip(b, delinear(lin, [dst[k] for k in b])):
                        out[k] = v
            return tuple(out)
        return f
    to_old = mk_map(newd, old, [(b, a) for a, b in groups])
    to_new = mk_map(old, newd, groups)
    return to_old, to_new


def infer_size(size, total):
    size = [of_size(s) for s in size]
    if any(s == C(-1) for s in size):
        k = next(i for i, s in enumerate(size) if s == C(-1))
        p = numel([s for i, s in enumerate(size) if i != k])
        if p.is_zero():
            raise RuntimeError("cannot reshape tensor of 0 elements")
        q, r = _divide(total, p)
        if q is not None and r.is_zero():
            size[k] = q
        else:
            if not cur().decide(tm.eq(imod(total, p), C(0)), "reshape"):
                raise RuntimeError("shape is invalid for input size")
            size[k] = idiv(total, p)
    elif not same_dim(numel(size), total):
        raise RuntimeError(f"shape {size} is invalid for input of size {show(total)}")
    return size


# ---------------------------------------------------------------- dispatch
H = {}


def reg(*names):
    def d(f):
        for n in names:
            H[n] = f
        return f
    return d


class NS(dict):
    __getattr__ = dict.__getitem__


_SEEN_OPS = set()


def has_st(args, kwargs):
    for x in pt.tree_leaves((args, kwargs)):
        if isinstance(x, (ST, torch.SymInt, torch.SymFloat, torch.SymBool)):
            return True
    return False


FACTORY = {"zeros", "ones", "full", "empty", "arange", "rand", "randn", "eye", "linspace", "scalar_tensor",
           "new_zeros", "new_ones", "new_full", "new_empty", "zeros_like", "ones_like", "empty_like", "full_like",
           "rand_like", "randn_like", "randint", "randperm", "empty_strided", "new_empty_strided", "lift_fresh",
           "tril_indices", "triu_indices", "logspace"}
RANDOM = {"rand", "randn", "rand_like", "randn_like", "randint", "randperm", "multinomial", "bernoulli", "normal",
          "uniform", "exponential", "poisson", "binomial", "_standard_gamma", "random", "geometric", "cauchy",
          "log_normal", "_sample_dirichlet", "normal_functional"}


def dispatch(func, args, kwargs):
    name = func._schema.name.split("::")[1]
    inplace = name.endswith("_") and not name.startswith("__")
    base = name[:-1] if inplace else name
    if cur() is None or (not has_st(args, kwargs) and base not in FACTORY and base not in RANDOM):
        with _disable_current_modes():
            return func(*args, **kwargs)
    if len(_SEEN_OPS) < 500:
        _SEEN_OPS.add(name)
    cur().ctx.check_time()
    h = H.get(base)
    if h is None:
        if base in FACTORY and not has_st(args, kwargs):
            with _disable_current_modes():
                out = func(*args, **kwargs)
            return as_st(out)
        # decompose
        d = torch._decomp.decomposition_table.get(func)
        if d is not None and not inplace:
            return d(*args, **kwargs)
        try:
            r = func.decompose(*args, **kwargs)
        except (NotImplementedError, RuntimeError) as e:
            r = NotImplemented
        if r is NotImplemented:
            if not inplace:
                flat, spec = pt.tree_flatten((args, kwargs))
                lit = [literal_tensor(x) if isinstance(x, ST) else x for x in flat]
                if all(x is not None or y is None for x, y in zip(lit, flat)):
                    with _disable_current_modes():
                        a2, k2 = pt.tree_unflatten(lit, spec)
                        return pt.tree_map(lambda t: as_st(t) if isinstance(t, torch.Tensor) else t, func(*a2, **k2))
            raise Unsupported(f"op {func}")
        return r
    a = NS()
    for i, s in enumerate(func._schema.arguments):
        if i < len(args) and not s.kwarg_only:
            a[s.name] = args[i]
        elif s.name in kwargs:
            a[s.name] = kwargs[s.name]
        elif s.has_default_value():
            a[s.name] = s.default_value
        else:
            a[s.name] = None
    a["_ov"] = func._schema.overload_name
    if not inplace:
        return h(a)
    if base in DIRECT:
        return h(a)
    self = a[func._schema.arguments[0].name]
    if not isinstance(self, ST):
        raise Unsupported(f"in-place {func} of symbolic values into a pre-existing tensor")
    r = h(a)
    r = as_st(r)
    f = r.snap()
    sd, dd = r.dtype, self.dtype
    self.write((lambda idx: cast(f(idx), sd, dd)) if sd != dd else f)
    return self


DIRECT = {"copy", "fill", "zero", "index_put", "scatter", "masked_fill", "resize", "set_data", "detach",
          "unsqueeze", "squeeze", "t", "transpose", "_index_put_impl", "swapaxes", "requires_grad", "normal",
          "uniform", "exponential", "bernoulli", "random", "geometric", "log_normal", "cauchy"}


# ---- elementwise ---------------------------------------------------------
def flt(d):
    return d if d.is_floating_point else torch.get_default_dtype()


def unary(f, kind="float"):
    def h(a):
        x = next(iter(a.values()))
        d = x.dtype
        if kind == "float":
            od = flt(d)
            return elementwise(f, [x], od, od)
        if kind == "same":
            return elementwise(f, [x], d, d)
        if kind == "bool":
            return elementwise(f, [x], torch.bool)
    return h


def fnx(n):
    return lambda x: tm.fn(n, x)


def sigmoid(x):
    return div(C(1), C(1) + exp(neg(x)))


def logsigmoid(x):
    return neg(log(C(1) + exp(neg(x))))


def tanh_(x):
    e = exp(C(2) * x)
    return div(e - C(1), e + C(1))


for n, f in {
    "exp": exp, "log": log, "sqrt": tm.sqrt, "lgamma": fnx("lgamma"), "erf": fnx("erf"),
    "digamma": fnx("digamma"), "sigmoid": sigmoid, "log_sigmoid": logsigmoid, "tanh": tanh_, "sin": fnx("sin"),
    "cos": fnx("cos"), "tan": fnx("tan"), "atan": fnx("atan"), "reciprocal": lambda x: div(C(1), x),
    "rsqrt": lambda x: tm.power(x, Fraction(-1, 2)), "log1p": lambda x: log(C(1) + x),
    "expm1": lambda x: exp(x) - C(1), "log2": lambda x: div(log(x), log(C(2))),
    "log10": lambda x: div(log(x), log(C(10))), "erfinv": fnx("erfinv"),
    "special_erfinv": fnx("erfinv"), "asin": fnx("asin"), "acos": fnx("acos"),
    "special_ndtri": fnx("ndtri"), "exp2": lambda x: exp(x * log(C(2))),
}.items():
    H[n] = unary(f)
for n, f in {"neg": neg, "abs": absv, "floor": fnx("floor"), "ceil": fnx("ceil"), "round": fnx("round"),
             "trunc": fnx("trunc"), "relu": lambda x: tmax(x, C(0)), "square": lambda x: x * x,
             "positive": lambda x: x}.items():
    H[n] = unary(f, "same")


@reg("sign", "sgn")
def _sign(a):
    x = a.self
    return elementwise(lambda v: ite(tm.lt(C(0), v), C(1), ite(tm.lt(v, C(0)), C(-1), C(0))), [x], x.dtype, x.dtype)


@reg("softplus")
def _softplus(a):
    b = lift(a.beta)
    # exact softplus; torch's linear cut-off above `threshold` is a floating point shortcut
    return elementwise(lambda x: div(log(C(1) + exp(b * x)), b), [a.self], a.self.dtype)


@reg("log_sigmoid_forward")
def _lsf(a):
    r = elementwise(logsigmoid, [a.self], a.self.dtype)
    return r, r


def _logit(a):
    def f(x):
        return log(x) - log(C(1) - x)
    if a.eps is not None:
        e = lift(a.eps)
        return elementwise(lambda x: f(tmin(tmax(x, e), C(1) - e)), [a.self], a.self.dtype)
    return elementwise(f, [a.self], a.self.dtype)


H["logit"] = _logit
H["special_logit"] = _logit
H["isnan"] = unary(isnan, "bool")
H["isinf"] = unary(isinf, "bool")
H["isposinf"] = unary(lambda x: isinf(x, 1), "bool")
H["isneginf"] = unary(lambda x: isinf(x, -1), "bool")
H["isfinite"] = unary(lambda x: tm.and_(not_(isnan(x)), not_(isinf(x))), "bool")


@reg("logical_not")
def _lnot(a):
    return elementwise(not_, [a.self], torch.bool, torch.bool)


@reg("bitwise_not")
def _bnot(a):
    if a.self.dtype == torch.bool:
        return elementwise(not_, [a.self], torch.bool)
    return elementwise(lambda x: neg(x) - C(1), [a.self], a.self.dtype)


def b_xor(x, y):
    return tm.or_(tm.and_(x, not_(y)), tm.and_(not_(x), y))


for nm, f in {"and": tm.and_, "or": tm.or_, "xor": b_xor}.items():
    def _mkl(f, nm):
        def h(a):
            x, y = a.self, a.other
            return elementwise(f, [x, y], torch.bool, torch.bool)

        def hb(a):
            x, y = a.self, a.other
            if dt(x) == torch.bool and dt(y) == torch.bool:
                return elementwise(f, [x, y], torch.bool, torch.bool)
            raise Unsupported("integer bitwise op")
        H["logical_" + nm] = h
        H["bitwise_" + nm] = hb
        H[f"__{nm}__"] = hb
    _mkl(f, nm)


def binop(f, floating=False):
    def h(a):
        x, y = a.self, a.other
        d = result_type(x, y)
        if floating:
            d = flt(d)
        al = a.get("alpha", 1)
        g = f
        if al is not None and not (isinstance(al, (int, float)) and al == 1):
            k = lift(al)
            g = lambda p, q: f(p, mul(k, q))
        if d == torch.bool and f is tm.mul:
            return elementwise(tm.and_, [x, y], torch.bool, torch.bool)
        if d == torch.bool and f is tm.add:
            return elementwise(tm.or_, [x, y], torch.bool, torch.bool)
        return elementwise(g, [x, y], d, d)
    return h


H["add"] = binop(tm.add)
H["sub"] = H["subtract"] = binop(tm.sub)
H["mul"] = H["multiply"] = binop(tm.mul)
H["rsub"] = binop(lambda p, q: q - p)


def fdiv(p, q):
    return div(p, q)


@reg("div", "divide", "true_divide")
def _div(a):
    mode = a.get("rounding_mode")
    x, y = a.self, a.other
    d = result_type(x, y)
    if mode is None:
        d = flt(d)
        return elementwise(div, [x, y], d, d)
    if mode == "floor":
        return _fd(a)
    if mode == "trunc":
        return elementwise(lambda p, q: tm.fn("trunc", div(p, q)), [x, y], d, d)


@reg("floor_divide")
def _fd(a):
    d = result_type(a.self, a.other)
    if d.is_floating_point:
        return elementwise(lambda p, q: tm.fn("floor", div(p, q)), [a.self, a.other], d, d)
    return elementwise(idiv, [a.self, a.other], d, d)


@reg("remainder")
def _rem(a):
    d = result_type(a.self, a.other)
    if d.is_floating_point:
        return elementwise(lambda p, q: p - q * tm.fn("floor", div(p, q)), [a.self, a.other], d, d)
    return elementwise(imod, [a.self, a.other], d, d)


@reg("fmod")
def _fmod(a):
    d = result_type(a.self, a.other)
    return elementwise(lambda p, q: p - q * tm.fn("trunc", div(p, q)), [a.self, a.other], d, d)


def npmax(p, q):  # torch.maximum propagates nan
    return _nanlift(p, q, tmax)


def npmin(p, q):
    return _nanlift(p, q, tmin)


def _nanlift(p, q, f):
    n = tm.or_(isnan(p), isnan(q))
    if n is FALSE:
        return f(p, q)
    return ite(n, NAN, f(p, q))


H["maximum"] = binop(npmax)
H["minimum"] = binop(npmin)
H["fmax"] = binop(lambda p, q: ite(isnan(p), q, ite(isnan(q), p, tmax(p, q))))
H["fmin"] = binop(lambda p, q: ite(isnan(p), q, ite(isnan(q), p, tmin(p, q))))


@reg("xlogy", "special_xlogy")
def _xlogy(a):
    d = flt(result_type(a.self, a.other))
    return elementwise(lambda p, q: ite(isnan(q), NAN, ite(tm.eq(p, C(0)), C(0), p * log(q))), [a.self, a.other], d, d)


@reg("logaddexp")
def _lae(a):
    d = result_type(a.self, a.other)
    return elementwise(lambda p, q: log(exp(p) + exp(q)), [a.self, a.other], d, d)


@reg("pow")
def _pow(a):
    x, y = a.self, a.exponent
    d = result_type(x, y)

    def f(p, q):
        c = q.const()
        if c is not None:
            return tm.power(p, int(c) if c.denominator == 1 else c)
        s = sign_const(p)
        if s == 1:
            return exp(q * log(p))
        return tm.fn("pow", p, q)
    return elementwise(f, [x, y], d, d)


def cmpop(f):
    def h(a):
        x, y = a.self, a.other
        d = result_type(x, y)
        if d == torch.bool:
            return elementwise(lambda p, q: f(ite(p, C(1), C(0)), ite(q, C(1), C(0))), [x, y], torch.bool, torch.bool)
        return elementwise(f, [x, y], torch.bool, d)
    return h


H["lt"] = H["less"] = cmpop(tm.lt)
H["le"] = H["less_equal"] = cmpop(tm.le)
H["gt"] = H["greater"] = cmpop(lambda p, q: tm.lt(q, p))
H["ge"] = H["greater_equal"] = cmpop(lambda p, q: tm.le(q, p))
H["eq"] = cmpop(tm.eq)
H["ne"] = H["not_equal"] = cmpop(lambda p, q: not_(tm.eq(p, q)))


@reg("where")
def _where(a):
    if a._ov == "":
        return tuple(nonzero_cols(a.condition))
    x, y = a.self, a.other
    d = result_type(x, y)

    def f(c, p, q):
        return bite(c, p, q) if d == torch.bool else ite(c, p, q)
    ss = [shp(t) if isinstance(t, torch.Tensor) else [] for t in (a.condition, x, y)]
    out = bshape(*ss)
    rs = [bread(t, s, out) if isinstance(t, torch.Tensor) else rd(t) for t, s in zip((a.condition, x, y), ss)]
    ds = [dt(t) for t in (a.condition, x, y)]
    return new(out, d, lambda idx: f(cast(rs[0](idx), ds[0], torch.bool), cast(rs[1](idx), ds[1], d),
                                     cast(rs[2](idx), ds[2], d)))


@reg("clamp", "clip")
def _clamp(a):
    x = a.self
    args, lohi = [x], []
    for k in ("min", "max"):
        if a.get(k) is not None:
            args.append(a[k])
            lohi.append(k)
    d = x.dtype
    for v in args[1:]:
        d = result_type(x, v) if not isinstance(v, torch.Tensor) else torch.promote_types(d, v.dtype)

    def f(v, *b):
        b = dict(zip(lohi, b))
        r = v
        if "min" in b:
            r = npmax(r, b["min"])
        if "max" in b:
            r = npmin(r, b["max"])
        return r
    return elementwise(f, args, d, d)


H["clamp_min"] = _clamp
H["clamp_max"] = _clamp


@reg("hardtanh")
def _ht(a):
    return elementwise(lambda v: tmin(tmax(v, lift(a.min_val)), lift(a.max_val)), [a.self], a.self.dtype)


@reg("masked_fill")
def _mfill(a):
    x = a.self
    out = bshape(shp(x), shp(a.mask))
    v = a.value
    vd = dt(v)
    rv = rd(v) if not isinstance(v, torch.Tensor) else (lambda f: (lambda idx: f(())))(rd(v))
    rx, rm = bread(x, shp(x), out), bread(a.mask, shp(a.mask), out)
    isb = x.dtype == torch.bool

    def val(idx):
        y = rv(idx)
        if isinstance(v, torch.Tensor):
            y = cast(y, vd, x.dtype)
        elif isb and isinstance(y, T):
            y = not_(tm.eq(y, C(0)))
        return y
    if a.get("_inplace"):
        pass
    f = bite if isb else ite
    r = new(out, x.dtype, lambda idx: f(rm(idx), val(idx), rx(idx)))
    return r


DIRECT.discard("masked_fill")


@reg("nan_to_num")
def _n2n(a):
    nv = lift(a.nan if a.nan is not None else 0.0)
    pi_ = a.posinf
    ni = a.neginf

    def f(x):
        if not special(x):
            return x
        if is_special(x):
            if x == NAN:
                return nv
            big = torch.finfo(a.self.dtype).max
            if x == PINF:
                return lift(pi_ if pi_ is not None else big)
            return lift(ni if ni is not None else -big)
        c, p, q = x.atom().args
        return ite(c, f(p), f(q))
    return elementwise(f, [a.self], a.self.dtype)


@reg("lerp")
def _lerp(a):
    w = a.weight
    d = a.self.dtype
    return elementwise(lambda x, y, z: x + z * (y - x), [a.self, a.end, w], d, d)


@reg("addcmul")
def _addcmul(a):
    k = lift(a.value)
    d = a.self.dtype
    return elementwise(lambda x, p, q: x + k * p * q, [a.self, a.tensor1, a.tensor2], d, d)


# ---- dtype / copy --------------------------------------------------------
def _copy(x, dtype=None, memory=True):
    f = rd(x)
    d = dtype or x.dtype
    s = x.dtype
    return new(shp(x), d, (lambda idx: cast(f(idx), s, d)) if d != s else f)


@reg("clone", "contiguous", "lift_fresh_copy", "_reshape_copy")
def _clone(a):
    return _copy(next(iter(a.values())))


@reg("_to_copy")
def _tocopy(a):
    return _copy(a.self, a.dtype)


@reg("to")
def _to(a):
    d = a.get("dtype")
    if d is None and a.get("other") is not None:
        d = a.other.dtype
    if d is None or d == a.self.dtype:
        return alias(a.self)
    return _copy(a.self, d)


def alias(x):
    x = as_st(x)
    return view_of(x, shp(x), lambda i: i, lambda i: (TRUE, i))


@reg("alias", "detach", "lift_fresh", "_conj", "view_as_real_", "resolve_conj", "resolve_neg", "lift")
def _alias(a):
    return alias(a.self)


@reg("copy")
def _copy_(a):
    x, s = a.self, a.src
    if not isinstance(x, ST):
        raise Unsupported("copy_ of symbolic values into a pre-existing tensor")
    out = bshape(shp(x), shp(s))
    f = bread(s, shp(s), shp(x))
    sd, dd = s.dtype, x.dtype
    x.write(lambda idx: cast(f(idx), sd, dd))
    return x


@reg("fill")
def _fill(a):
    v = lift(a.value)
    x = a.self
    if x.dtype == torch.bool:
        v = not_(tm.eq(v, C(0)))
    x.write(lambda idx: v)
    return x


@reg("zero")
def _zero_(a):
    v = FALSE if a.self.dtype == torch.bool else C(0)
    a.self.write(lambda idx: v)
    return a.self


# ---- factories -----------------------------------------------------------
def const_t(size, dtype, v):
    size = [of_size(s) for s in size]
    if dtype == torch.bool:
        v = v if isinstance(v, B) else bconst(bool(v))
    else:
        v = lift(v)
    return new(size, dtype, lambda idx: v)


def _dd(a, d=None):
    return a.get("dtype") or d or torch.get_default_dtype()


H["zeros"] = lambda a: const_t(a.size, _dd(a), 0)
H["ones"] = lambda a: const_t(a.size, _dd(a), 1)


@reg("empty", "empty_strided", "empty_permuted")
def _empty(a):
    return garbage(a.size, _dd(a))


def garbage(size, dtype):
    """uninitialised memory: arbitrary contents"""
    return rand_t([of_size(s) for s in size], dtype, "uninit", "real" if dtype.is_floating_point else
                  "bool" if dtype == torch.bool else "int")


@reg("full")
def _full(a):
    v = a.fill_value
    d = a.dtype or (torch.bool if isinstance(v, bool) else torch.int64 if isinstance(v, (int, torch.SymInt))
                    else torch.get_default_dtype())
    if isinstance(v, torch.Tensor):
        v = lift(v)
    return const_t(a.size, d, v if d != torch.bool else bool(v))


@reg("scalar_tensor")
def _sct(a):
    return const_t([], a.get("dtype") or dt(a.s), a.s)


for n, v in (("zeros", 0), ("ones", 1)):
    H[n + "_like"] = lambda a, v=v: const_t(shp(a.self), a.get("dtype") or a.self.dtype, v)
    H["new_" + n] = lambda a, v=v: const_t(a.size, a.get("dtype") or a.self.dtype, v)
H["empty_like"] = lambda a: garbage(shp(a.self), a.get("dtype") or a.self.dtype)
H["new_empty"] = lambda a: garbage(a.size, a.get("dtype") or a.self.dtype)
H["new_empty_strided"] = H["new_empty"]
H["full_like"] = lambda a: const_t(shp(a.self), a.get("dtype") or a.self.dtype, a.fill_value)
H["new_full"] = lambda a: const_t(a.size, a.get("dtype") or a.self.dtype, a.fill_value)


@reg("arange")
def _arange(a):
    st = lift(a.get("start") if a.get("start") is not None else 0)
    sp = lift(a.get("step") if a.get("step") is not None else 1)
    en = lift(a.end)
    d = a.dtype or (torch.int64 if st.is_int and sp.is_int and en.is_int and not any(
        isinstance(a.get(k), float) for k in ("start", "step", "end")) else torch.get_default_dtype())
    n = (en - st) if sp == C(1) else tm.fn("ceil", div(en - st, sp))
    return new([n], d, lambda idx: st + sp * idx[0])


@reg("linspace")
def _linspace(a):
    s, e, n = lift(a.start), lift(a.end), of_size(a.steps)
    return new([n], _dd(a), lambda idx: s + div((e - s) * idx[0], n - C(1)))


@reg("eye")
def _eye(a):
    n = of_size(a.n)
    m = of_size(a.m) if a.get("m") is not None else n
    return new([n, m], _dd(a), lambda i: ite(tm.eq(i[0], i[1]), C(1), C(0)))


# random sources: fresh uninterpreted functions, logged in path.draws
def rand_t(size, dtype, kind, sort="real", lo=None, hi=None, pos=False, info=None):
    p = cur()
    n = p.fresh.get(kind, 0)
    p.fresh[kind] = n + 1
    f = Fn(f"{kind}#{n}", sort, lo, hi, pos)
    d = {"kind": kind, "fn": f, "shape": size, "info": info}
    p.draws.append(d)
    return new(size, dtype, lambda idx: f(*idx))


@reg("rand", "rand_like")
def _rand(a):
    s = a.size if a.get("size") is not None else shp(a.self)
    d = a.get("dtype") or (a.self.dtype if a.get("self") is not None else torch.get_default_dtype())
    # torch.rand is in [0, 1): value 0 has probability zero; modelled as positive
    r = rand_t([of_size(x) for x in s], d, "rand", pos=True)
    f = cur().draws[-1]["fn"]
    f.gen = lambda rng, env, idx: rng.random()
    return r


@reg("randn", "randn_like")
def _randn(a):
    s = a.size if a.get("size") is not None else shp(a.self)
    d = a.get("dtype") or (a.self.dtype if a.get("self") is not None else torch.get_default_dtype())
    return rand_t([of_size(x) for x in s], d, "randn")


@reg("multinomial")
def _multinomial(a):
    x = a.self
    s = shp(x)
    n = of_size(a.num_samples)
    f = rd(x)
    K = s[-1]
    return rand_t(s[:-1] + [n], torch.int64, "multinomial", "int", C(0), K,
                  info={"probs": f, "K": K, "rows": s[:-1], "n": n})


@reg("bernoulli")
def _bern(a):
    x = a.self
    if a.get("p") is not None and not isinstance(a.p, torch.Tensor):
        raise Unsupported("bernoulli(p)")
    return rand_t(shp(x), x.dtype, "bernoulli", "int", C(0), C(2), info={"p": rd(x)})


@reg("normal", "normal_functional")
def _normal(a):
    if isinstance(a.get("mean"), torch.Tensor) and a.get("self") is None:
        m, s = a.mean, a.std
        out = bshape(shp(m), shp(s) if isinstance(s, torch.Tensor) else [])
        rm = bread(m, shp(m), out)
        rs = bread(s, shp(s), out) if isinstance(s, torch.Tensor) else rd(s)
        r = rand_t(out, m.dtype, "normal")
        z = cur().draws[-1]["fn"]
        return new(out, m.dtype, lambda i: rm(i) + rs(i) * z(*i))
    if a.get("self") is not None:
        m, s = lift(a.mean), lift(a.std)
        r = rand_t(shp(a.self), a.self.dtype, "normal")
        z = cur().draws[-1]["fn"]
        if a["_ov"] == "" and isinstance(a.self, ST):
            a.self.write(lambda i: m + s * z(*i))
            return a.self
        return new(shp(a.self), a.self.dtype, lambda i: m + s * z(*i))
    raise Unsupported("normal")


@reg("uniform")
def _uniform(a):
    r = rand_t(shp(a.self), a.self.dtype, "rand", pos=True)
    z = cur().draws[-1]["fn"]
    lo, hi = lift(a.get("from")), lift(a.to)
    a.self.write(lambda i: lo + (hi - lo) * z(*i))
    return a.self


@reg("exponential")
def _expo(a):
    r = rand_t(shp(a.self), a.self.dtype, "expo", pos=True)
    z = cur().draws[-1]["fn"]
    lam = lift(a.lambd)
    a.self.write(lambda i: div(z(*i), lam))
    return a.self


@reg("randint")
def _randint(a):
    lo = lift(a.get("low") or 0)
    hi = lift(a.high)
    return rand_t([of_size(x) for x in a.size], a.dtype or torch.int64, "randint", "int", lo, hi)


@reg("randperm")
def _randperm(a):
    n = of_size(a.n)
    p = cur()
    k = p.fresh.get("randperm", 0)
    p.fresh["randperm"] = k + 1
    f = tm.PermFn(f"randperm#{k}", n)
    p.draws.append({"kind": "randperm", "fn": f, "shape": [n], "info": None})
    d = a.get("dtype")
    return new([n], d if isinstance(d, torch.dtype) else torch.int64, lambda i: f(i[0]))


@reg("index_fill")
def _index_fill(a):
    x = a.self
    s = shp(x)
    d = norm_dim(a.dim, len(s))
    g = rd(a.index)
    n = shp(a.index)[0] if len(shp(a.index)) else C(1)
    v = a["value"]
    gv = rd(v)(()) if isinstance(v, torch.Tensor) else lift(v)
    if x.dtype == torch.bool and not isinstance(gv, B):
        gv = not_(tm.eq(gv, C(0)))
    f = rd(x)
    oob(lambda i: norm_index(g(i), s[d]), shp(a.index), s[d])
    if len(shp(a.index)):
        hit = lambda i: tm.Any(n, lambda k: tm.eq(norm_index(g((k,)), s[d]), i[d]))
    else:
        hit = lambda i: tm.eq(norm_index(g(()), s[d]), i[d])
    pick = bite if x.dtype == torch.bool else ite
    return new(s, x.dtype, lambda i: pick(hit(i), gv, f(i)))


@reg("poisson", "_standard_gamma", "binomial")
def _poi(a):
    x = next(v for v in a.values() if isinstance(v, torch.Tensor))
    return rand_t(shp(x), x.dtype, "rnd")


# ---- views ---------------------------------------------------------------
@reg("view", "_unsafe_view", "reshape", "_reshape_alias")
def _view(a):
    x = as_st(a.self)
    if a["_ov"] == "dtype":
        raise Unsupported("view dtype")
    s = shp(x)
    size = infer_size(a.size, numel(s))
    to_old, to_new = reshape_maps(s, size)
    return view_of(x, size, to_old, lambda b: (TRUE, to_new(b)))


@reg("expand")
def _expand(a):
    x = as_st(a.self)
    s = shp(x)
    size = [of_size(d) for d in a.size]
    off = len(size) - len(s)
    one = []
    for k in range(len(s)):
        if size[off + k] == C(-1):
            size[off + k] = s[k]
            one.append(False)
        elif size[off + k] == s[k]:
            one.append(False)
        elif s[k] == C(1) or (not same_dim(s[k], size[off + k])):
            if s[k] != C(1) and not same_dim(s[k], C(1)):
                raise RuntimeError("expand: incompatible sizes")
            one.append(True)
        else:
            one.append(False)
    z = C(0)
    return view_of(x, size, lambda i: tuple(z if o else i[off + k] for k, o in enumerate(one)),
                   (lambda b: (TRUE, b)) if off == 0 and not any(one) else None)


@reg("permute")
def _permute(a):
    x = as_st(a.self)
    s = shp(x)
    p = norm_dims(list(a.dims), len(s))
    inv = [p.index(k) for k in range(len(p))]
    return view_of(x, [s[k] for k in p], lambda i: tuple(i[inv[k]] for k in range(len(p))),
                   lambda b: (TRUE, tuple(b[k] for k in p)))


@reg("transpose", "swapaxes")
def _transpose(a):
    n = len(shp(a.self))
    d0, d1 = norm_dim(a.dim0, n), norm_dim(a.dim1, n)
    p = list(range(n))
    if n:
        p[d0], p[d1] = p[d1], p[d0]
    return _permute(NS(self=a.self, dims=p))


@reg("t")
def _t(a):
    n = len(shp(a.self))
    return _permute(NS(self=a.self, dims=list(range(n))[::-1]))


@reg("unsqueeze")
def _unsq(a):
    x = as_st(a.self)
    s = shp(x)
    d = int(a.dim)
    d = d + len(s) + 1 if d < 0 else d
    return view_of(x, s[:d] + [C(1)] + s[d:], lambda i: i[:d] + i[d + 1:], lambda b: (TRUE, b[:d] + (C(0),) + b[d:]))


@reg("squeeze")
def _sq(a):
    x = as_st(a.self)
    s = shp(x)
    ds = norm_dims(a.dim, len(s)) if a.get("dim") is not None else list(range(len(s)))
    ds = [d for d in ds if len(s) and (s[d] == C(1) or same_dim(s[d], C(1)))]
    keep = [k for k in range(len(s)) if k not in ds]

    def imap(i):
        it = iter(i)
        return tuple(C(0) if k in ds else next(it) for k in range(len(s)))
    return view_of(x, [s[k] for k in keep], imap, lambda b: (TRUE, tuple(b[k] for k in keep)))


def norm_index(i, d):
    """python style index into dim d -> T"""
    c = i.const()
    if c is not None:
        return i + d if c < 0 else i
    if lower_ok(i, 0):
        return i
    if cur().ctx.decide(tm.le(C(0), i), z=False) is True:
        return i
    return ite(tm.lt(i, C(0)), i + d, i)


@reg("select")
def _select(a):
    x = as_st(a.self)
    s = shp(x)
    d = norm_dim(a.dim, len(s))
    j = norm_index(lift(a.index), s[d])
    ok = tm.and_(tm.le(C(0), j), tm.lt(j, s[d]))
    if ok is not TRUE and not cur().decide(ok, "bounds"):
        raise IndexError("index out of range")
    return view_of(x, s[:d] + s[d + 1:], lambda i: i[:d] + (j,) + i[d:],
                   lambda b: (tm.eq(b[d], j), b[:d] + b[d + 1:]))


def clampidx(v, d, default):
    if v is None:
        return default
    v = lift(v)
    c = v.const()
    if c is not None and c >= 2 ** 62:
        return d
    if c is not None and c < 0:
        v = v + d
        if lower_ok(v, 0):
            return v
        return ite(tm.lt(v, C(0)), C(0), v)
    if c == 0:
        return v
    if lower_ok(d - v, 0):
        return v
    if not lower_ok(v, 0) and cur().decide(tm.lt(v, C(0)), "slice"):
        return clampidx_nonneg(v + d)
    return v if cur().decide(tm.le(v, d), "slice") else d


def clampidx_nonneg(v):
    return v if cur().decide(tm.le(C(0), v), "slice") else C(0)


@reg("slice")
def _slice(a):
    x = as_st(a.self)
    s = shp(x)
    d = norm_dim(a.dim, len(s))
    st = clampidx(a.start, s[d], C(0))
    en = clampidx(a.end, s[d], s[d])
    step = lift(a.step)
    if step == C(1):
        n = en - st
        if not lower_ok(n, 0) and not cur().decide(tm.le(C(0), n), "slice"):
            n = C(0)
        if st.is_zero() and n == s[d]:
            return alias(x)
        return view_of(x, s[:d] + [n] + s[d + 1:], lambda i: i[:d] + (i[d] + st,) + i[d + 1:],
                       lambda b: (tm.and_(tm.le(st, b[d]), tm.lt(b[d], st + n)), b[:d] + (b[d] - st,) + b[d + 1:]))
    n = idiv(en - st + step - C(1), step)
    return view_of(x, s[:d] + [n] + s[d + 1:], lambda i: i[:d] + (i[d] * step + st,) + i[d + 1:],
                   lambda b: (tm.and_(tm.le(st, b[d]), tm.lt(b[d], en), tm.eq(imod(b[d] - st, step), C(0))),
                              b[:d] + (idiv(b[d] - st, step),) + b[d + 1:]))


@reg("narrow")
def _narrow(a):
    st = lift(a.start)
    return _slice(NS(self=a.self, dim=a.dim, start=st, end=st + lift(a.length), step=1))


@reg("split", "split_with_sizes", "unsafe_split", "unsafe_split_with_sizes")
def _split(a):
    x = as_st(a.self)
    s = shp(x)
    d = norm_dim(a.dim, len(s))
    sizes = a.get("split_sizes", a.get("split_size"))
    if isinstance(sizes, (list, tuple)):
        ls = [lift(v) for v in sizes]
        tot = C(0)
        for v in ls:
            tot = tot + v
        if not same_dim(tot, s[d]):
            raise RuntimeError("split_with_sizes: sizes do not sum to the dimension")
    else:
        k = lift(sizes)
        n = idiv(s[d] + k - C(1), k)
        c = n.const()
        if c is None:
            # number of chunks must be literal
            c = cur().ctx.simp(n).const()
            if c is None:
                raise NeedConcrete(n)
        c = int(c)
        ls = [k] * (c - 1) + [s[d] - k * (c - 1)]
    out = []
    off = C(0)
    for v in ls:
        o = off

        def mkv(o, v):
            return view_of(x, s[:d] + [v] + s[d + 1:], lambda i: i[:d] + (i[d] + o,) + i[d + 1:],
                           lambda b: (tm.and_(tm.le(o, b[d]), tm.lt(b[d], o + v)), b[:d] + (b[d] - o,) + b[d + 1:]))
        out.append(mkv(o, v))
        off = off + v
    return out


@reg("chunk")
def _chunk(a):
    s = shp(a.self)
    d = norm_dim(a.dim, len(s))
    k = idiv(s[d] + C(int(a.chunks)) - C(1), C(int(a.chunks)))
    return _split(NS(self=a.self, split_size=k, dim=d))


@reg("unbind")
def _unbind(a):
    x = as_st(a.self)
    d = norm_dim(a.dim, len(shp(x)))
    n = shp(x)[d].const()
    if n is None:
        raise NeedConcrete(shp(x)[d])
    return [_select(NS(self=x, dim=d, index=i)) for i in range(int(n))]


@reg("diagonal")
def _diagonal(a):
    x = as_st(a.self)
    s = shp(x)
    d1, d2 = norm_dim(a.dim1, len(s)), norm_dim(a.dim2, len(s))
    if a.offset != 0 or not same_dim(s[d1], s[d2]):
        raise Unsupported("diagonal offset")
    keep = [k for k in range(len(s)) if k not in (d1, d2)]

    def imap(i):
        out = [None] * len(s)
        for p, k in enumerate(keep):
            out[k] = i[p]
        out[d1] = out[d2] = i[-1]
        return tuple(out)
    return view_of(x, [s[k] for k in keep] + [s[d1]], imap,
                   lambda b: (tm.eq(b[d1], b[d2]), tuple(b[k] for k in keep) + (b[d1],)))


@reg("unfold")
def _unfold(a):
    x = as_st(a.self)
    s = shp(x)
    d = norm_dim(a.dimension, len(s))
    n, st = lift(a.size), lift(a.step)
    k = idiv(s[d] - n, st) + C(1)
    return view_of(x, s[:d] + [k] + s[d + 1:] + [n],
                   lambda i: i[:d] + (i[d] * st + i[-1],) + i[d + 1:-1], None)


# ---- movement ------------------------------------------------------------
@reg("cat", "concatenate", "concat")
def _cat(a):
    ts = list(a.tensors)
    ts = [t for t in ts if not (len(shp(t)) == 1 and shp(t)[0].is_zero())] or ts[:1]
    n = len(shp(ts[0]))
    d = norm_dim(a.dim, n)
    dtype = ts[0].dtype
    for t in ts[1:]:
        dtype = torch.promote_types(dtype, t.dtype)
    ss = [shp(t) for t in ts]
    for s in ss[1:]:
        if len(s) != n:
            raise RuntimeError("cat: dims")
        for k in range(n):
            if k != d and not same_dim(s[k], ss[0][k]):
                raise RuntimeError(f"Sizes of tensors must match except in dimension {d}")
    fs = [rd(t) for t in ts]
    ds = [t.dtype for t in ts]
    offs = [C(0)]
    for s in ss:
        offs.append(offs[-1] + s[d])
    isb = dtype == torch.bool

    def fn(idx):
        i = idx[d]
        r = None
        for k in range(len(ts) - 1, -1, -1):
            if ss[k][d].is_zero():
                continue
            c = tm.lt(i, offs[k + 1]) if r is not None else TRUE
            if c is FALSE:
                continue
            if r is not None and tm.lt(i, offs[k]) is TRUE and k > 0:
                continue
            x = cast(fs[k](idx[:d] + (i - offs[k],) + idx[d + 1:]), ds[k], dtype)
            r = x if r is None else (bite(c, x, r) if isb else ite(c, x, r))
        return r
    return new(ss[0][:d] + [offs[-1]] + ss[0][d + 1:], dtype, fn)


@reg("stack")
def _stack(a):
    ts = list(a.tensors)
    n = len(shp(ts[0])) + 1
    d = int(a.dim)
    d = d + n if d < 0 else d
    for t in ts[1:]:
        if len(shp(t)) != n - 1 or not all(same_dim(p, q) for p, q in zip(shp(t), shp(ts[0]))):
            raise RuntimeError("stack expects each tensor to be equal size")
    return _cat(NS(tensors=[_unsq(NS(self=as_st(t), dim=d)) for t in ts], dim=d))


@reg("repeat")
def _repeat(a):
    x = a.self
    s = shp(x)
    reps = [lift(r) for r in a.repeats]
    off = len(reps) - len(s)
    f = rd(x)
    out = reps[:off] + [r * k for r, k in zip(reps[off:], s)]

    def fn(i):
        return f(tuple(i[off + k] if reps[off + k] == C(1) else (C(0) if s[k] == C(1) else imod(i[off + k], s[k]))
                       for k in range(len(s))))
    return new(out, x.dtype, fn)


@reg("repeat_interleave")
def _ri(a):
    if a["_ov"] not in ("self_int",):
        raise Unsupported("repeat_interleave tensor")
    x = a.self
    r = lift(a.repeats)
    if a.dim is None:
        x = _view(NS(self=x, size=[-1], _ov=""))
        d = 0
    else:
        d = norm_dim(a.dim, len(shp(x)))
    s = shp(x)
    f = rd(x)
    return new(s[:d] + [s[d] * r] + s[d + 1:], x.dtype, lambda i: f(i[:d] + (idiv(i[d], r),) + i[d + 1:]))


@reg("flip")
def _flip(a):
    s = shp(a.self)
    ds = norm_dims(list(a.dims), len(s))
    f = rd(a.self)
    return new(s, a.self.dtype, lambda i: f(tuple(s[k] - C(1) - i[k] if k in ds else i[k] for k in range(len(s)))))


@reg("roll")
def _roll(a):
    s = shp(a.self)
    if not a.dims:
        raise Unsupported("roll flat")
    ds = norm_dims(list(a.dims), len(s))
    sh = [lift(v) for v in (a.shifts if isinstance(a.shifts, (list, tuple)) else [a.shifts])]
    f = rd(a.self)
    return new(s, a.self.dtype, lambda i: f(tuple(imod(i[k] - sh[ds.index(k)], s[k]) if k in ds else i[k]
                                                  for k in range(len(s)))))


@reg("constant_pad_nd", "pad")
def _pad(a):
    if a.get("mode", "constant") != "constant":
        raise Unsupported("pad mode")
    x = a.self
    s = shp(x)
    n = len(s)
    p = [lift(v) for v in a.pad]
    lo = [C(0)] * n
    hi = [C(0)] * n
    for k in range(len(p) // 2):
        lo[n - 1 - k], hi[n - 1 - k] = p[2 * k], p[2 * k + 1]
    f = rd(x)
    v = lift(a.value if a.value is not None else 0)
    isb = x.dtype == torch.bool
    if isb:
        v = not_(tm.eq(v, C(0)))

    def fn(i):
        c = TRUE
        for k in range(n):
            if not lo[k].is_zero():
                c = tm.and_(c, tm.le(lo[k], i[k]))
            if not hi[k].is_zero():
                c = tm.and_(c, tm.lt(i[k], lo[k] + s[k]))
        if c is FALSE:
            return v
        y = f(tuple(i[k] - lo[k] for k in range(n)))
        return bite(c, y, v) if isb else ite(c, y, v)
    return new([s[k] + lo[k] + hi[k] for k in range(n)], x.dtype, fn)


def chk_bounds(i, d, what="index"):
    """obligation-like: index in bounds; out of range raises like torch."""
    ok = tm.and_(tm.le(C(0), i), tm.lt(i, d))
    return ok


def oob(idxf, ishape, d):
    """fork on 'some index out of range' -> IndexError as torch would raise."""
    vs = [fresh_index(s) for s in ishape]
    cond = chk_bounds(idxf(tuple(vs)), d)
    if cond is TRUE:
        return
    b = cond
    for v, s in reversed(list(zip(vs, ishape))):
        b = bind_all(v.atom(), s, b)
    if not cur().decide(b, "bounds"):
        raise IndexError("index out of range")


@reg("gather")
def _gather(a):
    x, ix = a.self, a.index
    s, si = shp(x), shp(ix)
    if len(s) != len(si):
        raise RuntimeError("gather: Index tensor must have the same number of dimensions as input tensor")
    d = norm_dim(a.dim, len(s))
    for k in range(len(s)):
        if k != d and si[k] != s[k] and not lower_ok(s[k] - si[k], 0):
            if not cur().decide(tm.le(si[k], s[k]), "gather"):
                raise RuntimeError("gather: index size exceeds input size")
    f, g = rd(x), rd(ix)
    oob(g, si, s[d])
    return new(si, x.dtype, lambda i: f(i[:d] + (g(i),) + i[d + 1:]))


@reg("bincount")
def _bincount(a):
    x, w = a.self, a.weights
    n, m = shp(x)[0], lift(a.minlength)
    f = rd(x)
    g = rd(w) if w is not None else lambda i: C(1)
    v = fresh_index(n)
    c = chk_bounds(f((v,)), m)
    if c is not TRUE and not cur().decide(bind_all(v.atom(), n, c), "bincount bounds"):
        raise Unsupported("bincount of values beyond minlength")
    return new([m], x.dtype if w is None else torch.float64 if w.dtype != torch.float32 else torch.float32,
               lambda k: Sum(n, lambda j: g((j,)) * ite(tm.eq(f((j,)), k[0]), C(1), C(0))))


@reg("take_along_dim")
def _tad(a):
    x, ix = a.self, a.indices
    s, si = shp(x), shp(ix)
    d = norm_dim(a.dim, len(s))
    out = []
    for k in range(len(s)):
        out.append(si[k] if k == d else bshape([s[k]], [si[k]])[0])
    xs = [out[k] if k != d else s[k] for k in range(len(s))]
    x = _expand(NS(self=x, size=xs))
    ix = _expand(NS(self=ix, size=out))
    return _gather(NS(self=x, index=ix, dim=d))


@reg("index_select")
def _isel(a):
    x, ix = a.self, a.index
    s = shp(x)
    d = norm_dim(a.dim, len(s))
    f, g = rd(x), rd(ix)
    n = shp(ix)[0] if shp(ix) else C(1)
    return new(s[:d] + [n] + s[d + 1:], x.dtype,
               lambda i: f(i[:d] + (norm_index(g((i[d],)), s[d]),) + i[d + 1:]))


@reg("embedding")
def _emb(a):
    f, g = rd(a.weight), rd(a.indices)
    si = shp(a.indices)
    n = len(si)
    return new(si + [shp(a.weight)[1]], a.weight.dtype, lambda i: f((g(i[:n]), i[n])))


class SelFn(Fn):
    """component c of the k-th index (row-major) where a mask holds."""

    def __init__(self, mk_, c):
        super().__init__(f"sel{c}@{mk_.id}", "int", C(0), mk_.shape[c])
        self.mk, self.c = mk_, c

    def __call__(self, k):
        k = lift(k)
        a = k.atom()
        if a is not None and a.kind == "app" and a.args[0] is self.mk.rank:
            return a.args[1][self.c]
        return super().__call__(k)

    def fact(self, atom):
        k = atom.args[1][0]
        return self.mk.cond(tuple(s(k) for s in self.mk.sels))

    def ev(self, env, idx):
        return self.mk.table(env)[idx[0]][self.c]


class RankFn(Fn):
    def __init__(self, mk_):
        super().__init__(f"rank@{mk_.id}", "int", C(0), None)
        self.mk = mk_

    def __call__(self, *idx):
        idx = tuple(lift(i) for i in idx)
        a = idx[0].atom()
        if a is not None and a.kind == "app" and a.args[0] is self.mk.sels[0]:
            k = a.args[1][0]
            if all(idx[c] == s(k) for c, s in enumerate(self.mk.sels)):
                return k
        return super().__call__(*idx)

    def ev(self, env, idx):
        t = self.mk.table(env)
        return t.index(idx) if idx in t else 0


class Mask:
    """symbolic nonzero(): n = count, sel_c(k), rank(idx)"""
    _ids = 0
    registry = {}

    def __init__(self, shape, cond):
        Mask._ids += 1
        self.id = Mask._ids
        self.shape, self.cond = shape, cond
        self.n = var(f"nz@{self.id}", C(0), None)
        Mask.registry[f"nz@{self.id}"] = self
        self.rank = RankFn(self)
        self.sels = [SelFn(self, c) for c in range(len(shape))]
        self.tabs = {}
        vs = [fresh_index(s) for s in shape]
        b = not_(cond(tuple(vs)))
        for v, s in reversed(list(zip(vs, shape))):
            b = bind_all(v.atom(), s, b)
        self.none = b

    def table(self, env):
        tabs = env.__dict__.setdefault("mask_tabs", {})
        r = tabs.get(self.id)
        if r is None:
            import itertools
            dims = [int(env.t(s, {})) for s in self.shape]
            r = [i for i in itertools.product(*map(range, dims)) if env.b(self.cond(tuple(map(C, i))), {})]
            tabs[self.id] = r
        return r


def get_mask(m):
    """cached Mask object for a bool tensor (by the mask's value at generic indices)."""
    s = shp(m)
    f = rd(m)
    src = m.dtype
    cond = (lambda i: cast(f(i), src, torch.bool))
    vs = tuple(var(f"mk{k}", C(0), d) for k, d in enumerate(s))
    key = (tuple(s), cond(vs))
    p = cur()
    d = p.fresh.setdefault("masks", {})
    if key not in d:
        mk_ = Mask(s, cond)
        d[key] = mk_
        z = tm.le(mk_.n, C(0))
        # n == 0 <=> no index satisfies the mask
        p.assume(tm.and_(tm.or_(not_(z), mk_.none), tm.or_(z, not_(mk_.none))))
    return d[key]


def mask_literal(m):
    """if sizes are literal and few, resolve every element (forking): list of index tuples."""
    s = [d.const() for d in shp(m)]
    if any(d is None for d in s):
        return None
    import itertools
    n = math.prod(int(d) for d in s)
    f = rd(m)
    idxs = list(itertools.product(*[range(int(d)) for d in s]))
    vals = [cast(f(tuple(map(C, i))), m.dtype, torch.bool) for i in idxs] if n <= 4096 else None
    if vals is None:
        return None
    open_ = [v for v in vals if v is not TRUE and v is not FALSE]
    if len(open_) > 10:
        return None
    return [i for i, v in zip(idxs, vals) if cur().decide(v, "mask")]


def nonzero_cols(m):
    lit = mask_literal(m)
    nd = len(shp(m))
    if lit is not None:
        with _disable_current_modes():
            real = torch.tensor(lit, dtype=torch.int64).reshape(len(lit), nd)
        return [ST([C(len(lit))], torch.int64, real_reader(real[:, c].contiguous())) for c in range(nd)]
    if nd == 1:
        ap = progression(m)
        if ap is not None:
            k, c, n = ap
            return [new([n], torch.int64, lambda i: i[0] * k + c)]
    mk_ = get_mask(m)
    return [new([mk_.n], torch.int64, lambda i, s=s: s(i[0])) for s in mk_.sels]


def progression(m):
    """a mask `i mod k == c` with literal k and c holds at c, c + k, c + 2k, ...: (k, c, count)"""
    size = shp(m)[0]
    v = var("mk0", C(0), size)
    b = cast(rd(m)((v,)), m.dtype, torch.bool)
    if b.kind != "eq":
        return None
    t = b.args[0]
    at = [(mo[0][0], cf) for mo, cf in t.m.items() if len(mo) == 1 and mo[0][1] == 1]
    if len(at) != 1 or len(t.m) > 2 or (len(t.m) == 2 and () not in t.m):
        return None
    a, cf = at[0]
    if a.kind != "mod" or a.args[0] != v or a.args[1].const() is None:
        return None
    k, c = a.args[1].const(), -t.m.get((), 0) / cf
    if c != int(c) or not 0 <= c < k:
        return None
    return C(k), C(int(c)), idiv(size - C(int(c)) + C(k) - C(1), C(k))


@reg("nonzero")
def _nonzero(a):
    cols = nonzero_cols(a.self)
    return _stack(NS(tensors=cols, dim=1)) if cols else garbage([0, 0], torch.int64)


@reg("masked_select")
def _msel(a):
    x, m = a.self, a.mask
    out = bshape(shp(x), shp(m))
    x, m = _expand(NS(self=x, size=out)), _expand(NS(self=m, size=out))
    return _index(NS(self=x, indices=[m]))


def expand_bool_indices(x, indices):
    out = []
    for t in indices:
        if t is not None and t.dtype in (torch.bool, torch.uint8):
            k = len(out)
            for j, d in enumerate(shp(t)):
                if not same_dim(d, shp(x)[k + j]):
                    raise IndexError("The shape of the mask does not match the shape of the indexed tensor")
            out.extend(nonzero_cols(t))
        else:
            out.append(t)
    return out


def index_plan(x, indices):
    s = shp(x)
    ind = expand_bool_indices(x, list(indices))
    ind = ind + [None] * (len(s) - len(ind))
    pos = [k for k, t in enumerate(ind) if t is not None]
    bs = bshape(*[shp(ind[k]) for k in pos])
    contiguous = pos == list(range(pos[0], pos[-1] + 1))
    rs = {k: bread(ind[k], shp(ind[k]), bs) for k in pos}
    nb = len(bs)
    rest = [k for k in range(len(s)) if k not in pos]
    start = pos[0] if contiguous else 0
    before = [k for k in rest if k < start] if contiguous else []
    after = [k for k in rest if k not in before]
    out = [s[k] for k in before] + bs + [s[k] for k in after]

    def imap(i):
        nbef = len(before)
        bi = i[nbef:nbef + nb]
        r = [None] * len(s)
        for p, k in enumerate(before):
            r[k] = i[p]
        for p, k in enumerate(after):
            r[k] = i[nbef + nb + p]
        for k in pos:
            r[k] = norm_index(rs[k](bi), s[k])
        return tuple(r)
    return s, pos, bs, rs, before, after, out, imap


@reg("index", "_unsafe_index")
def _index(a):
    x = as_st(a.self)
    s, pos, bs, rs, before, after, out, imap = index_plan(x, a.indices)
    f = rd(x)
    for k in pos:
        oob(lambda i, k=k: norm_index(rs[k](i), s[k]), bs, s[k])
    return new(out, x.dtype, lambda i: f(imap(i)))


def _sel_app(t, v):
    """t is literally sel_c(v): that function"""
    x = t.atom()
    if x is not None and x.kind == "app" and isinstance(x.args[0], SelFn) and x.args[1][0] == v:
        return x.args[0]
    return None


def _table_of_sel(e, v):
    """e is a literal table looked up at sel_c(v): (selection, [literal values]) or None"""
    vals, u, t = {}, None, e
    while True:
        x = t.atom()
        if x is None or x.kind != "ite":
            break
        c, l, r = x.args
        if c.kind != "eq":
            return None
        p = c.args[0]
        at = [mo[0][0] for mo in p.m if len(mo) == 1 and mo[0][1] == 1]
        if len(at) != 1 or len(p.m) > 2 or (len(p.m) == 2 and () not in p.m):
            return None
        a = at[0]
        if u is None:
            u = a
        lc = l.const()
        if a is not u or a.kind != "app" or not isinstance(a.args[0], SelFn) or a.args[1][0] != v or lc is None:
            return None
        j = -p.m.get((), 0) / p.m[((a, 1),)]
        if j != int(j):
            return None
        vals[int(j)] = lc
        t = r
    if u is None or t.const() is None:
        return None
    sel = u.args[0]
    n = sel.mk.shape[sel.c].const()
    if n is None:
        return None
    return sel, [vals.get(j, t.const()) for j in range(int(n))]


def _find_inverse(rs, pos, bs, b, s):
    """solve idx tensors(bi) == b[pos] for bi.  Supports: arange-like / constant / sel columns.
    returns (cond, bi) or None"""
    nb = len(bs)
    vs = tuple(var(f"bi{k}!{id(bs) % 997}", C(0), d) for k, d in enumerate(bs))
    exprs = {k: norm_index(rs[k](vs), s[k]) for k in pos}
    sol = [None] * nb
    cond = TRUE
    # selection columns: rank
    if nb == 1:
        for k in pos:
            x = exprs[k].atom()
            if x is None or x.kind == "ite":          # a literal table, looked up at a selected position
                tb = _table_of_sel(exprs[k], vs[0])
                if tb is not None and len(set(tb[1])) == len(tb[1]):
                    sel, vals = tb
                    cond = tm.and_(cond, tm.or_(*[tm.eq(b[k], C(x)) for x in vals]))
                    r = C(len(vals) - 1)
                    for j in reversed(range(len(vals) - 1)):
                        r = ite(tm.eq(b[k], C(vals[j])), C(j), r)
                    exprs[k] = sel(vs[0])
                    b = b[:k] + (r,) + b[k + 1:]
            elif x.kind == "app" and isinstance(x.args[0], SelFn) and x.args[0].mk.n is not None \
                    and len(x.args[0].mk.sels) == 1 and _sel_app(x.args[1][0], vs[0]) is not None:
                mk_ = x.args[0].mk                     # a selection of a selection
                cond = tm.and_(cond, mk_.cond((b[k],)))
                exprs[k] = x.args[1][0]
                b = b[:k] + (mk_.rank(b[k]),) + b[k + 1:]
        at = [exprs[k].atom() for k in pos]
        ms = [(k, x.args[0].mk, x.args[0].c) for k, x in zip(pos, at)
              if x is not None and x.kind == "app" and isinstance(x.args[0], SelFn) and x.args[1][0] == vs[0]]
        if ms:
            mk_ = ms[0][1]
            comps = {c: k for k, m, c in ms if m is mk_}
            if all(c in comps or mk_.shape[c] == C(1) for c in range(len(mk_.sels))):
                full = tuple(b[comps[c]] if c in comps else C(0) for c in range(len(mk_.sels)))
                cond = tm.and_(cond, mk_.cond(full))
                sol[0] = mk_.rank(*full)
    for k in pos:     # permutation columns
        x = exprs[k].atom()
        if x is not None and x.kind == "app" and isinstance(x.args[0], tm.PermFn):
            exprs[k] = x.args[1][0]
            b = b[:k] + (x.args[0].inverse(b[k]),) + b[k + 1:]
    for _ in range(2):
        for k in pos:
            e = exprs[k]
            for j, v in enumerate(vs):
                if sol[j] is None and v.atom() in e.free:
                    r = tm._linear_in(e, v.atom())
                    if r is not None and r[0].const() in (1, -1):
                        rest = subst(r[1], {w.atom(): sol[q] for q, w in enumerate(vs) if sol[q] is not None})
                        if any(w.atom() in rest.free for w in vs):
                            continue
                        sol[j] = (b[k] - rest) * C(r[0].const())
                        cond = tm.and_(cond, tm.le(C(0), sol[j]), tm.lt(sol[j], bs[j]))
                        break
    for j in range(nb):
        if sol[j] is None:
            if bs[j] == C(1):
                sol[j] = C(0)
            else:
                return None
    mp = {v.atom(): t for v, t in zip(vs, sol)}
    for k in pos:
        cond = tm.and_(cond, tm.eq(subst(exprs[k], mp), b[k]))
    return cond, tuple(sol)


@reg("index_put", "_index_put_impl", "_unsafe_index_put")
def _index_put(a):
    x = a.self
    if not isinstance(x, ST):
        raise Unsupported("index_put_ into a pre-existing tensor")
    s, pos, bs, rs, before, after, out, imap = index_plan(x, a.indices)
    v = a["values"]
    g = bread(v, shp(v), out)
    if len(shp(v)) > len(out):
        raise RuntimeError("shape mismatch: value tensor cannot be broadcast")
    vd, dd = v.dtype, x.dtype
    for k in pos:
        oob(lambda i, k=k: norm_index(rs[k](i), s[k]), bs, s[k])
    lits = [d.const() for d in bs]
    import itertools
    tgt = x if not a.get("accumulate") else None
    if a.get("accumulate"):
        raise Unsupported("index_put accumulate")
    target = x if (a.get("_ip") is not False) else x

    def place(b, bi):
        return tuple(b[k] for k in before) + tuple(bi) + tuple(b[k] for k in after)
    probe = _find_inverse(rs, pos, bs, tuple(var(f"pb{k}", C(0), d) for k, d in enumerate(s)), s)
    if probe is not None:
        cache = {}

        def inv(b):
            if b not in cache:
                cache[b] = _find_inverse(rs, pos, bs, b, s)
            return cache[b]
        x.write_where(lambda b: inv(b)[0], lambda b: cast(g(place(b, inv(b)[1])), vd, dd))
        return x
    if all(l is not None for l in lits) and math.prod(int(l) for l in lits) <= 64:
        # sequential semantics over literal positions
        combos = [tuple(map(C, i)) for i in itertools.product(*[range(int(l)) for l in lits])]

        def cond1(bi):
            return lambda b: tm.and_(*[tm.eq(b[k], norm_index(rs[k](bi), s[k])) for k in pos])
        for bi in combos:
            x.write_where(cond1(bi), lambda b, bi=bi: cast(g(place(b, bi)), vd, dd))
        return x
    raise Unsupported("index_put with uninvertible symbolic indices")


@reg("scatter")
def _scatter(a):
    """one index column per position (index size 1 along dim) or literal size"""
    x = a.self
    if a.get("reduce") is not None:
        raise Unsupported("scatter reduce")
    inplace_self = isinstance(x, ST)
    s, si = shp(x), shp(a.index)
    d = norm_dim(a.dim, len(s))
    g = rd(a.index)
    oob(g, si, s[d])
    src = a.get("src")
    if isinstance(src, torch.Tensor):
        h = rd(src)
        vd = src.dtype
    else:
        v = lift(a.get("value"))
        h = lambda i: v
        vd = None
    dd = x.dtype
    isb = dd == torch.bool
    n = si[d].const()
    if n is None:
        raise NeedConcrete(si[d])

    def val(i):
        y = h(i)
        if vd is not None:
            return cast(y, vd, dd)
        return not_(tm.eq(y, C(0))) if isb else y
    part = [not (si[k] == s[k]) for k in range(len(s))]
    f = rd(x)

    def fn(i):
        r = f(i)
        for j in range(int(n)):
            ii = i[:d] + (C(j),) + i[d + 1:]
            c = tm.eq(i[d], g(ii))
            for k in range(len(s)):
                if k != d and part[k]:
                    c = tm.and_(c, tm.lt(i[k], si[k]))
            r = bite(c, val(ii), r) if isb else ite(c, val(ii), r)
        return r
    return new(s, dd, fn)


DIRECT.discard("scatter")


@reg("scatter_add")
def _scatter_add(a):
    x = a.self
    s, si = shp(x), shp(a.index)
    d = norm_dim(a.dim, len(s))
    g, h, f = rd(a.index), rd(a.src), rd(x)
    oob(g, si, s[d])
    part = [k for k in range(len(s)) if k != d and si[k] != s[k]]
    if part:
        raise Unsupported("scatter_add partial")

    def fn(i):
        return f(i) + Sum(si[d], lambda j: ite(tm.eq(i[d], g(i[:d] + (j,) + i[d + 1:])),
                                               h(i[:d] + (j,) + i[d + 1:]), C(0)))
    return new(s, x.dtype, fn)


@reg("one_hot")
def _onehot(a):
    n = lift(a.num_classes)
    f = rd(a.self)
    s = shp(a.self)
    if n == C(-1):
        raise Unsupported("one_hot without num_classes")
    lit = [d.const() for d in s]
    if all(d is not None for d in lit) and math.prod(int(d) for d in lit) > 64:
        vals = [f(tuple(C(j) for j in ix)).const() for ix in itertools.product(*[range(int(d)) for d in lit])]
        if n.const() is not None and all(v is not None and 0 <= v < n.const() for v in vals):
            return new(s + [n], torch.int64, lambda i: ite(tm.eq(f(i[:-1]), i[-1]), C(1), C(0)))
    oob(f, s, n)
    return new(s + [n], torch.int64, lambda i: ite(tm.eq(f(i[:-1]), i[-1]), C(1), C(0)))


@reg("nextafter")
def _nextafter(a):
    """the neighbouring floating point number: real numbers have none, so it is only known to be some number"""
    x = a.self if a.self is not None else a["input"]
    f = rd(x)
    g = rd(a["other"])

    def one(i):
        u, v = f(i), g(i)
        if u.const() is not None and v in (tm.PINF, tm.NINF):
            import numpy as np
            t = np.float64 if x.dtype == torch.float64 else np.float32
            return C(Fraction(float(np.nextafter(t(float(u.const())), t(math.inf if v == tm.PINF else -math.inf)))))
        return tm.fn("nextafter", u)
    return new(shp(x), x.dtype, one)


@reg("tril", "triu")
def _tri(a):
    raise Unsupported("tril/triu")


# ---- reductions ----------------------------------------------------------
def reduce_dims(x, dims, keepdim, red, dtype, pre=None):
    """red(dim, lambda v: term) applied innermost-first over dims."""
    s = shp(x)
    n = len(s)
    ds = sorted(norm_dims(dims, n))
    f = rd(x)
    keep = [k for k in range(n) if k not in ds]

    def fn(i):
        full = [None] * n
        if keepdim:
            for k in keep:
                full[k] = i[k]
        else:
            for p, k in enumerate(keep):
                full[k] = i[p]

        def go(j):
            if j == len(ds):
                v = f(tuple(full))
                return pre(v) if pre else v
            k = ds[j]

            def body(v):
                full[k] = v
                return go(j + 1)
            return red(s[k], body)
        return go(0)
    out = [C(1) if k in ds else s[k] for k in range(n)] if keepdim else [s[k] for k in keep]
    return new(out, dtype, fn)


@reg("sum")
def _sum(a):
    x = a.self
    d = a.get("dtype") or (x.dtype if x.dtype.is_floating_point else torch.int64)
    sd = x.dtype
    if sd == torch.bool and isinstance(x, ST) and len(shp(x)) == 1 and shp(x)[0].const() is None and cur().fresh.get("mask_counts"):
        n = get_mask(x).n        # the number of places where the mask holds, as in x.nonzero()
        return new([C(1)] if a.get("keepdim", False) else [], d, lambda i: n)
    return reduce_dims(x, a.get("dim"), a.get("keepdim", False), Sum, d,
                       (lambda v: cast(v, sd, d)) if sd != d else None)


@reg("nansum")
def _nansum(a):
    x = a.self
    return reduce_dims(x, a.get("dim"), a.get("keepdim", False), Sum, x.dtype, lambda v: ite(isnan(v), C(0), v))


@reg("mean")
def _mean(a):
    x = a.self
    s = shp(x)
    ds = norm_dims(a.get("dim"), len(s))
    k = numel([s[j] for j in ds])
    r = reduce_dims(x, a.get("dim"), a.get("keepdim", False), Sum, a.get("dtype") or x.dtype)
    return elementwise(lambda v: div(v, k), [r], r.dtype)


@reg("prod")
def _prod(a):
    x = a.self
    d = a.get("dtype") or (x.dtype if x.dtype.is_floating_point else torch.int64)
    sd = x.dtype
    dim = a.get("dim")
    return reduce_dims(x, dim if dim is not None else None, a.get("keepdim", False), Prod, d,
                       (lambda v: cast(v, sd, d)) if sd != d else None)


def _lse_red(x, dims, keepdim):
    r = reduce_dims(x, dims, keepdim, Sum, x.dtype, exp)
    f = r.snap()
    return new(shp(r), x.dtype, lambda i: log(f(i)))


@reg("logsumexp", "special_logsumexp")
def _lse(a):
    x = a.self
    if not x.dtype.is_floating_point:
        x = _copy(x, torch.get_default_dtype())
    return _lse_red(x, a.dim, a.keepdim)


@reg("_log_softmax", "log_softmax", "special_log_softmax")
def _lsm(a):
    x = a.self
    s = shp(x)
    d = norm_dim(a.dim, len(s))
    f = rd(x)

    def fn(i):
        z = log(Sum(s[d], lambda v: exp(f(i[:d] + (v,) + i[d + 1:]))))
        return f(i) - z
    return new(s, a.get("dtype") or x.dtype, fn)


@reg("_softmax", "softmax", "special_softmax")
def _sm(a):
    x = a.self
    s = shp(x)
    d = norm_dim(a.dim, len(s))
    f = rd(x)

    def fn(i):
        return div(exp(f(i)), Sum(s[d], lambda v: exp(f(i[:d] + (v,) + i[d + 1:]))))
    return new(s, a.get("dtype") or x.dtype, fn)


def neg_min(dim, f):
    return neg(Max(dim, lambda v: neg(f(v))))


@reg("amax")
def _amax(a):
    return reduce_dims(a.self, a.dim, a.keepdim, Max, a.self.dtype)


@reg("amin")
def _amin(a):
    return reduce_dims(a.self, a.dim, a.keepdim, neg_min, a.self.dtype)


def _argred(x, d, keepdim, kind):
    s = shp(x)
    f = rd(x)

    def fn(i):
        pre = i[:d]
        post = i[d + 1:] if keepdim else i[d:]
        if cur().fresh.get("open_argmax") and x.dtype != torch.bool and (s[d].const() or 9) <= 3:
            # few literal places: the comparisons themselves (the first of equal values)
            at, best = C(0), f(pre + (C(0),) + post)
            for k in range(1, int(s[d].const())):
                y = f(pre + (C(k),) + post)
                c = tm.lt(best, y) if kind == "max" else tm.lt(y, best)
                at, best = ite(c, C(k), at), ite(c, y, best)
            return at
        v = fresh_index(s[d])
        b = f(pre + (v,) + post)
        if x.dtype == torch.bool:
            b = cast(b, torch.bool, torch.int64)
        return (bind_argmax if kind == "max" else bind_argmin)(v.atom(), s[d], b)
    out = s[:d] + ([C(1)] if keepdim else []) + s[d + 1:]
    return new(out, torch.int64, fn)


@reg("argmax")
def _argmax(a):
    x = a.self
    if a.dim is None:
        x = _view(NS(self=x, size=[-1], _ov=""))
        return _argred(x, 0, False, "max")
    return _argred(x, norm_dim(a.dim, len(shp(x))), a.keepdim, "max")


@reg("argmin")
def _argmin(a):
    x = a.self
    if a.dim is None:
        x = _view(NS(self=x, size=[-1], _ov=""))
        return _argred(x, 0, False, "min")
    return _argred(x, norm_dim(a.dim, len(shp(x))), a.keepdim, "min")


@reg("max", "min")
def _max(a):
    raise AssertionError


def _mxmn(kind):
    red = Max if kind == "max" else neg_min

    def h(a):
        ov = a["_ov"]
        x = a.self
        if ov == "other":
            return H["maximum" if kind == "max" else "minimum"](a)
        if ov == "":
            return reduce_dims(x, None, False, red, x.dtype)
        d = norm_dim(a.dim, len(shp(x)))
        return reduce_dims(x, d, a.keepdim, red, x.dtype), _argred(x, d, a.keepdim, kind)
    return h


H["max"] = _mxmn("max")
H["min"] = _mxmn("min")


def _qred(q):
    def h(a):
        x = a.self
        sd = x.dtype
        return reduce_dims(x, a.get("dim"), a.get("keepdim", False), q, torch.bool, lambda v: cast(v, sd, torch.bool))
    return h


H["all"] = _qred(All)
H["any"] = _qred(Any)
H["_is_all_true"] = lambda a: H["all"](NS(self=a.self))
H["_is_any_true"] = lambda a: H["any"](NS(self=a.self))


@reg("count_nonzero")
def _cnz(a):
    x = a.self
    sd = x.dtype
    return reduce_dims(x, a.get("dim"), False, Sum, torch.int64, lambda v: ite(cast(v, sd, torch.bool), C(1), C(0)))


@reg("cumsum")
def _cumsum(a):
    x = a.self
    s = shp(x)
    d = norm_dim(a.dim, len(s))
    f = rd(x)
    sd = x.dtype
    od = sd if sd.is_floating_point else torch.int64
    return new(s, od, lambda i: Sum(i[d] + C(1), lambda v: cast(f(i[:d] + (v,) + i[d + 1:]), sd, od)))


@reg("var", "std")
def _var(a):
    raise Unsupported("var/std")


@reg("equal")
def _equal(a):
    x, y = a.self, a.other
    if len(shp(x)) != len(shp(y)) or not all(same_dim(p, q) for p, q in zip(shp(x), shp(y))):
        return False
    e = H["eq"](NS(self=x, other=y))
    return cur().decide(H["all"](NS(self=e)).at(), "equal")


@reg("allclose")
def _allclose(a):
    return cur().decide(H["all"](NS(self=_isclose(a))).at(), "close")


@reg("isclose")
def _isclose(a):
    """idealised: |a-b| <= atol + rtol*|b| over the reals"""
    at, rt = lift(a.atol), lift(a.rtol)

    def f(p, q):
        if p == q and not special(p):
            return TRUE
        if special(p) or special(q):
            both = tm.eq(p, q)
            if a.get("equal_nan"):
                both = tm.or_(both, tm.and_(isnan(p), isnan(q)))
            fin = tm.and_(*[not_(tm.or_(isnan(z), isinf(z))) for z in (p, q)])
            if fin is FALSE:
                return both
            return tm.or_(both, tm.and_(fin, tm.le(absv(p - q), at + rt * absv(q))))
        if tm.eq(p, q) is TRUE:
            return TRUE
        return tm.le(absv(p - q), at + rt * absv(q))
    return elementwise(f, [a.self, a.other], torch.bool, flt(result_type(a.self, a.other)))


# ---- linear algebra ------------------------------------------------------
@reg("mm", "bmm", "matmul", "mv", "dot")
def _mm(a):
    x = a.self
    y = a.get("mat2", a.get("other", a.get("vec", a.get("tensor"))))
    sx, sy = shp(x), shp(y)
    f, g = rd(x), rd(y)
    v1, v2 = len(sx) == 1, len(sy) == 1
    k = sx[-1]
    if not same_dim(k, sy[0] if v2 else sy[-2]):
        raise RuntimeError("mat1 and mat2 shapes cannot be multiplied")
    bx, by = sx[:-2], sy[:-2]
    b = bshape(bx, by)
    out = b + ([] if v1 else [sx[-2]]) + ([] if v2 else [sy[-1]])

    def bi(i, s):
        off = len(b) - len(s)
        return tuple(C(0) if s[q] == C(1) and b[off + q] != C(1) else i[off + q] for q in range(len(s)))

    def fn(i):
        p = len(b)
        r = () if v1 else (i[p],)
        c = () if v2 else (i[-1],)
        return Sum(k, lambda v: mul(f(bi(i, bx) + r + (v,)), g(bi(i, by) + (v,) + c)))
    return new(out, result_type(x, y), fn)


@reg("addmm")
def _addmm(a):
    r = _mm(NS(self=a.mat1, mat2=a.mat2))
    return H["add"](NS(self=H["mul"](NS(self=r, other=a.alpha)), other=H["mul"](NS(self=a.self, other=a.beta))))


@reg("baddbmm")
def _baddbmm(a):
    r = _mm(NS(self=a.batch1, mat2=a.batch2))
    return H["add"](NS(self=r, other=a.self))


@reg("convolution", "conv2d", "_convolution")
def _conv(a):
    """2-d cross-correlation with zero padding"""
    x, w = a.input if hasattr(a, "input") else a.self, a.weight
    if getattr(a, "transposed", False) or len(shp(x)) != 4:
        raise Unsupported("convolution")
    pair = lambda v: [of_size(k) for k in (list(v) * 2 if len(v) == 1 else v)]
    sh, sw = pair(a.stride)
    if isinstance(a.padding, str):
        raise Unsupported("convolution padding")
    ph, pw = pair(a.padding)
    dh, dw = pair(a.dilation)
    g = of_size(a.groups)
    n, ci, h, wd = shp(x)
    co, cg, kh, kw = shp(w)
    og = C(1) if same_dim(co, g) else idiv(co, g)
    if not same_dim(ci, cg * g):
        raise RuntimeError("convolution: channel mismatch")
    oh = idiv(h + ph * 2 - dh * (kh - C(1)) - C(1), sh) + C(1)
    ow = idiv(wd + pw * 2 - dw * (kw - C(1)) - C(1), sw) + C(1)
    fx, fw, fb = rd(x), rd(w), rd(a.bias) if a.bias is not None else None
    pads = [p.const() == 0 for p in (ph, pw)]

    def at(i):
        b, o, y, z = i
        def term(k, u, v):
            r, c = y * sh - ph + u * dh, z * sw - pw + v * dw
            val = fx((b, (o if og.const() == 1 else idiv(o, og)) * cg + k, r, c)) * fw((o, k, u, v))
            cond = TRUE
            if not pads[0]:
                cond = tm.and_(cond, tm.le(C(0), r), tm.lt(r, h))
            if not pads[1]:
                cond = tm.and_(cond, tm.le(C(0), c), tm.lt(c, wd))
            return ite(cond, val, C(0))
        def over(dim, f):
            if dim.const() is not None:
                t = C(0)
                for q in range(int(dim.const())):
                    t = t + f(C(q))
                return t
            q = fresh_index(dim)
            return tm.bind_sum(q.atom(), dim, f(q))
        t = over(cg, lambda k: over(kh, lambda u: over(kw, lambda v: term(k, u, v))))
        return t if fb is None else t + fb((o,))
    return new([n, co, oh, ow], x.dtype, at)


# ---- scalars -------------------------------------------------------------
@reg("_local_scalar_dense", "item")
def _lsd(a):
    x = a.self
    v = rd(x)(tuple(C(0) for _ in shp(x)))
    if isinstance(v, B):
        return cur().decide(v, "branch")
    if is_special(v):
        return {"ninf": -math.inf, "pinf": math.inf, "nan": math.nan}[v.atom().args[0]]
    v = cur().ctx.simp(v)
    if cur().fresh.get("open_argmax") and not x.dtype.is_floating_point:
        while v.atom() is not None and v.atom().kind == "ite":
            c, p, q = v.atom().args
            v = cur().ctx.simp(p if cur().decide(c, "item") else q)
    c = v.const()
    if c is not None:
        return int(c) if not x.dtype.is_floating_point else float(c)
    if not x.dtype.is_floating_point:
        # case split over a bounded integer
        if v.is_int:
            lo, hi = _int_range(v)
            if lo is not None and hi is not None and hi - lo <= 8:
                for k in range(lo, hi):
                    if cur().decide(tm.eq(v, C(k)), "item"):
                        return k
                raise Infeasible()
            return torch.SymInt(Node(v))
    return torch.SymFloat(Node(v, "float"))


def _int_range(v):
    a = v.atom()
    if a is not None:
        lo, hi = bounds(a)
        lc = lo.const() if lo is not None else None
        hc = hi.const() if hi is not None else None
        if lc is not None and hc is not None:
            return int(lc), int(hc)
    return None, None


@reg("is_nonzero")
def _isnz(a):
    x = a.self
    v = rd(x)(tuple(C(0) for _ in shp(x)))
    return cur().decide(cast(v, x.dtype, torch.bool), "branch")


@reg("bucketize", "searchsorted")
def _bucketize(a):
    """how many boundaries lie below (right: at or below) the value; boundaries non-decreasing along their last dim"""
    e, x = (a.boundaries, a.self) if "boundaries" in a else (a.sorted_sequence, a.self)
    if a.get("sorter") is not None or a.get("side") is not None:
        raise Unsupported("searchsorted sorter/side")
    f, g, se, sx = rd(e), rd(x), shp(e), shp(x)
    n = se[-1].const()
    if n is None:
        raise Unsupported("symbolic number of boundaries")
    cmp = tm.le if a.right else tm.lt
    if len(se) > 1 and len(sx) != len(se):
        raise Unsupported("searchsorted: value of another rank")

    def r(i):
        v, pre = g(i), (i[:len(se) - 1] if len(se) > 1 else ())
        t = C(0)
        for k in range(int(n)):
            t = t + tm.ite(cmp(f((*pre, C(k))), v), C(1), C(0))
        return t
    return new(sx, torch.int32 if a.get("out_int32") else torch.int64, r)


@reg("diff")
def _diff(a):
    if a.n != 1 or a.prepend is not None or a.append is not None:
        raise Unsupported("diff")
    x = a.self
    s = shp(x)
    d = norm_dim(a.dim, len(s))
    f = rd(x)
    return new(s[:d] + [s[d] - C(1)] + s[d + 1:], x.dtype,
               lambda i: f(i[:d] + (i[d] + C(1),) + i[d + 1:]) - f(i))


# ---- python level overrides (torch function) -----------------------------
TF = {}


def _data_get(x):
    return alias(x)


def _data_set(x, v):
    v = as_st(v)
    if v is x:
        return
    f = v.snap()
    with torch._C.DisableTorchFunctionSubclass():
        torch.Tensor.data.__set__(x, ST(v._shp, v.dtype, f))
    # x now shares v's storage (torch: set_data)
    x._shp = list(v._shp)
    x._tvb, x._imap, x._inv, x._fn = v, (lambda i: i), (lambda i: (TRUE, i)), None


TF[torch.Tensor.data.__get__] = _data_get
TF[torch.Tensor.data.__set__] = _data_set


def _rg(x, requires_grad=True):
    return x


TF[torch.Tensor.requires_grad_] = _rg
TF[torch.Tensor.requires_grad.__set__] = lambda x, v: None
TF[torch.Tensor.retain_grad] = lambda x: None
TF[torch.Tensor.tolist] = _symlist
TF[torch.Tensor.numpy] = lambda x, *a, **k: x.concrete().numpy()
TF[torch.Tensor.cpu] = lambda x, *a, **k: x
TF[torch.Tensor.cuda] = lambda x, *a, **k: x


def _fallback_one_hot(t, num_classes=-1):
    return _onehot(NS(self=t, num_classes=num_classes))


TF[torch.nn.functional.one_hot] = _fallback_one_hot
TF[torch._C._nn.one_hot] = _fallback_one_hot


class Mode(TorchDispatchMode):
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})


def sym_tensor(fn, shape, dtype=None):
    shape = [of_size(s) for s in shape]
    return new(shape, dtype or torch.get_default_dtype(), lambda idx: fn(*idx))


def _grad_get(x):
    return getattr(x, "_grd", None)


def _grad_set(x, v):
    x._grd = v


TF[torch.Tensor.grad.__get__] = _grad_get
TF[torch.Tensor.grad.__set__] = _grad_set
