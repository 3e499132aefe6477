"""Term language of the verifier.

Terms (class T) are polynomials with rational coefficients over hash-consed atoms.
Integers and (extended) reals share the representation.  Bools (class B) are
hash-consed formulas.  Constructors normalise; every rewrite is an identity of
extended-real / integer arithmetic (see DESIGN.md, "Term rewriting").
"""
from __future__ import annotations
from fractions import Fraction
import itertools, math

EXPAND = 6          # reductions over literal dims up to this size are unrolled
_atoms = {}
_counter = itertools.count()


class Atom:
    __slots__ = ("id", "kind", "args", "sort", "free", "h", "pos", "meta", "_s")

    def __repr__(self):
        return show_atom(self)


def _free_of(args):
    s = frozenset()
    for a in args:
        if isinstance(a, (T, B, Atom)):
            f = a.free if not isinstance(a, Atom) else a.free
            if f:
                s = s | f
        elif isinstance(a, tuple):
            f = _free_of(a)
            if f:
                s = s | f
    return s


def _h_of(args):
    m = 0
    for a in args:
        if isinstance(a, (T, B, Atom)):
            m = max(m, a.h)
        elif isinstance(a, tuple):
            m = max(m, _h_of(a))
    return m


def _key(a):
    if isinstance(a, tuple):
        return tuple(_key(x) for x in a)
    return a


def mk(kind, args, sort="real", pos=False, meta=None):
    k = (kind, args)
    a = _atoms.get(k)
    if a is not None:
        return a
    a = Atom()
    a.id = next(_counter)
    a.kind = kind
    a.args = args
    a.sort = sort
    a.pos = pos
    a.meta = meta
    a.free = _free_of(args)
    a.h = _h_of(args)
    if kind == "var":
        a.free = frozenset((a,)) | a.free
    elif kind == "bvar":
        a.free = a.free | frozenset((a,))
    _atoms[k] = a
    return a


# ---------------------------------------------------------------- booleans
_bools = {}


class B:
    __slots__ = ("id", "kind", "args", "free", "h")

    def __repr__(self):
        return show_b(self)

    def __and__(self, o):
        return and_(self, o)

    def __or__(self, o):
        return or_(self, o)

    def __invert__(self):
        return not_(self)

    def __bool__(self):
        if self is TRUE:
            return True
        if self is FALSE:
            return False
        raise TypeError("truth value of a symbolic bool")


class T:
    __slots__ = ("m", "_h", "_free", "_ht", "_int")

    def __init__(self, m):
        self.m = m
        self._h = None
        self._free = None
        self._ht = None
        self._int = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.m.items()))
        return self._h

    def __eq__(self, o):  # structural
        return isinstance(o, T) and (self is o or self.m == o.m)

    @property
    def free(self):
        if self._free is None:
            s = frozenset()
            for mono in self.m:
                for a, _ in mono:
                    s |= a.free
            self._free = s
        return self._free

    @property
    def h(self):
        if self._ht is None:
            r = 0
            for mono in self.m:
                for a, _ in mono:
                    r = max(r, a.h)
            self._ht = r
        return self._ht

    @property
    def is_int(self):
        if self._int is None:
            self._int = all(
                c.denominator == 1 and all(a.sort == "int" and isinstance(e, int) and e > 0 for a, e in mono)
                for mono, c in self.m.items()
            )
        return self._int

    def const(self):
        """Fraction if this is a literal, else None."""
        if not self.m:
            return Fraction(0)
        if len(self.m) == 1 and () in self.m:
            return self.m[()]
        return None

    def is_zero(self):
        return not self.m

    def single(self):
        """(coef, mono) if exactly one monomial."""
        if len(self.m) == 1:
            (mono, c), = self.m.items()
            return c, mono
        return None

    def atom(self):
        s = self.single()
        if s and s[0] == 1 and len(s[1]) == 1 and s[1][0][1] == 1:
            return s[1][0][0]
        return None

    def __repr__(self):
        return show(self)

    def __add__(self, o):
        return add(self, lift(o))

    __radd__ = __add__

    def __neg__(self):
        return neg(self)

    def __sub__(self, o):
        return add(self, neg(lift(o)))

    def __rsub__(self, o):
        return add(lift(o), neg(self))

    def __mul__(self, o):
        return mul(self, lift(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return div(self, lift(o))

    def __rtruediv__(self, o):
        return div(lift(o), self)

    def __floordiv__(self, o):
        return idiv(self, lift(o))

    def __rfloordiv__(self, o):
        return idiv(lift(o), self)

    def __mod__(self, o):
        return imod(self, lift(o))

    def __pow__(self, n):
        return power(self, n)

    def __lt__(self, o):
        return lt(self, lift(o))

    def __le__(self, o):
        return le(self, lift(o))

    def __gt__(self, o):
        return lt(lift(o), self)

    def __ge__(self, o):
        return le(lift(o), self)

    def eq(self, o):
        return eq(self, lift(o))

    def ne(self, o):
        return not_(eq(self, lift(o)))

    def __bool__(self):
        raise TypeError("truth value of a term")


_c_cache = {}


_pi_floats = {}


def C(v):
    if v.__class__ is int:
        r = _c_cache.get(v)
        if r is None:
            r = _c_cache[v] = T({(): Fraction(v)} if v else {})
        return r
    if isinstance(v, bool):
        return C(int(v))
    if isinstance(v, float):
        if math.isnan(v):
            return NAN
        if math.isinf(v):
            return PINF if v > 0 else NINF
        # the usual float constants around pi and the logs of small integers are read as the numbers they stand for,
        # other float literals as the shortest decimal they print as
        if abs(v) in _pi_floats:
            t = _pi_floats[abs(v)]()
            return t if v > 0 else neg(t)
        f = Fraction(repr(v))
        return T({(): f} if f else {})
    if isinstance(v, Fraction):
        return T({(): v} if v else {})
    return T({(): Fraction(v)}) if v else C(0)


lift_hook = [None]


def lift(v):
    if isinstance(v, T):
        return v
    if isinstance(v, B):
        return ite(v, C(1), C(0))
    if isinstance(v, Atom):
        return A(v)
    if isinstance(v, (int, float, Fraction)):
        return C(v)
    if lift_hook[0] is not None:
        return lift_hook[0](v)
    raise TypeError(f"cannot lift {type(v)}")


def A(a):
    return T({((a, 1),): Fraction(1)})


NINF = A(mk("special", ("ninf",)))
PINF = A(mk("special", ("pinf",)))
NAN = A(mk("special", ("nan",)))
_NI, _PI, _NA = NINF.atom(), PINF.atom(), NAN.atom()


# does the term contain a special at an ite leaf (top spine)?
_sp_cache = {}


def special(t):
    """True if t is a special const or an ite-spine term with a special leaf."""
    if len(t.m) != 1:
        return False
    a = t.atom()
    if a is None:
        return False
    if a.kind == "special":
        return True
    if a.kind != "ite":
        return False
    r = _sp_cache.get(a)
    if r is None:
        r = _sp_cache[a] = special(a.args[1]) or special(a.args[2])
    return r


def is_special(t):
    a = t.atom()
    return a is not None and a.kind == "special"


# ---------------------------------------------------------------- variables
def var(name, lo=None, hi=None, sort="int", pos=False):
    """index / dim / scalar variable; lo inclusive, hi exclusive (terms or None)."""
    if lo is not None and not isinstance(lo, T):
        lo = C(lo)
    if hi is not None and not isinstance(hi, T):
        hi = C(hi)
    if lo is not None and lo.const() is not None and lo.const() >= 1:
        pos = True
    return A(mk("var", (name, lo, hi), sort, pos))


def bvar(height, slot, hi):
    return mk("bvar", (height, slot, hi), "int")


class Fn:
    """uninterpreted input function (tensor contents)."""

    def __init__(self, name, sort="real", lo=None, hi=None, pos=False, gen=None):
        self.name, self.sort, self.pos = name, sort, pos
        self.lo = lift(lo) if lo is not None and not callable(lo) else lo
        self.hi = lift(hi) if hi is not None and not callable(hi) else hi
        self.gen = gen

    def __repr__(self):
        return self.name

    def __call__(self, *idx):
        idx = tuple(lift(i) for i in idx)
        for i in idx:
            if special(i):
                return lift_ite1(idx, lambda *k: self(*k))
        if self.sort == "bool":
            return bapp(self, idx)
        return A(mk("app", (self, idx), self.sort, self.pos))


PERMS = [0]


def _perm_reindex(v, dim, body):
    """Sum_v g(p(v)) = Sum_v g(v) for a permutation p of [0, dim), if v occurs only inside p(v)."""
    found = None
    seen = set()
    stack = [body]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if v in x.free:
                for mono in x.m:
                    stack.extend(a for a, _ in mono)
        elif isinstance(x, (Atom, B)):
            if x in seen or v not in x.free:
                continue
            seen.add(x)
            if isinstance(x, Atom) and x.kind == "app" and isinstance(x.args[0], PermFn) and x.args[1][0].atom() is v \
                    and x.args[0].n == dim:
                if found is not None and found is not x:
                    return None
                found = x
                continue
            if x is v:
                return None
            stack.extend(x.args)
        elif isinstance(x, tuple):
            stack.extend(x)
    if found is None:
        return None
    w = fresh_index(dim)
    S = Sub({found: w})
    S.keys = frozenset((v,))
    t = S.t(body)
    return None if v in t.free else (w.atom(), t)


class PermFn(Fn):
    """an arbitrary permutation of [0, n) (or its inverse)."""

    def __init__(self, name, n, inverse=None):
        super().__init__(name, "int", C(0), n)
        self.n = n
        PERMS[0] += 1
        if inverse is None:
            self.tab = {}
            inverse = PermFn(name + "^-1", n, self)
            self.fwd = True
        else:
            self.fwd = False
        self.inverse = inverse

    def __call__(self, i):
        i = lift(i)
        a = i.atom()
        if a is not None and a.kind == "app" and a.args[0] is self.inverse:
            return a.args[1][0]
        return super().__call__(i)

    def ev(self, env, idx):
        f = self if self.fwd else self.inverse
        n = int(env.t(self.n, {}))
        tabs = env.__dict__.setdefault("perm_tabs", {})
        p = tabs.get(f)
        if p is None:
            import random
            p = list(range(n))
            random.Random(f"{env.seed}/{f.name}").shuffle(p)
            tabs[f] = p
        k = int(idx[0])
        if not 0 <= k < n:
            raise IndexError(k)
        return p[k] if self.fwd else p.index(k)


def _perm_eq(a, b):
    x = a.atom()
    if x is not None and x.kind == "app" and isinstance(x.args[0], PermFn):
        pf = x.args[0]
        if pf.fwd and lower_ok(b, 0) and lower_ok(sub(sub(pf.n, b), C(1)), 0):
            y = b.atom()
            if y is not None and y.kind == "app" and y.args[0] is pf:
                return eq(x.args[1][0], y.args[1][0])
            return eq(x.args[1][0], pf.inverse(b))
    return None


def lift_ite1(args, f):
    for n, a in enumerate(args):
        at = a.atom()
        if at is not None and at.kind == "ite" and special(a):
            c, x, y = at.args
            return ite(c, f(*args[:n], x, *args[n + 1:]), f(*args[:n], y, *args[n + 1:]))
    return f(*args)


# ---------------------------------------------------------------- arithmetic
def add(a, b):
    if not a.m:
        return b
    if not b.m:
        return a
    if special(a) or special(b):
        if is_special(a) and is_special(b):
            x, y = a.atom(), b.atom()
            if x is y:
                return a
            return NAN
        if is_special(a) and not special(b):
            return a
        if is_special(b) and not special(a):
            return b
        return _lift2(add, a, b)
    if len(a.m) < len(b.m):
        a, b = b, a
    m = dict(a.m)
    for mono, c in b.m.items():
        n = m.get(mono, 0) + c
        if n:
            m[mono] = n
        else:
            del m[mono]
    return T(m)


def _lift2(f, a, b):
    if special(a) and not is_special(a):
        c, x, y = a.atom().args
        return ite(c, f(x, assume(b, c, True)), f(y, assume(b, c, False)))
    if special(b) and not is_special(b):
        c, x, y = b.atom().args
        return ite(c, f(assume(a, c, True), x), f(assume(a, c, False), y))
    raise AssertionError


def assume(t, c, v):
    """cheap: resolve only the top ite spine under literal c=v."""
    a = t.atom()
    if a is not None and a.kind == "ite":
        if a.args[0] is c:
            return assume(a.args[1] if v else a.args[2], c, v)
    return t


def neg(a):
    if special(a):
        if is_special(a):
            k = a.atom()
            return PINF if k is _NI else NINF if k is _PI else NAN
        c, x, y = a.atom().args
        return ite(c, neg(x), neg(y))
    return T({mono: -c for mono, c in a.m.items()})


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n:
            d[a] = int(n) if isinstance(n, Fraction) and n.denominator == 1 else n
        else:
            del d[a]
    out = tuple(sorted(d.items(), key=_mk))
    return out


def _mk(p):
    return p[0].id


def sign_const(t):
    """+1/-1/0 when the sign of t is syntactically known."""
    c = t.const()
    if c is not None:
        return (c > 0) - (c < 0)
    s = 0
    for mono, c in t.m.items():
        x = 1 if c > 0 else -1
        for a, e in mono:
            if a.pos or a.kind in ("exp",):
                continue
            return None
        if s and s != x:
            return None
        s = x
    return s


_nna = {}


def nonneg_atom(a):
    """the atom is syntactically >= 0"""
    r = _nna.get(a)
    if r is None:
        _nna[a] = False
        k = a.kind
        if a.pos or k == "exp":
            r = True
        elif k == "ite":
            r = not special(a.args[1]) and not special(a.args[2]) and nonneg(a.args[1]) and nonneg(a.args[2])
        elif k in ("sum", "paren"):
            b = a.args[1 if k == "sum" else 0]
            r = not special(b) and nonneg(b)
        elif a.sort == "int":
            r = lower_ok(A(a), 0)
        else:
            r = False
        _nna[a] = r
    return r


def nonneg(t):
    """t >= 0 for every value of its atoms (sound, incomplete)."""
    return all(c > 0 and all(e == 2 or nonneg_atom(a) for a, e in mono) for mono, c in t.m.items())


def mul(a, b):
    if special(a) or special(b):
        if is_special(a) or is_special(b):
            if is_special(b):
                a, b = b, a
            if a.atom() is _NA:
                return NAN
            if is_special(b):
                if b.atom() is _NA:
                    return NAN
                return PINF if a.atom() is b.atom() else NINF
            if special(b):
                c, x, y = b.atom().args
                return ite(c, mul(a, x), mul(a, y))
            s = sign_const(b)
            if s is None:
                return ite(eq(b, C(0)), NAN, ite(lt(C(0), b), a, neg(a)))
            if s == 0:
                return NAN
            return a if s > 0 else neg(a)
        return _lift2(mul, a, b)
    if not a.m or not b.m:
        return C(0)
    if len(a.m) == 1 and () in a.m:
        c = a.m[()]
        return b if c == 1 else T({mono: x * c for mono, x in b.m.items()})
    if len(b.m) == 1 and () in b.m:
        c = b.m[()]
        return a if c == 1 else T({mono: x * c for mono, x in a.m.items()})
    # 0/1 ite times something keeps ite(c, x, 0)
    m = {}
    fix = False
    for m1, c1 in a.m.items():
        for m2, c2 in b.m.items():
            mono = _mono_mul(m1, m2)
            n = m.get(mono, 0) + c1 * c2
            if n:
                m[mono] = n
            elif mono in m:
                del m[mono]
    for mono in m:
        for at, e in mono:
            if at.kind in ("paren", "root") or (at.kind == "ite" and e != 1):
                fix = True
    return _fixup(m) if fix else T(m)


def _fixup(m):
    """re-normalise paren atoms with positive integer exponents and ite powers."""
    out = C(0)
    ch = False
    for mono, c in m.items():
        t = None
        rest = []
        for a, e in mono:
            if a.kind == "paren" and isinstance(e, int) and e > 0:
                p = a.args[0]
                for _ in range(e):
                    t = p if t is None else mul(t, p)
                ch = True
            elif a.kind == "paren" and not isinstance(e, int) and e.denominator == 1:
                rest.append((a, int(e)))
            elif a.kind == "ite" and isinstance(e, int) and e != 1:
                cnd, x, y = a.args
                tt = ite(cnd, power(x, e), power(y, e))
                t = tt if t is None else mul(t, tt)
                ch = True
            else:
                rest.append((a, e))
        base = T({tuple(rest): c})
        out = add(out, base if t is None else mul(base, t))
    return out


def paren(t):
    """atom for a multi-monomial polynomial, normalised: returns (coef, mono, atom)."""
    # content: for every atom its least exponent (an absent atom has exponent 0), so that
    # 1 + x^-1 and x^-1*(1 + x) have one normal form
    content = None
    for mono in t.m:
        d = dict(mono)
        if content is None:
            content = dict(d)
        else:
            for a in list(content):
                content[a] = min(content[a], d.get(a, 0))
            for a, e in d.items():
                if a not in content and e < 0:
                    content[a] = e
    content = {a: e for a, e in content.items() if e != 0}
    cm = tuple(sorted(content.items(), key=_mk))
    inv = tuple((a, -e) for a, e in cm)
    m = {_mono_mul(mono, inv): c for mono, c in t.m.items()}
    if any(a.kind == "paren" and e < 0 for a, e in cm):
        q = _fixup(m)       # denominators cleared: expand and normalise again
        if not q.m:
            return Fraction(0), (), None
        if len(q.m) == 1:
            (mono, c), = q.m.items()
            return c, _mono_mul(cm, mono), None
        c, cm2, p = paren(q)
        return c, _mono_mul(cm, cm2), p
    lead = m[min(m, key=lambda mo: tuple((a.id, e) for a, e in mo))]
    m = {mo: c / abs(lead) for mo, c in m.items()}
    p = T(m)
    return abs(lead), cm, mk("paren", (p,), "real", sign_const(p) == 1)


def _mine(a, b):
    if a > 0 and b > 0:
        return min(a, b)
    if a < 0 and b < 0:
        return max(a, b)
    return None


def power(t, n):
    if isinstance(n, Fraction) and n.denominator == 1:
        n = int(n)
    if isinstance(n, int):
        if n == 0:
            return C(1)
        if special(t):
            if is_special(t):
                if t.atom() is _NA:
                    return NAN
                if n < 0:
                    return C(0)
                return t if (n % 2 or t.atom() is _PI) else PINF
            c, x, y = t.atom().args
            return ite(c, power(x, n), power(y, n))
        if n > 0:
            r = t
            for _ in range(n - 1):
                r = mul(r, t)
            return r
    elif special(t):
        if is_special(t):
            return t if t.atom() is _PI else NAN
        c, x, y = t.atom().args
        return ite(c, power(x, n), power(y, n))
    if not t.m:
        if n < 0:
            return A(mk("fn", ("recip0",)))
        return C(0)
    s = t.single()
    at = t.atom()
    if at is not None and at.kind == "ite":
        c, x, y = at.args
        return ite(c, power(x, n), power(y, n))
    if s is None:
        c, cm, p = paren(t)
        if c == 0:
            return A(mk("fn", ("recip0",))) if n < 0 else C(0)
        mono = cm if p is None else _mono_mul(cm, ((p, 1),))
    else:
        c, mono = s
    if isinstance(n, int):
        coef = c ** n
        return _fixup({_mono_mul((), tuple(sorted(((a, e * n) for a, e in mono), key=_mk))): coef})
    # fractional power: only for syntactically nonnegative monomials
    if c > 0 and all(a.pos or a.kind == "exp" for a, e in mono):
        cf = _frac_pow(c, n)
        return mul(cf, T({tuple(sorted(((a, _norm(e * n)) for a, e in mono), key=_mk)): Fraction(1)}))
    return A(mk("fn", ("pow", t, C(n)), "real", False))


def _norm(e):
    return int(e) if isinstance(e, Fraction) and e.denominator == 1 else e


def _frac_pow(c, n):
    if c == 1:
        return C(1)
    if n == Fraction(1, 2):
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator:
            return C(Fraction(a, b))
    return A(mk("fn", ("pow", C(c), C(n)), "real", True))


def div(a, b):
    c = b.const()
    if c is not None and c != 0:
        return mul(a, C(1 / c))
    if special(b) and is_special(b):
        if b.atom() is _NA:
            return NAN
        if is_special(a):
            return NAN
        if not special(a):
            return C(0)
    return mul(a, power(b, -1))


def sqrt(t):
    return power(t, Fraction(1, 2))


# ---------------------------------------------------------------- exp / log
def exp(t):
    if special(t):
        if is_special(t):
            k = t.atom()
            return C(0) if k is _NI else PINF if k is _PI else NAN
        c, x, y = t.atom().args
        return ite(c, exp(x), exp(y))
    r = C(1)
    for mono, c in t.m.items():
        r = mul(r, _exp1(mono, c))
    return r


def _exp1(mono, c):
    c = _norm(c)
    if len(mono) == 1 and mono[0][1] == 1:
        a = mono[0][0]
        if a.kind == "log":
            return power(a.args[0], c)
        if a.kind == "ite":
            cn, x, y = a.args
            return ite(cn, exp(mul(C(c), x)), exp(mul(C(c), y)))
    if mono == ():
        return A(mk("exp", (T({(): Fraction(c)}),), "real", True))
    ea = mk("exp", (T({mono: Fraction(1)}),), "real", True)
    return T({((ea, c),): Fraction(1)})


def log(t):
    if special(t):
        if is_special(t):
            return t if t.atom() is _PI else NAN
        c, x, y = t.atom().args
        return ite(c, log(x), log(y))
    if not t.m:
        return NINF
    at = t.atom()
    if at is not None and at.kind == "ite":
        c, x, y = at.args
        return ite(c, log(x), log(y))
    s = t.single()
    if s is None:
        c, cm, p = paren(t)
        if c == 0:
            return NINF
        mono = cm if p is None else _mono_mul(cm, ((p, 1),))
        if c < 0:
            return A(mk("log", (t,)))
    else:
        c, mono = s
        if c < 0:
            return A(mk("log", (t,)))
    r = C(0)
    if c != 1:
        r = _logc(c)
    npos = [p for p in mono if not (p[0].pos or p[0].kind in ("exp", "paren", "sum", "ite"))]
    # log is split over factors known to be non-negative; at most one factor of
    # unknown sign is then non-negative itself whenever the product is
    if len(npos) > 1 or any(isinstance(e, int) and e % 2 == 0 for _, e in npos):
        neg_m = tuple(npos)
        rest = [p for p in mono if p not in npos]
        r = add(r, A(mk("log", (T({neg_m: Fraction(1)}),))))
        mono = tuple(rest)
    for a, e in mono:
        r = add(r, mul(C(e), _log_atom(a)))
    return r


def _logc(c):
    if c.denominator != 1 and c.numerator == 1:
        return neg(_logc(Fraction(c.denominator)))
    if c == 1:
        return C(0)
    if c.denominator != 1:
        return add(_logc(Fraction(c.numerator)), neg(_logc(Fraction(c.denominator))))
    n = int(c)
    # factor small primes for canonical form
    r = C(0)
    p = 2
    while p * p <= n and p < 1000:
        while n % p == 0:
            r = add(r, A(mk("log", (C(p),))))
            n //= p
        p += 1
    if n > 1:
        r = add(r, A(mk("log", (C(n),))))
    return r


def _log_atom(a):
    if a.kind == "fn" and a.args[0] == "pow" and len(a.args) == 3 and a.args[1].const() is not None and a.args[1].const() > 0 \
            and a.args[2].const() is not None:
        return mul(a.args[2], _logc(a.args[1].const()))
    if a.kind == "exp":
        return a.args[0]
    if a.kind == "paren":
        return A(mk("log", (a.args[0],)))
    if a.kind == "ite":
        c, x, y = a.args
        return ite(c, log(x), log(y))
    return A(mk("log", (A(a),)))


# ---------------------------------------------------------------- integers
def _nonneg_hint(t):
    return lower_ok(t, 0)


def bounds(a):
    """(lo, hi_exclusive) terms for an atom or None."""
    k = a.kind
    if k == "var":
        return a.args[1], a.args[2]
    if k == "bvar":
        return C(0), a.args[2]
    if k == "app":
        f = a.args[0]
        lo = f.lo(*a.args[1]) if callable(f.lo) else f.lo
        hi = f.hi(*a.args[1]) if callable(f.hi) else f.hi
        return lo, hi
    if k == "argmax" or k == "argmin":
        return C(0), a.args[0].args[2]
    if k == "div":
        p, q = a.args
        if lower_ok(p, 0):
            c = q.const()
            return C(0), None
        return None, None
    if k == "mod":
        return C(0), a.args[1]
    if k == "ite" and a.sort == "int":
        return None, None
    return None, None


def _ite_leaf_bounds(a):
    return None


_lok = {}


def lower_ok(t, k=0, depth=0):
    """syntactic proof of t >= k (ints).  Sound, incomplete."""
    key = (t, k)
    r = _lok.get(key)
    if r is None:
        r = _lok[key] = _lower_ok(t, k, depth)
    return r


def _lower_ok(t, k, depth):
    c = t.const()
    if c is not None:
        return c >= k
    if depth > 12:
        return False
    # eliminate atoms: choose an atom with a bound and substitute the extreme.
    # order: atoms depending on others first (larger id of bounds)
    atoms = set()
    for mono in t.m:
        for a, _ in mono:
            atoms.add(a)
    # ite atoms: both branches
    for a in atoms:
        if a.kind == "ite":
            r1 = subst_atom(t, a, a.args[1])
            r2 = subst_atom(t, a, a.args[2])
            return lower_ok(r1, k, depth + 1) and lower_ok(r2, k, depth + 1)
    # all-nonneg coefs with nonneg atoms and const >= k
    def simple():
        base = t.m.get((), Fraction(0))
        for mono, c in t.m.items():
            if mono == ():
                continue
            lo = Fraction(1)
            for a, e in mono:
                b = bounds(a)[0] if a.sort == "int" else None
                bc = b.const() if b is not None else None
                if bc is None or bc < 0 or e < 0:
                    if a.pos and e > 0:
                        lo = Fraction(0)
                        continue
                    return False
                lo *= bc ** e
            if c < 0:
                return False
            base += c * lo
        return base >= k
    if simple():
        return True
    cand = sorted(atoms, key=lambda a: -a.id)
    for a in cand:
        lo, hi = bounds(a)
        if lo is None and hi is None:
            continue
        # t must be linear in a
        co = C(0)
        rest = {}
        ok = True
        com = {}
        for mono, c in t.m.items():
            d = dict(mono)
            if a in d:
                if d[a] != 1:
                    ok = False
                    break
                del d[a]
                com[tuple(sorted(d.items(), key=_mk))] = c
            else:
                if any(a in x.free for x, _ in mono):
                    ok = False
                    break
                rest[mono] = c
        if not ok:
            continue
        co, rest = T(com), T(rest)
        if any(a in x.free for mono in co.m for x, _ in mono):
            continue
        # rest - p div q >= k  <=>  p < (rest - k + 1) * q
        if a.kind == "div" and co.const() == -1 and rest.is_int and isinstance(k, int) and lower_ok(a.args[1], 1, depth + 1) \
                and lower_ok(sub(mul(add(rest, C(1 - k)), a.args[1]), a.args[0]), 1, depth + 1):
            return True
        # co >= 0 -> use lo ; co <= 0 -> use hi-1
        if lo is not None and lower_ok(co, 0, depth + 1):
            if lower_ok(add(rest, mul(co, lo)), k, depth + 1):
                return True
        if hi is not None and lower_ok(neg(co), 0, depth + 1):
            if lower_ok(add(rest, mul(co, sub(hi, C(1)))), k, depth + 1):
                return True
    return False


def sub(a, b):
    return add(a, neg(b))


def idiv(p, q):
    pc, qc = p.const(), q.const()
    if pc is not None and qc is not None and qc != 0:
        return C(int(pc // qc))
    if qc == 1:
        return p
    if special(p) or special(q):
        return lift_ite1((p, q), idiv)
    a = p.atom()
    if a is not None and a.kind == "ite":
        c, x, y = a.args
        return ite(c, idiv(x, q), idiv(y, q))
    qu, r = _divide(p, q)
    if qu is not None and not qu.is_zero():
        return add(qu, idiv(r, q))
    if r.is_zero():
        return C(0)
    if lower_ok(r, 0) and lower_ok(sub(q, r), 1):
        return C(0)
    if r.const() is not None and r.const() < 0 and lower_ok(add(q, r), 0):     # -q <= r < 0
        return C(-1)
    ra = r.atom()
    if ra is not None and ra.kind == "div" and lower_ok(ra.args[1], 1) and lower_ok(q, 1):
        return idiv(ra.args[0], mul(ra.args[1], q))
    if not r.is_int:
        return A(mk("fn", ("floor", mul(r, power(q, -1))), "int"))
    return A(mk("div", (r, q), "int"))


def imod(p, q):
    pc, qc = p.const(), q.const()
    if pc is not None and qc is not None and qc != 0:
        return C(int(pc % qc) if pc.denominator == 1 and qc.denominator == 1 else pc % qc)
    if qc == 1:
        return C(0)
    if special(p) or special(q):
        return lift_ite1((p, q), imod)
    a = p.atom()
    if a is not None and a.kind == "ite":
        c, x, y = a.args
        return ite(c, imod(x, q), imod(y, q))
    qu, r = _divide(p, q)
    if r.is_zero():
        return C(0)
    if lower_ok(r, 0) and lower_ok(sub(q, r), 1):
        return r
    ra = r.atom()
    if ra is not None and ra.kind == "mod":
        # (x mod (q*k)) mod q = x mod q
        qq, rr = _divide(ra.args[1], q)
        if qq is not None and rr.is_zero():
            return imod(ra.args[0], q)
    return A(mk("mod", (r, q), "int"))


def _divide(p, q):
    """p = qu*q + r with integer polynomial quotient, greedy; q monomial or poly."""
    s = q.single()
    qu = {}
    r = {}
    if s is not None:
        qcoef, qm = s
        qd = dict(qm)
        for mono, c in p.m.items():
            d = dict(mono)
            ok = True
            for a, e in qd.items():
                if d.get(a, 0) < e:
                    ok = False
                    break
            if ok:
                for a, e in qd.items():
                    d[a] -= e
                    if d[a] == 0:
                        del d[a]
                k = c / qcoef
                if k.denominator == 1:
                    mo = tuple(sorted(d.items(), key=_mk))
                    qu[mo] = k
                    continue
                fl = Fraction(c // qcoef)
                if fl and c.denominator == 1:
                    mo = tuple(sorted(d.items(), key=_mk))
                    qu[mo] = fl
                    r[mono] = c - fl * qcoef
                    continue
            r[mono] = c
        return T(qu), T(r)
    # multi-term divisor: divide by leading monomial while remainder shrinks
    lead = max(q.m, key=lambda mo: (len(mo), tuple((a.id, e) for a, e in mo)))
    lc = q.m[lead]
    ld = dict(lead)
    cur = p
    quo = C(0)
    for _ in range(12):
        hit = None
        for mono, c in cur.m.items():
            d = dict(mono)
            if all(d.get(a, 0) >= e for a, e in ld.items()) and (c / lc).denominator == 1:
                for a, e in ld.items():
                    d[a] -= e
                    if d[a] == 0:
                        del d[a]
                hit = T({tuple(sorted(d.items(), key=_mk)): c / lc})
                break
        if hit is None:
            break
        nxt = sub(cur, mul(hit, q))
        if len(nxt.m) > len(cur.m) + 1:
            break
        quo, cur = add(quo, hit), nxt
    return quo, cur


def tmin(a, b):
    return ite(le(a, b), a, b)


def tmax(a, b):
    return ite(le(b, a), a, b)


def mkb(kind, args):
    k = (kind, args)
    b = _bools.get(k)
    if b is None:
        b = B()
        b.id = next(_counter)
        b.kind, b.args = kind, args
        b.free = _free_of(args)
        b.h = _h_of(args)
        _bools[k] = b
    return b


TRUE = mkb("true", ())
FALSE = mkb("false", ())


def bconst(v):
    return TRUE if v else FALSE


def bapp(f, idx):
    return mkb("app", (f, tuple(idx)))


def not_(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.kind == "not":
        return b.args[0]
    return mkb("not", (b,))


def and_(*bs):
    s = {}
    for b in bs:
        if b is FALSE:
            return FALSE
        if b is TRUE:
            continue
        for x in (b.args if b.kind == "and" else (b,)):
            s[x.id] = x
    for x in s.values():
        if not_(x).id in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s.values()))
    return mkb("and", tuple(s[k] for k in sorted(s)))


def or_(*bs):
    return not_(and_(*[not_(b) for b in bs]))


def implies(a, b):
    return or_(not_(a), b)


def _cmp_lift(f, a, b):
    for t, first in ((a, True), (b, False)):
        at = t.atom()
        if at is not None and at.kind == "ite" and (special(a) or special(b) or
                                                    (at.args[1].const() is not None and at.args[2].const() is not None)):
            c, x, y = at.args
            o = b if first else a
            l = f(x, assume(o, c, True)) if first else f(assume(o, c, True), x)
            r = f(y, assume(o, c, False)) if first else f(assume(o, c, False), y)
            return bite(c, l, r)
    return None


def bite(c, l, r):
    if c is TRUE:
        return l
    if c is FALSE:
        return r
    if l is r:
        return l
    if l is TRUE and r is FALSE:
        return c
    if l is FALSE and r is TRUE:
        return not_(c)
    if l is FALSE:
        return and_(not_(c), r)
    if r is FALSE:
        return and_(c, l)
    return and_(implies(c, l), or_(c, r))


_SPV = {"ninf": -1, "pinf": 1}


def _sp_cmp(a, b, op):
    """compare where at least one is a special constant, none is a special ite"""
    if a == NAN or b == NAN:
        return FALSE
    va = _SPV[a.atom().args[0]] if is_special(a) else 0
    vb = _SPV[b.atom().args[0]] if is_special(b) else 0
    return bconst({"le": va <= vb, "lt": va < vb, "eq": va == vb}[op])


def le(a, b):
    if special(a) or special(b):
        r = _cmp_lift(le, a, b)
        return r if r is not None else _sp_cmp(a, b, "le")
    r = _cmp_lift(le, a, b)
    if r is not None:
        return r
    d = sub(a, b)
    c = d.const()
    if c is not None:
        return bconst(c <= 0)
    at = [(mo, x) for mo, x in d.m.items() if len(mo) == 1 and mo[0][1] == 1 and mo[0][0].kind in ("ite", "fn")]
    if len(at) == 1:
        (mo, cf), rest = at[0], T({m: x for m, x in d.m.items() if m != at[0][0]})
        at = mo[0][0]
        if at.kind == "ite":                     # a branch that decides the comparison
            q, x, y = at.args
            l, r = (le(add(mul(C(cf), v), rest), C(0)) for v in (x, y))
            if l in (TRUE, FALSE) or r in (TRUE, FALSE):
                return bite(q, l, r)
        elif at.args[0] == "floor" and abs(cf) == 1 and rest.is_int and len(d.m) <= 2 and (len(d.m) == 1 or () in d.m):
            return le(rest, at.args[1]) if cf < 0 else lt(at.args[1], sub(C(1), rest))
    if d.is_int:
        if lower_ok(neg(d), 0):
            return TRUE
        if lower_ok(d, 1):
            return FALSE
        return _canon_int_le(d)
    s = sign_const(d)
    if s is not None:
        return bconst(s <= 0)
    if not special(d):
        v = _numeric(d)
        if v is not None:
            return bconst(v <= 0)
        if nonneg(neg(d)):
            return TRUE
        c = d.m.get((), 0)
        if c > 0 and nonneg(d):
            return FALSE
    return mkb("le", (_scale(d),))


def _numeric(d):
    """value of a combination of logarithms of numbers, when it is clearly not zero"""
    v = 0.0
    for mono, c in d.m.items():
        if mono == ():
            v += float(c)
        elif len(mono) == 1 and mono[0][0].kind == "log" and mono[0][1] == 1 and (x := mono[0][0].args[0].const()) is not None and x > 0:
            v += float(c) * (math.log(x.numerator) - math.log(x.denominator))
        else:
            return None
    return v if abs(v) > 1e-6 else None


def _canon_int_le(d):
    # d <= 0 over ints; negate form canonical: choose sign of leading monomial positive
    lead = min((mo for mo in d.m if mo), key=lambda mo: tuple((a.id, e) for a, e in mo))
    if d.m[lead] < 0:
        # d<=0  <=>  not (d >= 1) <=> not(-d + 1 <= 0)
        return not_(mkb("le", (add(neg(d), C(1)),)))
    return mkb("le", (d,))


def _scale(d, signed=False):
    lead = min((mo for mo in d.m if mo), key=lambda mo: tuple((a.id, e) for a, e in mo))
    c = d.m[lead]
    k = c if signed else abs(c)
    return T({mo: x / k for mo, x in d.m.items()}) if k != 1 else d


def lt(a, b):
    if special(a) or special(b):
        r = _cmp_lift(lt, a, b)
        return r if r is not None else _sp_cmp(a, b, "lt")
    r = _cmp_lift(lt, a, b)
    if r is not None:
        return r
    d = sub(a, b)
    if d.is_int:
        return le(add(a, C(1)), b)
    c = d.const()
    if c is not None:
        return bconst(c < 0)
    s = sign_const(d)
    if s is not None:
        return bconst(s < 0)
    if not special(d):
        if nonneg(d):
            return FALSE
        if d.m.get((), 0) < 0 and nonneg(neg(d)):
            return TRUE
    return not_(mkb("le", (_scale(neg(d)),)))


def _no_counts(d):
    """sums of counts of cases are zero exactly when no case occurs"""
    if len(d.m) < 2:
        return None
    out, sg = [], None
    for mono, c in d.m.items():
        if len(mono) != 1 or mono[0][1] != 1 or mono[0][0].kind != "sum" or (sg is not None and (c > 0) != sg):
            return None
        sg = c > 0
        bs, t = mono[0][0].args
        a = t.atom() if len(t.m) == 1 else None
        if a is None or a.kind != "ite" or a.args[1].const() not in (0, 1) or a.args[2].const() not in (0, 1):
            return None
        vs = [(fresh_index(b.args[2]), b) for b in bs]
        t = subst(t, {b: v for v, b in vs})
        r = eq(t, C(0))
        for v, b in reversed(vs):
            r = bind_all(v.atom(), b.args[2], r)
        out.append(r)
    return and_(*out)


def eq(a, b):
    if special(a) or special(b):
        r = _cmp_lift(eq, a, b)
        return r if r is not None else _sp_cmp(a, b, "eq")
    r = _cmp_lift(eq, a, b)
    if r is not None:
        return r
    for x, y in ((a, b), (b, a)):
        r = _perm_eq(x, y)
        if r is not None:
            return r
    d = sub(a, b)
    c = d.const()
    if c is not None:
        return bconst(c == 0)
    if d.is_int:
        if lower_ok(d, 1) or lower_ok(neg(d), 1):
            return FALSE
        r = _no_counts(d)
        if r is not None:
            return r
        # a two-valued integer: a == lo + 1 is not (a == lo)
        at = [(x, c) for m, c in d.m.items() for x, e in m[:1] if len(m) == 1 and e == 1]
        if len(at) == 1 and len(d.m) <= 2 and (len(d.m) == 1 or () in d.m) and abs(at[0][1]) == 1:
            x, cf = at[0]
            lo, hi = bounds(x)
            lo, hi = (None if v is None else lift(v).const() for v in (lo, hi))
            if lo is not None and hi is not None and hi == lo + 2 and -d.m.get((), 0) / cf == lo + 1:
                return not_(eq(A(x), C(lo)))
    else:
        s = sign_const(d)
        if s is not None and s != 0:
            return FALSE
    return mkb("eq", (_scale(d, True),))


def isnan(t):
    if special(t):
        if is_special(t):
            return bconst(t.atom() is _NA)
        c, x, y = t.atom().args
        return bite(c, isnan(x), isnan(y))
    return FALSE


def isinf(t, sign=0):
    if special(t):
        if is_special(t):
            k = t.atom()
            return bconst((k is _NI and sign <= 0) or (k is _PI and sign >= 0))
        c, x, y = t.atom().args
        return bite(c, isinf(x, sign), isinf(y, sign))
    return FALSE


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a == b:
        return a
    if c.kind == "not":
        return ite(c.args[0], b, a)
    a, b = assume(a, c, True), assume(b, c, False)
    if a == b:
        return a
    # eq-conditions: in the true branch, substitute when it makes branches equal
    return A(mk("ite", (c, a, b), "int" if a.is_int and b.is_int else "real",
                _pos(a) and _pos(b)))


def _pos(t):
    s = sign_const(t)
    return s is not None and s > 0


# ---------------------------------------------------------------- substitution
def subst(t, mp):
    """mp: Atom(var/bvar) -> T.  Simultaneous, rebuilding through constructors."""
    if not mp or not (t.free & mp.keys()):
        return t
    return Sub(mp).t(t)


def bsubst(b, mp):
    if not mp or not (b.free & mp.keys()):
        return b
    return Sub(mp).b(b)


class Sub:
    def __init__(self, mp):
        self.mp = mp
        self.ca = {}
        self.keys = frozenset(mp.keys())

    def t(self, t):
        if not (t.free & self.keys):
            return t
        out = C(0)
        for mono, c in t.m.items():
            r = None
            keep = []
            for a, e in mono:
                if a.free & self.keys:
                    x = power(self.a(a), e)
                    r = x if r is None else mul(r, x)
                else:
                    keep.append((a, e))
            base = T({tuple(keep): c})
            out = add(out, base if r is None else mul(base, r))
        return out

    def a(self, a):
        r = self.ca.get(a)
        if r is None:
            if a in self.mp:
                r = self.mp[a]
            else:
                r = rebuild_atom(a, self.t, self.b, self.mp)
            self.ca[a] = r
        return r

    def b(self, b):
        if not (b.free & self.keys):
            return b
        return rebuild_b(b, self.t, self.b, self.mp)


def subst_atom(t, atom, val):
    """replace an arbitrary atom occurring at polynomial top level."""
    out = C(0)
    for mono, c in t.m.items():
        d = dict(mono)
        if atom in d:
            e = d.pop(atom)
            base = T({tuple(sorted(d.items(), key=_mk)): c})
            out = add(out, mul(base, power(val, e)))
        else:
            out = add(out, T({mono: c}))
    return out


def rebuild_atom(a, ft, fb, mp=None):
    k, g = a.kind, a.args
    if k in ("var", "special"):
        return A(a)
    if k == "bvar":
        hi = g[2]
        nh = ft(hi)
        return A(a) if nh == hi else A(bvar(g[0], g[1], nh))
    if k == "app":
        return g[0](*[ft(x) for x in g[1]])
    if k == "ite":
        c = fb(g[0])
        if c is TRUE:
            return ft(g[1])
        if c is FALSE:
            return ft(g[2])
        return ite(c, ft(g[1]), ft(g[2]))
    if k == "exp":
        return exp(ft(g[0]))
    if k == "log":
        return log(ft(g[0]))
    if k == "div":
        return idiv(ft(g[0]), ft(g[1]))
    if k == "mod":
        return imod(ft(g[0]), ft(g[1]))
    if k == "paren":
        return ft(g[0])
    if k == "fn":
        return fn(g[0], *[ft(x) if isinstance(x, T) else x for x in g[1:]])
    if k in ("sum", "max", "prod", "argmax", "argmin"):
        # open binders with the bound vars as they are, then re-close
        if k == "sum":
            vs, body = g
        else:
            vs, body = (g[0],), g[1]
        fresh = []
        m2 = {}
        for v in vs:
            dim = ft(v.args[2])
            f = fresh_index(dim)
            fresh.append((f, dim))
            m2[v] = f
        body = subst(body, m2)
        body = ft(body)
        if k == "sum":
            r = body
            for f, dim in fresh:
                r = bind_sum(f.atom(), dim, r)
            return r
        f, dim = fresh[0]
        return {"max": bind_max, "prod": bind_prod, "argmax": bind_argmax, "argmin": bind_argmin}[k](
            f.atom(), dim, body)
    raise AssertionError(k)


def rebuild_b(b, ft, fb, mp=None):
    k, g = b.kind, b.args
    if k in ("true", "false"):
        return b
    if k == "app":
        return bapp_norm(g[0], [ft(x) for x in g[1]])
    if k == "not":
        return not_(fb(g[0]))
    if k == "and":
        return and_(*[fb(x) for x in g])
    if k == "le":
        return le(ft(g[0]), C(0))
    if k == "eq":
        return eq(ft(g[0]), C(0))
    if k == "all":
        v, body = g
        dim = ft(v.args[2])
        f = fresh_index(dim)
        body = fb(bsubst(body, {v: f}))
        return bind_all(f.atom(), dim, body)
    if k == "bfn":
        return mkb("bfn", (g[0],) + tuple(ft(x) if isinstance(x, T) else x for x in g[1:]))
    raise AssertionError(k)


def bapp_norm(f, idx):
    return bapp(f, idx)


_fresh = itertools.count()


def fresh_index(dim, name="k"):
    return var(f"{name}!{next(_fresh)}", C(0), dim)


# ---------------------------------------------------------------- reductions
def Sum(dim, f):
    dim = lift(dim)
    c = dim.const()
    if c is not None and c <= EXPAND and not PERMS[0]:
        r = C(0)
        for i in range(int(c)):
            r = add(r, f(C(i)))
        return r
    v = fresh_index(dim)
    return bind_sum(v.atom(), dim, f(v))


def _close(v, dim, body):
    b = bvar(body.h_close if False else max(body.h, dim.h) + 1, 0, dim)
    return b


def mk_h(b):
    return b


def bind_sum(v, dim, body):
    """Sum_{v in [0,dim)} body."""
    if PERMS[0] and v in body.free and not special(body):
        r = _perm_reindex(v, dim, body)
        if r is not None:
            v, body = r
        elif any(a.kind == "ite" and v in a.free and v not in a.args[0].free for mono in body.m for a, _ in mono):
            out = C(0)
            for mono, c in body.m.items():
                k = next((p for p in mono if p[0].kind == "ite" and p[1] == 1 and v in p[0].free and v not in p[0].args[0].free), None)
                if k is None:
                    out = add(out, bind_sum(v, dim, T({mono: c})))
                else:
                    rest = T({tuple(p for p in mono if p is not k): c})
                    cc, x, y = k[0].args
                    out = add(out, ite(cc, bind_sum(v, dim, mul(x, rest)), bind_sum(v, dim, mul(y, rest))))
            return out
    c = dim.const()
    t = _table(v, c, body, subst, lambda x: x.const())
    if t is not None:
        return C(sum(t))
    if c is not None and c <= EXPAND:
        r = C(0)
        for i in range(int(c)):
            r = add(r, subst(body, {v: C(i)}))
        return r
    if v not in body.free:
        return mul(dim, body)
    if special(body):
        a = body.atom()
        if a.kind == "ite" and v not in a.args[0].free:
            return ite(a.args[0], bind_sum(v, dim, a.args[1]), bind_sum(v, dim, a.args[2]))
        # extended-real sum: keep opaque
        if not _maybe_only_ninf(body):
            return _raw_sum(v, dim, body)
        return _raw_sum(v, dim, body)
    out = C(0)
    for mono, c in body.m.items():
        dep = []
        ind = []
        for a, e in mono:
            (dep if v in a.free else ind).append((a, e))
        base = T({tuple(ind): c})
        if not dep:
            out = add(out, mul(base, dim))
        else:
            out = add(out, mul(base, _sum_mono(v, dim, tuple(dep))))
    return out


def _maybe_only_ninf(t):
    return True


def _sum_mono(v, dim, dep):
    body = T({dep: Fraction(1)})
    # ite rules
    for a, e in dep:
        if a.kind == "ite" and e == 1:
            c, x, y = a.args
            rest = T({tuple(p for p in dep if p[0] is not a): Fraction(1)})
            if v not in c.free:
                return ite(c, bind_sum(v, dim, mul(x, rest)), bind_sum(v, dim, mul(y, rest)))
            r = _solve_eq(c, v)
            if r is not None:
                k, extra = r
                # c <=> v == k and extra
                inr = and_(le(C(0), k), lt(k, dim), bsubst(extra, {v: k}))
                sx = mul(subst(x, {v: k}), subst(rest, {v: k}))
                sy = mul(subst(y, {v: k}), subst(rest, {v: k}))
                if not special(sx) and not special(sy):
                    return add(ite(inr, sub(sx, sy), C(0)), bind_sum(v, dim, mul(y, rest)))
            r = _solve_lt(c, v)
            if r is None:
                r = _solve_ge(c, v)
                if r is not None:
                    x, y = y, x
            if r is not None:
                k = r  # c <=> v < k
                if lower_ok(k, 0) and lower_ok(sub(dim, k), 0):
                    v2 = fresh_index(sub(dim, k))
                    v1 = fresh_index(k)
                    return add(bind_sum(v1.atom(), k, subst(mul(x, rest), {v: v1})),
                               bind_sum(v2.atom(), sub(dim, k), subst(mul(y, rest), {v: add(v2, k)})))
    # flattened index: v div q / v mod q with q | dim
    q = _find_divisor(body, v)
    if q is not None:
        hi, r = _divide(dim, q)
        if hi is not None and r.is_zero() and not hi.is_zero():
            i, j = fresh_index(hi), fresh_index(q)
            nb = subst(body, {v: add(mul(i, q), j)})
            return bind_sum(i.atom(), hi, bind_sum(j.atom(), q, nb))
    # nested: exactly one sum factor -> merge into one binder (Fubini)
    inner = [a for a, e in dep if a.kind == "sum"]
    if len(inner) == 1 and dict(dep)[inner[0]] == 1:
        vs, b2 = inner[0].args
        m2, lst = {}, []
        for w in vs:
            f = fresh_index(subst(w.args[2], {}))
            m2[w] = f
            lst.append((f.atom(), w.args[2]))
        b2 = subst(b2, m2)
        if not special(b2) and not any(v in d.free for _, d in lst):
            rest = T({tuple(p for p in dep if p[0] is not inner[0]): Fraction(1)})
            nb = mul(rest, b2)
            if not special(nb) and len(nb.m) == 1 and list(nb.m.values())[0] == 1:
                return _close_sum([(v, dim)] + lst, nb)
    return _close_sum([(v, dim)], body)


def _cancel_norm(vs, body):
    """Sum_{v,..} P(v) * S^-1 * rest = Sum_{..} rest   where S = Sum_v P(v) and rest is free of v."""
    (mono, c), = body.m.items()
    negs = [(a, e) for a, e in mono if a.kind == "sum" and e in (-1, -2, -3)]
    if not negs:
        return None
    for v, d in vs:
        P = tuple(p for p in mono if v in p[0].free)
        for a, e in negs:
            if v in a.free:
                continue
            bs, t = a.args
            if len(bs) != 1 or bs[0].args[2] != d:
                continue
            if subst(t, {bs[0]: A(v)}) != T({P: Fraction(1)}):
                continue
            rest = {}
            for q, k in mono:
                if v in q.free:
                    continue
                if q is a:
                    k = k + 1
                    if k == 0:
                        continue
                rest[q] = k
            t2 = T({tuple(sorted(rest.items(), key=_mk)): c})
            for v2, d2 in vs:
                if v2 is not v:
                    t2 = bind_sum(v2, d2, t2)
            return t2
    return None


def _close_sum(vs, body):
    """vs: list of (var atom, dim) with independent dims; body single monomial (coef 1)."""
    # push out monomials independent of a var happened already for the innermost var;
    # for several variables: pull factors independent of all but try canonical order
    if len(body.m) == 1:
        r = _cancel_norm(vs, body)
        if r is not None:
            return r
    H = body.h
    for _, d in vs:
        H = max(H, d.h)
    n = len(vs)
    best = None
    if n > 4:
        perms = [tuple(range(n))]
    else:
        perms = itertools.permutations(range(n))
    for p in perms:
        mp = {}
        bs = []
        for slot, i in enumerate(p):
            v, d = vs[i]
            b = mk("bvar", (H + 1, slot, d), "int")
            b.h = max(b.h, H + 1)
            mp[v] = A(b)
            bs.append(b)
        t = subst(body, mp)
        key = (tuple(dim_key(b.args[2]) for b in bs), tkey(t))
        if best is None or key < best[0]:
            best = (key, tuple(bs), t)
    _, bs, t = best
    a = mk("sum", (bs, t), "int" if t.is_int else "real", sign_const(t) == 1 and all(
        lower_ok(b.args[2], 1) for b in bs))
    if a.h <= H:
        a.h = H + 1
    a.free = (t.free | frozenset().union(*[b.args[2].free for b in bs])) - frozenset(bs)
    return A(a)


def _raw_sum(v, dim, body):
    b = mk("bvar", (max(body.h, dim.h) + 1, 0, dim), "int")
    b.h = max(b.h, body.h + 1, dim.h + 1)
    t = subst(body, {v: A(b)})
    a = mk("sum", ((b,), t), "real")
    a.h = max(a.h, b.h)
    a.free = (t.free | dim.free) - frozenset((b,))
    return A(a)


_tk = {}


def dim_key(t):
    return tkey(t)


def tkey(t):
    """total order key for terms, stable within a process"""
    return tuple(sorted((tuple((a.id, str(e)) for a, e in mono), c) for mono, c in t.m.items()))


def _find_divisor(t, v):
    """find q with v div q or v mod q occurring in t (v alone as dividend)."""
    res = []
    seen = set()

    def ft(t):
        for mono in t.m:
            for a, _ in mono:
                fa(a)

    def fa(a):
        if a in seen or v not in a.free:
            return
        seen.add(a)
        if a.kind in ("div", "mod"):
            p, q = a.args
            s = p.atom()
            if s is v and v not in q.free:
                res.append(q)
        for g in a.args:
            fg(g)

    def fg(g):
        if isinstance(g, T):
            ft(g)
        elif isinstance(g, B):
            fb(g)
        elif isinstance(g, Atom):
            fa(g)
        elif isinstance(g, tuple):
            for x in g:
                fg(x)

    def fb(b):
        if b in seen or v not in b.free:
            return
        seen.add(b)
        for g in b.args:
            fg(g)
    ft(t)
    if not res:
        return None
    # coarsest first: prefer the largest (most monomial factors)
    res.sort(key=lambda q: -sum(e for mo in q.m for _, e in mo) - (q.const() or 0) / 1000)
    return res[0]


def _linear_in(t, v):
    """t = co*v + rest, with v only linear; returns (co, rest) or None"""
    co, rest = {}, {}
    for mono, c in t.m.items():
        d = dict(mono)
        if v in d:
            if d[v] != 1:
                return None
            del d[v]
            if any(v in a.free for a in d):
                return None
            co[tuple(sorted(d.items(), key=_mk))] = c
        elif any(v in a.free for a, _ in mono):
            return None
        else:
            rest[mono] = c
    return T(co), T(rest)


def _solve_eq(c, v):
    """c <=> (v == k) and extra; returns (k, extra)."""
    if c.kind == "eq":
        r = _linear_in(c.args[0], v)
        if r and r[0].const() in (1, -1):
            k = neg(r[1]) if r[0].const() == 1 else r[1]
            if k.is_int:
                return k, TRUE
        return None
    if c.kind == "and":
        for i, x in enumerate(c.args):
            r = _solve_eq(x, v)
            if r is not None:
                others = [y for j, y in enumerate(c.args) if j != i]
                return r[0], and_(r[1], *others)
    return None


def _solve_lt(c, v):
    """c <=> v < k with k free of v."""
    if c.kind == "le":
        r = _linear_in(c.args[0], v)
        if r and r[0].const() == 1 and r[1].is_int:
            return add(neg(r[1]), C(1))  # v + rest <= 0 -> v < 1-rest
        if r and r[0].const() == -1 and r[1].is_int:
            return None
    return None


def _solve_ge(c, v):
    """c <=> v >= k with k free of v."""
    if c.kind == "le":
        r = _linear_in(c.args[0], v)
        if r and r[0].const() == -1 and r[1].is_int:
            return r[1]  # rest - v <= 0
    return None


def Max(dim, f):
    dim = lift(dim)
    v = fresh_index(dim)
    return bind_max(v.atom(), dim, f(v))


def _table(v, c, body, sub_, const):
    """the values of a body that mentions nothing but the index, when all of them are literals"""
    if c is None or not EXPAND < c <= 512 or len(body.free) != 1 or v not in body.free:
        return None
    out = []
    for i in range(int(c)):
        x = const(sub_(body, {v: C(i)}))
        if x is None:
            return None
        out.append(x)
    return out


def bind_max(v, dim, body):
    c = dim.const()
    t = _table(v, c, body, subst, lambda x: x.const())
    if t is not None:
        return C(max(t))
    if c is not None and c <= EXPAND:
        r = subst(body, {v: C(0)})
        for i in range(1, int(c)):
            r = tmax(r, subst(body, {v: C(i)}))
        return r
    if v not in body.free:
        return body
    out = C(0)
    inner = body
    if not special(body):
        ind = T({mo: c for mo, c in body.m.items() if not any(v in a.free for a, _ in mo)})
        inner = sub(body, ind)
        out = ind
    b = mk("bvar", (max(inner.h, dim.h) + 1, 0, dim), "int")
    b.h = max(b.h, inner.h + 1, dim.h + 1)
    t = subst(inner, {v: A(b)})
    a = mk("max", (b, t), "int" if t.is_int else "real", sign_const(t) == 1)
    a.h = max(a.h, b.h)
    a.free = (t.free | dim.free) - frozenset((b,))
    return add(out, A(a))


def _bind_arg(kind, v, dim, body):
    c = dim.const()
    if v not in body.free:
        return C(0)
    if c is not None and c == 1:
        return C(0)
    inner = body
    if not special(body):
        inner = T({mo: c for mo, c in body.m.items() if any(v in a.free for a, _ in mo)})
        # drop additive parts inside independent monomials; scale by positive content
        s = inner.single()
    b = mk("bvar", (max(inner.h, dim.h) + 1, 0, dim), "int")
    b.h = max(b.h, inner.h + 1, dim.h + 1)
    t = subst(inner, {v: A(b)})
    a = mk(kind, (b, t), "int")
    a.h = max(a.h, b.h)
    a.free = (t.free | dim.free) - frozenset((b,))
    return A(a)


def _common_part(v, body):
    """the index-dependent factor of a sum of monomials that all share it, if the other factor is positive"""
    dep, rest = None, {}
    for mo, c in body.m.items():
        d = tuple((a, e) for a, e in mo if v in a.free)
        if dep is None:
            dep = d
        elif dep != d:
            return None
        rest[tuple((a, e) for a, e in mo if v not in a.free)] = c
    if not dep or len(rest) != len(body.m) or sign_const(T(rest)) != 1:
        return None
    return T({dep: 1})


def _one_hot_arg(v, dim, body):
    """argmax of an indicator [v = X]: X, when X is the argmax over the same range"""
    s = body.single()
    if s is None or s[0] <= 0 or len(s[1]) != 1 or s[1][0][1] != 1:
        return None
    a = s[1][0][0]
    if a.kind != "ite":
        return None
    c, x, y = a.args
    if x.const() is None or y.const() is None or not x.const() > y.const():
        return None
    if c.kind not in ("eq", "eq0"):
        return None
    t = c.args[0]
    for sg in (1, -1):
        X = sub(A(v), t) if sg == 1 else add(A(v), t)
        if v in X.free or X.single() is None:
            continue
        k, mono = X.single()
        if k == 1 and len(mono) == 1 and mono[0][1] == 1 and mono[0][0].kind in ("argmax", "argmin"):
            b = mono[0][0].args[0]
            if b.args[2] == dim:
                return X
        if k == 1 and len(mono) == 1 and mono[0][1] == 1 and mono[0][0].kind == "app":
            f = mono[0][0].args[0]
            if isinstance(f, Fn) and not callable(f.lo) and f.lo == C(0) and not callable(f.hi) and f.hi == dim:
                return X
    return None


def _zero_one(t):
    """[t == 1] if every leaf of the conditional term t is 0 or 1, else None"""
    if special(t):
        return None
    k = t.const()
    if k is not None:
        return bconst(k == 1) if k in (0, 1) else None
    s = t.single()
    if s is None or s[0] != 1 or len(s[1]) != 1 or s[1][0][1] != 1 or s[1][0][0].kind != "ite":
        return None
    c, x, y = s[1][0][0].args
    x, y = _zero_one(x), _zero_one(y)
    return None if x is None or y is None else bite(c, x, y)


def _table_argmax(v, dim, body):
    """argmax of 0/1 values over a literal range: the first index that holds a 1 (0 if there is none)"""
    c = dim.const()
    if c is None or c > EXPAND or v not in body.free:
        return None
    conds = []
    for j in range(int(c)):
        b = _zero_one(subst(body, {v: C(j)}))
        if b is None:
            return None
        conds.append(b)
    r = C(0)
    for j in reversed(range(int(c))):
        r = ite(conds[j], C(j), r)
    return r


def bind_argmax(v, dim, body):
    if not special(body) and len(body.m) > 1:
        r = _common_part(v, body)
        if r is not None:
            body = r
    if not special(body) and body.single() is not None:
        r = _one_hot_arg(v, dim, body)
        if r is not None:
            return r
        r = _table_argmax(v, dim, body)
        if r is not None:
            return r
    if not special(body) and body.single() is not None and sign_const(body) == 1:
        body = log(body)
    return _bind_arg("argmax", v, dim, body)


def bind_argmin(v, dim, body):
    return _bind_arg("argmin", v, dim, body)


def Argmax(dim, f):
    dim = lift(dim)
    v = fresh_index(dim)
    return bind_argmax(v.atom(), dim, f(v))


def bind_prod(v, dim, body):
    c = dim.const()
    if c is not None and c <= EXPAND:
        r = C(1)
        for i in range(int(c)):
            r = mul(r, subst(body, {v: C(i)}))
        return r
    s = body.single()
    if s is not None and not special(body):
        c, mono = s
        r = C(1)
        if c != 1:
            r = mul(r, _pow_dim(C(c), dim))
        for a, e in mono:
            if v not in a.free:
                r = mul(r, power(_pow_dim(A(a), dim), e))
            elif a.kind == "exp":
                r = mul(r, exp(bind_sum(v, dim, mul(C(e), a.args[0]))))
            else:
                r = mul(r, power(_prod_atom(v, dim, A(a)), e))
        return r
    return _prod_atom(v, dim, body)


def _pow_dim(t, dim):
    c = t.const()
    if c == 1:
        return t
    if c == 0:
        return ite(le(dim, C(0)), C(1), C(0))
    return A(mk("fn", ("pow", t, dim), "real", sign_const(t) == 1))


def _prod_atom(v, dim, body):
    b = mk("bvar", (max(body.h, dim.h) + 1, 0, dim), "int")
    b.h = max(b.h, body.h + 1, dim.h + 1)
    t = subst(body, {v: A(b)})
    a = mk("prod", (b, t), "int" if t.is_int else "real", sign_const(t) == 1)
    a.h = max(a.h, b.h)
    a.free = (t.free | dim.free) - frozenset((b,))
    return A(a)


def Prod(dim, f):
    dim = lift(dim)
    v = fresh_index(dim)
    return bind_prod(v.atom(), dim, f(v))


def bind_all(v, dim, body):
    c = dim.const()
    t = _table(v, c, body, bsubst, lambda x: x if x is TRUE or x is FALSE else None)
    if t is not None:
        return bconst(all(x is TRUE for x in t))
    if c is not None and c <= EXPAND:
        return and_(*[bsubst(body, {v: C(i)}) for i in range(int(c))])
    if v not in body.free:
        return or_(body, le(dim, C(0)))
    if body.kind == "and":
        return and_(*[bind_all(v, dim, x) for x in body.args])
    b = mk("bvar", (max(body.h, dim.h) + 1, 0, dim), "int")
    b.h = max(b.h, body.h + 1, dim.h + 1)
    t = bsubst(body, {v: A(b)})
    r = mkb("all", (b, t))
    r.h = max(r.h, b.h)
    r.free = (t.free | dim.free) - frozenset((b,))
    return r


def All(dim, f):
    dim = lift(dim)
    v = fresh_index(dim)
    return bind_all(v.atom(), dim, f(v))


def Any(dim, f):
    return not_(All(dim, lambda i: not_(f(i))))


_FN_EVEN = {"cos", "cosh"}
_FN_ODD = {"sin", "erf", "tanh", "atan", "sinh"}


def fn(name, *args):
    args = tuple(lift(a) if not isinstance(a, str) else a for a in args)
    for i, a in enumerate(args):
        if isinstance(a, T) and special(a):
            if is_special(a):
                if a.atom() is _NA:
                    return NAN
                if name in ("erf", "tanh"):
                    return C(1) if a.atom() is _PI else C(-1)
                if name in ("lgamma",):
                    return PINF
            else:
                c, x, y = a.atom().args
                return ite(c, fn(name, *args[:i], x, *args[i + 1:]), fn(name, *args[:i], y, *args[i + 1:]))
        elif isinstance(a, T):
            at = a.atom()
            if at is not None and at.kind == "ite":
                c, x, y = at.args
                return ite(c, fn(name, *args[:i], x, *args[i + 1:]), fn(name, *args[:i], y, *args[i + 1:]))
    a0 = args[0] if args else None
    if name in ("floor", "ceil", "round", "trunc"):
        if a0.is_int:
            return a0
        c = a0.const()
        if c is not None:
            return C({"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "round": round}[name](c))
        if name == "ceil":
            return neg(fn("floor", neg(a0)))
        ipart = T({mo: c for mo, c in a0.m.items() if T({mo: c}).is_int})
        if not ipart.is_zero() and name == "floor":
            return add(ipart, fn("floor", sub(a0, ipart)))
        return A(mk("fn", (name, a0), "int"))
    if name in _FN_ODD:
        c = a0.const()
        if c == 0:
            return C(0)
        if _lead_neg(a0):
            return neg(fn(name, neg(a0)))
    if name in _FN_EVEN and _lead_neg(a0):
        return fn(name, neg(a0))
    if name == "lgamma":
        c = a0.const()
        if c is not None and c.denominator == 1 and 1 <= c <= 12:
            return log(C(math.factorial(int(c) - 1)))
    if name == "pow":
        base, ex = args
        c = ex.const()
        if c is not None:
            return power(base, _norm(c))
    return A(mk("fn", (name,) + args, "real", name in ("sigmoid", "softplus", "pi")))


def _lead_neg(t):
    if not t.m:
        return False
    lead = min(t.m, key=lambda mo: tuple((a.id, e) for a, e in mo))
    return t.m[lead] < 0


def absv(t):
    s = sign_const(t)
    if s is not None:
        return t if s >= 0 else neg(t)
    if special(t):
        if is_special(t):
            return NAN if t.atom() is _NA else PINF
        c, x, y = t.atom().args
        return ite(c, absv(x), absv(y))
    return ite(le(C(0), t), t, neg(t))


PI = A(mk("fn", ("pi",), "real", True))
for _k in (Fraction(1, 4), Fraction(1, 2), 1, 2, 4):
    _pi_floats[float(_k) * math.pi] = lambda k=_k: mul(C(k), PI)
    _pi_floats[math.log(float(_k) * math.pi)] = lambda k=_k: log(mul(C(k), PI))
    _pi_floats[0.5 * math.log(float(_k) * math.pi)] = lambda k=_k: mul(C(Fraction(1, 2)), log(mul(C(k), PI)))
for _k in range(2, 9):
    _pi_floats[math.log(_k)] = lambda k=_k: log(C(k))
_pi_floats[math.log(math.sqrt(2 * math.pi))] = lambda: mul(C(Fraction(1, 2)), log(mul(C(2), PI)))


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not t.m:
        return "0"
    out = []
    for mono, c in t.m.items():
        fs = [show_atom(a, d) + ("" if e == 1 else f"^{e}") for a, e in mono]
        if c != 1 or not fs:
            fs.insert(0, str(c))
        out.append("*".join(fs))
    s = " + ".join(out)
    return s if len(s) < 6000 else s[:6000] + "..."


def show_atom(a, d=0):
    k, g = a.kind, a.args
    if d > 14:
        return "…"
    if k == "var":
        return g[0]
    if k == "bvar":
        return f"b{g[0]}.{g[1]}"
    if k == "special":
        return g[0]
    if k == "app":
        return f"{g[0]}({', '.join(show(x, d + 1) for x in g[1])})"
    if k == "ite":
        return f"ite({show_b(g[0], d + 1)}, {show(g[1], d + 1)}, {show(g[2], d + 1)})"
    if k == "sum":
        return "Sum[%s](%s)" % (", ".join(f"{show_atom(b)}<{show(b.args[2], d + 1)}" for b in g[0]), show(g[1], d + 1))
    if k in ("max", "prod", "argmax", "argmin"):
        return f"{k}[{show_atom(g[0])}<{show(g[0].args[2], d + 1)}]({show(g[1], d + 1)})"
    return f"{k}({', '.join(show(x, d + 1) if isinstance(x, T) else str(x) for x in g)})"


def show_b(b, d=0):
    k, g = b.kind, b.args
    if d > 14:
        return "…"
    if k in ("true", "false"):
        return k
    if k == "app":
        return f"{g[0]}({', '.join(show(x, d + 1) for x in g[1])})"
    if k == "not":
        return f"!{show_b(g[0], d + 1)}"
    if k == "and":
        return "(" + " & ".join(show_b(x, d + 1) for x in g) + ")"
    if k == "le":
        return f"({show(g[0], d + 1)} <= 0)"
    if k == "eq":
        return f"({show(g[0], d + 1)} == 0)"
    if k == "all":
        return f"ALL[{show_atom(g[0])}<{show(g[0].args[2], d + 1)}]({show_b(g[1], d + 1)})"
    return f"{k}({g})"
