"""Prover: decides B formulas and T equalities under a context of facts."""
from __future__ import annotations
import sys, time, math, random
from fractions import Fraction
_V = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _V not in sys.path:
    sys.path.append(_V)
import z3
from .terms import *
from .terms import _mk, _linear_in, Sub
from . import terms as tm

STATS = {"z3_calls": 0, "z3_time": 0.0, "norm": 0}
Z3_TIMEOUT = 3000


def atoms_of(x, out=None, seen=None):
    """all atoms (deep) and bools of a term."""
    if out is None:
        out, seen = [], set()
    stack = [x]
    while stack:
        g = stack.pop()
        if isinstance(g, T):
            for mono in g.m:
                for a, _ in mono:
                    if a not in seen:
                        seen.add(a)
                        out.append(a)
                        stack.extend(a.args)
        elif isinstance(g, (Atom, B)):
            if g not in seen:
                seen.add(g)
                out.append(g)
                stack.extend(g.args)
        elif isinstance(g, tuple):
            stack.extend(g)
    return out


def constants_of(x):
    """constant summands occurring anywhere in a term"""
    out, seen, stack = set(), set(), [x]
    while stack:
        g = stack.pop()
        if isinstance(g, T):
            if () in g.m:
                out.add(g.m[()])
            for mono in g.m:
                for a, _ in mono:
                    if a not in seen:
                        seen.add(a)
                        stack.extend(a.args)
        elif isinstance(g, (Atom, B)):
            if g not in seen:
                seen.add(g)
                stack.extend(g.args)
        elif isinstance(g, tuple):
            stack.extend(g)
    return out


def has_bvar(x):
    return any(a.kind == "bvar" for a in x.free)


class Z:
    """translation of terms to z3 (ints exact, transcendental atoms opaque)."""

    def __init__(self):
        self.side = []
        self.unary = {}
        self.ca = {}
        self.cb = {}
        self.fns = {}
        self.bv = {}

    def t(self, t, real=None):
        if real is None:
            real = not t.is_int
        if not t.m:
            return z3.RealVal(0) if real else z3.IntVal(0)
        acc = None
        for mono, c in t.m.items():
            p = None
            for a, e in mono:
                x = self.a(a)
                if real and x.sort() == z3.IntSort():
                    x = z3.ToReal(x)
                if isinstance(e, int) and e > 0:
                    for _ in range(e):
                        p = x if p is None else p * x
                else:
                    y = self.inv(a, e)
                    p = y if p is None else p * y
            k = z3.RealVal(str(c)) if real else z3.IntVal(int(c))
            term = k if p is None else (p if c == 1 else k * p)
            acc = term if acc is None else acc + term
        return acc

    def inv(self, a, e):
        key = ("pow", a, str(e))
        r = self.ca.get(key)
        if r is None:
            r = self.ca[key] = z3.Real(f"inv_{a.id}_{e}")
            x = self.a(a)
            if x.sort() == z3.IntSort():
                x = z3.ToReal(x)
            if isinstance(e, int):
                p = x
                for _ in range(-e - 1):
                    p = p * x
                self.side.append(z3.Implies(x != 0, r * p == 1))
            if a.pos or a.kind == "exp":
                self.side.append(r > 0)
        return r

    def a(self, a):
        r = self.ca.get(a)
        if r is not None:
            return r
        k, g = a.kind, a.args
        srt = z3.Int if a.sort == "int" else z3.Real
        if k in ("var", "bvar"):
            r = srt(f"v{a.id}")
            self.ca[a] = r
            lo, hi = bounds(a)
            if not (k == "bvar"):
                if lo is not None:
                    self.side.append(r >= self.t(lo))
                if hi is not None:
                    self.side.append(r < self.t(hi))
            if a.pos:
                self.side.append(r > 0)
            return r
        if k == "app":
            f, idx = g
            name = f"{f.name}@{id(f)}"
            zf = self.fns.get(name)
            if zf is None:
                zf = self.fns[name] = z3.Function(name, *([z3.IntSort()] * len(idx)),
                                                  z3.IntSort() if a.sort == "int" else z3.RealSort()) \
                    if idx else None
            if not idx:
                r = srt(name)
            else:
                r = zf(*[self.ti(x) for x in idx])
            self.ca[a] = r
            bv = [b for b in a.free if b.kind == "bvar"]
            if not bv:
                lo, hi = bounds(a)
                if lo is not None:
                    self.side.append(r >= self.t(lo))
                if hi is not None:
                    self.side.append(r < self.t(hi))
                if a.pos:
                    self.side.append(r > 0)
            return r
        if k == "ite":
            real = a.sort != "int"
            r = z3.If(self.b(g[0]), self.t(g[1], real), self.t(g[2], real))
            self.ca[a] = r
            return r
        if k in ("div", "mod"):
            p, q = self.t(g[0]), self.t(g[1])
            if p.sort() != z3.IntSort() or q.sort() != z3.IntSort():
                r = srt(f"o{a.id}")
                self.ca[a] = r
                return r
            r = p / q if k == "div" else p % q
            if g[1].const() is None and not has_bvar(A(a)):
                # help: explicit euclid
                qq = z3.Int(f"q{a.id}") if k == "div" else z3.Int(f"r{a.id}")
                key = ("eu", g[0], g[1])
                if key not in self.ca:
                    dq, dr = z3.Int(f"eq{a.id}"), z3.Int(f"er{a.id}")
                    self.ca[key] = (dq, dr)
                    self.side.append(z3.Implies(q > 0, z3.And(p == dq * q + dr, dr >= 0, dr < q)))
                dq, dr = self.ca[key]
                r = dq if k == "div" else dr
            self.ca[a] = r
            return r
        if k == "paren":
            r = self.t(g[0], True)
            self.ca[a] = r
            return r
        # opaque
        bv = sorted((b for b in a.free if b.kind == "bvar"), key=lambda b: b.id)
        if bv:
            zf = z3.Function(f"o{a.id}", *([z3.IntSort()] * len(bv)),
                             z3.IntSort() if a.sort == "int" else z3.RealSort())
            r = zf(*[self.a(b) for b in bv])
        else:
            r = srt(f"o{a.id}")
        self.ca[a] = r
        if not bv:
            if a.pos or k == "exp":
                self.side.append(r > 0)
            if a.sort == "int":
                lo, hi = bounds(a)
                if lo is not None:
                    self.side.append(r >= self.t(lo))
                if hi is not None:
                    self.side.append(r < self.t(hi))
            if k == "fn" and g[0] == "pi":
                self.side.append(z3.And(r > z3.Q(314159, 100000), r < z3.Q(31416, 10000)))
            if k == "fn" and g[0] == "floor":
                x = self.t(g[1], True)
                self.side.append(z3.And(z3.ToReal(r) <= x, x < z3.ToReal(r) + 1))
            if k == "fn" and g[0] in ("erf", "tanh"):
                self.side.append(z3.And(r > -1, r < 1))
            if k == "exp":
                x = self.t(g[0], True)
                self.side.append(z3.And(z3.Implies(x <= 0, r <= 1), z3.Implies(x >= 0, r >= 1), r >= x + 1))
            if k in ("log", "exp") or (k == "fn" and len(g) == 2 and isinstance(g[1], T)):
                # equal arguments, equal values
                x = self.t(g[-1], True)
                same = self.unary.setdefault((k, g[0]) if k == "fn" else k, [])
                if len(same) < 8:
                    for r2, x2 in same:
                        self.side.append(z3.Implies(x == x2, r == r2))
                    same.append((r, x))
            if k == "log":
                x = self.t(g[0], True)
                self.side.append(z3.And(z3.Implies(z3.And(x > 0, x <= 1), r <= 0), z3.Implies(x >= 1, r >= 0)))
            if k == "argmax" or k == "argmin":
                v, body = g
                i = z3.Int(f"am{a.id}")
                fi = fresh_index(v.args[2])
                try:
                    b1 = subst(body, {v: A(a)})
                    b2 = subst(body, {v: fi})
                    x, y = self.t(b1, True), self.t(b2, True)
                    zi = self.a(fi.atom())
                    rng = z3.And(zi >= 0, zi < self.t(v.args[2]))
                    self.side.append(z3.ForAll([zi], z3.Implies(rng, x >= y if k == "argmax" else x <= y)))
                except RecursionError:
                    pass
            if k == "max":
                v, body = g
                try:
                    fi = fresh_index(v.args[2])
                    y = self.t(subst(body, {v: fi}), True)
                    zi = self.a(fi.atom())
                    rng = z3.And(zi >= 0, zi < self.t(v.args[2]))
                    rr = z3.ToReal(r) if r.sort() == z3.IntSort() else r
                    self.side.append(z3.ForAll([zi], z3.Implies(rng, rr >= y)))
                    # and it is attained
                    wi = fresh_index(v.args[2])
                    yw = self.t(subst(body, {v: wi}), True)
                    self.side.append(z3.Implies(self.t(v.args[2]) > 0, rr == yw))
                except RecursionError:
                    pass
        return r

    def ti(self, t):
        x = self.t(t)
        return z3.ToInt(x) if x.sort() == z3.RealSort() else x

    def b(self, b):
        r = self.cb.get(b)
        if r is not None:
            return r
        k, g = b.kind, b.args
        if k == "true":
            r = z3.BoolVal(True)
        elif k == "false":
            r = z3.BoolVal(False)
        elif k == "not":
            r = z3.Not(self.b(g[0]))
        elif k == "and":
            r = z3.And(*[self.b(x) for x in g])
        elif k == "le":
            r = self.t(g[0]) <= 0
        elif k == "eq":
            r = self.t(g[0]) == 0
        elif k == "app":
            f, idx = g
            name = f"{f.name}@{id(f)}"
            if not idx:
                r = z3.Bool(name)
            else:
                zf = self.fns.get(name)
                if zf is None:
                    zf = self.fns[name] = z3.Function(name, *([z3.IntSort()] * len(idx)), z3.BoolSort())
                r = zf(*[self.ti(x) for x in idx])
        elif k == "all":
            # nested quantifiers as one: the body's terms can then serve as instantiation patterns
            vs, body = [g[0]], g[1]
            while body.kind == "all":
                vs.append(body.args[0])
                body = body.args[1]
            zvs = [self.a(v) for v in vs]
            rng = [c for zv, v in zip(zvs, vs) for c in (zv >= 0, zv < self.t(v.args[2]))]
            r = z3.ForAll(zvs, z3.Implies(z3.And(*rng), self.b(body)))
        else:
            r = z3.Bool(f"ob{b.id}")
        self.cb[b] = r
        return r


class Timeout(BaseException):
    pass


class Ctx:
    """facts: list of B assumed true; sub: var -> T substitution implied by facts."""

    def __init__(self, facts=(), sub=None, deadline=None):
        self.facts = tuple(facts)
        self.fs = set(self.facts)
        self.sub = sub or {}
        self.deadline = deadline
        self._simp = {}
        self._dec = {}

    def with_fact(self, b):
        """returns new Ctx or None if contradictory"""
        b = self.sb(b)
        if b is FALSE:
            return None
        if b is TRUE:
            return self
        new = []
        sub = dict(self.sub)
        lits = list(b.args) if b.kind == "and" else [b]
        for l in lits:
            s = _solve_for_var(l)
            if s is not None:
                v, t = s
                lo, hi = v.args[1], v.args[2]
                if lo is not None:
                    new.append(le(lo, t))
                if hi is not None:
                    new.append(lt(t, hi))
                mp = {v: t}
                sub = {k: subst(x, mp) for k, x in sub.items()}
                sub[v] = t
                facts = [bsubst(f, mp) for f in self.facts] + [bsubst(f, mp) for f in new] + \
                        [bsubst(x, mp) for x in lits if x is not l]
                facts = [f for f in facts if f is not TRUE]
                if any(f is FALSE for f in facts):
                    return None
                c = Ctx((), sub, self.deadline)
                for f in facts:
                    for x in (f.args if f.kind == "and" else (f,)):
                        if x not in c.fs:
                            c.fs.add(x)
                            c.facts += (x,)
                return c
            new.append(l)
        c = Ctx(self.facts + tuple(x for x in new if x not in self.fs), sub, self.deadline)
        for x in new:
            if not_(x) in c.fs:
                return None
        return c

    # simplification under facts
    def simp(self, t):
        if not self.fs and not self.sub:
            return t
        r = self._simp.get(t)
        if r is None:
            r = self._simp[t] = self._simp_t(t)
        return r

    def _simp_t(self, t):
        if self.sub:
            t = subst(t, self.sub)
        return _Simp(self).t(t)

    def sb(self, b):
        if self.sub:
            b = bsubst(b, self.sub)
        return _Simp(self).b(b)

    def check_time(self):
        if self.deadline and time.time() > self.deadline:
            raise Timeout("prover time limit")

    def decide(self, b, z=True):
        b = self.sb(b)
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        if not z:
            return None
        r = self._dec.get(b, 0)
        if r == 0:
            r = self._dec[b] = self._decide(b)
        return r

    def _decide(self, b):
        self.check_time()
        if self.entails(b):
            return True
        if self.entails(not_(b)):
            return False
        return None

    def sel_facts(self, terms):
        out = []
        for t in terms:
            for a in atoms_of(t):
                if isinstance(a, Atom) and a.kind == "app" and getattr(a.args[0], "fact", None) and not has_bvar(A(a)):
                    f = a.args[0].fact(a)
                    if f is not None and f is not TRUE:
                        out.append(f)
        return out

    def entails(self, b, timeout=None):
        if b.kind == "and" and any(x.kind == "all" for x in b.args):
            return all(self.entails(x, timeout) for x in b.args)
        if b.kind == "all":
            while b.kind == "all":
                b = bsubst(b.args[1], {b.args[0]: fresh_index(b.args[0].args[2])})
            b = self.sb(b)
            if b in (TRUE, FALSE):
                return b is TRUE
        z = Z()
        s = z3.Solver()
        s.set("timeout", timeout or Z3_TIMEOUT)
        s.set("max_memory", 2000)
        t0 = time.time()
        try:
            goal = z3.Not(z.b(b))
            fs = [z.b(f) for f in self.facts]
            fs += [z.b(f) for f in self.sel_facts(list(self.facts) + [b])]
            for x in z.side:
                s.add(x)
            for f in fs:
                s.add(f)
            s.add(goal)
            r = s.check()
        except z3.Z3Exception as e:
            r = z3.unknown
        STATS["z3_calls"] += 1
        STATS["z3_time"] += time.time() - t0
        return r == z3.unsat

    def sat(self):
        """False only when the facts are contradictory."""
        return not self.entails(FALSE)


def fixed_dims(ctx):
    """sizes the path has pinned to a number: var -> number"""
    mp = {}
    for l in ctx.facts:
        if l.kind == "eq":
            t = l.args[0]
            if len(t.m) <= 2 and all(not mono or (len(mono) == 1 and mono[0][1] == 1 and mono[0][0].kind == "var"
                                                  and mono[0][0].args[2] is None and abs(c) == 1) for mono, c in t.m.items()):
                for mono, c in t.m.items():
                    if mono:
                        mp[mono[0][0]] = C(-t.m.get((), 0) / c)
    return mp


def _solve_for_var(l):
    if l.kind != "eq":
        return None
    t = l.args[0]
    for mono, c in t.m.items():
        if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].kind == "var" and abs(c) == 1:
            v = mono[0][0]
            if v.sort == "int" and "!" not in str(v.args[0]) and False:
                continue
            r = _linear_in(t, v)
            if r is None:
                continue
            rest = neg(r[1]) if c == 1 else r[1]
            if v.sort == "int" and not rest.is_int:
                continue
            if v in rest.free:
                continue
            # dimensions stay symbolic: index ranges refer to them
            if v.args[2] is None and v.sort == "int":
                continue
            return v, rest
    return None


class _Simp:
    """rebuild with boolean facts replaced."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.fs = ctx.fs
        self.ct, self.cb, self.ca = {}, {}, {}
        # only rebuild things that mention a fact literal or an ite/bool
        self.lits = set()
        for f in ctx.fs:
            self.lits.add(f.args[0] if f.kind == "not" else f)

    def touches(self, x):
        return True

    def t(self, t):
        r = self.ct.get(t)
        if r is None:
            r = self.ct[t] = self._t(t)
        return r

    def _t(self, t):
        ch = False
        out = C(0)
        for mono, c in t.m.items():
            p = None
            keep = []
            for a, e in mono:
                x = self.a(a)
                if x is None:
                    keep.append((a, e))
                else:
                    ch = True
                    y = power(x, e)
                    p = y if p is None else mul(p, y)
            base = T({tuple(keep): c})
            out = add(out, base if p is None else mul(base, p))
        return out if ch else t

    def a(self, a):
        """None if unchanged"""
        if a in self.ca:
            return self.ca[a]
        r = None
        if self.mentions(a):
            n = rebuild_atom(a, self.t, self.b)
            if n != A(a):
                r = n
        self.ca[a] = r
        return r

    _men = {}

    def mentions(self, a):
        k = a.kind
        if k in ("var", "bvar", "special"):
            return False
        m = _Simp._men.get(a)
        if m is None:
            m = _Simp._men[a] = frozenset(x for x in atoms_of(A(a)) if isinstance(x, B))
        return bool(m)

    def b(self, b):
        r = self.cb.get(b)
        if r is None:
            r = self.cb[b] = self._b(b)
        return r

    def _b(self, b):
        if b in self.fs:
            return TRUE
        if not_(b) in self.fs:
            return FALSE
        k = b.kind
        if k in ("true", "false"):
            return b
        if k == "not":
            return not_(self.b(b.args[0]))
        if k == "and":
            return and_(*[self.b(x) for x in b.args])
        r = rebuild_b(b, self.t, self.b)
        if r is not b and (r in self.fs):
            return TRUE
        if r is not b and not_(r) in self.fs:
            return FALSE
        return r


def find_conds(t, limit=1):
    """literal conditions of ites in t that contain no bound variables."""
    out = []
    seen = set()

    def lit(b):
        if b.kind == "not":
            return lit(b.args[0])
        if b.kind == "and":
            for x in b.args:
                l = lit(x)
                if l is not None:
                    return l
            return None
        if b.kind in ("true", "false"):
            return None
        # nested ites within the literal first
        if b.kind in ("le", "eq", "app"):
            for g in b.args:
                if isinstance(g, T):
                    ft(g)
                elif isinstance(g, tuple):
                    for x in g:
                        ft(x)
        if has_bvar(b):
            return None
        return b

    def ft(t):
        for mono in t.m:
            for a, _ in mono:
                fa(a)
                if len(out) >= limit:
                    return

    def fa(a):
        if a in seen or len(out) >= limit:
            return
        seen.add(a)
        if a.kind == "ite":
            l = lit(a.args[0])
            if l is not None and l not in out:
                out.append(l)
            if len(out) >= limit:
                return
            ft(a.args[1])
            ft(a.args[2])
            return
        for g in a.args:
            fg(g)

    def fg(g):
        if isinstance(g, T):
            ft(g)
        elif isinstance(g, Atom):
            if g.kind != "bvar":
                fa(g)
        elif isinstance(g, tuple):
            for x in g:
                fg(x)
        elif isinstance(g, B):
            l = lit(g)
    ft(t)
    return out


def clear_denoms(d):
    """multiply by paren atoms with negative exponents."""
    for _ in range(6):
        worst = {}
        for mono in d.m:
            for a, e in mono:
                if a.kind == "paren" and e < 0:
                    worst[a] = min(worst.get(a, 0), e)
        if not worst:
            break
        m = T({tuple(sorted(((a, -e) for a, e in worst.items()), key=_mk)): Fraction(1)})
        # multiply monomials raw first to cancel, then expand remaining positives
        out = C(0)
        for mono, c in d.m.items():
            out = add(out, mul(T({mono: c}), m))
        if out == d:
            break
        d = out
    return d


class Budget:
    def __init__(self, splits=400):
        self.n = splits


def prove_eq(a, b, ctx, bud=None, depth=0):
    """True: proved; False: not proved."""
    bud = bud or Budget()
    ctx.check_time()
    a, b = ctx.simp(a), ctx.simp(b)
    if a == b:
        return True
    if special(a) or special(b):
        if is_special(a) and is_special(b):
            return False
        c = None
        for t in (a, b):
            at = t.atom()
            if at is not None and at.kind == "ite":
                c = at.args[0]
                break
        if c is None:
            return not ctx.sat() if bud.n > 0 else False
        return _split(a, b, c, ctx, bud, depth)
    d = sub(a, b)
    if d.is_zero():
        return True
    d = clear_denoms(d)
    if d.is_zero():
        return True
    cs = find_conds(d)
    if cs:
        return _split(a, b, cs[0], ctx, bud, depth)
    if _zero(d, ctx, bud, depth):
        return True
    return False


def _split(a, b, c, ctx, bud, depth):
    # choose a literal of c
    lit = c
    while lit.kind in ("not", "and"):
        lit = lit.args[0]
    # prefer inner find_conds literal free of bvars
    if has_bvar(lit):
        return False
    r = ctx.decide(lit)
    bud.n -= 1
    if bud.n < 0 or depth > 60:
        return False
    if r is not False:
        c1 = ctx.with_fact(lit)
        if c1 is not None and c1 is not ctx:
            if not prove_eq(a, b, c1, bud, depth + 1):
                return False
        elif c1 is ctx:
            return False
    if r is not True:
        c2 = ctx.with_fact(not_(lit))
        if c2 is not None and c2 is not ctx:
            if not prove_eq(a, b, c2, bud, depth + 1):
                return False
        elif c2 is ctx:
            return False
    return True


_OPEN = ("sum", "max", "prod", "argmax", "argmin", "exp", "log", "fn", "app", "div", "mod", "paren")


def _zero(d, ctx, bud, depth):
    """d (no free ite conds) == 0 ?"""
    if depth > 40:
        return False
    # 1. combine sums of equal dims pointwise
    if _combine_sums(d, ctx, bud, depth):
        return True
    # 2. unify atoms by congruence
    changed = True
    rounds = 0
    while changed and rounds < 12:
        changed = False
        rounds += 1
        ats = []
        seen = set()
        for mono in d.m:
            for a, _ in mono:
                if a not in seen and a.kind in _OPEN:
                    seen.add(a)
                    ats.append(a)
        ats.sort(key=lambda a: a.id)
        for i in range(len(ats)):
            for j in range(i):
                x, y = ats[j], ats[i]
                if x.kind == y.kind and atoms_equal(x, y, ctx, bud, depth + 1):
                    d = clear_denoms(_replace(d, y, x))
                    if d.is_zero():
                        return True
                    changed = True
                    break
            if changed:
                break
    if _combine_sums(d, ctx, bud, depth):
        return True
    if any(a.kind == "sum" for mono in d.m for a, _ in mono):
        n = _flatten(d)
        if n.is_zero() or n.m != d.m and _combine_sums(n, ctx, bud, depth):
            return True
    # sums that equal a sum some fact speaks about
    known = [y for f in ctx.facts for y in atoms_of(f) if isinstance(y, Atom) and y.kind == "sum" and not has_bvar(A(y))][:8]
    mine = {a for mono in d.m for a, _ in mono if a.kind == "sum"}
    if known and len(mine) <= 4:
        for x in mine:
            for y in known:
                if y is not x and y not in mine and atoms_equal(x, y, Ctx((), ctx.sub, ctx.deadline), bud, depth + 1):
                    d = clear_denoms(_replace(d, x, y))
                    if d.is_zero():
                        return True
                    break
    # 3. z3 on what remains
    if len(d.m) <= 40:
        return ctx.entails(mkb("eq", (d,)))
    return False


def flat_sum(a):
    """a sum whose body is a product with sums among its factors, as one sum over all their indices (Fubini); None if there are none"""
    vs, t = a.args
    if len(t.m) != 1 or special(t):
        return None
    fs = [fresh_index(v.args[2]) for v in vs]
    lst = [(f.atom(), v.args[2]) for f, v in zip(fs, vs)]
    t = subst(t, dict(zip(vs, fs)))
    hit = False
    for _ in range(6):
        (mono, c), = t.m.items()
        k = next((x for x, e in mono if x.kind == "sum" and e == 1), None)
        if k is None:
            break
        ws, b = k.args
        if any(v in w.args[2].free for v, _ in lst for w in ws):
            return None
        gs = [fresh_index(w.args[2]) for w in ws]
        lst += [(g.atom(), w.args[2]) for g, w in zip(gs, ws)]
        b = subst(b, dict(zip(ws, gs)))
        t = mul(T({tuple(q for q in mono if q[0] is not k): c}), b)
        hit = True
        if len(t.m) != 1 or special(t):
            return None
    if not hit or len(lst) > 6:
        return None
    (mono, c), = t.m.items()
    return mul(C(c), tm._close_sum(lst, T({mono: Fraction(1)})))


def _flatten(d):
    out = C(0)
    for mono, c in d.m.items():
        r = T({(): c})
        for a, e in mono:
            f = flat_sum(a) if a.kind == "sum" and e == 1 else None
            r = mul(r, T({((a, e),): Fraction(1)}) if f is None else f)
        out = add(out, r)
    return out


def _replace(d, y, x):
    out = C(0)
    for mono, c in d.m.items():
        dd = dict(mono)
        if y in dd:
            e = dd.pop(y)
            out = add(out, mul(T({tuple(sorted(dd.items(), key=_mk)): c}), T({((x, e),): Fraction(1)})))
        else:
            out = add(out, T({mono: c}))
    return out


def _combine_sums(d, ctx, bud, depth):
    """group monomials containing exactly one sum atom (exp 1) with the same cofactor and dims."""
    groups = {}
    for mono, c in d.m.items():
        ss = [a for a, e in mono if a.kind == "sum" and e == 1]
        if len(ss) != 1:
            return False
        s = ss[0]
        rest = tuple(p for p in mono if p[0] is not s)
        key = tuple(v.args[2] for v in s.args[0])
        groups.setdefault(key, []).append((c, rest, s))
    for key, lst in groups.items():
        fs = [fresh_index(dm) for dm in key]
        body = C(0)
        for c, rest, s in lst:
            vs, t = s.args
            body = add(body, mul(T({rest: c}), subst(t, dict(zip(vs, fs)))))
        c2 = ctx
        bud.n -= 1
        if bud.n < 0:
            return False
        if not prove_eq(body, C(0), c2, bud, depth + 1):
            return False
    return True


_ae = {}


def atoms_equal(x, y, ctx, bud, depth):
    key = (x, y, frozenset(ctx.fs), tuple(ctx.sub.items()))
    r = _ae.get(key)
    if r is None:
        r = _ae[key] = _atoms_equal(x, y, ctx, bud, depth)
    return r


def _atoms_equal(x, y, ctx, bud, depth):
    if depth > 30 or bud.n < 0:
        return False
    gx, gy = x.args, y.args
    k = x.kind
    if k in ("exp", "log", "paren"):
        return prove_eq(gx[0], gy[0], ctx, bud, depth)
    if k in ("div", "mod"):
        return prove_eq(gx[0], gy[0], ctx, bud, depth) and prove_eq(gx[1], gy[1], ctx, bud, depth)
    if k == "fn":
        if gx[0] != gy[0] or len(gx) != len(gy):
            return False
        return all(prove_eq(p, q, ctx, bud, depth) if isinstance(p, T) else p == q for p, q in zip(gx[1:], gy[1:]))
    if k == "app":
        if gx[0] is not gy[0] or len(gx[1]) != len(gy[1]):
            return False
        # quick reject: a differing pair of distinct plain variables/constants
        for p, q in zip(gx[1], gy[1]):
            if p != q:
                dd = sub(p, q)
                if dd.const() is not None:
                    return False
        return all(prove_eq(p, q, ctx, bud, depth) for p, q in zip(gx[1], gy[1]))
    if k == "sum":
        v1, b1 = gx
        v2, b2 = gy
        if len(v1) != len(v2):
            return False
        import itertools
        d1 = [v.args[2] for v in v1]
        for perm in itertools.permutations(range(len(v2))):
            d2 = [v2[i].args[2] for i in perm]
            if not all(p == q or prove_eq(p, q, ctx, bud, depth) for p, q in zip(d1, d2)):
                continue
            fs = [fresh_index(dm) for dm in d1]
            t1 = subst(b1, dict(zip(v1, fs)))
            t2 = subst(b2, {v2[i]: f for i, f in zip(perm, fs)})
            if prove_eq(t1, t2, ctx, bud, depth):
                return True
        return False
    if k in ("max", "prod", "argmax", "argmin"):
        if not prove_eq(gx[0].args[2], gy[0].args[2], ctx, bud, depth):
            return False
        f = fresh_index(gx[0].args[2])
        return prove_eq(subst(gx[1], {gx[0]: f}), subst(gy[1], {gy[0]: f}), ctx, bud, depth)
    return False


def prove_b(b, ctx, bud=None, depth=0):
    """prove formula b."""
    bud = bud or Budget()
    b = ctx.sb(b)
    if b is TRUE:
        return True
    if b is FALSE:
        return not ctx.sat()
    if b.kind == "and":
        return all(prove_b(x, ctx, bud, depth) for x in b.args)
    if b.kind == "all":
        v, body = b.args
        f = fresh_index(v.args[2])
        return prove_b(bsubst(body, {v: f}), ctx, bud, depth + 1)
    if b.kind == "eq":
        if prove_eq(b.args[0], C(0), ctx, bud, depth):
            return True
    if b.kind == "not" and b.args[0].kind == "and":
        # disjunction: assume all but one
        lits = [not_(x) for x in b.args[0].args]
        for i, l in enumerate(lits):
            if l.kind in ("eq", "all", "le"):
                c = ctx
                for j, o in enumerate(lits):
                    if j != i:
                        c = c.with_fact(not_(o))
                        if c is None:
                            return True
                if prove_b(l, c, bud, depth + 1):
                    return True
        deep = [l for l in lits if not _flat(l)]
        if deep and len(deep) < len(lits):       # hypotheses => one compound conclusion
            c = ctx
            for l in lits:
                if _flat(l):
                    c = c.with_fact(not_(l))
                    if c is None:
                        return True
            g = TRUE
            for l in deep:
                g = and_(g, not_(l))
            if c is not ctx and prove_b(not_(g), c, bud, depth + 1):
                return True
            return False
        return ctx.entails(b) or _split_b(b, ctx, bud, depth)
    return ctx.entails(b, 2 * Z3_TIMEOUT) or _split_b(b, ctx, bud, depth)


def _flat(l):
    l = l.args[0] if l.kind == "not" else l
    return l.kind not in ("and", "not", "all") and not (l.kind in ("le", "eq") and find_conds(l.args[0]))


def _literals(b, out):
    if b.kind == "not":
        _literals(b.args[0], out)
    elif b.kind == "and":
        for x in b.args:
            _literals(x, out)
    elif b.kind in ("le", "eq") and not has_bvar(b):
        out.append(b)
    return out


def _split_b(b, ctx, bud, depth):
    """case split on a condition which occurs inside the literals of b"""
    if depth > 24 or bud.n < 0:
        return False
    for l in _literals(b, []):
        cs = [c for c in find_conds(l.args[0]) if c.kind in ("le", "eq")]
        if cs:
            break
    else:
        return False
    bud.n -= 4
    r = ctx.decide(cs[0])
    for lit, skip in ((cs[0], False), (not_(cs[0]), True)):
        if r is not skip:
            c = ctx.with_fact(lit)
            if c is ctx or c is not None and not prove_b(b, c, bud, depth + 1):
                return False
    return True


# ---------------------------------------------------------------- evaluation
class Env:
    """numeric interpretation: vars by dict, functions by table (deterministic random)."""

    def __init__(self, vals, seed=0, fnval=None):
        self.vals = vals
        self.seed = seed
        self.fnval = fnval or {}
        self.memo = {}

    def app(self, f, idx):
        if getattr(f, "ev", None) is not None:
            return f.ev(self, idx)
        key = (f, idx)
        r = self.fnval.get(key)
        if r is None:
            rng = random.Random(f"{self.seed}/{f.name}/{idx}")
            if f.gen is not None:
                r = f.gen(rng, self, idx)
            elif f.sort == "bool":
                r = rng.random() < 0.5
            elif f.sort == "int":
                lo = self.t(f.lo(*map(C, idx)) if callable(f.lo) else f.lo, {}) if f.lo is not None else -3
                hi = self.t(f.hi(*map(C, idx)) if callable(f.hi) else f.hi, {}) if f.hi is not None else lo + 6
                r = rng.randrange(int(lo), max(int(hi), int(lo) + 1))
            elif f.pos:
                r = math.exp(rng.uniform(-1.5, 1.0))
            else:
                r = rng.uniform(-2.0, 2.0)
            self.fnval[key] = r
        return r

    def t(self, t, bv):
        s = 0
        for mono, c in t.m.items():
            p = float(c) if c.denominator != 1 else int(c)
            for a, e in mono:
                x = self.a(a, bv)
                if e != 1:
                    if not isinstance(e, int):
                        e = float(e)
                    x = x ** e if not (x == 0 and e < 0) else math.nan
                p = p * x
            s = s + p
        return s

    def a(self, a, bv):
        k, g = a.kind, a.args
        if k == "var":
            return self.vals[a]
        if k == "bvar":
            return bv[a]
        if k == "special":
            return {"ninf": -math.inf, "pinf": math.inf, "nan": math.nan}[g[0]]
        closed = not any(x.kind == "bvar" for x in a.free)
        if closed and a in self.memo:
            return self.memo[a]
        r = self._a(a, bv)
        if closed:
            self.memo[a] = r
        return r

    def _a(self, a, bv):
        k, g = a.kind, a.args
        if k == "app":
            return self.app(g[0], tuple(int(self.t(x, bv)) for x in g[1]))
        if k == "ite":
            return self.t(g[1], bv) if self.b(g[0], bv, True) else self.t(g[2], bv)
        if k == "exp":
            return _safe(math.exp, self.t(g[0], bv))
        if k == "log":
            x = self.t(g[0], bv)
            return -math.inf if x == 0 else _safe(math.log, x)
        if k == "div":
            return self.t(g[0], bv) // self.t(g[1], bv)
        if k == "mod":
            return self.t(g[0], bv) % self.t(g[1], bv)
        if k == "paren":
            return self.t(g[0], bv)
        if k == "sum":
            vs, body = g
            return self._loop(vs, body, bv)
        if k in ("max", "argmax", "argmin", "prod"):
            v, body = g
            n = int(self.t(v.args[2], bv))
            xs = [self.t(body, {**bv, v: i}) for i in range(n)]
            if k == "max":
                return max(xs)
            if k == "argmax":
                return max(range(n), key=lambda i: (xs[i], -i))
            if k == "argmin":
                return min(range(n), key=lambda i: (xs[i], i))
            return math.prod(xs)
        if k == "fn":
            return self.fn(g[0], [self.t(x, bv) if isinstance(x, T) else x for x in g[1:]])
        raise AssertionError(k)

    def arbitrary(self, n, x):
        """functions named ?... are arbitrary: a value in [-3, 1] per argument tuple"""
        return random.Random(f"{n}{[round(float(v), 6) + 0.0 for v in x]}{self.seed if hasattr(self, 'seed') else 0}").uniform(-3, 1)

    def fn(self, n, x):
        if n[0] == "?":
            return self.arbitrary(n, x)
        from math import lgamma, floor, erf, tanh
        import scipy.special as sp
        if n == "pi":
            return math.pi
        if n == "recip0":
            return math.nan
        if n == "pow":
            return x[0] ** x[1] if not (x[0] <= 0) else (0.0 if x[0] == 0 else math.nan)
        f = {"lgamma": lgamma, "floor": floor, "erf": erf, "tanh": tanh, "round": round, "trunc": math.trunc,
             "sin": math.sin, "cos": math.cos, "tan": math.tan, "atan": math.atan, "digamma": sp.digamma,
             "sigmoid": sp.expit, "softplus": lambda v: math.log1p(math.exp(v)),
             "erfinv": sp.erfinv, "ndtri": sp.ndtri}.get(n)
        if f is not None:
            return _safe(f, *x)
        if n == "gammainc":
            return float(sp.gammainc(*x))
        raise KeyError(n)

    def _loop(self, vs, body, bv):
        if not vs:
            return self.t(body, bv)
        v = vs[0]
        n = int(self.t(v.args[2], bv))
        s = 0
        for i in range(n):
            s += self._loop(vs[1:], body, {**bv, v: i})
        return s

    def scale(self, t, bv):
        """the size of the largest term, at most one: what a tolerance is relative to"""
        s = 0
        for mono, c in t.m.items():
            v = abs(self.t(T({mono: c}), bv))
            if not v <= 1:
                return 1
            s = max(s, v)
        return s

    def b(self, b, bv, strict=False):
        """strict: the condition of an ite, where a threshold may be far smaller than a rounding error"""
        k, g = b.kind, b.args
        if k == "true":
            return True
        if k == "false":
            return False
        if k == "not":
            return not self.b(g[0], bv, strict)
        if k == "and":
            return all(self.b(x, bv, strict) for x in g)
        if k == "le":
            v = self.t(g[0], bv)
            if strict and 0 < v <= 1e-12:
                return v <= 1e-12 * self.scale(g[0], bv)
            return v <= 1e-12
        if k == "eq":
            return abs(self.t(g[0], bv)) <= 1e-12
        if k == "app":
            return bool(self.app(g[0], tuple(int(self.t(x, bv)) for x in g[1])))
        if k == "all":
            v, body = g
            n = int(self.t(v.args[2], bv))
            return all(self.b(body, {**bv, v: i}, strict) for i in range(n))
        raise AssertionError(k)


def _safe(f, *x):
    try:
        return f(*x)
    except (OverflowError, ValueError, ZeroDivisionError):
        return math.nan


class MPEnv(Env):
    """the same interpretation in 60-digit arithmetic and with heavy-tailed values: extreme inputs
    refute a clamp or a guard without being confused by rounding."""

    def __init__(self, vals, seed=0, fnval=None, magnets=()):
        super().__init__(vals, seed, fnval)
        import mpmath
        self.mp = mpmath.mp.clone() if hasattr(mpmath.mp, "clone") else mpmath.mp
        self.mp.dps = 60
        self.magnets = list(magnets)
        self.heavy = random.Random(f"heavy{seed}").choice([0.15, 0.5, 0.9])

    def app(self, f, idx):
        if getattr(f, "ev", None) is not None:
            return f.ev(self, idx)
        key = (f, idx)
        r = self.fnval.get(key)
        if r is None:
            rng = random.Random(f"mp{self.seed}/{f.name}/{idx}")
            if f.sort in ("bool", "int") or rng.random() > self.heavy:
                r = super().app(f, idx)
            elif f.pos or f.gen is not None:
                r = math.exp(rng.uniform(-12, 12))
            elif self.magnets and rng.random() < 0.3:
                r = float(rng.choice(self.magnets)) * rng.uniform(0.5, 2) * rng.choice([1, 1, -1])
            else:
                r = rng.choice([-1, 1]) * 10 ** rng.uniform(-4, 5)
            self.fnval[key] = r
        return r if isinstance(r, (int, bool)) else self.mp.mpf(r)

    def t(self, t, bv):
        mp, s = self.mp, 0
        for mono, c in t.m.items():
            p = mp.mpf(c.numerator) / c.denominator if c.denominator != 1 else int(c)
            for a, e in mono:
                x = self.a(a, bv)
                if e != 1:
                    if not isinstance(e, int):
                        e = mp.mpf(e.numerator) / e.denominator
                        x = mp.mpf(x)
                    x = (x if isinstance(e, int) and e > 0 else mp.mpf(x)) ** e if not (x == 0 and e < 0) else mp.nan
                p = p * x
            s = s + p
        return s

    def _a(self, a, bv):
        k, g = a.kind, a.args
        mp = self.mp
        if k == "exp":
            return mp.exp(self.t(g[0], bv))
        if k == "log":
            x = self.t(g[0], bv)
            return mp.ninf if x == 0 else mp.log(x) if x > 0 else mp.nan
        if k == "prod":
            v, body = g
            r = 1
            for i in range(int(self.t(v.args[2], bv))):
                r = r * self.t(body, {**bv, v: i})
            return r
        return super()._a(a, bv)

    def fn(self, n, x):
        mp = self.mp
        if n[0] == "?":
            return mp.mpf(self.arbitrary(n, x))
        if n == "pi":
            return +mp.pi
        if n == "recip0":
            return mp.nan
        if n == "pow":
            return x[0] ** mp.mpf(x[1]) if x[0] > 0 else (mp.mpf(0) if x[0] == 0 else mp.nan)
        f = {"lgamma": mp.loggamma, "floor": mp.floor, "erf": mp.erf, "tanh": mp.tanh, "sin": mp.sin, "cos": mp.cos,
             "tan": mp.tan, "atan": mp.atan, "digamma": mp.digamma, "trunc": lambda v: mp.mpf(math.trunc(v)),
             "sigmoid": lambda v: 1 / (1 + mp.exp(-v)), "softplus": lambda v: mp.log(1 + mp.exp(v)), "erfinv": mp.erfinv,
             "ndtri": lambda v: mp.sqrt(2) * mp.erfinv(2 * v - 1),
             "gammainc": lambda a, v: mp.gammainc(a, 0, v, regularized=True)}.get(n)
        if f is None:
            raise KeyError(n)
        return f(*x)
