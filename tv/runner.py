"""Runs harnesses in both worlds and discharges obligations."""
from __future__ import annotations
import os, sys, time, json, random, traceback, signal, importlib, warnings, builtins, itertools, math
sys.setrecursionlimit(20000)
REPO = os.environ.get("TV_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
from . import load
load.install()
import torch
warnings.filterwarnings("ignore")
torch.set_num_threads(1)
torch.set_default_dtype(torch.float64)
from .world import ConcWorld, SymWorld, Fail, Skip


class Harness:
    def __init__(self, name, fn, funcs=(), sym=True, seeds=60, tol=None, maxdim=3, sym_time=100, note="",
                 expect_bounded=None, fix=None, sym_configs=None, draws=False, conc_time=60, thorough_seeds=8,
                 conc=True, max_paths=400, literal=()):
        self.max_paths, self.literal = max_paths, literal
        self.draws, self.conc_time, self.thorough_seeds, self.conc = draws, conc_time, thorough_seeds, conc
        self.name, self.fn, self.funcs = name, fn, list(funcs)
        self.sym, self.seeds, self.maxdim, self.sym_time, self.note = sym, seeds, maxdim, sym_time, note
        self.expect_bounded = expect_bounded
        self.fix = fix or {}
        self.sym_configs = sym_configs


def harness(reg_, **kw):
    def d(fn):
        reg_.append(Harness(fn.__name__, fn, **kw))
        return fn
    return d


# ---------------------------------------------------------------- symbolic lane
class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.int, torch.SymInt))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


torch.SymInt.sqrt = lambda s: torch.SymFloat(s.node.sqrt())      # what np.sqrt(size) calls


class SymAwareInt(builtins.int, metaclass=_IntMeta):
    """`int` as seen by spflow modules in the symbolic lane: int(SymInt) keeps the symbol."""

    def __new__(cls, x=0, *a):
        if isinstance(x, (torch.SymInt, torch.SymFloat)):
            if isinstance(x, torch.SymFloat):
                n = x.node
                if all(c == builtins.int(c) and all(a.sort == "int" for a, _ in mono) for mono, c in n.e.m.items()):
                    return torch.SymInt(type(n)(n.e, "int"))
                return builtins.int(x)
            return x
        if isinstance(x, torch.Tensor) and not a:
            v = x.item()
            return v if isinstance(v, torch.SymInt) else builtins.int(v)
        return builtins.int(x, *a) if a else builtins.int(x)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, torch.SymFloat))

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class SymAwareFloat(builtins.float, metaclass=_FloatMeta):
    """`float` as seen by the measure and builder modules in the symbolic lane: float(size) keeps the symbol."""

    def __new__(cls, x=0.0):
        if isinstance(x, torch.SymInt):
            from . import symt
            e = symt.lift(x)
            return builtins.float(e.const()) if e.const() is not None else torch.SymFloat(type(x.node)(e, "float"))
        if isinstance(x, torch.SymFloat):
            return x
        return builtins.float(x)


class _SetMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.set, SymSet))

    def __eq__(cls, o):
        return o is cls or o is builtins.set

    def __hash__(cls):
        return hash(builtins.set)


class SymSet:
    """set whose members may be symbolic ints: membership by (path forking) equality."""

    def __init__(self, xs):
        self.xs = []
        for x in xs:
            if x not in self:
                self.xs.append(x)

    def __contains__(self, x):
        return any(bool(x == y) for y in self.xs)

    def __len__(self):
        return len(self.xs)

    def __iter__(self):
        return iter(self.xs)

    def __sub__(self, o):
        return SymSet([x for x in self.xs if not any(bool(x == y) for y in o)])

    def __or__(self, o):
        return SymSet(list(self.xs) + list(o))

    __ror__ = union = __or__

    def __and__(self, o):
        return SymSet([x for x in self.xs if any(bool(x == y) for y in o)])

    intersection = __and__

    def __eq__(self, o):
        return len(self) == len(o) and all(x in self for x in o)

    __hash__ = None

    def isdisjoint(self, o):
        return not any(bool(x == y) for x in self.xs for y in o)

    __rand__ = __and__

    def __rsub__(self, o):
        return SymSet([x for x in o if x not in self])

    def add(self, x):
        if x not in self:
            self.xs.append(x)

    def issubset(self, o):
        return all(any(bool(x == y) for y in o) for x in self.xs)


class _ConcreteSet(builtins.set):
    """concrete members, but may be asked about a symbolic int"""

    def __contains__(self, x):
        if isinstance(x, torch.SymInt):
            return any(bool(x == y) for y in self)
        return builtins.set.__contains__(self, x)


class SymAwareSet(builtins.set, metaclass=_SetMeta):
    def __new__(cls, xs=()):
        xs = list(xs)
        if any(isinstance(x, torch.SymInt) for x in xs):
            return SymSet(xs)
        return _ConcreteSet(xs)


def import_all():
    """import every spflow module (so that `int`/`set` can be made symbol-aware in each)."""
    import pkgutil, spflow
    bad = {}
    for m in pkgutil.walk_packages(spflow.__path__, "spflow.", onerror=lambda n: None):
        if any(x in m.name for x in ("visualization",)):
            continue
        try:
            importlib.import_module(m.name)
        except Exception as e:
            bad[m.name] = e
    return bad


class _SymMath:
    """`math` whose log and sqrt also take symbolic integers (the result is a 0-dim tensor of the real it denotes)"""

    def __getattr__(self, k):
        return getattr(math, k)

    @staticmethod
    def _lift(x, f, g):
        if isinstance(x, torch.SymInt):
            from . import symt
            if symt.lift(x).const() is None:
                return f(symt.sym_tensor(lambda: symt.lift(x), ()))
            x = builtins.int(symt.lift(x).const())
        return g(x)

    def log(self, x, *a):
        return math.log(x, *a) if a else self._lift(x, torch.log, math.log)

    def sqrt(self, x):
        return self._lift(x, torch.sqrt, math.sqrt)


_as_tensor = torch.as_tensor


def as_tensor(x, *a, **k):
    if isinstance(x, (torch.SymInt, torch.SymFloat)):
        from . import symt
        if symt.lift(x).const() is None:
            t = symt.sym_tensor(lambda: symt.lift(x), ())
            return t if isinstance(x, torch.SymFloat) else t.to(k.get("dtype") or torch.int64)
    return _as_tensor(x, *a, **k)


_tensor = torch.tensor


def tensor(x, *a, **k):
    from . import symt
    from .load import SymList
    if isinstance(x, SymList):
        import torch as _t
        from . import terms as tm
        probe = x.fn(*(0 for _ in x.lens))
        tail = len(probe) if isinstance(probe, tuple) else None
        lens = [symt.lift(k) for k in x.lens]

        def at(q, *c):
            ix = []
            for k in reversed(lens[1:]):
                ix.append(tm.imod(q, k))
                q = tm.idiv(q, k)
            v = x.fn(*(_t.SymInt(symt.Node(e)) for e in reversed(ix + [q])))
            if tail is None:
                return symt.lift(v)
            k = c[0].const()
            if k is not None:
                return symt.lift(v[int(k)])
            out = symt.lift(v[-1])
            for m in reversed(range(tail - 1)):
                out = tm.ite(tm.eq(c[0], symt.C(m)), symt.lift(v[m]), out)
            return out
        return symt.sym_tensor(at, (x.size(),) if tail is None else (x.size(), tail), k.get("dtype") or torch.int64)
    if isinstance(x, (list, tuple)) and x and any(isinstance(t, symt.ST) for t in x):
        t = torch.stack([t if isinstance(t, torch.Tensor) else _tensor(t) for t in x])
        return t.to(k["dtype"]) if k.get("dtype") else t
    return _tensor(x, *a, **k)


def patch_int():
    import_all()
    torch.as_tensor, torch.tensor = as_tensor, tensor
    sm = _SymMath()
    for n, m in list(sys.modules.items()):
        if n.startswith("spflow") and m is not None and m.__dict__.get("math") is math:
            m.__dict__["math"] = sm
    for n, m in list(sys.modules.items()):
        if n.startswith("spflow") and m is not None and "int" not in m.__dict__:
            m.__dict__["int"] = SymAwareInt
            from . import load
            m.__dict__.setdefault("len", load.len_)
            if m.__dict__.get("product") is itertools.product:
                m.__dict__["product"] = load.product
            if "set" not in m.__dict__:
                m.__dict__["set"] = SymAwareSet
        if n.startswith(("spflow.measures", "spflow.zoo.hclt", "spflow.zoo.cms")) and m is not None and "float" not in m.__dict__:
            m.__dict__["float"] = SymAwareFloat


class HardTimeout(BaseException):
    pass


def _alarm(*a):
    raise HardTimeout()


def run_symbolic(h, fixed, deadline, max_paths=400):
    """all paths of harness h with dims in `fixed` literal.  yields result dict."""
    from . import symt, terms as tm, prove
    patch_int()
    pending = [[]]
    res = {"paths": 0, "obl": [], "ops": None, "assumed": []}
    while pending:
        prefix = pending.pop()
        if res["paths"] >= max_paths:
            raise symt.Unsupported("too many paths")
        p = symt.Path(prefix, deadline)
        symt.CUR[0] = p
        W = SymWorld(p, fixed)
        try:
            with symt.Mode(), torch.no_grad():
                h.fn(W)
        except symt.Infeasible:
            pending.extend(p.alts)
            continue
        except (symt.Unsupported, symt.NeedConcrete, prove.Timeout, HardTimeout):
            symt.CUR[0] = None
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = next((f"{f.filename}:{f.lineno}" for f in reversed(tb) if "/spflow/" in f.filename), "")
            W.obl.append(dict(name="no-exception", kind="exc", ctx=p.ctx,
                              msg=f"{type(e).__name__}: {str(e)[:300]} at {where}",
                              tb=traceback.format_exc()[-1500:]))
        finally:
            symt.CUR[0] = None
        res["paths"] += 1
        pending.extend(p.alts)
        pathdesc = "; ".join(f"{'' if v else 'not '}{tm.show_b(b)[:100]}" for v, b, _ in p.log)
        for o in W.obl:
            o["path"] = pathdesc
            o["dimvars"] = dict(W.dimvars)
            o["choices"] = dict(W.choices)
            res["obl"].append(o)
    return res


def discharge(o, deadline):
    """-> status, detail"""
    from . import prove, terms as tm
    ctx = o["ctx"]
    ctx.deadline = deadline
    k = o["kind"]
    if k == "fail":
        return "refuted", {"msg": o["msg"], "env": None}
    if k == "exc":
        return "exception", {"msg": o["msg"]}
    try:
        if k == "eq":
            ok = prove.prove_eq(o["a"], o["b"], ctx)
        else:
            ok = prove.prove_b(o["goal"], ctx)
        mp = {} if ok else prove.fixed_dims(ctx)
        if mp:
            if k == "eq":
                ok = prove.prove_eq(tm.subst(o["a"], mp), tm.subst(o["b"], mp), ctx)
            else:
                ok = prove.prove_b(tm.bsubst(o["goal"], mp), ctx)
        if not ok:
            ok = narrowed(o, ctx)
        if not ok:
            ok = instantiated(o, ctx)
        if not ok:
            ok = unrolled(o, ctx)
    except prove.Timeout:
        return "timeout", {}
    except RecursionError:
        return "unknown", {"msg": "recursion"}
    if ok:
        return "proved", {}
    # numeric refutation of the VC itself
    cm = refute(o)
    if cm:
        return "refuted", cm
    return "unknown", {"msg": "prover incomplete; no numeric counter-model"}


def instantiated(o, ctx):
    """the path's facts about all indices, at the indices of the obligation that run over the same ranges"""
    from . import prove, terms as tm
    idx = [(x, list(x.m)[0][0][0].args[2]) for x in o.get("idx", ()) if x.const() is None]
    new = []
    for f in ctx.facts:
        vs, body = [], f
        while body.kind == "all":
            vs.append(body.args[0])
            body = body.args[1]
        cand = [[x for x, hi in idx if hi == v.args[2]] for v in vs]
        if not vs or not all(cand) or math.prod(map(len, cand)) > 16:
            continue
        for c in itertools.product(*cand):
            new.append(tm.bsubst(body, dict(zip(vs, c))))
    if not new:
        return False
    c = ctx
    for b in new:
        c = c.with_fact(b)
        if c is None:
            return True
    c.deadline = ctx.deadline
    small = [(list(x.m)[0][0][0], int(hi.const())) for x, hi in idx if hi.const() is not None]
    if math.prod(n for _, n in small) > 9:
        small = []
    for vals in itertools.product(*[range(n) for _, n in small]):
        mp = {v: tm.C(k) for (v, _), k in zip(small, vals)}
        if not (prove.prove_eq(tm.subst(o["a"], mp), tm.subst(o["b"], mp), c) if o["kind"] == "eq" else prove.prove_b(tm.bsubst(o["goal"], mp), c)):
            return False
    return True


def narrowed(o, ctx):
    """third attempt with the index ranges rewritten by what the path says about the sizes (a range of one is its one index)"""
    from . import prove, terms as tm
    full = {**ctx.sub, **prove.fixed_dims(ctx)}
    keys = ("a", "b") if o["kind"] == "eq" else ("goal",)
    vs = set()
    for t in [o[k] for k in keys] + list(ctx.facts):
        vs |= {a for a in t.free if a.kind == "var"}
    mp = {}
    for v in vs:
        lo, hi = v.args[1], v.args[2]
        if v in full or v.sort != "int" or lo is None or hi is None or not (hi.free & full.keys()):
            continue
        nh = tm.subst(hi, full)
        if nh.const() is not None and lo.const() == nh.const() - 1:
            mp[v] = lo
        elif nh is not hi:
            mp[v] = tm.var(v.args[0] + "'", lo, nh)
    if not mp:
        return False
    c = prove.Ctx((), dict(ctx.sub), ctx.deadline)
    for f in ctx.facts:
        c = c.with_fact(tm.bsubst(f, mp))
        if c is None:
            return True
    mp.update({k: t for k, t in full.items() if k not in mp})
    if o["kind"] == "eq":
        return prove.prove_eq(tm.subst(o["a"], mp), tm.subst(o["b"], mp), c)
    return prove.prove_b(tm.bsubst(o["goal"], mp), c)


def unrolled(o, ctx, limit=40):
    """second attempt with the reductions over literal ranges up to `limit` written out"""
    from . import prove, terms as tm
    old = tm.EXPAND
    tm.EXPAND = limit
    try:
        if o["kind"] == "eq":
            mp = {v: tm.A(v) for x in ("a", "b") for v in o[x].free if v.kind == "var"}
            mp.update(prove.fixed_dims(ctx))
            a, b = tm.subst(o["a"], mp), tm.subst(o["b"], mp)
            return (a is not o["a"] or b is not o["b"]) and prove.prove_eq(a, b, ctx)
        return False
    finally:
        tm.EXPAND = old


def close_mp(a, b, tol):
    """close() without rounding the operands to doubles first"""
    from .world import close
    if isinstance(a, (bool, float, int)) and isinstance(b, (bool, float, int)):
        return close(a, b, tol)
    if a != a or b != b:
        return a != a and b != b
    if abs(a) == math.inf or abs(b) == math.inf:
        return a == b
    return bool(abs(a - b) <= tol * max(1, abs(a), abs(b)))


def refute(o, tries=60):
    from . import prove, terms as tm
    import random as rnd
    ctx = o["ctx"]
    terms = [o[x] for x in ("a", "b", "goal") if x in o]
    vs = set()
    for t in list(terms) + list(ctx.facts) + list(ctx.sub.values()):
        vs |= {a for a in t.free if a.kind == "var"}
        for a in prove.atoms_of(t):
            if a.kind == "var":
                vs.add(a)
    vs |= set(ctx.sub.keys())
    for d in o.get("dimvars", {}).values():
        if d.atom() is not None:
            vs.add(d.atom())
    for t in o.get("idx", ()):
        if t.atom() is not None and t.atom().kind == "var":
            vs.add(t.atom())
    vs = [v for v in vs if v.kind == "var"]
    magnets = sorted({abs(float(c)) for t in terms for c in prove.constants_of(t) if 4 < abs(c) < 1e15})[:20]
    t_start = time.time()
    # order: dims (no hi) first, then by dependency
    for seed in range(tries + 90):
        rng = rnd.Random(seed)
        vals = {}
        env = prove.Env(vals, seed) if seed < tries else prove.MPEnv(vals, seed, magnets=magnets)
        if time.time() - t_start > 12:
            break
        todo = list(vs)
        ok = True
        t0 = time.time()
        for _ in range(10):
            rest = []
            for v in todo:
                name, lo, hi = v.args[0], v.args[1], v.args[2]
                if str(name).startswith("nz@"):
                    rest.append(v)
                    continue
                try:
                    l = int(env.t(lo, {})) if lo is not None else 0
                    hh = int(env.t(hi, {})) if hi is not None else l + rng.choice([1, 2, 3])
                except KeyError:
                    rest.append(v)
                    continue
                if hh <= l:
                    ok = False
                    break
                vals[v] = rng.randrange(l, hh) if v.sort == "int" else rng.uniform(-2, 2)
            todo = rest
            if not ok or not todo:
                break
        if not ok:
            continue
        for v in todo:   # mask counts
            if str(v.args[0]).startswith("nz@"):
                from .symt import Mask
                m = Mask.registry.get(str(v.args[0])) if hasattr(Mask, "registry") else None
                if m is None:
                    ok = False
                    break
                vals[v] = len(m.table(env))
            else:
                ok = False
        if not ok:
            continue
        try:
            if not all(env.b(f, {}) for f in ctx.facts):
                continue
            if not all(abs(env.t(t, {}) - vals[v]) < 1e-9 for v, t in ctx.sub.items()):
                continue
            if o["kind"] == "eq":
                x, y = env.t(o["a"], {}), env.t(o["b"], {})
                from .world import close
                if isinstance(x, complex) or isinstance(y, complex):
                    continue
                if close_mp(x, y, 1e-6):
                    continue
                det = f"code term = {float(x)!r}, specification term = {float(y)!r}"
            else:
                if env.b(o["goal"], {}):
                    continue
                det = "goal is false"
        except (KeyError, ZeroDivisionError, OverflowError, AssertionError, IndexError, ValueError):
            continue
        dims = {n: int(env.t(d, {})) for n, d in o.get("dimvars", {}).items() if d.atom() in vals or d.const() is not None}
        return {"msg": det, "dims": dims,
                "env": {str(v.args[0]): float(vals[v]) for v in vals},
                "tables": {f"{f.name}{list(i)}": v if isinstance(v, (int, bool)) else float(v) for (f, i), v in list(env.fnval.items())[:400]}}
    return None


def sym_lane(h, tier, budget=None):
    """returns list of result records; concretises dims on demand."""
    from . import symt, prove, terms as tm
    t_start = time.time()
    budget = budget or h.sym_time * (1 if tier == "quick" else 4)
    deadline = t_start + budget
    out = {"harness": h.name, "records": [], "status": "ok", "bounded_dims": {k: "listed" for k in (*h.literal, *(k for c in (h.sym_configs or [h.fix or {}]) for k in c))}, "paths": 0, "ops": []}
    signal.signal(signal.SIGALRM, _alarm)
    configs = [dict(c) for c in (h.sym_configs or [h.fix or {}])]
    done = set()
    try:
        while configs:
            fixed = configs.pop(0)
            key = tuple(sorted((k, str(v)) for k, v in fixed.items()))
            if key in done:
                continue
            done.add(key)
            signal.setitimer(signal.ITIMER_REAL, max(1, deadline + 20 - time.time()))
            try:
                r = run_symbolic(h, fixed, deadline, h.max_paths)
            except symt.NeedConcrete as e:
                los = {v.args[0]: v.args[1] for v in e.t.free if v.kind == "var"}
                names = [n for n in los if n not in fixed and not str(n).startswith("nz@")]
                if not names:
                    raise symt.Unsupported(str(e))
                vals = [1, 2, 3] if tier == "quick" else [1, 2, 3, 4]
                n = names[0]
                lo = los[n].const() if los[n] is not None else None
                if lo is not None:
                    vals = [v + int(lo) - 1 for v in vals]
                out["bounded_dims"].setdefault(n, vals)
                new = []
                for v in vals:
                    f2 = dict(fixed)
                    f2[n] = v
                    new.append(f2)
                # dims already known to need literals: keep using them
                configs = new + configs
                if len(configs) > 100:
                    raise symt.Unsupported("too many literal configurations")
                continue
            out["paths"] += r["paths"]
            for o in r["obl"]:
                t0 = time.time()
                st, det = discharge(o, deadline)
                out["records"].append({"name": o["name"], "status": st, "path": o["path"], "fixed": {k: str(v) for k, v in fixed.items()},
                                       "choices": {k: str(v) for k, v in o["choices"].items()},
                                       "time": round(time.time() - t0, 4), **_clean(det)})
        if not out["records"]:
            out["status"] = "no-obligations"
    except (symt.Unsupported, prove.Timeout) as e:
        out["status"] = f"unsupported: {type(e).__name__}: {e}"
        out["where"] = _where(e)
    except HardTimeout as e:
        out["status"] = "timeout"
        out["where"] = _where(e)
    except RecursionError as e:
        out["status"] = "unsupported: recursion limit"
    except Exception as e:
        out["status"] = f"unsupported: engine {type(e).__name__}: {str(e)[:200]}"
        out["where"] = traceback.format_exc()[-1800:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        symt.CUR[0] = None
    out["ops"] = sorted(symt._SEEN_OPS)
    out["z3_calls"], out["z3_time"] = prove.STATS["z3_calls"], round(prove.STATS["z3_time"], 3)
    out["wall"] = round(time.time() - t_start, 2)
    return out


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in reversed(tb) if "/spflow/" in f.filename
                       or "props" in f.filename)[:500] or " <- ".join(
        f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb))[:300]


def _clean(d):
    return {k: v for k, v in d.items() if isinstance(v, (str, int, float, dict, list, type(None)))}


# ---------------------------------------------------------------- concrete lane
def conc_one(h, seed, dims=None, maxdim=None, forced=None):
    """-> (status, name, msg, world)"""
    W = ConcWorld(f"{h.name}/{seed}", dims, maxdim or h.maxdim, forced)
    torch.manual_seed(_hash(f"{h.name}/{seed}"))
    import numpy as np
    np.random.seed(_hash(f"{h.name}/{seed}") % (2 ** 31))
    random.seed(_hash(f"{h.name}/{seed}"))
    try:
        if h.draws:
            from .world import DrawMode
            with DrawMode(W):
                h.fn(W)
        else:
            h.fn(W)
    except Skip:
        return "skip", None, None, W
    except Fail as e:
        return "fail", e.name, e.msg, W
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{f.filename}:{f.lineno}" for f in reversed(tb) if "/spflow/" in f.filename), "")
        last = next((f.filename for f in reversed(tb) if "/spflow/" in f.filename or "/tv/" in f.filename), "")
        if "/spflow/" not in last and isinstance(e, (AttributeError, ImportError, KeyError, NameError, TypeError)):
            # the harness itself no longer fits the code (renamed private helper, ...): no verdict
            return "mismatch", None, f"{type(e).__name__}: {str(e)[:300]}", W
        return "fail", "no-exception", f"{type(e).__name__}: {str(e)[:300]} at {where}", W
    return "ok", None, None, W


def _hash(s):
    import hashlib
    return int(hashlib.sha256(s.encode()).hexdigest()[:8], 16)


def conc_lane(h, tier, seed0=1, seeds=None, dims=None, budget=None, known=(), forced=None):
    t0 = time.time()
    n = seeds or h.seeds * (1 if tier == "quick" else h.thorough_seeds)
    budget = budget or h.conc_time * (1 if tier == "quick" else 6)
    out = {"harness": h.name, "runs": 0, "skipped": 0, "checks": 0, "fails": [], "known": [], "names": {}}
    for k in range(n):
        if time.time() - t0 > budget:
            out["stopped_early"] = True
            break
        st, name, msg, W = conc_one(h, f"{seed0}.{k}", dims, forced=forced)
        if st == "skip":
            out["skipped"] += 1
            continue
        if st == "mismatch":
            out["mismatch"] = msg
            continue
        out["runs"] += 1
        out["checks"] += W.n_checks
        for q, c in W.names.items():
            out["names"][q] = out["names"].get(q, 0) + c
        if st == "fail":
            rec = {"name": name, "msg": msg, "seed": f"{seed0}.{k}", "dims": dims, "used": {a: str(b) for a, b in W.used.items()}}
            kf = next((x for x in known if x.get("harness") == h.name and x.get("obligation") == name
                       and x.get("match", "") in msg), None)
            if kf:
                out["known"].append({**rec, "finding": kf})
            else:
                out["fails"].append(rec)
                break
    out["wall"] = round(time.time() - t0, 2)
    return out
