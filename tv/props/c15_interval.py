"""C15: interval evidence gives the logarithm of the probability of the box."""
import math
import torch
from ..runner import harness
from ..lib import *
from ..gen import rand_circuit, states
from ..layers import LIKE as LAYERS, LIKE_FUNCS as FUNCS
H = []
COLS = [2, 0]
FLOOR = 1e-40


def bounds(W, B, n, kind="real"):
    """an arbitrary consistent interval per cell; either end may be missing (no bound). -> evidence, lo?(b,j), lo(b,j), hi?, hi"""
    from spflow.meta.data.interval_evidence import IntervalEvidence
    low, ml, lo = W.data("low", (B, n), kind, **({} if kind != "int" else {"lo": -2, "hi": 6}))
    wid, mh, wd = W.data("width", (B, n), "pos" if kind != "int" else "int", **({} if kind != "int" else {"lo": 0, "hi": 5}))
    if W.sym:
        tm = W.tm
        high = W.st.sym_tensor(lambda i, j: tm.ite(mh(i, j), tm.NAN, lo(i, j) + wd(i, j)), (B, n))
        ev = object.__new__(IntervalEvidence)        # consistent by construction
        ev.low, ev.high = low, high
    else:
        base = torch.tensor([[lo(i, j) for j in range(n)] for i in range(B)])
        w = torch.tensor([[wd(i, j) for j in range(n)] for i in range(B)]) if B else base
        if W.rng.random() < 0.2:
            w = w * 0
        high = base + w
        high[torch.isnan(wid)] = math.nan
        ev = IntervalEvidence(low, high)
        W.inputs["low"], W.inputs["high"] = low, high
        wd = lambda i, j: w[i, j].item()
    return ev, ml, lo, mh, (lambda i, j: lo(i, j) + wd(i, j))


def floor_log(W, v):
    return W.log(W.ite(W.lt(v, FLOOR), FLOOR, v))


def leaf_case(W, leaf, mass, kind="real", params=True):
    """the clause for one leaf family: log of max(mass, floor) for both ends given/absent"""
    B, C, R = (W.dim(n) for n in ("B", "C", "R"))
    ev, ml, lo, mh, hi = bounds(W, B, 4, kind)
    m = leaf(Scope(COLS), C, R)
    if params:
        set_params(W, m)
    out = m.log_likelihood(ev)
    for f in range(2):
        c = COLS[f]

        def ok(b, k, r):
            v = mass(m, f, k, r, ml(b, c), lo(b, c), mh(b, c), hi(b, c))
            got = W.at(out, b, f, k, r)
            if W.sym:
                return W.same(got, floor_log(W, v))
            return abs(math.exp(got) - v) <= 1e-5 + 1e-4 * v
        W.check_all(f"mass{f}", (B, C, R), ok)
    W.check("shape", W.and_(W.eq(out.shape[0], B), W.eq(out.shape[1], 2), W.eq(out.shape[2], C), W.eq(out.shape[3], R)))


def erf(W, v):
    return math.erf(v) if not W.sym else W.tm.fn("erf", v)


@harness(H, funcs=["Normal._log_likelihood_interval", "LeafModule.log_likelihood"])
def normal(W):
    from spflow.modules.leaves import Normal

    def mass(m, f, k, r, nl, lo, nh, hi):
        cdf = lambda v: 0.5 * (1 + erf(W, (v - W.at(m.loc, f, k, r)) / (W.at(m.scale, f, k, r) * 1.4142135623730951)))
        return W.ite(nh, 1.0, cdf(hi)) - W.ite(nl, 0.0, cdf(lo))
    leaf_case(W, lambda s, c, r: Normal(s, out_channels=c, num_repetitions=r), mass)


@harness(H, funcs=["Bernoulli._log_likelihood_interval"])
def bernoulli(W):
    from spflow.modules.leaves import Bernoulli

    def mass(m, f, k, r, nl, lo, nh, hi):
        p = W.at(m.probs, f, k, r)
        ins = lambda v: W.and_(W.or_(nl, W.le(lo, v)), W.or_(nh, W.le(v, hi)))
        return W.ite(ins(0), 1 - p, 0.0) + W.ite(ins(1), p, 0.0)
    leaf_case(W, lambda s, c, r: Bernoulli(s, out_channels=c, num_repetitions=r), mass, W.choice("ends", ["int", "real"]))


@harness(H, funcs=["Categorical._log_likelihood_interval"], sym_time=60)
def categorical(W):
    from spflow.modules.leaves import Categorical
    K = W.choice("K", [2, 3])

    def mass(m, f, k, r, nl, lo, nh, hi):
        t = 0.0
        for v in range(K):
            t = t + W.at(m.probs, f, k, r, v) * W.ite(W.and_(W.or_(nl, W.le(lo, v)), W.or_(nh, W.le(v, hi))), 1, 0)
        return t
    leaf_case(W, lambda s, c, r: Categorical(s, K=K, out_channels=c, num_repetitions=r), mass, W.choice("ends", ["int", "real"]))


@harness(H, funcs=["Uniform._log_likelihood_interval"])
def uniform(W):
    from spflow.modules.leaves import Uniform
    B, C, R = (W.dim(n) for n in ("B", "C", "R"))
    ev, ml, lo, mh, hi = bounds(W, B, 4)
    a, len_ = W.tensor("a", (2, C, R)), W.tensor("len", (2, C, R), "pos")
    m = Uniform(Scope(COLS), low=a, high=a + len_) if not W.sym else None
    if W.sym:
        m = Uniform(Scope(COLS), low=torch.zeros(2, 1, 1), high=torch.ones(2, 1, 1))
        m.low, m.high = a, a + len_
    out = m.log_likelihood(ev)
    for f in range(2):
        c = COLS[f]
        for ln, hn in (("left", "left"), ("left", "right"), ("in", "in"), ("left", "in"), ("in", "right"), ("right", "right")):

            def ok(b, k, r):
                u = W.at(a, f, k, r)
                v = u + W.at(len_, f, k, r)
                l, h, nl, nh = lo(b, c), hi(b, c), ml(b, c), mh(b, c)
                case = W.and_({"left": W.or_(nl, W.le(l, u)), "in": W.and_(W.not_(nl), W.lt(u, l), W.lt(l, v)),
                               "right": W.and_(W.not_(nl), W.lt(v, l))}[ln],
                              {"left": W.and_(W.not_(nh), W.lt(h, u)), "in": W.and_(W.not_(nh), W.lt(u, h), W.lt(h, v)),
                               "right": W.or_(nh, W.le(v, h))}[hn])
                p = 0.0 if ln == "right" or hn == "left" else \
                    ((h if hn == "in" else v) - (l if ln == "in" else u)) / W.at(len_, f, k, r)
                got = W.at(out, b, f, k, r)
                if W.sym:
                    return W.implies(case, W.same(got, W.log(p)))
                return not case or abs(math.exp(got) - p) <= 1e-5 + 1e-4 * p
            W.check_all(f"mass{f}_{ln}_{hn}", (B, C, R), ok)


def layer_agnostic(name):
    def h(W):
        from spflow.meta.data.interval_evidence import IntervalEvidence
        B = W.dim("B")
        ev = object.__new__(IntervalEvidence)
        ev.low, ev.high = W.tensor("low", (B, 64)), W.tensor("high", (B, 64))
        x = W.tensor("x", (B, 64))
        kids = []

        def mk(n, F, C, R, sc):
            kids.append(stub(W, n, F, C, R, B, sc)[0])
            return kids[-1]
        m, sh = LAYERS[name](W, mk)
        set_params(W, m)
        a, b = m.log_likelihood(x), m.log_likelihood(ev)
        W.check("passed_on", all([c[1] for c in k.calls if c[0] == "ll"][-1] is ev for k in kids))
        W.check_eq("same", b, (B, *sh), lambda *i: W.at(a, *i))
    h.__name__ = "layer_" + name
    h.__doc__ = "a layer hands interval evidence to its children unchanged and combines their answers as it combines likelihoods"
    return h


for _n in LAYERS:
    harness(H, funcs=[FUNCS[_n] + ".log_likelihood"], seeds=15)(layer_agnostic(_n))


# ---------------------------------------------------------------- concrete only
CONTF = {"Normal": (-8, 8), "Laplace": (-9, 9), "LogNormal": (0, 40), "Exponential": (0, 40), "Gamma": (0, 50), "Uniform": (-6, 10)}


def cont(W, n, s, C, R):
    from .c11_law import leaf_cases
    return leaf_cases()[n.lower()](W, s, len(s.query), C, R)


def quad(m, col, a, b, ncol):
    """trapezoid integral of the density of every channel over [a, b]"""
    t = torch.linspace(a, b, 4001, dtype=torch.get_default_dtype())
    x = torch.full((len(t), ncol), math.nan)
    x[:, col] = t
    return torch.trapezoid(m.log_likelihood(x).exp().double(), t.double(), dim=0)


@harness(H, funcs=["LeafModule._log_likelihood_interval"], seeds=120, sym=False)
def density(W):
    """the mass of a bounded interval is the integral of the density; also where the interval leaves the support"""
    from spflow.meta.data.interval_evidence import IntervalEvidence
    n = W.choice("family", sorted(CONTF))
    C, R = W.rng.choice([1, 2]), W.rng.choice([1, 2])
    m = cont(W, n, Scope([1]), C, R)
    lo0, hi0 = CONTF[n]
    a = W.rng.uniform(lo0 - 2, hi0 / 2)
    b = a + W.rng.uniform(0, 6)
    ev = lambda p, q: m.log_likelihood(IntervalEvidence(torch.tensor([[math.nan, p]]), torch.tensor([[math.nan, q]]))).exp()[0]
    s0, s1 = (a, b) if n in ("Normal", "Laplace") else (max(a, 1e-4), max(b, 1e-4)) if n in ("LogNormal", "Exponential", "Gamma") else (a, b)
    got = ev(a, b)
    if n == "Uniform":
        u, v = m.low.double(), m.high.double()
        want = ((torch.minimum(v, torch.tensor(b)) - torch.maximum(u, torch.tensor(a))).clamp_min(0) / (v - u))
        want = want.reshape(got.shape)
    else:
        want = quad(m, 1, s0, s1, 2)[0].reshape(got.shape) if s1 > s0 else torch.zeros_like(got)
    W.check("mass", torch.allclose(got.double(), want.double(), atol=5e-3), f"{n} [{a},{b}] {got.flatten()} {want.flatten()}")
    one = torch.ones_like(got)
    for p, q in ((math.nan, math.nan), (-math.inf, math.inf), (math.nan, math.inf), (-math.inf, math.nan)):
        W.check("everything", torch.allclose(ev(p, q), one, atol=1e-5), f"{n} {p} {q}")
    c = W.rng.uniform(a, b)
    for low in (math.nan, -math.inf):
        for high in (math.nan, math.inf):
            W.check("complement", torch.allclose(ev(low, c) + ev(c, high), one, atol=1e-5), f"{n} {c}")
            W.check("lower_open", torch.allclose(ev(low, c) - ev(low, a), ev(a, c), atol=1e-5), f"{n} {a} {c}")
    W.check("monotone", bool((ev(a, c) <= got + 1e-6).all()) and bool((got <= ev(math.nan, b) + 1e-6).all()))


@harness(H, funcs=["IntervalEvidence.__post_init__"], seeds=100, sym=False)
def rejected(W):
    """low above high, differing shapes and non-matrices are rejected; everything consistent is accepted"""
    from spflow.meta.data.interval_evidence import IntervalEvidence
    from spflow.utils.range_inference import log_likelihood_interval
    from spflow.modules.leaves import Normal
    r = W.rng
    B, D = r.randint(1, 4), r.randint(1, 4)
    low = torch.randn(B, D)
    high = low + torch.rand(B, D) * r.choice([0.0, 1.0])
    for t, e in ((low, -math.inf), (high, math.inf)):
        t[torch.rand(B, D) < 0.2] = math.nan
        t[torch.rand(B, D) < 0.2] = e
    ev = IntervalEvidence(low, high)
    W.check("accepted", ev.low is low and ev.high is high and tuple(ev.shape) == (B, D))
    i, j = r.randrange(B), r.randrange(D)
    bad = high.clone()
    l2 = low.clone()
    l2[i, j], bad[i, j] = r.choice([(1.0, 0.5), (1.0, -math.inf), (math.inf, 0.0), (math.inf, -math.inf), (-1e-3, -2e-3)])
    W.raises("inconsistent", ValueError, lambda: IntervalEvidence(l2, bad))
    W.raises("shape", ValueError, lambda: IntervalEvidence(low, high[:, :1].repeat(1, D + 1)))
    W.raises("rank", ValueError, lambda: IntervalEvidence(low[0], high[0]))
    m = Normal(Scope(list(range(D))), out_channels=2)
    W.raises("range", ValueError, lambda: log_likelihood_interval(m, l2, bad))
    W.check("range_ok", torch.equal(log_likelihood_interval(m, low, high), m.log_likelihood(ev)))


@harness(H, funcs=["Module.log_likelihood", "utils.range_inference.log_likelihood_interval"], seeds=80, sym=False)
def discrete_circuits(W):
    """the value for a box is the sum of the circuit's likelihoods over the states in the box"""
    from spflow.meta.data.interval_evidence import IntervalEvidence
    from spflow.utils.range_inference import log_likelihood_interval
    m, N = rand_circuit(W, gaps=True, single_root=True)
    r = W.rng
    st = states(m._dom, N)
    p = m.log_likelihood(st).exp().double()
    cols = sorted(m._dom)
    for _ in range(4):
        low, high = torch.full((1, N), math.nan), torch.full((1, N), math.nan)
        ins = torch.ones(len(st), dtype=torch.bool)
        for c in range(N):
            a = r.choice([0, 0, 1, 2, -1, 0.5, 0.3])
            b = a + r.choice([0, 1, 2, 0.5])
            if r.random() < 0.6:
                low[0, c] = a
                ins &= (st[:, c] >= a) if c in cols else True
            elif r.random() < 0.3:
                low[0, c] = -math.inf
            if r.random() < 0.6:
                high[0, c] = b
                ins &= (st[:, c] <= b) if c in cols else True
        got = log_likelihood_interval(m, low, high).exp().double()[0]
        want = p[ins].sum(0)
        W.check("sum", torch.allclose(got, want, atol=2e-5, rtol=1e-3), f"{got.flatten()[:4]} {want.flatten()[:4]}")


@harness(H, funcs=["Module.log_likelihood", "utils.range_inference.log_likelihood_interval"], seeds=60, sym=False)
def continuous_circuits(W):
    """additive over adjoining boxes, one over everything, and density times volume for small boxes"""
    from spflow.utils.range_inference import log_likelihood_interval as li
    m, N = rand_circuit(W, leaves=("Normal",), gaps=True, single_root=True)
    r = W.rng
    cols = sorted(m._dom)
    f = lambda l, h: li(m, l, h).exp().double()[0]
    low = torch.tensor([[r.choice([math.nan, r.uniform(-2, 1)]) for _ in range(N)]])
    high = torch.tensor([[r.choice([math.nan, (0 if math.isnan(low[0, j]) else low[0, j].item()) + r.uniform(0, 3)]) for j in range(N)]])
    none = torch.full((1, N), math.nan)
    W.check("everything", torch.allclose(f(none, none), torch.ones_like(f(none, none)), atol=1e-4))
    j = r.choice(cols)
    a = low[0, j].item() if not math.isnan(low[0, j]) else -3.0
    b = high[0, j].item() if not math.isnan(high[0, j]) else 3.0
    if a < b:
        c = r.uniform(a, b)
        l2, h2 = low.clone(), high.clone()
        l2[0, j] = h2[0, j] = c
        W.check("additive", torch.allclose(f(low, h2) + f(l2, high), f(low, high), atol=1e-5, rtol=1e-3))
        W.check("monotone", bool((f(low, h2) <= f(low, high) + 1e-6).all()))
    if len(cols) <= 2:
        x = torch.randn(1, N)
        h = 0.02
        w = torch.full((1, N), h / 2)
        d = m.log_likelihood(x).exp().double()[0]
        W.check("density", torch.allclose(f(x - w, x + w) / h ** len(cols), d, atol=2e-2 * (1 + float(d.max())), rtol=5e-2), f"{d.flatten()[:3]}")


@harness(H, funcs=["IntervalEvidence.__post_init__", "IntervalEvidence.shape", "IntervalEvidence.to"])
def interval_accepts(W):
    """evidence is accepted exactly if no bound pair that is present is reversed, and it holds the bounds it was given"""
    from spflow.meta.data.interval_evidence import IntervalEvidence
    B, D = W.dim("B"), W.dim("D")
    low, ml, vl = W.data("low", (B, D))
    high, mh, vh = W.data("high", (B, D))
    if not W.sym and W.rng.random() < .5:
        high = torch.where(torch.isnan(high), high, torch.maximum(high, torch.nan_to_num(low, -9.0)))
    fine = lambda b, d: W.or_(ml(b, d), mh(b, d), W.le(W.at(low, b, d), W.at(high, b, d)))
    try:
        ev = IntervalEvidence(low, high)
    except ValueError:
        if bool((torch.isnan(low) | torch.isnan(high) | (low <= high)).all()):
            W.check("needless refusal", False)
        return
    W.check_all("ordered", (B, D), fine)
    W.check("shape", W.and_(W.eq(ev.shape[0], B), W.eq(ev.shape[1], D)))
    for n, e in (("", ev), ("moved ", ev.to(torch.device("cpu")))):
        W.check_all(n + "low", (B, D), lambda b, d: W.implies(W.not_(ml(b, d)), W.same(W.at(e.low, b, d), W.at(low, b, d))))
        W.check_all(n + "high", (B, D), lambda b, d: W.implies(W.not_(mh(b, d)), W.same(W.at(e.high, b, d), W.at(high, b, d))))
