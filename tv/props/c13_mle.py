"""C13: fitting a leaf sets its parameters to the weighted maximum-likelihood estimate of the data in its own columns."""
import math
import torch
from ..runner import harness
from ..lib import *
H = []
COLS = [2, 0]        # the leaf's variables are not the first columns, nor in order


class Edge:
    """The contract of utils.leaves._handle_mle_edge_cases in place of its body (callers are checked against it; the body
    is checked by `edge_cases`): the result y is inside the open domain, and where the estimate is inside, y is the estimate.
    Only with the bounds the contract is stated for; anything else executes the body."""

    def __init__(self, W):
        self.W, self.rec, self.old = W, [], []

    def __enter__(self):
        if not self.W.sym:
            return self
        import sys
        import spflow.utils.leaves as ul
        body = getattr(ul, "_handle_mle_edge_cases", None)

        def stub(param_est, lb=None, ub=None):
            if lb != 0 or ub not in (None, 1) or param_est.dim() != 3:
                return body(param_est, lb=lb, ub=ub)
            y = self.W.tensor(f"edge{len(self.rec)}", tuple(param_est.shape), "pos" if ub is None else "unit")
            self.rec.append((param_est, y))
            return y
        for n, mod in list(sys.modules.items()):
            if body is not None and n.startswith("spflow.modules.leaves.") and getattr(mod, "_handle_mle_edge_cases", None) is body:
                self.old.append((mod, body))
                mod._handle_mle_edge_cases = stub
        return self

    def __exit__(self, *a):
        for mod, body in self.old:
            mod._handle_mle_edge_cases = body


def setup(W, mk, kind="pos", lo=None, hi=None, bias=None):
    B, C, R = (W.dim(n) for n in ("B", "C", "R"))
    if not W.sym:
        B = max(B, 2)
    x = W.tensor("x", (B, 4), kind) if lo is None else W.tensor("x", (B, 4), kind, lo=lo, hi=hi)
    weighted = W.choice("weights", ["given", "none"])
    w = W.tensor("w", (B, 2, C, R), "pos") if weighted == "given" else None
    m = mk(Scope(COLS), C, R)
    bc = W.choice("bias_correction", [False, True]) if bias is None else bias
    with Edge(W) as e:
        m.maximum_likelihood_estimation(x, weights=w, bias_correction=bc)
    m.__dict__["edge"] = e.rec
    wt = (lambda b, f, c, k: W.at(w, b, f, c, k)) if w is not None else (lambda b, f, c, k: 1)
    tot = lambda f, c, k: W.sum(B, lambda b: wt(b, f, c, k)) if w is not None else B
    mean = lambda f, c, k, g=lambda v: v: W.sum(B, lambda b: wt(b, f, c, k) * g(W.at(x, b, COLS[f]))) / tot(f, c, k)
    return m, B, C, R, x, mean, bc


def check(W, name, par, C, R, want, lo=None, hi=None, edge=None):
    """the parameter is the estimate wherever the estimate is inside the domain, and it is always inside.
    edge=(records of the edge-case contract, n): the parameter is y, and the estimate handed over is the wanted one"""
    shape = tuple(par.shape)
    W.check(name + "_shape", W.and_(len(shape) == 3, W.eq(shape[0], 2), W.eq(shape[1], C), W.eq(shape[2], R)) if len(shape) == 3 else False)

    if edge:
        x, y = edge[0]
        for f in range(2):
            W.check_all(f"{name}{f}", (C, R), lambda c, k: W.and_(W.same(W.at(par, f, c, k), W.at(y, f, c, k)), W.same(W.at(x, f, c, k), want(f, c, k))))
        return
    for f in range(2):
        def est(c, k):
            v, p = want(f, c, k), W.at(par, f, c, k)
            inside = W.and_(*([W.lt(lo, v)] if lo is not None else []), *([W.lt(v, hi)] if hi is not None else []), True)
            if not W.sym:
                margin = 1e-6
                if (lo is not None and v <= lo + margin) or (hi is not None and v >= hi - margin):
                    return (lo is None or p > lo) and (hi is None or p < hi)
                return W.same(p, v)
            return W.implies(inside, W.same(p, v))
        W.check_all(f"{name}{f}", (C, R), est)


def full(W, n, c, r):
    return torch.full((2, int(c), int(r)), float(n)) if not W.sym else W.tensor("tc", (2, c, r), "int", lo=n, hi=n + 1).double()


@harness(H, funcs=["utils.leaves._handle_mle_edge_cases"])
def edge_cases(W):
    """strictly inside the domain, finite, and the identity on estimates that already are"""
    import spflow.utils.leaves as ul
    h = getattr(ul, "_handle_mle_edge_cases", None)
    if h is None:
        return
    F, C, R = W.dim("F"), W.dim("C"), W.dim("R")
    ub = W.choice("ub", [None, 1.0])
    x = W.tensor("x", (F, C, R))
    if not W.sym:
        x = torch.where(torch.rand(x.shape) < 0.3, W.rng.choice([0.0, 1.0, math.nan, math.inf, -1.0]) * torch.ones_like(x), x)
    y = h(x, lb=0.0, ub=ub)

    def ok(f, c, r):
        v, z = W.at(x, f, c, r), W.at(y, f, c, r)
        dom = W.and_(W.lt(0, z), True if ub is None else W.lt(z, 1))
        ins = W.and_(W.lt(0, v), True if ub is None else W.lt(v, 1), True if W.sym else math.isfinite(v))
        return W.and_(dom, W.implies(ins, W.same(z, v)))
    W.check_all("domain", (F, C, R), ok)
    if not W.sym:
        W.check("finite", bool(torch.isfinite(y).all()))


@harness(H, funcs=["Poisson.maximum_likelihood_estimation"])
def poisson(W):
    from spflow.modules.leaves import Poisson
    m, B, C, R, x, mean, bc = setup(W, lambda s, c, r: Poisson(s, out_channels=c, num_repetitions=r))
    check(W, "rate", m.rate, C, R, lambda f, c, k: mean(f, c, k), 0, edge=m.edge)


@harness(H, funcs=["Bernoulli.maximum_likelihood_estimation"])
def bernoulli(W):
    from spflow.modules.leaves import Bernoulli
    m, B, C, R, x, mean, bc = setup(W, lambda s, c, r: Bernoulli(s, out_channels=c, num_repetitions=r), "int", 0, 2)
    check(W, "probs", m.probs, C, R, lambda f, c, k: mean(f, c, k), 0, 1, edge=m.edge)


@harness(H, funcs=["Binomial.maximum_likelihood_estimation"])
def binomial(W):
    from spflow.modules.leaves import Binomial
    n = W.choice("n", [1, 3, 7])
    m, B, C, R, x, mean, bc = setup(W, lambda s, c, r: Binomial(s, total_count=full(W, n, c, r), out_channels=c, num_repetitions=r), "int", 0, n + 1)
    check(W, "probs", m.probs, C, R, lambda f, c, k: mean(f, c, k) / n, 0, 1, edge=m.edge)


@harness(H, funcs=["Exponential.maximum_likelihood_estimation"])
def exponential(W):
    from spflow.modules.leaves import Exponential
    m, B, C, R, x, mean, bc = setup(W, lambda s, c, r: Exponential(s, out_channels=c, num_repetitions=r))
    # bias correction: (n - 1)/n times the estimate
    check(W, "rate", m.rate, C, R, lambda f, c, k: (1 / mean(f, c, k)) * ((B - 1) / B if bc else 1), 0, edge=m.edge)


@harness(H, funcs=["Geometric.maximum_likelihood_estimation"])
def geometric(W):
    from spflow.modules.leaves import Geometric
    m, B, C, R, x, mean, bc = setup(W, lambda s, c, r: Geometric(s, out_channels=c, num_repetitions=r), "int", 0, 5, bias=False)
    check(W, "probs", m.probs, C, R, lambda f, c, k: 1 / (1 + mean(f, c, k)), 0, 1, edge=m.edge)


@harness(H, funcs=["Geometric.maximum_likelihood_estimation"])
def geometric_corrected(W):
    from spflow.modules.leaves import Geometric
    m, B, C, R, x, mean, bc = setup(W, lambda s, c, r: Geometric(s, out_channels=c, num_repetitions=r), "int", 0, 5, bias=True)
    p = lambda f, c, k: 1 / (1 + mean(f, c, k))
    check(W, "probs", m.probs, C, R, lambda f, c, k: p(f, c, k) - p(f, c, k) * (1 - p(f, c, k)) / B, 0, 1, edge=m.edge)


def moments(W, cls, kind, g):
    """location: weighted mean of g(x); scale squared: weighted mean squared deviation (times B/(B-1) when bias-corrected)"""
    m, B, C, R, x, mean, bc = setup(W, lambda s, c, r: cls(s, out_channels=c, num_repetitions=r), kind)
    mu = lambda f, c, k: mean(f, c, k, g)
    check(W, "loc", m.loc, C, R, mu)
    root = (lambda v: W.sqrt(v)) if W.sym else math.sqrt
    var = lambda f, c, k: mean(f, c, k, lambda v: (g(v) - mu(f, c, k)) * (g(v) - mu(f, c, k)))
    if bc:
        W.require(W.lt(1, B))
        check(W, "scale", m.scale, C, R, lambda f, c, k: root(var(f, c, k) * B / (B - 1)), 0, edge=m.edge)
    else:
        check(W, "scale", m.scale, C, R, lambda f, c, k: root(var(f, c, k)), 0, edge=m.edge)


@harness(H, funcs=["Normal.maximum_likelihood_estimation"])
def normal(W):
    from spflow.modules.leaves import Normal
    moments(W, Normal, "real", lambda v: v)


@harness(H, funcs=["LogNormal.maximum_likelihood_estimation"])
def lognormal(W):
    from spflow.modules.leaves import LogNormal
    moments(W, LogNormal, "pos", W.log)


@harness(H, funcs=["NegativeBinomial.maximum_likelihood_estimation"])
def negbin(W):
    from spflow.modules.leaves import NegativeBinomial
    n = W.choice("n", [1, 4])
    m, B, C, R, x, mean, bc = setup(W, lambda s, c, r: NegativeBinomial(s, total_count=full(W, n, c, r), out_channels=c, num_repetitions=r), "int", 0, 6, bias=False)
    # torch's parameterisation: mean = n p / (1 - p)
    check(W, "probs", m.probs, C, R, lambda f, c, k: mean(f, c, k) / (mean(f, c, k) + n), 0, 1, edge=m.edge)


@harness(H, funcs=["Gamma.maximum_likelihood_estimation"])
def gamma(W):
    """the documented closed-form estimator (mixed type log moments), not the exact maximiser"""
    from spflow.modules.leaves import Gamma
    m, B, C, R, x, mean, bc = setup(W, lambda s, c, r: Gamma(s, out_channels=c, num_repetitions=r), bias=False)
    th = lambda f, c, k: mean(f, c, k, lambda v: v * W.log(v)) - mean(f, c, k) * mean(f, c, k, W.log)
    if len(m.edge) == 3:       # symbolic lane: through the contract of the edge-case function
        (t0, y0), (c0, y1), (r0, y2) = m.edge
        for f in range(2):
            W.check_all(f"theta{f}", (C, R), lambda c, k: W.same(W.at(t0, f, c, k), th(f, c, k)))
            W.check_all(f"rate{f}", (C, R), lambda c, k: W.and_(W.same(W.at(m.rate, f, c, k), W.at(y2, f, c, k)), W.same(W.at(r0, f, c, k), 1 / W.at(y0, f, c, k))))
            W.check_all(f"concentration{f}", (C, R), lambda c, k: W.and_(W.same(W.at(m.concentration, f, c, k), W.at(y1, f, c, k)),
                                                                         W.same(W.at(c0, f, c, k), mean(f, c, k) / W.at(y0, f, c, k))))
        return
    big = lambda f, c, k: W.lt(1e-6, th(f, c, k))
    for f in range(2):
        for n, t, want in (("rate", m.rate, lambda c, k: 1 / th(f, c, k)), ("concentration", m.concentration, lambda c, k: mean(f, c, k) / th(f, c, k))):
            W.check_all(f"{n}{f}", (C, R), lambda c, k: W.implies(big(f, c, k), W.same(W.at(t, f, c, k), want(c, k))))


@harness(H, funcs=["Categorical.maximum_likelihood_estimation"])
def categorical(W):
    from spflow.modules.leaves import Categorical
    K = W.choice("K", [2, 4])
    m, B, C, R, x, mean, bc = setup(W, lambda s, c, r: Categorical(s, K=K, out_channels=c, num_repetitions=r), "int", 0, K)
    p = m.probs
    fl = lambda v: W.ite(W.lt(v, 1e-10), 1e-10, v)
    for f in range(2):
        raw = lambda c, r, k: fl(mean(f, c, r, lambda v: W.ite(W.eq(v, k), 1.0, 0.0)))
        for k in range(K):
            W.check_all(f"freq{f}_{k}", (C, R), lambda c, r: W.same(W.at(p, f, c, r, k), raw(c, r, k) / sum((raw(c, r, j) for j in range(1, K)), raw(c, r, 0))))


# ---------------------------------------------------------------- concrete only
def families(W, C, R):
    """name -> (leaf over COLS, sampler of one value)"""
    from spflow.modules import leaves as L
    r = W.rng
    n = r.choice([1, 3, 7])
    s, kw = Scope(COLS), dict(out_channels=C, num_repetitions=R)
    cnt = torch.full((2, C, R), float(n))
    return {
        "Normal": (L.Normal(s, **kw), lambda: r.gauss(0.5, 2)), "Laplace": (L.Laplace(s, **kw), lambda: r.gauss(-1, 2)),
        "LogNormal": (L.LogNormal(s, **kw), lambda: math.exp(r.gauss(0, 1))), "Gamma": (L.Gamma(s, **kw), lambda: r.gammavariate(2, 1.5) + 1e-3),
        "Exponential": (L.Exponential(s, **kw), lambda: r.expovariate(0.7)), "Poisson": (L.Poisson(s, **kw), lambda: float(r.randrange(6))),
        "Geometric": (L.Geometric(s, **kw), lambda: float(r.randrange(5))), "Bernoulli": (L.Bernoulli(s, **kw), lambda: float(r.random() < 0.6)),
        "Binomial": (L.Binomial(s, total_count=cnt, **kw), lambda: float(r.randrange(n + 1))),
        "NegativeBinomial": (L.NegativeBinomial(s, total_count=cnt, **kw), lambda: float(r.randrange(7))),
        "Categorical": (L.Categorical(s, K=4, **kw), lambda: float(r.randrange(4))),
        "Uniform": (L.Uniform(s, low=torch.full((2, C, R), -3.0), high=torch.full((2, C, R), 5.0)), lambda: r.uniform(-3, 5)),
        "Hypergeometric": (L.Hypergeometric(s, K=torch.full((2, C, R), 4.0), N=torch.full((2, C, R), 9.0), n=torch.full((2, C, R), 5.0)), lambda: float(r.randrange(5))),
    }


def pick_family(W, only=None):
    C, R = W.rng.choice([1, 2, 3]), W.rng.choice([1, 2])
    name = W.choice("family", only or ["Normal", "Laplace", "LogNormal", "Gamma", "Exponential", "Poisson", "Geometric", "Bernoulli", "Binomial",
                                       "NegativeBinomial", "Categorical", "Uniform", "Hypergeometric"])
    m, gen = families(W, C, R)[name]
    B = W.rng.choice([2, 3, 5, 12])
    x = torch.tensor([[gen() for _ in range(4)] for _ in range(B)])
    w = torch.tensor([math.exp(W.rng.gauss(0, 1)) for _ in range(B * 2 * C * R)]).reshape(B, 2, C, R)
    return name, m, x, w, B, C, R


def state(m):
    return {k: v.detach().clone() for k, v in m.state_dict().items()}


FIXED = ["Uniform", "Hypergeometric"]


@harness(H, funcs=["LeafModule.maximum_likelihood_estimation", "apply_nan_strategy"], seeds=150, sym=False)
def missing_rows(W):
    """'ignore' fits on exactly the rows that are complete in the leaf's own columns; without a strategy such data is rejected"""
    name, m, x, w, B, C, R = pick_family(W)
    st = state(m)
    bc = W.rng.random() < 0.5
    y, drop = x.clone(), []
    for b in range(B):
        if W.rng.random() < 0.4 and len(drop) < B - 2:
            drop.append(b)
            y[b, W.rng.choice(COLS)] = math.nan
        if W.rng.random() < 0.3:
            y[b, W.rng.choice([1, 3])] = math.nan    # not the leaf's business
    keep = [b for b in range(B) if b not in drop]
    given = W.rng.random() < 0.5
    if drop:
        W.raises("rejected", ValueError, lambda: m.maximum_likelihood_estimation(y, bias_correction=bc))
    m.maximum_likelihood_estimation(y, weights=w if given else None, bias_correction=bc, nan_strategy="ignore")
    got = state(m)
    m.load_state_dict(st)
    m.maximum_likelihood_estimation(x[keep], weights=w[keep] if given else None, bias_correction=bc)
    want = state(m)
    W.check("same_fit", all(torch.allclose(got[k], want[k], rtol=1e-5, atol=1e-7, equal_nan=True) for k in want), f"{name}: {got} vs {want}")


@harness(H, funcs=["LeafModule.maximum_likelihood_estimation"], seeds=200, sym=False)
def optimal(W):
    """the weighted log-likelihood is not below that of other parameters (Gamma uses a documented approximation and is left out)"""
    name, m, x, w, B, C, R = pick_family(W, ["Normal", "Laplace", "LogNormal", "Exponential", "Poisson", "Geometric", "Bernoulli", "Binomial", "NegativeBinomial", "Categorical"])
    f = lambda: (m.log_likelihood(x) * w).sum(0).detach()
    m.maximum_likelihood_estimation(x, weights=w, bias_correction=False)
    best = f()
    W.check("finite", bool(torch.isfinite(best).all()), name)
    ps = [p for p in m.parameters() if p.requires_grad]
    base = [p.detach().clone() for p in ps]
    for step in (1e-3, 0.03, 0.5):
        for p, b in zip(ps, base):
            p.data = b + step * torch.tensor([W.rng.gauss(0, 1) for _ in range(b.numel())]).reshape(b.shape)
        d = f() - best
        W.check("best", bool((d <= 1e-5 * (1 + best.abs())).all()), f"{name}: a perturbation by {step} gains {d.max()}")


@harness(H, funcs=["LeafModule.maximum_likelihood_estimation", "utils.leaves._handle_mle_edge_cases"], seeds=150, sym=False)
def degenerate(W):
    """constant or boundary data: parameters stay finite and in their domain, the data keep a finite log-likelihood and gradient"""
    name, m, x, w, B, C, R = pick_family(W)
    c = {"Bernoulli": [0.0, 1.0], "Binomial": [0.0], "Geometric": [0.0], "Poisson": [0.0, 3.0], "NegativeBinomial": [0.0, 2.0], "Exponential": [1e-3, 1.0, 40.0],
         "Categorical": [0.0, 3.0], "Hypergeometric": [0.0, 3.0], "Uniform": [0.0], "Gamma": [1.0, 0.2], "LogNormal": [1.0, 7.5]}.get(name, [0.0, 1.0, -4.0])
    if name == "Binomial":
        c = [0.0, float(m.total_count.flatten()[0])]
    x[:, :] = W.rng.choice(c)
    if W.rng.random() < 0.3:
        x, w = x[:1], w[:1]
    bc = W.rng.random() < 0.5
    if W.rng.random() < 0.3:
        w[:, :, W.rng.randrange(C)] = 0.0     # e.g. a class without samples
    m.maximum_likelihood_estimation(x, weights=w if W.rng.random() < 0.5 else None, bias_correction=bc)
    W.check("finite_params", all(bool(torch.isfinite(p).all()) for p in m.parameters()), name)
    ll = m.log_likelihood(x)
    W.check("finite_ll", bool(torch.isfinite(ll).all()), f"{name} {x[0]} {ll.flatten()[:3]}")
    if name not in FIXED:
        ll.sum().backward()
        W.check("finite_grad", all(p.grad is None or bool(torch.isfinite(p.grad).all()) for p in m.parameters()), name)


@harness(H, funcs=["Uniform.maximum_likelihood_estimation", "Hypergeometric.maximum_likelihood_estimation"], seeds=20, sym=False)
def fixed(W):
    name, m, x, w, B, C, R = pick_family(W, FIXED)
    st = state(m)
    m.maximum_likelihood_estimation(x, weights=w)
    W.check("unchanged", all(torch.equal(v, st[k]) for k, v in state(m).items()))


@harness(H, funcs=["Laplace.maximum_likelihood_estimation"], seeds=60, sym=False)
def laplace(W):
    """a weighted median, and the weighted mean absolute deviation from it"""
    name, m, x, w, B, C, R = pick_family(W, ["Laplace"])
    if W.rng.random() < 0.3:
        x = x.round()
    m.maximum_likelihood_estimation(x, weights=w, bias_correction=W.rng.random() < 0.5)
    for f in range(2):
        v = x[:, COLS[f]]
        for c in range(C):
            for r in range(R):
                ww, loc = w[:, f, c, r], m.loc[f, c, r].detach()
                t = ww.sum()
                W.check("median", bool(ww[v < loc - 1e-6].sum() <= t / 2 * (1 + 1e-5)) and bool(ww[v > loc + 1e-6].sum() <= t / 2 * (1 + 1e-5)))
                W.check_val("scale", m.scale[f, c, r].item(), max((ww * (v - loc).abs()).sum().item() / t.item(), 1e-8))


@harness(H, funcs=["Histogram.maximum_likelihood_estimation"], seeds=60, sym=False)
def histogram(W):
    """bin probabilities are the weighted bin frequencies (up to the probability floor), whatever the bin widths"""
    from spflow.modules.leaves import Histogram
    r = W.rng
    C, R, nb = r.choice([1, 2, 3]), r.choice([1, 2]), r.choice([1, 2, 4])
    e = torch.tensor(sorted(r.sample(range(-10, 10), nb + 1))) / 2.0
    m = Histogram(Scope([2]), bin_edges=e, out_channels=C, num_repetitions=R)
    B = r.choice([1, 3, 8])
    x = torch.tensor([[r.choice([r.uniform(float(e[0]), float(e[-1]) - 1e-3), float(e[r.randrange(nb)])]) for _ in range(4)] for _ in range(B)])
    w = torch.tensor([math.exp(r.gauss(0, 1)) for _ in range(B * C * R)]).reshape(B, 1, C, R)
    given = r.random() < 0.6
    m.maximum_likelihood_estimation(x, weights=w if given else None)
    for j in range(nb):
        ins = ((x[:, 2] >= e[j]) & (x[:, 2] < e[j + 1])).float().reshape(B, 1, 1)
        ww = w[:, 0] if given else torch.ones(B, C, R)
        W.check("freq", torch.allclose(m.probs[0, :, :, j], ((ww * ins).sum(0) / ww.sum(0)).clamp_min(1e-12), rtol=1e-4, atol=1e-6), f"bin {j}: {m.probs[0, :, :, j]}")
    W.check("sum", torch.allclose(m.probs.sum(-1), torch.ones(1, C, R)))




from .c16_density import cltree_estimation  # noqa: E402
harness(H, funcs=["CLTree.maximum_likelihood_estimation", "CLTree._prepare_mle_inputs"], sym_time=120)(cltree_estimation)


@harness(H, funcs=["apply_nan_strategy"], seeds=60)
def complete_rows_kept(W):
    """'ignore' hands on exactly the complete rows, in their order, each with its own weights up to one common factor"""
    import spflow.utils.leaves as ul
    h = getattr(ul, "apply_nan_strategy", None)
    if h is None:
        return
    B, F, C, R = (W.dim(n) for n in ("B", "F", "C", "R"))
    x, miss, val = W.data("x", (B, F))
    w = W.tensor("w", (B, F, C, R), "pos")
    try:
        d, v = h("ignore", x, torch.device("cpu"), w)
    except ValueError:
        W.check_all("refused_only_without_data", (B, F), lambda b, f: miss(b, f))
        return
    keep = ~torch.isnan(x).any(dim=1)
    if bool(torch.any(torch.isnan(x))):
        n = w[keep].shape[0]
        if not W.sym and n == 0:
            return
        W.check("rows", W.and_(W.eq(d.shape[0], n), W.eq(v.shape[0], n)))
        y, z = x.clone(), w.clone()
        y[keep], z[keep] = d, v
    else:
        W.check("all_rows", W.and_(W.eq(d.shape[0], B), W.eq(v.shape[0], B)))
        y, z = d, v
    full = lambda b: W.at(keep, b)
    W.check_all("values", (B, F), lambda b, f: W.implies(full(b), W.same(W.at(y, b, f), val(b, f))))
    W.check_all("weights", (B, B, F, C, R), lambda a, b, f, c, r: W.implies(W.and_(full(a), full(b)), W.same(
        W.at(z, a, f, c, r) * W.at(w, b, f, c, r), W.at(z, b, f, c, r) * W.at(w, a, f, c, r))))


@harness(H, funcs=["Uniform.maximum_likelihood_estimation", "LeafModule.maximum_likelihood_estimation"], seeds=20)
def fixed_bounds(W):
    """fitting leaves the bounds of a uniform leaf as they are"""
    from spflow.modules.leaves import Uniform
    B, C, R = (W.dim(n) for n in ("B", "C", "R"))
    lo, wd = W.tensor("lo", (2, C, R)), W.tensor("wd", (2, C, R), "pos")
    m = Uniform(Scope(COLS), low=lo, high=lo + wd)
    a, b = m.low.clone(), m.high.clone()
    x = W.tensor("x", (B, 4))
    m.maximum_likelihood_estimation(x, weights=W.tensor("w", (B, 2, C, R), "pos") if W.choice("weights", [True, False]) else None)
    for n, t, want in (("low", m.low, a), ("high", m.high, b)):
        W.check_all(n, (2, C, R), lambda f, c, r: W.same(W.at(t, f, c, r), W.at(want, f, c, r)))
