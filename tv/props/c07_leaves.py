"""C07: leaf log-likelihoods are the documented (log-)densities at the current parameters, for every feature column,
channel and repetition; parameters given by the user are the parameters used."""
import math
import torch
from ..runner import harness
from ..lib import *
H = []
SCOPES = [[0], [2], [1, 0], [0, 3], [3, 1, 2]]


def _abs(W, x):
    return W.ite(W.lt(x, 0), -x, x)


def _sq(x):
    return x * x


def lgam(W, x):
    return W.fn("lgamma", x)


def lp(W, p):
    """log p for a success probability given as odds o = p/(1-p)"""
    return W.log(p("odds")) - W.log(1 + p("odds"))


def lq(W, p):
    return -W.log(1 + p("odds"))


# family -> (class name, {param: kind}, data kind, lo, hi, density(W, x, p))   p[name] is a value
FAM = {
    "normal": ("Normal", {"loc": "real", "scale": "pos"}, "real", None,
               lambda W, x, p: -_sq(x - p("loc")) / (2 * _sq(p("scale"))) - W.log(p("scale")) - LN2PI),
    "lognormal": ("LogNormal", {"loc": "real", "scale": "pos"}, "pos", None,
                  lambda W, x, p: -_sq(W.log(x) - p("loc")) / (2 * _sq(p("scale"))) - W.log(p("scale")) - LN2PI - W.log(x)),
    "laplace": ("Laplace", {"loc": "real", "scale": "pos"}, "real", None,
                lambda W, x, p: -W.log(2 * p("scale")) - _abs(W, x - p("loc")) / p("scale")),
    "exponential": ("Exponential", {"rate": "pos"}, "pos", None, lambda W, x, p: W.log(p("rate")) - p("rate") * x),
    "gamma": ("Gamma", {"concentration": "pos", "rate": "pos"}, "pos", None,
              lambda W, x, p: p("concentration") * W.log(p("rate")) + (p("concentration") - 1) * W.log(x) - p("rate") * x - lgam(W, p("concentration"))),
    "poisson": ("Poisson", {"rate": "pos"}, "int", (0, 9), lambda W, x, p: x * W.log(p("rate")) - p("rate") - lgam(W, x + 1)),
    "bernoulli": ("Bernoulli", {"probs": "unit"}, "int", (0, 2),
                  lambda W, x, p: x * lp(W, p) + (1 - x) * lq(W, p)),
    "geometric": ("Geometric", {"probs": "unit"}, "int", (0, 9), lambda W, x, p: x * lq(W, p) + lp(W, p)),
    "binomial": ("Binomial", {"probs": "unit"}, "int", (0, 4),
                 lambda W, x, p: lgam(W, p("total_count") + 1) - lgam(W, x + 1) - lgam(W, p("total_count") - x + 1)
                 + x * lp(W, p) + (p("total_count") - x) * lq(W, p)),
    "negative_binomial": ("NegativeBinomial", {"probs": "unit"}, "int", (0, 9),
                          lambda W, x, p: lgam(W, p("total_count") + x) - lgam(W, x + 1) - lgam(W, p("total_count"))
                          + p("total_count") * lq(W, p) + x * lp(W, p)),
    "uniform": ("Uniform", {}, "real", None, lambda W, x, p: -W.log(p("width"))),
    "categorical": ("Categorical", {}, "int", (0, 3), None),
}


LN2PI = math.log(math.sqrt(2 * math.pi))    # the same float constant torch uses


ODDS = ("bernoulli", "geometric", "binomial", "negative_binomial")


def mkleaf(W, fam, query, C, R, odds=False, **kw):
    """-> (leaf, par(name)->(f,c,r)->value) built through the public constructor."""
    from spflow.modules import leaves as L
    name, ps, kind, rng, dens = FAM[fam]
    F = len(query)
    cls = getattr(L, name)
    if odds and fam in ODDS:
        o = W.tensor("p.odds", (F, C, R), "pos")
        if "binomial" in fam:
            kw["total_count"] = torch.tensor(3.0)
        leaf = cls(Scope(query), logits=o.log(), **kw)
        return leaf, lambda k, f, c, r: 3 if k == "total_count" else W.at(o, f, c, r)
    T = {k: W.tensor("p." + k, (F, C, R), v) for k, v in ps.items()}
    if fam in ("binomial", "negative_binomial"):
        leaf = cls(Scope(query), total_count=torch.tensor(3.0), **T, **kw)
        return leaf, lambda k, f, c, r: 3 if k == "total_count" else W.at(T[k], f, c, r)
    if fam == "uniform":
        lo, w = W.tensor("p.low", (F, C, R)), W.tensor("p.width", (F, C, R), "pos")
        leaf = cls(Scope(query), low=lo, high=lo + w, **kw)
        return leaf, lambda k, f, c, r: W.at(w, f, c, r) if k == "width" else W.at(lo, f, c, r)
    if fam == "categorical":
        u = W.tensor("p.u", (F, C, R, 3), "pos")
        pr = u / u.sum(-1, keepdim=True)
        leaf = cls(Scope(query), probs=pr, **kw)
        return leaf, lambda k, f, c, r: (lambda j: W.at(pr, f, c, r, j))
    leaf = cls(Scope(query), **T, **kw)
    return leaf, lambda k, f, c, r: W.at(T[k], f, c, r)


def density(W, fam, x, par, f, c, r):
    if fam == "categorical":
        pr = par("probs", f, c, r)
        return W.log(W.pick(x, 3, pr))
    return FAM[fam][4](W, x, lambda k: par(k, f, c, r))


def leaf_data(W, fam, B, width, nan):
    kind, rng = FAM[fam][2], FAM[fam][3]
    lo, hi = rng or (None, None)
    return W.data("x", (B, width), kind, nan=nan, lo=lo, hi=hi)


def _mk(fam):
    def run(W):
        B, C, R = (W.dim(n) for n in ("B", "C", "R"))
        q = W.choice("query", SCOPES)
        leaf, par = mkleaf(W, fam, q, C, R, odds=True)
        x, _, val = leaf_data(W, fam, B, 4, nan=False)
        out = leaf.log_likelihood(x)
        W.check_eq("density", out, (B, len(q), C, R), lambda b, f, c, r: density(
            W, fam, W.pick(f, len(q), lambda j: val(b, q[j])), par, f, c, r))
        W.check("out_shape", W.and_(W.eq(leaf.out_shape.features, len(q)), W.eq(leaf.out_shape.channels, C), W.eq(leaf.out_shape.repetitions, R)))
        W.check("scope", leaf.scope.query == tuple(q) or list(leaf.scope.query) == q)
    run.__name__ = f"density_{fam}"
    return run


for _f in FAM:
    if _f != "uniform":
        harness(H, funcs=["LeafModule.log_likelihood", FAM[_f][0] + ".__init__", FAM[_f][0] + ".params"], seeds=30)(_mk(_f))


@harness(H, funcs=["Uniform.__init__", "Uniform.params", "LeafModule.log_likelihood"], seeds=40)
def density_uniform(W):
    """inside [low, high] the density is 1/(high-low)."""
    from spflow.modules.leaves import Uniform
    B, C, R = (W.dim(n) for n in ("B", "C", "R"))
    q = W.choice("query", SCOPES)
    F = len(q)
    x, _, val = W.data("x", (B, 4), "unit" if not W.sym else "real", nan=False)
    lo, w = W.tensor("p.low", (F, C, R)), W.tensor("p.width", (F, C, R), "pos")
    leaf = Uniform(Scope(q), low=lo, high=lo + w, validate_args=False)
    out = leaf.log_likelihood(x)

    def spec(b, f, c, r):
        v = W.pick(f, F, lambda j: val(b, q[j]))
        inside = W.and_(W.le(W.at(lo, f, c, r), v), W.lt(v, W.at(lo, f, c, r) + W.at(w, f, c, r)))
        return W.ite(inside, -W.log(W.at(w, f, c, r)), W.ninf)
    W.check_eq("density", out, (B, F, C, R), spec)


def _params(fam):
    def run(W):
        """user supplied and assigned parameters are the parameters reported, in their domain for any raw values."""
        C, R = (W.dim(n) for n in ("C", "R"))
        q = W.choice("query", [[0], [3, 1]])
        F = len(q)
        leaf, par = mkleaf(W, fam, q, C, R)
        for k, kind in FAM[fam][1].items():
            W.check_eq(f"ctor_{k}", getattr(leaf, k), (F, C, R), lambda f, c, r: par(k, f, c, r))
            v = W.tensor("v." + k, (F, C, R), kind)
            if k == "loc":
                leaf.loc.data = v
            else:
                setattr(leaf, k, v)
            W.check_eq(f"set_{k}", getattr(leaf, k), (F, C, R), lambda f, c, r: W.at(v, f, c, r))
        set_params(W, leaf)
        for k, kind in FAM[fam][1].items():
            t = getattr(leaf, k)
            if kind in ("pos", "unit"):
                W.check_all(f"domain_lo_{k}", (F, C, R), lambda *i: W.lt(0, W.at(t, *i)))
            if kind == "unit":
                W.check_all(f"domain_hi_{k}", (F, C, R), lambda *i: W.lt(W.at(t, *i), 1))
        if fam == "categorical":
            p = leaf.probs
            W.check_all("domain_lo_probs", (F, C, R, 3), lambda *i: W.lt(0, W.at(p, *i)))
            W.check_eq("norm_probs", p.sum(-1), (F, C, R), lambda *i: 1)
    run.__name__ = f"params_{fam}"
    return run


for _f in FAM:
    if _f != "uniform":
        harness(H, funcs=[FAM[_f][0] + ".*", "proj_bounded_to_real", "proj_real_to_bounded", "init_parameter", "parse_leaf_args"], seeds=20)(_params(_f))


@harness(H, funcs=["Categorical.probs", "Categorical.logits", "Bernoulli.logits", "Geometric.logits", "Binomial.logits"], seeds=40)
def logits_params(W):
    """the logits parameterisation denotes the same distribution as the probabilities derived from it."""
    from spflow.modules import leaves as L
    B, C, R = (W.dim(n) for n in ("B", "C", "R"))
    fam = W.choice("fam", ["bernoulli", "geometric", "binomial", "negative_binomial", "categorical"])
    name, _, kind, (lo, hi), dens = FAM[fam]
    kw = {"total_count": torch.tensor(3.0)} if "binomial" in fam else {}
    l = W.tensor("l", (1, C, R) + ((3,) if fam == "categorical" else ()))
    leaf = getattr(L, name)(Scope([1]), logits=l, **kw)
    v = W.tensor("v", (1, C, R) + ((3,) if fam == "categorical" else ()))
    if W.choice("assign", [False, True]):
        leaf.logits = v
        l = v
    pr = leaf.probs
    if fam == "categorical":
        W.check_eq("probs", pr, (1, C, R, 3), lambda f, c, r, k: W.exp(W.at(l, f, c, r, k)) / W.sum(3, lambda j: W.exp(W.at(l, f, c, r, j))))
    else:
        W.check_eq("probs", pr, (1, C, R), lambda f, c, r: 1 / (1 + W.exp(-W.at(l, f, c, r))))
    x, _, val = W.data("x", (B, 2), kind, nan=False, lo=lo, hi=hi)
    out = leaf.log_likelihood(x)
    par = (lambda k, f, c, r: 3 if k == "total_count" else W.exp(W.at(l, f, c, r))) if fam != "categorical" else (
        lambda k, f, c, r: (lambda j: W.at(pr, f, c, r, j)))
    W.check_eq("density", out, (B, 1, C, R), lambda b, f, c, r: density(W, fam, val(b, 1), par, f, c, r))


@harness(H, funcs=["LeafModule.log_likelihood", "LeafModule.conditional_distribution"], seeds=40)
def conditional_leaf(W):
    """a conditional leaf evaluates the density at the parameters its function computes from the evidence columns."""
    from spflow.modules.leaves import Normal
    B, C, R = (W.dim(n) for n in ("B", "C", "R"))
    q, e = W.choice("qe", [([0], [1]), ([2, 0], [3]), ([1], [3, 0])])
    F = len(q)
    a, s = W.tensor("a", (F, C, R)), W.tensor("s", (F, C, R), "pos")

    def fn(ev):
        t = ev.sum(1).reshape(-1, 1, 1, 1)
        return {"loc": t * a.unsqueeze(0), "scale": s.unsqueeze(0) + 0 * t}
    leaf = Normal(Scope(q, evidence=e), out_channels=C, num_repetitions=R, parameter_fn=fn)
    x, _, val = W.data("x", (B, 4), "real", nan=False)
    out = leaf.log_likelihood(x)

    def spec(b, f, c, r):
        loc = sum(val(b, j) for j in e) * W.at(a, f, c, r)
        v = W.pick(f, F, lambda j: val(b, q[j]))
        sc = W.at(s, f, c, r)
        return -_sq(v - loc) / (2 * _sq(sc)) - W.log(sc) - LN2PI
    W.check_eq("density", out, (B, F, C, R), spec)


@harness(H, funcs=["_HypergeometricDistribution.*", "Hypergeometric.*"], sym=False, seeds=80)
def density_hypergeometric(W):
    from spflow.modules.leaves import Hypergeometric
    r = W.rng
    F, C, R = W.dim("F"), W.dim("C"), W.dim("R")
    cr = [(c, q) for c in range(C) for q in range(R)]
    P = {}
    for k in cr:    # the leaf requires all its features to share N, K and n; channels and repetitions are free
        N = r.randint(1, 9)
        P[k] = (N, r.randint(0, N), r.randint(0, N))
    t = lambda i: torch.tensor([[P[c, q][i] for q in range(R)] for c in range(C)], dtype=torch.float64).expand(F, C, R).contiguous()
    lo = max(max(0, n + K - N) for N, K, n in P.values())
    hi = min(min(n, K) for N, K, n in P.values())
    W.require(lo <= hi)
    leaf = Hypergeometric(Scope(list(range(F))), K=t(1), N=t(0), n=t(2), validate_args=len(P) == 1)
    rows = [[r.randint(lo, hi) for _ in range(F)] for _ in range(3)]
    x = torch.tensor(rows, dtype=torch.float64)
    out = leaf.log_likelihood(x)

    def spec(b, f, c, q):
        N, K, n = P[c, q]
        k = rows[b][f]
        return math.log(math.comb(K, k) * math.comb(N - K, n - k) / math.comb(N, n))
    W.check_eq("density", out, (3, F, C, R), spec)
    if len(P) == 1:
        bad = x.clone()
        bad[0, 0] = hi + 1
        W.raises("outside_support", (ValueError,), lambda: leaf.log_likelihood(bad))


@harness(H, funcs=["LeafModule.__init__"], sym=False, seeds=60)
def finite_support_mass(W):
    """the masses of a discrete leaf sum to one over its support."""
    r = W.rng
    C, R = W.dim("C"), W.dim("R")
    fam = W.choice("fam", ["bernoulli", "binomial", "categorical", "hyper", "poisson", "geometric", "negative_binomial"])
    if fam == "hyper":
        from spflow.modules.leaves import Hypergeometric
        N = r.randint(1, 9); K = r.randint(0, N); n = r.randint(0, N)
        t = lambda v: torch.full((1, C, R), float(v))
        leaf = Hypergeometric(Scope([0]), K=t(K), N=t(N), n=t(n))
        sup = range(max(0, n + K - N), min(n, K) + 1)
    else:
        leaf, par = mkleaf(W, fam, [0], C, R)
        sup = {"bernoulli": range(2), "binomial": range(4), "categorical": range(3)}.get(fam, range(1500))
    out = leaf.log_likelihood(torch.tensor([[float(v)] for v in sup]))
    W.check_eq("mass", out.exp().sum(0), (1, C, R), lambda *i: 1, tol=1e-6)


@harness(H, funcs=["init_parameter", "parse_leaf_args"], sym=False, seeds=60)
def rejects_bad_params(W):
    """non-finite or mismatching constructor parameters are rejected."""
    from spflow.modules import leaves as L
    fam = W.choice("fam", [f for f in FAM if f not in ("categorical", "uniform")])
    name, ps, *_ = FAM[fam]
    C, R = W.dim("C"), W.dim("R")
    kw = {"total_count": torch.tensor(3.0)} if "binomial" in fam else {}
    T = {k: W.tensor("p." + k, (2, C, R), v) for k, v in ps.items()}
    k = W.rng.choice(list(T))
    bad = {a: b.clone() for a, b in T.items()}
    bad[k][0, 0, 0] = W.rng.choice([math.nan, math.inf])
    W.raises("nonfinite", (Exception,), lambda: getattr(L, name)(Scope([0, 1]), **bad, **kw))
    W.raises("feature_mismatch", (Exception,), lambda: getattr(L, name)(Scope([0, 1, 2]), **T, **kw))


def _projection(kind):
    def h(W):
        from spflow.utils.projections import proj_real_to_bounded, proj_bounded_to_real
        N = W.dim("N")
        lb = W.tensor("lb", (N,)) if kind != "upper" else None
        ub = None if kind == "lower" else W.tensor("w", (N,), "pos") + (lb if lb is not None else 0)
        y = W.tensor("y", (N,))
        x = proj_real_to_bounded(y, lb=lb, ub=ub)
        W.check_eq("inverse", proj_bounded_to_real(x, lb=lb, ub=ub), (N,), lambda n: W.at(y, n))
        d, e = W.tensor("d", (N,), "pos"), W.tensor("e", (N,), "pos")
        z = lb + d if kind == "lower" else ub - d if kind == "upper" else lb + (ub - lb) * d / (d + e)
        W.check_eq("onto", proj_real_to_bounded(proj_bounded_to_real(z, lb=lb, ub=ub), lb=lb, ub=ub), (N,), lambda n: W.at(z, n))
    h.__name__ = "projection_" + kind
    h.__doc__ = "the map from unconstrained to bounded parameters and its inverse undo each other on the whole interval"
    return h


for _k in ("lower", "upper", "both"):
    harness(H, funcs=["proj_real_to_bounded", "proj_bounded_to_real"], seeds=30)(_projection(_k))
