"""C16: histogram, piecewise-linear and tree leaves are normalised distributions; the tree leaf is the product of its tables."""
import itertools
import math
import torch
from ..runner import harness
from ..lib import *
H = []


def edges_of(W, nb):
    """strictly increasing bin edges"""
    a, w = W.tensor("start", (1,)), W.tensor("width", (nb,), "pos")
    e = torch.cat([a, a + torch.cumsum(w, 0)]) if not W.sym else None
    if W.sym:
        ws = [W.at(w, k) for k in range(nb)]
        e = W.st.sym_tensor(lambda i: pickt(W, i, [sum(ws[:k], W.at(a, 0)) for k in range(nb + 1)]), (nb + 1,))
    return e, w


def pickt(W, i, ts):
    c = W.tm.lift(i).const()
    if c is not None:
        return ts[int(c)]
    t = ts[-1]
    for k in range(len(ts) - 2, -1, -1):
        t = W.tm.ite(W.tm.eq(W.tm.lift(i), W.tm.C(k)), ts[k], t)
    return t


@harness(H, funcs=["HistogramDist.log_prob", "Histogram.log_likelihood", "Histogram.probs"])
def histogram_density(W):
    """inside bin k the density is probability over width (never below the floor), outside all bins zero; bin probabilities sum to one"""
    from spflow.modules.leaves import Histogram
    nb = W.choice("nb", [1, 2, 3])
    B, C, R = W.dim("B"), W.dim("C"), W.dim("R")
    e, w = edges_of(W, nb)
    m = Histogram(Scope([1]), bin_edges=[float(i) for i in range(nb + 1)], out_channels=C, num_repetitions=R)
    m.bin_edges = e
    set_params(W, m)
    x = W.tensor("x", (B, 3))
    if not W.sym and int(B):
        x[:, 1] = x[:, 1] + W.rng.choice([0.0, float(e[0]) - 0.5])
        for b in range(int(B)):
            if W.rng.random() < 0.4:
                x[b, 1] = e[W.rng.randrange(nb + 1)]
    out = m.log_likelihood(x)
    E = [W.at(e, k) for k in range(nb + 1)]
    wd = [E[k + 1] - E[k] for k in range(nb)]
    mx = wd[0]
    for v in wd[1:]:
        mx = W.ite(W.lt(mx, v), v, mx)
    for k in range(nb):

        def ok(b, c, r):
            v = W.at(x, b, 1)
            want = W.log(W.at(m.probs, 0, c, r, k)) - W.log(wd[k])
            low = W.log(1e-12) - W.log(mx)
            return W.implies(W.and_(W.le(E[k], v), W.lt(v, E[k + 1])),
                             W.same(W.at(out, b, 0, c, r), W.ite(W.lt(want, low), low, want)) if W.sym else
                             abs(W.at(out, b, 0, c, r) - max(want, low)) < 1e-3)
        W.check_all(f"bin{k}", (B, C, R), ok)
    W.check_all("outside", (B, C, R), lambda b, c, r: W.implies(
        W.or_(W.lt(W.at(x, b, 1), E[0]), W.le(E[nb], W.at(x, b, 1))), W.same(W.at(out, b, 0, c, r), -math.inf)))
    W.check_all("sum", (C, R), lambda c, r: W.eq(sum(W.at(m.probs, 0, c, r, k) for k in range(nb)), 1) if W.sym else
                abs(sum(W.at(m.probs, 0, c, r, k) for k in range(nb)) - 1) < 1e-5)


def trees(F):
    """every rooted labelled tree over F features, as parent lists"""
    for p in itertools.product(range(-1, F), repeat=F):
        if sum(v == -1 for v in p) == 1 and all(p[i] != i for i in range(F)):
            for i in range(F):
                j, n = i, 0
                while p[j] != -1 and n <= F:
                    j, n = p[j], n + 1
                if n > F:
                    break
            else:
                yield list(p)


def cltree(W, q, C, R, K, par, cpt):
    from spflow.modules.leaves.cltree import CLTree
    if W.sym:
        m = CLTree(Scope(q), out_channels=C, num_repetitions=R, K=K, parents=torch.tensor(par))
        m._parameters.pop("log_cpt", None)
        object.__setattr__(m, "log_cpt", cpt)
        return m
    return CLTree(Scope(q), out_channels=C, num_repetitions=R, K=K, parents=torch.tensor(par), log_cpt=cpt)


@harness(H, funcs=["CLTree.log_likelihood", "_compute_orders_from_parents"], sym_time=150)
def cltree_factorises(W):
    """the value is the product of the conditional tables along the tree, summed over the values of missing features"""
    F, K = W.choice("FK", [(2, 2), (2, 3), (3, 2)])
    par = W.choice("tree", list(trees(F)) if F == 2 else [[-1, 0, 0], [-1, 0, 1], [1, -1, 1], [2, 0, -1], [1, 2, -1], [2, 2, -1]])
    C, R = W.dim("C"), W.dim("R")
    cpt = W.tensor("cpt", (F, C, R, K, K))
    q = [3, 0, 1][:F]
    m = cltree(W, q, C, R, K, par, cpt)
    pats = list(itertools.product([None, *range(K)], repeat=F))
    for name, rows in (("observed", [p for p in pats if None not in p]), ("missing", pats)):
        x = torch.zeros(len(rows), 4)
        for b, p in enumerate(rows):
            for f in range(F):
                x[b, q[f]] = math.nan if p[f] is None else float(p[f])
        out = m.log_likelihood(x)
        W.check(name + "_shape", W.and_(W.eq(out.shape[0], len(rows)), W.eq(out.shape[1], F), W.eq(out.shape[2], C), W.eq(out.shape[3], R)))
        for b, p in enumerate(rows):

            def ok(c, r):
                t = 0
                for v in itertools.product(*[range(K) if u is None else [u] for u in p]):
                    s = 0
                    for f in range(F):
                        s = s + W.at(cpt, f, c, r, v[f], 0 if par[f] == -1 else v[par[f]])
                    t = t + W.exp(s)
                return W.eq(W.exp(W.at(out, b, 0, c, r)), t) if W.sym else abs(W.at(out, b, 0, c, r) - W.log(t)) < 1e-4 + 1e-4 * abs(W.log(t))
            W.check_all(f"{name}{b}", (C, R), ok)
        W.check_all(name + "_rest", (len(rows), F - 1, C, R), lambda b, f, c, r: W.eq(W.at(out, b, f + 1, c, r), 0))


@harness(H, funcs=["CLTree.maximum_likelihood_estimation", "CLTree._prepare_mle_inputs"], sym_time=120)
def cltree_estimation(W):
    """the fitted tables are the smoothed weighted frequencies: each column of each table sums to one"""
    K = W.choice("K", [2, 3])
    par = W.choice("tree", [[-1, 0], [1, -1], [2, 0, -1]])
    F = len(par)
    B, C, R = W.dim("B", 2), W.dim("C"), W.dim("R")
    q = [3, 0, 1][:F]
    x = W.tensor("x", (B, 4), "int", lo=0, hi=K)
    w = W.tensor("w", (B, 1, C, R), "pos")
    m = cltree(W, q, C, R, K, par, W.tensor("cpt", (F, C, R, K, K)))
    if W.sym:
        m._parameters["log_cpt"] = m.__dict__.pop("log_cpt")
    al = m.alpha
    m.maximum_likelihood_estimation(x if W.sym else x.float(), weights=w)
    ind = lambda b, f, v: W.ite(W.eq(W.at(x, b, q[f]), v), 1, 0)
    for f in range(F):
        for k in range(K):
            for p in range(K):
                def ok(c, r):
                    par_ok = (lambda b: 1) if par[f] == -1 else (lambda b: ind(b, par[f], p))
                    tot = W.sum(B, lambda b: W.at(w, b, 0, c, r))
                    cnt = lambda j: al * tot + B * W.sum(B, lambda b: W.at(w, b, 0, c, r) * par_ok(b) * ind(b, f, j))
                    num, den = cnt(k), sum(cnt(j) for j in range(K))
                    got = W.at(m.log_cpt, f, c, r, k, p)
                    if not W.sym:
                        return abs(math.exp(got) - num / den) < 1e-5
                    v = num / den
                    return W.eq(W.exp(got), W.ite(W.lt(v, 1e-12), 1e-12, v))
                W.check_all(f"table{f}_{k}_{p}", (C, R), ok)


def knots(W, n, nm, zero=True):
    """strictly increasing knots and a nonnegative density which vanishes at both ends"""
    a, w, y = W.tensor("start" + nm, (1,)), W.tensor("width" + nm, (n - 1,), "pos"), W.tensor("y" + nm, (n,), "unit")
    if W.sym:
        ws = [W.at(w, k) for k in range(n - 1)]
        xs = W.st.sym_tensor(lambda i: pickt(W, i, [sum(ws[:k], W.at(a, 0)) for k in range(n)]), (n,))
        ys = W.st.sym_tensor(lambda i: pickt(W, i, [W.tm.C(0) if k in (0, n - 1) and zero else W.at(y, k) for k in range(n)]), (n,))
    else:
        xs = torch.cat([a, a + torch.cumsum(w, 0)])
        ys = y.clone()
        if zero:
            ys[0] = ys[-1] = 0
    return xs, ys


@harness(H, funcs=["PiecewiseLinearDist.log_prob", "PiecewiseLinearDist._ensure_optimized_cache", "PiecewiseLinear.log_likelihood"], sym_time=120)
def piecewise_density(W):
    """between two knots the density is the linear interpolation of their values (never below the floor), outside zero up to the floor"""
    from spflow.modules.leaves import PiecewiseLinear
    from spflow.utils.domain import Domain
    F, C, R = W.choice("FCR", [(2, 1, 1), (1, 2, 2), (2, 2, 2)] if not W.sym else [(2, 1, 1), (1, 2, 2)])
    B = W.dim("B")
    n = {(r, c, f): (3, 4, 2)[(r + 2 * c + f) % 3] for r in range(R) for c in range(C) for f in range(F)}
    kn = {k: knots(W, v, "%d%d%d" % k) for k, v in n.items()}
    q = [3, 0][:F]
    m = PiecewiseLinear(Scope(q), out_channels=C, num_repetitions=R)
    m.xs = [[[[kn[r, c, f][0]] for f in range(F)] for c in range(C)] for r in range(R)]
    m.ys = [[[[kn[r, c, f][1]] for f in range(F)] for c in range(C)] for r in range(R)]
    m.domains, m.is_initialized = [Domain.continuous_inf_support() for _ in range(F)], True
    x = W.tensor("x", (B, 4))
    if not W.sym:
        for b in range(int(B)):
            for f in range(F):
                xs = kn[0, 0, f][0]
                x[b, q[f]] = xs[W.rng.randrange(len(xs))] if W.rng.random() < 0.4 else float(xs[0]) - 0.5 + W.rng.random() * (float(xs[-1] - xs[0]) + 1)
    out = m.log_likelihood(x)
    W.check("shape", W.and_(*[W.eq(a, b) for a, b in zip(out.shape, (B, 1, F, C, R))]))
    for (r, c, f), (xs, ys) in kn.items():
        X, Y = [[W.at(t, k) for k in range(n[r, c, f])] for t in (xs, ys)]
        tag = "%d%d%d" % (r, c, f)

        def same(b, want):
            got = W.at(out, b, 0, f, c, r)
            want = W.log(want + 1e-10)
            return W.same(got, W.ite(W.lt(want, -300), -300, want)) if W.sym else abs(got - want) < 1e-3 or abs(math.exp(got) - math.exp(want)) < 2e-4
        for k in range(len(X) - 1):
            W.check_all(f"piece{tag}_{k}", (B,), lambda b: W.implies(
                W.and_(W.lt(X[k], W.at(x, b, q[f])), W.le(W.at(x, b, q[f]), X[k + 1])),
                same(b, Y[k] + (Y[k + 1] - Y[k]) / (X[k + 1] - X[k]) * (W.at(x, b, q[f]) - X[k]))))
        W.check_all(f"outside{tag}", (B,), lambda b: W.implies(
            W.or_(W.lt(W.at(x, b, q[f]), X[0]), W.lt(X[-1], W.at(x, b, q[f]))), same(b, 0)))


def pl_dist(W, F, C, R, kinds):
    from spflow.modules.leaves import PiecewiseLinear
    from spflow.utils.domain import Domain
    r = W.rng
    doms = []
    for f in range(F):
        if kinds[f] == "c":
            doms.append(Domain.continuous_inf_support())
        else:
            v = sorted(r.sample([-3, -1, 0, 1, 2, 4, 7], r.randint(2, 4)))
            doms.append(Domain.discrete_bins([float(x) for x in v]))
    q = r.sample(range(5), F)
    m = PiecewiseLinear(Scope(q), out_channels=C, num_repetitions=R, alpha=r.choice([0.0, 0.0, 0.7]))
    n = r.choice([1, 2, 40])
    n = max(n, 4 * C)
    cols = []
    for f in range(F):
        cols.append(torch.tensor([r.choice(doms[f].values) for _ in range(n)]) if kinds[f] == "d" else
                    torch.tensor([r.choice([r.gauss(0, 2), r.gauss(5, .3)]) for _ in range(n)]))
    if r.random() < 0.15 and kinds[0] == "c":
        cols[0] = cols[0] * 0 + 1.5
    data = torch.stack(cols, 1)
    torch.manual_seed(r.randrange(10 ** 6))
    m.initialize(data, doms)
    return m, q, doms, data


@harness(H, funcs=["PiecewiseLinear.initialize", "PiecewiseLinear.log_likelihood", "get_bin_edges_torch"], sym=False, seeds=60)
def piecewise_fitted(W):
    """fitted to any data, every marginal density integrates (over values: sums) to one and vanishes outside the support"""
    F, C, R = W.dim("F", 1, 2), W.dim("C", 1, 2), W.dim("R", 1, 2)
    kinds = [W.choice(f"kind{f}", ["c", "d"]) for f in range(2)][:F]
    m, q, doms, data = pl_dist(W, F, C, R, kinds)

    def dens(f, vals):
        x = torch.full((len(vals), 6), math.nan)
        x[:, q[f]] = vals
        out = m.log_likelihood(x)
        W.require(tuple(out.shape) == (len(vals), 1, F, C, R))
        return out[:, 0, f].exp().double()
    for f in range(F):
        if kinds[f] == "d":
            v = torch.tensor(doms[f].values).double()
            p = dens(f, v)
            W.check(f"sum{f}", bool(torch.allclose(p.sum(0), torch.ones(C, R).double(), atol=1e-4)))
            if C == 1 and m.alpha == 0:
                freq = torch.stack([(data[:, f] == x).double().mean() for x in v])
                W.check(f"frequency{f}", bool(torch.allclose(p, freq[:, None, None].expand_as(p), atol=1e-4)))
            gap = [a + 0.5 for a in (float(v[0]) - 1.5, float(v[-1]) + 1.0)]
            W.check(f"outside{f}", bool((dens(f, torch.tensor(gap)) < 1e-9).all()))
        else:
            ks = torch.unique(torch.cat([m.xs[r][c][f][0] for r in range(R) for c in range(C)])).double()
            lo, hi = float(ks[0]), float(ks[-1])
            W.check(f"covers{f}", float(data[:, f].min()) >= lo - 1e-4 and float(data[:, f].max()) <= hi + 1e-4)
            g = torch.cat([ks[:-1] + (ks[1:] - ks[:-1]) * t for t in [i / 16 for i in range(16)]] + [ks[-1:]]).sort().values.float()
            p = dens(f, g)
            W.check(f"integral{f}", bool((torch.trapezoid(p.double(), g.double(), dim=0) - 1).abs().max() < 2e-2))
            W.check(f"outside{f}", bool((dens(f, torch.tensor([lo - .1, hi + .1, lo - 50])) < 1e-9).all()))


@harness(H, funcs=["PiecewiseLinear._sample", "PiecewiseLinearDist.sample"], sym=False, seeds=16, conc_time=40)
def piecewise_law(W):
    """sampled values follow the density the leaf evaluates"""
    from spflow.utils.sampling_context import SamplingContext
    C, R = W.dim("C", 1, 2), W.dim("R", 1, 2)
    kind = W.choice("kind", ["c", "d"])
    m, q, doms, _ = pl_dist(W, 1, C, R, [kind])
    N = 4000
    c, r = W.rng.randrange(C), W.rng.randrange(R)
    x = torch.full((N, 6), math.nan)
    ctx = SamplingContext(channel_index=torch.full((N, 6), c), mask=torch.ones(N, 6, dtype=torch.bool),
                          repetition_index=torch.full((N,), r))
    s = m._sample(data=x, sampling_ctx=ctx, cache=__import__("spflow.utils.cache", fromlist=["Cache"]).Cache())[:, q[0]]
    W.require(bool(torch.isfinite(s).all()))

    def dens(v):
        y = torch.full((len(v), 6), math.nan)
        y[:, q[0]] = v
        return m.log_likelihood(y)[:, 0, 0, c, r].exp().double()
    if kind == "d":
        v = torch.tensor(doms[0].values).double()
        W.check("values", bool(torch.isin(s, v).all()))
        freq = torch.stack([(s == a).double().mean() for a in v])
        W.check("frequencies", bool((freq - dens(v)).abs().max() < 4.5 / math.sqrt(4 * N) + 1e-3))
        return
    ks = m.xs[r][c][0][0].double()
    g = torch.cat([ks[:-1] + (ks[1:] - ks[:-1]) * t for t in [i / 32 for i in range(32)]] + [ks[-1:]]).sort().values
    p = dens(g.float())
    cdf = torch.cat([torch.zeros(1).double(), torch.cumsum((p[1:] + p[:-1]) / 2 * (g[1:] - g[:-1]), 0)])
    emp = torch.searchsorted(s.double().sort().values, g, right=True).double() / N
    W.check("distribution", bool((emp - cdf).abs().max() < 2.4 / math.sqrt(N) + 5e-3))


@harness(H, funcs=["CLTree.__init__", "CLTree.maximum_likelihood_estimation", "CLTree.log_likelihood", "_prim_maximum_spanning_tree"], sym=False, seeds=60)
def cltree_fitted(W):
    """a tree leaf (default tables or fitted to any weighted data) sums to one over all states, and the learned tree has maximal mutual information"""
    from spflow.modules.leaves.cltree import CLTree
    r = W.rng
    F, K, C, R = W.dim("F", 2, 4), W.dim("K", 2, 3), W.dim("C", 1, 2), W.dim("R", 1, 2)
    q = r.sample(range(6), F)
    par = torch.tensor(r.choice(list(trees(F)))) if r.random() < 0.4 else None
    torch.manual_seed(r.randrange(10 ** 6))
    m = CLTree(Scope(q), out_channels=C, num_repetitions=R, K=K, parents=par, alpha=r.choice([0.01, 1.0]))
    st = torch.tensor(list(itertools.product(range(K), repeat=F))).to(torch.get_default_dtype())
    x = torch.zeros(len(st), 6)
    x[:, q] = st

    def total():
        out = m.log_likelihood(x)
        return out.sum(dim=1).double().exp().sum(0)
    if par is not None:
        W.check("initial", bool((total() - 1).abs().max() < 1e-4))
    n = r.choice([2, 3, 15, 60])
    d = torch.zeros(n, 6)
    d[:, q[0]] = torch.randint(0, K, (n,)).to(d.dtype)
    for f in range(1, F):
        src = d[:, q[r.randrange(f)]]
        d[:, q[f]] = torch.where(torch.rand(n) < r.choice([.1, .9]), src, torch.randint(0, K, (n,)).to(d.dtype))
    w = r.choice([None, torch.rand(n, F, C, R) * 0 + torch.rand(n, 1, C, R) + 0.05])
    m.maximum_likelihood_estimation(d, weights=w)
    W.check("fitted", bool((total() - 1).abs().max() < 1e-4))
    p = m.parents.tolist()
    W.check("tree", p in list(trees(F)))
    if par is not None:
        W.check("kept", p == par.tolist())
    elif w is None:
        a = m.alpha
        j = lambda f, g: torch.stack([torch.stack([((d[:, q[f]] == u) & (d[:, q[g]] == v)).double().mean() for v in range(K)]) for u in range(K)])

        def mi(f, g):
            t = j(f, g)
            t = (t + a / n / K ** 2 * 0)
            o = t.sum(1, keepdim=True) * t.sum(0, keepdim=True)
            return float((t * torch.where(t > 0, (t / o).log(), torch.zeros_like(t))).nan_to_num().sum())
        if a <= 0.01 and n == 60:
            score = lambda pp: sum(mi(f, pp[f]) for f in range(F) if pp[f] != -1)
            W.check("maximal", score(p) > max(score(t) for t in trees(F)) - 0.02)


@harness(H, funcs=["Histogram.__init__", "Histogram.probs.setter", "Histogram.maximum_likelihood_estimation", "HistogramDist.log_prob"], sym=False, seeds=60)
def histogram_fitted(W):
    """bin probabilities times widths integrate to one however the leaf was parameterised; malformed bins are rejected"""
    from spflow.modules.leaves import Histogram
    from spflow.exceptions import InvalidParameterError
    r = W.rng
    nb, C, R = W.dim("nb", 1, 4), W.dim("C"), W.dim("R")
    e = torch.tensor(sorted(r.sample([-3.0, -1.5, -1.0, 0.0, 0.25, 2.0, 5.0], nb + 1)))
    how = W.choice("how", ["random", "probs", "logits", "setter", "fit", "weighted"])
    torch.manual_seed(r.randrange(10 ** 6))
    kw = {}
    if how == "probs":
        kw["probs"] = torch.rand(1, C, R, nb).add(1e-3)
        kw["probs"] /= kw["probs"].sum(-1, keepdim=True)
    if how == "logits":
        kw["logits"] = torch.randn(1, C, R, nb) * 3
    m = Histogram(Scope([2]), bin_edges=e, out_channels=C, num_repetitions=R, **kw)
    if how == "setter":
        m.probs = torch.rand(1, C, R, nb) * r.choice([1, 7]) + 1e-3
    if how in ("fit", "weighted"):
        n = r.choice([1, 5, 30])
        d = torch.zeros(n, 4)
        d[:, 2] = e[0] + torch.rand(n) * (e[-1] - e[0]) * 0.999
        w = torch.rand(n, 1, C, R) + 0.1 if how == "weighted" else None
        m.maximum_likelihood_estimation(d, weights=w)
        W.check("weights", bool(torch.isfinite(m.logits).all()))
        wt = torch.ones(n, C, R) if w is None else w[:, 0]
        k = torch.bucketize(d[:, 2].contiguous(), e, right=True) - 1
        fr = torch.stack([(wt * (k == b)[:, None, None]).sum(0) for b in range(nb)], -1) / wt.sum(0)[..., None]
        W.check("frequencies", bool((m.probs[0] - fr).abs().max() < 1e-4))
    mids = (e[1:] + e[:-1]) / 2
    eps = (e[1:] - e[:-1]) * 1e-3
    for nm, pts in (("mid", mids), ("left", e[:-1]), ("right", e[1:] - eps)):
        x = torch.zeros(nb, 4)
        x[:, 2] = pts
        out = m.log_likelihood(x)
        tot = (out[:, 0].double().exp() * (e[1:] - e[:-1])[:, None, None].double()).sum(0)
        W.check("integral_" + nm, bool((tot - 1).abs().max() < 1e-4))
    x = torch.zeros(3, 4)
    x[:, 2] = torch.tensor([float(e[0]) - 1e-3, float(e[-1]), float(e[-1]) + 7])
    W.check("outside", bool((m.log_likelihood(x) == -math.inf).all()))
    for bad in ([1.0], [1.0, 1.0], [2.0, 1.0], [0.0, math.inf], [0.0, math.nan, 1.0]):
        W.raises("bad_edges", (InvalidParameterError, ValueError), lambda: Histogram(Scope([2]), bin_edges=bad))
