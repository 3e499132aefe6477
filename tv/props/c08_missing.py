"""C08: missing values marginalise exactly.  (1) every leaf contributes log 1 for a missing value and is otherwise unaffected;
(2) every layer is linear (in likelihood) in each of its independent inputs, so (1) is lifted to every circuit by induction;
(3) whole circuits are enumerated as a bounded end-to-end instance of (1)+(2)."""
import itertools
import math
import torch
from ..runner import harness
from ..lib import *
from . import c07_leaves as L7
H = []


# ---------------------------------------------------------------- leaves
def _leaf(fam):
    def run(W):
        B, C, R = (W.dim(n) for n in ("B", "C", "R"))
        q = W.choice("query", [[0], [3, 1], [1, 3, 2]])
        leaf, _ = L7.mkleaf(W, fam, q, C, R, odds=True)
        x, miss, val = L7.leaf_data(W, fam, B, 4, nan=True)
        full = torch.where(torch.isnan(x), torch.full_like(x, 1.0), x)      # every family has 1 in its support
        before = x.clone()
        out = leaf.log_likelihood(x)
        ref = leaf.log_likelihood(full)
        F = len(q)
        W.check_eq("missing", out, (B, F, C, R), lambda b, f, c, r: W.ite(
            W.pick(f, F, lambda j: W.ite(miss(b, q[j]), 1, 0)) == 1 if not W.sym else W.eq(W.pick(f, F, lambda j: W.ite(miss(b, q[j]), 1, 0)), 1),
            0, lambda: W.at(ref, b, f, c, r)))
        W.check_eq("data_untouched", torch.isnan(x), (B, 4), lambda b, j: miss(b, j))
    run.__name__ = f"leaf_{fam}"
    return run


for _f in L7.FAM:
    if _f != "uniform":
        harness(H, funcs=["LeafModule.log_likelihood", "LeafModule._supported_value_for_imputation", L7.FAM[_f][0] + "._supported_value"],
                seeds=30)(_leaf(_f))


@harness(H, funcs=["LeafModule.log_likelihood", "Uniform._supported_value"], seeds=40)
def leaf_uniform(W):
    from spflow.modules.leaves import Uniform
    B, C, R = (W.dim(n) for n in ("B", "C", "R"))
    q = W.choice("query", [[0], [3, 1]])
    F = len(q)
    x, miss, val = W.data("x", (B, 4), "real")
    lo, w = W.tensor("p.low", (F, C, R)), W.tensor("p.width", (F, C, R), "pos")
    leaf = Uniform(Scope(q), low=lo, high=lo + w, validate_args=False)
    out = leaf.log_likelihood(x)
    ref = leaf.log_likelihood(torch.where(torch.isnan(x), torch.zeros_like(x), x))
    m = lambda b, f: W.eq(W.pick(f, F, lambda j: W.ite(miss(b, q[j]), 1, 0)), 1)
    W.check_eq("missing", out, (B, F, C, R), lambda b, f, c, r: W.ite(m(b, f), 0, lambda: W.at(ref, b, f, c, r)))


@harness(H, funcs=["Uniform.log_likelihood", "LeafModule.log_likelihood"], sym=False, seeds=60)
def leaf_uniform_validated(W):
    """argument validation must not depend on which other values are missing."""
    from spflow.modules.leaves import Uniform
    F, C, R = W.dim("F"), W.dim("C"), W.dim("R")
    lo = W.tensor("lo", (F, 1, 1)).expand(F, C, R).contiguous()
    w = W.tensor("w", (F, C, R), "pos")
    leaf = Uniform(Scope(list(range(F))), low=lo, high=lo + w)
    u = W.tensor("u", (4, F), "unit")
    x = lo[:, 0, 0] + u * w.amin(dim=(1, 2))
    ref = leaf.log_likelihood(x)
    m = W.tensor("m", (4, F), "bool")
    y = x.clone()
    y[m] = math.nan
    out = leaf.log_likelihood(y)
    W.check_eq("missing", out, (4, F, C, R), lambda b, f, c, r: 0.0 if m[b, f] else W.at(ref, b, f, c, r))


@harness(H, funcs=["LeafModule.log_likelihood", "LeafModule.conditional_distribution"], seeds=30)
def leaf_conditional(W):
    from spflow.modules.leaves import Normal
    B, C, R = (W.dim(n) for n in ("B", "C", "R"))
    q, e = W.choice("qe", [([0], [1]), ([2, 0], [3])])
    F = len(q)
    a = W.tensor("a", (F, C, R))

    def fn(ev):
        t = ev.sum(1).reshape(-1, 1, 1, 1)
        return {"loc": t * a.unsqueeze(0), "scale": 1 + 0 * t * a.unsqueeze(0)}
    leaf = Normal(Scope(q, evidence=e), out_channels=C, num_repetitions=R, parameter_fn=fn)
    y, miss, _ = W.data("y", (B, F), "real")
    z = W.tensor("z", (B, 4))
    x = z.clone()
    x[:, q] = y
    out = leaf.log_likelihood(x)
    full = z.clone()
    full[:, q] = torch.where(torch.isnan(y), torch.zeros_like(y), y)
    ref = leaf.log_likelihood(full)
    W.check_eq("missing", out, (B, F, C, R), lambda b, f, c, r: W.ite(miss(b, f), 0, lambda: W.at(ref, b, f, c, r)))


@harness(H, funcs=["Histogram.log_likelihood", "HistogramDist.log_prob"], sym=False, seeds=60)
def leaf_histogram(W):
    from spflow.modules.leaves import Histogram
    C, R, K = W.dim("C"), W.dim("R"), W.dim("K", 2, 5)
    edges = torch.cumsum(torch.cat([torch.tensor([W.rng.uniform(-2, 2)]), W.tensor("w", (K,), "pos")]), 0)
    lg = W.tensor("l", (1, C, R, K))
    leaf = Histogram(Scope([1]), bin_edges=edges, logits=lg)
    x = torch.tensor([[0.0, W.rng.uniform(float(edges[0]) - 1, float(edges[-1]) + 1)] for _ in range(4)])
    ref = leaf.log_likelihood(x)
    m = [W.rng.random() < 0.5 for _ in range(4)]
    y = x.clone()
    y[torch.tensor(m), 1] = math.nan
    out = leaf.log_likelihood(y)
    W.check_eq("missing", out, (4, 1, C, R), lambda b, f, c, r: 0.0 if m[b] else W.at(ref, b, f, c, r))


@harness(H, funcs=["PiecewiseLinear.log_likelihood"], sym=False, seeds=30)
def leaf_piecewise(W):
    from spflow.modules.leaves import PiecewiseLinear
    from spflow.utils.domain import Domain
    F, C = W.dim("F"), W.dim("C", 1, 3)
    torch.manual_seed(W.rng.randrange(10 ** 6))
    leaf = PiecewiseLinear(Scope(list(range(F))), out_channels=C)
    d = torch.rand(60, F) * 4
    leaf.initialize(d, [Domain.continuous_inf_support() if False else Domain.continuous_range(0.0, 4.0) for _ in range(F)])
    x = torch.rand(4, F) * 4
    ref = leaf.log_likelihood(x)
    m = torch.rand(4, F) < 0.5
    y = x.clone()
    y[m] = math.nan
    out = leaf.log_likelihood(y)
    me = m
    while me.dim() < ref.dim():
        me = me.unsqueeze(-1)
    if ref.dim() == 5:      # (n, 1, f, c, r)
        me = m[:, None, :, None, None]
    me = me.expand(ref.shape)
    W.check_eq("missing", out, tuple(ref.shape), lambda *i: 0.0 if me[i] else W.at(ref, *i))


@harness(H, funcs=["Histogram.log_likelihood", "HistogramDist.log_prob", "LeafModule.log_likelihood"])
def histogram_missing(W):
    """a missing entry contributes one, every other entry what it contributes without missing entries"""
    from .c16_density import edges_of
    from spflow.modules.leaves import Histogram
    nb = W.choice("nb", [1, 2, 3])
    B, C, R = W.dim("B"), W.dim("C"), W.dim("R")
    e, _ = edges_of(W, nb)
    m = Histogram(Scope([1]), bin_edges=[float(i) for i in range(nb + 1)], out_channels=C, num_repetitions=R)
    m.bin_edges = e
    set_params(W, m)
    x = W.tensor("x", (B, 3))
    miss = W.tensor("miss", (B, 3), "bool")
    full = m.log_likelihood(x.clone())
    out = m.log_likelihood(torch.where(miss, torch.full_like(x, math.nan), x))
    W.check_all("missing", (B, C, R), lambda b, c, r: W.same(W.at(out, b, 0, c, r), W.ite(W.at(miss, b, 1), 0, W.at(full, b, 0, c, r))))


@harness(H, funcs=["PiecewiseLinear.log_likelihood", "PiecewiseLinearDist.log_prob"])
def piecewise_missing(W):
    from .c16_density import knots
    from spflow.modules.leaves import PiecewiseLinear
    from spflow.utils.domain import Domain
    F, C, R = W.choice("FCR", [(2, 1, 1), (1, 2, 2)])
    B = W.dim("B")
    kn = {(r, c, f): knots(W, (3, 4, 2)[(r + 2 * c + f) % 3], "%d%d%d" % (r, c, f)) for r in range(R) for c in range(C) for f in range(F)}
    q = [3, 0][:F]
    m = PiecewiseLinear(Scope(q), out_channels=C, num_repetitions=R)
    m.xs = [[[[kn[r, c, f][0]] for f in range(F)] for c in range(C)] for r in range(R)]
    m.ys = [[[[kn[r, c, f][1]] for f in range(F)] for c in range(C)] for r in range(R)]
    m.domains, m.is_initialized = [Domain.continuous_inf_support() for _ in range(F)], True
    x = W.tensor("x", (B, 4))
    miss = W.tensor("miss", (B, 4), "bool")
    full = m.log_likelihood(x.clone())
    out = m.log_likelihood(torch.where(miss, torch.full_like(x, math.nan), x))
    for f in range(F):
        for c, r in itertools.product(range(C), range(R)):
            W.check_all(f"missing{f}{c}{r}", (B,), lambda b: W.implies(W.at(miss, b, q[f]), W.same(W.at(out, b, 0, f, c, r), 0)))
            if W.sym:
                W.check_eq(f"kept{f}{c}{r}", out[:, 0, f, c, r], (B,), lambda b: W.ite(W.at(miss, b, q[f]), W.at(out, b, 0, f, c, r), W.at(full, b, 0, f, c, r)))
            else:
                W.check_all(f"kept{f}{c}{r}", (B,), lambda b: W.implies(W.not_(W.at(miss, b, q[f])), W.same(W.at(out, b, 0, f, c, r), W.at(full, b, 0, f, c, r))))


from . import c16_density  # noqa: E402
for _h in c16_density.H:
    if _h.name == "cltree_factorises":      # includes the sum over the values of missing features
        H.append(_h)


@harness(H, funcs=["CLTree.log_likelihood"], sym=False, seeds=80)
def leaf_cltree(W):
    """message passing equals the sum over all completions of the fully observed tree likelihood."""
    from spflow.modules.leaves.cltree import CLTree
    r = W.rng
    F, C, R, K = W.dim("F", 2, 5), W.dim("C"), W.dim("R"), W.dim("K", 2, 4)
    order = r.sample(range(F), F)
    par = [-1] * F
    for i in range(1, F):
        par[order[i]] = order[r.randrange(i)]
    q = r.sample(range(F + 1), F)
    lc = W.tensor("cpt", (F, C, R, K, K)).log_softmax(-2)
    root = par.index(-1)
    lc[root] = lc[root, :, :, :, :1].expand(C, R, K, K)
    leaf = CLTree(Scope(q), out_channels=C, num_repetitions=R, K=K, parents=torch.tensor(par), log_cpt=lc)
    x = torch.zeros(3, F + 1)
    for b in range(3):
        for f in range(F):
            x[b, q[f]] = r.choice([math.nan, float(r.randrange(K))])
    out = leaf.log_likelihood(x)
    for b in range(3):
        free = [f for f in range(F) if math.isnan(x[b, q[f]])]
        rows = []
        for vs in itertools.product(range(K), repeat=len(free)):
            y = x[b].clone()
            for f, v in zip(free, vs):
                y[q[f]] = v
            rows.append(y)
        full = leaf.log_likelihood(torch.stack(rows)).sum(1)
        W.check_eq("sum_over_completions", out[b].sum(0), (C, R), lambda c, k: W.at(torch.logsumexp(full, 0), c, k))
    full = torch.tensor([[0.0] * (F + 1) for _ in range(K ** F)])
    full[:, q] = torch.tensor(list(itertools.product(range(K), repeat=F)), dtype=full.dtype)
    W.check_eq("mass", torch.logsumexp(leaf.log_likelihood(full).sum(1), 0), (C, R), lambda *i: 0.0)


# ---------------------------------------------------------------- layers are linear in each independent input
def _lin(W, mod, var, shape_tail, K, out_shape, fixed=(), name="linear"):
    """var: stub whose input varies over K completions; fixed: [(stub, tail)] constant factors.
    out(log sum_k e^l_k) = log sum_k e^out(l_k)."""
    lk = W.tensor("lk", (K,) + tuple(shape_tail))
    x = W.tensor("x", (K, 1))
    var._ll = lk
    one = []
    for s, tail in fixed:
        t = W.tensor("fix%d" % len(one), (1,) + tuple(tail))
        one.append(t)
        s._ll = t.expand((K,) + tuple(tail))
    many = mod.log_likelihood(x)
    var._ll = torch.logsumexp(lk, dim=0, keepdim=True)
    for (s, tail), t in zip(fixed, one):
        s._ll = t
    single = mod.log_likelihood(W.tensor("x1", (1, 1)))
    W.check_eq(name, single, (1,) + tuple(out_shape), lambda b, *i: W.log(W.sum(K, lambda k: W.exp(W.at(many, k, *i)))))


@harness(H, funcs=["Sum.log_likelihood"])
def sum_linear(W):
    from spflow.modules.sums import Sum
    K, F, CI, CO, R = (W.dim(n) for n in ("K", "F", "CI", "CO", "R"))
    s = Stub(None, (F, CI, R))
    m = Sum(s, out_channels=CO, num_repetitions=R)
    set_params(W, m)
    _lin(W, m, s, (F, CI, R), K, (F, CO, R))


@harness(H, funcs=["ElementwiseSum.log_likelihood"])
def esum_linear(W):
    """all inputs of a mixture vary together (they have the same scope)."""
    from spflow.modules.sums import ElementwiseSum
    n = W.dim("n", 1, 4)
    K, F, C, CO, R = (W.dim(k) for k in ("K", "F", "C", "CO", "R"))
    ss = [Stub(None, (F, C, R)) for _ in range(n)]
    m = ElementwiseSum(ss, out_channels=CO, num_repetitions=R)
    set_params(W, m)
    ls = [W.tensor(f"l{i}", (K, F, C, R)) for i in range(n)]
    for s, l in zip(ss, ls):
        s._ll = l
    many = m.log_likelihood(W.tensor("x", (K, 1)))
    for s, l in zip(ss, ls):
        s._ll = torch.logsumexp(l, dim=0, keepdim=True)
    single = m.log_likelihood(W.tensor("x1", (1, 1)))
    W.check_eq("linear", single, (1, F, C * CO, R), lambda b, f, c, r: W.log(W.sum(K, lambda k: W.exp(W.at(many, k, f, c, r)))))


@harness(H, funcs=["RepetitionMixingLayer.log_likelihood"])
def repmix_linear(W):
    from spflow.modules.sums.repetition_mixing_layer import RepetitionMixingLayer
    K, F, C, R = (W.dim(n) for n in ("K", "F", "C", "R"))
    s = Stub(None, (F, C, R))
    m = RepetitionMixingLayer(s, out_channels=C, num_repetitions=R)
    set_params(W, m)
    _lin(W, m, s, (F, C, R), K, (F, C, 1))


@harness(H, funcs=["Product.log_likelihood", "ElementwiseProduct.log_likelihood", "OuterProduct.log_likelihood"])
def product_linear(W):
    from spflow.modules.products import ElementwiseProduct, OuterProduct
    kind = W.choice("kind", ["elementwise", "outer"])
    K, F, C, D, R = (W.dim(n) for n in ("K", "F", "C", "D", "R"))
    if kind == "elementwise":
        D = C
    which = W.choice("which", [0, 1])
    a, b = Stub(None, (F, C, R), Scope([0])), Stub(None, (F, D, R), Scope([1]))
    m = (ElementwiseProduct if kind == "elementwise" else OuterProduct)([a, b])
    v, f = (a, b) if which == 0 else (b, a)
    tv, tf = ((F, C, R), (F, D, R)) if which == 0 else ((F, D, R), (F, C, R))
    _lin(W, m, v, tv, K, (F, C if kind == "elementwise" else C * D, R), [(f, tf)])


@harness(H, funcs=["EinsumLayer.log_likelihood", "LinsumLayer.log_likelihood"])
def einsum_linear(W):
    from spflow.modules.einsum import EinsumLayer, LinsumLayer
    kind = W.choice("kind", ["einsum", "linsum"])
    which = W.choice("which", [0, 1])
    K, F, CO, R = (W.dim(n) for n in ("K", "F", "CO", "R"))
    C, D = W.dim("C"), W.dim("D")
    if kind == "linsum":
        D = C
    a, b = Stub(None, (F, C, R), Scope([0])), Stub(None, (F, D, R), Scope([1]))
    m = (EinsumLayer if kind == "einsum" else LinsumLayer)([a, b], out_channels=CO, num_repetitions=R)
    set_params(W, m)
    v, f = (a, b) if which == 0 else (b, a)
    tv, tf = ((F, C, R), (F, D, R)) if which == 0 else ((F, D, R), (F, C, R))
    _lin(W, m, v, tv, K, (F, CO, R), [(f, tf)])


# ---------------------------------------------------------------- whole circuits, end to end
@harness(H, funcs=["*.log_likelihood (all layers, composed)"], sym=False, seeds=150, conc_time=90)
def circuit_missing(W):
    from ..gen import rand_circuit, states, domain, NoCircuit
    from .. import gen
    try:
        m, N = rand_circuit(W, gaps=W.rng.random() < 0.3)
    except NoCircuit:
        raise_skip(W)
    r = W.rng
    dom = m._dom
    p = r.choice([0.2, 0.5, 1.0])
    rows = []
    for _ in range(3):
        rows.append([math.nan if v not in dom or r.random() < p else r.choice(domain(dom[v])) for v in range(N)])
    x = torch.tensor(rows)
    out = m.log_likelihood(x)
    fs = m.feature_to_scope
    for b in range(3):
        fixed = {v: rows[b][v] for v in dom if not math.isnan(rows[b][v])}
        st = states(dom, N, fixed)
        full = m.log_likelihood(st)
        # a feature only sums over the variables in its own scope: the others contribute a factor |domain| each
        for f in range(out.shape[1]):
            for k in range(out.shape[3]):
                sc = set(fs[f, k if fs.shape[1] > 1 else 0].query)
                extra = sum(math.log(len(domain(dom[v]))) for v in dom if v not in sc and v not in fixed)
                want = torch.logsumexp(full[:, f, :, k], 0) - extra
                W.check_eq("sum_over_completions", out[b, f, :, k], (out.shape[2],), lambda c: W.at(want, c))


def raise_skip(W):
    from ..world import Skip
    raise Skip()
