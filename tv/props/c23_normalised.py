"""C23: every circuit built from the provided layers is a normalised distribution.

Induction over the circuit.  Two contracts per layer, for arbitrary parameters:
  unit_*  : if every child answers 0 (its variables are summed out) the layer answers 0
  mass_*  : if one child (factor) is normalised over its states while the other factors are held fixed, summing the layer's
            likelihood over these states gives the layer's likelihood with that child summed out.
Summing out one factor after the other and then applying unit_* yields total mass one.  The leaf case is the law of the leaves (C11)."""
import math
import torch
from ..runner import harness
from ..lib import *
from ..layers import LIKE as LAYERS, LIKE_FUNCS as FUNCS
H = []

LIT = {"factorize": [{"F": 4, "C": 2, "R": 2}]}


def layer_unit(name):
    def h(W):
        B = W.dim("B")

        def mk(n, F, C, R, sc):
            return Stub(torch.zeros(B, F, C, R), (F, C, R), sc)
        m, sh = LAYERS[name](W, mk)
        set_params(W, m)
        out = m.log_likelihood(W.tensor("x", (B, 64)))
        W.check_eq("unit", out, (B, *sh), lambda *i: 0)
    h.__name__ = "unit_" + name
    h.__doc__ = "children that are summed out (log-likelihood 0 everywhere) leave a layer output of 0, whatever its parameters"
    return h


for _n in LAYERS:
    harness(H, funcs=[FUNCS[_n] + ".log_likelihood"], seeds=25)(layer_unit(_n))


def normal_ll(W, name, K, tail):
    """log-likelihoods of a child over its K states, normalised for every feature, channel, repetition"""
    u = W.tensor(name, (K,) + tuple(tail), "pos")
    return (u / u.sum(0, keepdim=True)).log()


def mass_mixture(name):
    def h(W):
        K = W.dim("K")

        def mk(n, F, C, R, sc):
            return Stub(normal_ll(W, "u" + n, K, (F, C, R)), (F, C, R), sc)
        m, sh = LAYERS[name](W, mk)
        set_params(W, m)
        out = m.log_likelihood(W.tensor("x", (K, 64)))
        W.check_eq("mass", out.exp().sum(0), sh, lambda *i: 1)
    h.__name__ = "mass_" + name
    h.__doc__ = "children over the same variables, each of total mass one: every output channel has total mass one"
    return h


for _n in ("sum", "esum", "rep", "cat2", "sumconv", "sumconv_small"):
    harness(H, funcs=[FUNCS[_n] + ".log_likelihood"], seeds=25)(mass_mixture(_n))


def mass_factor(name):
    def h(W):
        K = W.dim("K")
        which = W.choice("which", ["a", "b"])
        kids = {}

        def mk(n, F, C, R, sc):
            k = Stub(None, (F, C, R), sc)
            kids[n] = k
            if n == which:
                k.var = W.tensor("l", (K, F, C, R))     # any log-masses; their sum is 0 for a normalised child
                k.unit = torch.logsumexp(k.var, dim=0, keepdim=True)
            else:
                t = W.tensor("fix" + n, (1, F, C, R))
                k.var, k.unit = t.expand((K, F, C, R)), t
            return k
        m, sh = LAYERS[name](W, mk)
        set_params(W, m)
        for k in kids.values():
            k._ll = k.var
        many = m.log_likelihood(W.tensor("x", (K, 64)))
        for k in kids.values():
            k._ll = k.unit
        one = m.log_likelihood(W.tensor("x1", (1, 64)))
        W.check_eq("summed_out", one, (1, *sh), lambda b, *i: W.log(W.sum(K, lambda k: W.exp(W.at(many, k, *i)))))
    h.__name__ = "mass_" + name
    h.__doc__ = "one of two factors varies over its states, the other is fixed: the sum of the likelihoods is the likelihood with the factor summed out"
    return h


for _n in ("eprod", "oprod", "einsum", "linsum"):
    harness(H, funcs=[FUNCS[_n] + ".log_likelihood"], seeds=25)(mass_factor(_n))


@harness(H, funcs=["Product.log_likelihood"])
def mass_product(W):
    """one feature of a product's child is normalised, the others are fixed"""
    from spflow.modules.products import Product
    K, F0, F1, C, R = (W.dim(n) for n in ("K", "F0", "F1", "C", "R"))
    a, z, b = W.tensor("a", (1, F0, C, R)), normal_ll(W, "u", K, (1, C, R)), W.tensor("b", (1, F1, C, R))
    s = Stub(torch.cat([a.expand(K, F0, C, R), z, b.expand(K, F1, C, R)], 1), (F0 + 1 + F1, C, R))
    m = Product(s)
    many = m.log_likelihood(W.tensor("x", (K, 64)))
    s._ll = torch.cat([a, torch.zeros(1, 1, C, R), b], 1)
    one = m.log_likelihood(W.tensor("x1", (1, 64)))
    W.check_eq("summed_out", one, (1, 1, C, R), lambda b, *i: W.log(W.sum(K, lambda k: W.exp(W.at(many, k, *i)))))


def group(W, x, y, pred):
    F = x.shape[1]
    return torch.where(pred(torch.arange(F)).view(1, -1, 1, 1), x, y)


@harness(H, funcs=["ElementwiseProduct.log_likelihood", "SplitConsecutive.log_likelihood", "SplitInterleaved.log_likelihood"])
def mass_eprod_split(W):
    """the features of one split of a split child vary over their states, the other splits are fixed"""
    from spflow.modules.products import ElementwiseProduct
    from spflow.modules.ops import SplitConsecutive, SplitInterleaved
    K, Q, C, R = (W.dim(n) for n in ("K", "Q", "C", "R"))
    k = W.choice("k", [2, 3])
    S = W.choice("split", [SplitConsecutive, SplitInterleaved])
    j = W.choice("j", list(range(k)))
    F = Q * k
    l, t = W.tensor("l", (K, F, C, R)), W.tensor("t", (1, F, C, R))
    pred = (lambda f: f // Q == j) if S is SplitConsecutive else (lambda f: f % k == j)
    s = Stub(group(W, l, t, pred), (F, C, R), Scope(list(range(64))))
    m = ElementwiseProduct(S(s, num_splits=k), num_splits=k)
    many = m.log_likelihood(W.tensor("x", (K, 64)))
    s._ll = group(W, torch.logsumexp(l, 0, keepdim=True), t, pred)
    one = m.log_likelihood(W.tensor("x1", (1, 64)))
    W.check_eq("summed_out", one, (1, Q, C, R), lambda b, *i: W.log(W.sum(K, lambda n: W.exp(W.at(many, n, *i)))))


@harness(H, funcs=["EinsumLayer.log_likelihood", "LinsumLayer.log_likelihood"])
def mass_einsum_split(W):
    """single-input layers: the features of one half of the split vary over their states, the other half is fixed"""
    from spflow.modules.einsum import EinsumLayer, LinsumLayer
    from spflow.modules.ops.split import SplitMode
    K, Q, CO, R = (W.dim(n) for n in ("K", "Q", "CO", "R"))
    C = W.dim("C", 1, 3)
    L = W.choice("layer", [EinsumLayer, LinsumLayer])
    j = W.choice("j", [0, 1])
    l, t = W.tensor("l", (K, 2 * Q, C, R)), W.tensor("t", (1, 2 * Q, C, R))
    pred = lambda f: f % 2 == j
    s = Stub(group(W, l, t, pred), (2 * Q, C, R), Scope(list(range(64))))
    m = L(s, out_channels=CO, split_mode=SplitMode.interleaved(num_splits=2))
    set_params(W, m)
    many = m.log_likelihood(W.tensor("x", (K, 64)))
    s._ll = group(W, torch.logsumexp(l, 0, keepdim=True), t, pred)
    one = m.log_likelihood(W.tensor("x1", (1, 64)))
    W.check_eq("summed_out", one, (1, Q, CO, R), lambda b, *i: W.log(W.sum(K, lambda n: W.exp(W.at(many, n, *i)))))


@harness(H, funcs=["ProdConv.log_likelihood"], sym_configs=[{"K": 1}, {"K": 2}, {"K": 3}])
def mass_prodconv(W):
    """one position of every patch varies over its states, the other pixels are fixed"""
    from spflow.modules.conv import ProdConv
    N, P, C, R = (W.dim(n) for n in ("N", "P", "C", "R"))
    K = W.dim("K", 1, 3)
    di, dj = W.choice("di", list(range(min(K, 2)))), W.choice("dj", list(range(min(K, 2))))
    G = K * P
    l, t = W.tensor("l", (N, G * G, C, R)), W.tensor("t", (1, G * G, C, R))
    pred = lambda f: ((f // G) % K == di) & ((f % G) % K == dj)
    s = Stub(group(W, l, t, pred), (G * G, C, R), Scope(list(range(64))))
    m = ProdConv(s, kernel_size_h=K, kernel_size_w=K, padding_h=0, padding_w=0)
    many = m.log_likelihood(W.tensor("x", (N, 64)))
    s._ll = group(W, torch.logsumexp(l, 0, keepdim=True), t, pred)
    one = m.log_likelihood(W.tensor("x1", (1, 64)))
    W.check_eq("summed_out", one, (1, P * P, C, R), lambda b, *i: W.log(W.sum(N, lambda n: W.exp(W.at(many, n, *i)))))


# ------------------------------------------------------------- whole circuits
@harness(H, funcs=["*.log_likelihood (all layers, composed)"], sym=False, seeds=250, conc_time=90)
def circuit_mass(W):
    from ..gen import rand_circuit, states, NoCircuit
    from ..world import Skip
    try:
        m, N = rand_circuit(W, gaps=W.rng.random() < 0.3)
    except NoCircuit:
        raise Skip()
    dom = m._dom
    nan = m.log_likelihood(torch.full((2, N), math.nan))
    W.check_eq("all_missing", nan, tuple(nan.shape), lambda *i: 0)
    full = m.log_likelihood(states(dom, N))
    fs = m.feature_to_scope
    for f in range(full.shape[1]):
        for k in range(full.shape[3]):
            sc = set(fs[f, k if fs.shape[1] > 1 else 0].query)
            extra = sum(math.log(len(_dom(dom[v]))) for v in dom if v not in sc)
            mass = torch.logsumexp(full[:, f, :, k], 0) - extra
            W.check_eq("mass", mass, (full.shape[2],), lambda c: 0)


def _dom(k):
    from ..gen import domain
    return domain(k)


def layer_impossible(name):
    def h(W):
        B, p = W.dim("B"), W.rng.choice([0.1, 0.4, 0.9])
        kids = []

        def mk(n, F, C, R, sc):
            t = W.tensor("l" + n, (B, F, C, R))
            hole = torch.tensor([W.rng.random() < p for _ in range(t.numel())]).reshape(t.shape)
            k = Stub(None, (F, C, R), sc)
            kids.append(k)
            k.hard, k.soft = t.masked_fill(hole, -math.inf), t.masked_fill(hole, -1e5)
            return k
        m, sh = LAYERS[name](W, mk)
        set_params(W, m)
        x = W.tensor("x", (B, 64))
        for k in kids:
            k._ll = k.hard
        out = m.log_likelihood(x)
        for k in kids:
            k._ll = k.soft
        ref = m.log_likelihood(x)
        W.check("not_nan", not out.isnan().any().item())
        W.check_eq("limit", out, (B, *sh), lambda *i: W.at(ref, *i) if W.at(ref, *i) > -5e4 else -math.inf)
    h.__name__ = "impossible_" + name
    h.__doc__ = ("children with states of probability zero (log-likelihood -inf): the layer answers the limit of its "
                 "answers for vanishing probabilities, -inf where every term is impossible, never NaN")
    return h


for _n in LAYERS:
    harness(H, funcs=[FUNCS[_n] + ".log_likelihood"], seeds=25, sym=False)(layer_impossible(_n))
