"""C11: every random choice is drawn with the conditional probability the circuit assigns to it; most-probable completion
takes the maximiser.  Per layer: for an arbitrary valid routing state and arbitrary child log-likelihoods."""
import itertools
import math
import torch
from ..runner import harness
from ..lib import *
H = []


class Layout(Exception):
    pass


def unfamiliar(W, msg):
    """draws are organised differently: outside this contract's reach (the end-to-end frequency check still applies)"""
    from ..world import Skip
    if W.sym:
        raise W.st.Unsupported(msg)
    raise Skip()


def one_categorical(W, B, F):
    """the single categorical draw of a sum layer: returns (val(b,f), p(b,f,k) unnormalised)"""
    ds = [d for d in W.draws() if d.kind == "multinomial"]
    if len(ds) != 1:
        unfamiliar(W, "number of draws")
    d = ds[0]
    if len(d.shape) != 2:
        unfamiliar(W, "draw layout")
    rows = d.shape[0]
    ok = (rows == B * F) and (d.shape[1] == 1)
    if not bool(ok):
        unfamiliar(W, "draw layout")
    return (lambda b, f: d.val(b * F + f, 0)), (lambda b, f, k: d.prob(b * F + f, k))


def check_law(W, name, B, F, K, p, score, n=None):
    """p(b,f,k) = exp(score(b,f,k)) / sum_j exp(score(b,f,j))"""
    W.check_all(name, (B, F, K), lambda b, f, k: W.same(
        p(b, f, k) / W.sum(K, lambda j: p(b, f, j)), W.exp(score(b, f, k)) / W.sum(K, lambda j: W.exp(score(b, f, j)))))


def cached(ll, *mods):
    from spflow.utils.cache import Cache
    c = Cache()
    for m, l in zip(mods, ll):
        c["log_likelihood"][m] = l
    return c


def ctx_for(W, B, F, C, R, mpe):
    wide = W.choice("width", ["full", "one"])
    ctx, ch, mask, rep = mkctx(W, B, F if wide == "full" else 1, C, R, mpe)
    at = (lambda f: f) if wide == "full" else (lambda f: 0)
    return ctx, (lambda b, f: W.at(ch, b, at(f))), (lambda b, f: W.at(mask, b, at(f))), (lambda b: W.at(rep, b))


def newcache():
    from spflow.utils.cache import Cache
    return Cache()


@harness(H, funcs=["Sum._sample", "sample_from_logits", "index_tensor", "repeat_channel_index", "repeat_repetition_index"], draws=True)
def sum_law(W):
    from spflow.modules.sums import Sum
    B, F, CI, CO, R = (W.dim(n) for n in ("B", "F", "CI", "CO", "R"))
    ev = W.choice("evidence", [False, True])
    s, ll = stub(W, "ll", F, CI, R, B)
    m = Sum(s, out_channels=CO, num_repetitions=R)
    set_params(W, m)
    w = m.weights
    ctx, ch, mask, rep = ctx_for(W, B, F, CO, R, False)
    m._sample(data=W.tensor("x", (B, F)), sampling_ctx=ctx, cache=cached([ll], s) if ev else newcache())
    val, p = one_categorical(W, B, F)
    check_law(W, "law", B, F, CI, p, lambda b, f, k: W.log(W.at(w, f, k, ch(b, f), rep(b))) + (W.at(ll, b, f, k, rep(b)) if ev else 0))
    _, c2, m2, r2, _ = sample_calls(s)[0]
    W.check_eq("choice", c2, (B, F), val)


@harness(H, funcs=["Sum._sample"])
def sum_mpe(W):
    from spflow.modules.sums import Sum
    B, F, CI, CO, R = (W.dim(n) for n in ("B", "F", "CI", "CO", "R"))
    ev = W.choice("evidence", [False, True])
    s, ll = stub(W, "ll", F, CI, R, B)
    m = Sum(s, out_channels=CO, num_repetitions=R)
    set_params(W, m)
    w = m.weights
    ctx, ch, mask, rep = ctx_for(W, B, F, CO, R, True)
    m._sample(data=W.tensor("x", (B, F)), sampling_ctx=ctx, cache=cached([ll], s) if ev else newcache())
    _, c2, m2, r2, _ = sample_calls(s)[0]
    sc = lambda b, f, k: W.log(W.at(w, f, k, ch(b, f), rep(b))) + (W.at(ll, b, f, k, rep(b)) if ev else 0)
    check_max(W, "mpe", (B, F), CI, c2, sc)


def _weighted_sum(W, mpe):
    """unnormalised non-negative weights (PIC mixtures): the channel is chosen with its posterior weight"""
    from spflow.zoo.pic.weighted_sum import WeightedSum
    B, F, CI, CO, R = (W.dim(n) for n in ("B", "F", "CI", "CO", "R"))
    ev = W.choice("evidence", [False, True])
    s, ll = stub(W, "ll", F, CI, R, B)
    w = W.tensor("w", (F, CI, CO, R), "pos")
    m = WeightedSum(s, w)
    ctx, ch, mask, rep = ctx_for(W, B, F, CO, R, mpe)
    m._sample(data=W.tensor("x", (B, F)), sampling_ctx=ctx, cache=cached([ll], s) if ev else newcache())
    _, c2, m2, r2, _ = sample_calls(s)[0]
    score = lambda b, f, k: W.log(W.at(w, f, k, ch(b, f), rep(b))) + (W.at(ll, b, f, k, rep(b)) if ev else 0)
    if mpe:
        check_max(W, "mpe", (B, F), CI, c2, score)
    else:
        val, p = one_categorical(W, B, F)
        check_law(W, "law", B, F, CI, p, score)
        W.check_eq("choice", c2, (B, F), val)
    W.check_eq("mask", m2, (B, F), mask)
    W.check_eq("repetition", r2, (B,), rep)


@harness(H, funcs=["WeightedSum._sample"], draws=True)
def weighted_sum_law(W):
    _weighted_sum(W, False)


@harness(H, funcs=["WeightedSum._sample"])
def weighted_sum_mpe(W):
    _weighted_sum(W, True)


def _signed_sum(W, mpe):
    """signed sums with no negative weight, no evidence: the channel is drawn with its share of the weights"""
    from spflow.modules.sums.signed_sum import SignedSum
    B, F, CI, CO = (W.dim(n) for n in ("B", "F", "CI", "CO"))
    s, ll = stub(W, "ll", F, CI, 1, B)
    w = W.tensor("w", (F, CI, CO, 1), "pos")
    m = SignedSum(s, out_channels=CO, weights=w)
    ctx, ch, mask, rep = ctx_for(W, B, F, CO, 1, mpe)
    x = W.tensor("x", (B, F))
    m._sample(data=x * math.nan if not W.sym else full_nan(W, B, F), sampling_ctx=ctx, cache=newcache())
    W.check("once", len(sample_calls(s)) == 1)
    _, c2, m2, r2, _ = sample_calls(s)[0]
    score = lambda b, f, k: W.log(W.at(w, f, k, ch(b, f), 0))
    if mpe:
        check_max(W, "mpe", (B, F), CI, c2, score)
    else:
        val, p = one_categorical(W, B, F)
        check_law(W, "law", B, F, CI, p, score)
        W.check_eq("choice", c2, (B, F), val)
    W.check_eq("mask", m2, (B, F), mask)
    W.check_eq("repetition", r2, (B,), rep)


def full_nan(W, B, F):
    return torch.full((B, F), math.nan)


@harness(H, funcs=["SignedSum._sample"], draws=True)
def signed_sum_law(W):
    _signed_sum(W, False)


@harness(H, funcs=["SignedSum._sample"])
def signed_sum_mpe(W):
    _signed_sum(W, True)


def check_max(W, name, shape, K, got, score):
    if W.sym:
        W.check_eq(name, got, shape, lambda *i: W.argmax(K, lambda k: score(*i, k)))
    else:
        W.check_all(name, tuple(shape) + (K,), lambda *i: score(*i) <= score(*i[:-1], W.at(got, *i[:-1])) + 1e-9)


@harness(H, funcs=["ElementwiseSum._sample"], draws=True, sym_time=120)
def esum_law(W):
    """the input is chosen with its posterior weight; exactly that input is sampled, in the routed channel."""
    from spflow.modules.sums import ElementwiseSum
    B, F, C, CO, R = (W.dim(n) for n in ("B", "F", "C", "CO", "R"))
    ev = W.choice("evidence", [False, True])
    mpe = W.choice("mpe", [False, True])
    n = W.choice("n", [2, 3])
    ss, lls = zip(*[stub(W, f"l{i}", F, C, R, B) for i in range(n)])
    m = ElementwiseSum(list(ss), out_channels=CO, num_repetitions=R)
    set_params(W, m)
    w = m.weights
    ctx, ch, mask, rep = ctx_for(W, B, F, C * CO, R, mpe)
    m._sample(data=W.tensor("x", (B, F)), sampling_ctx=ctx, cache=cached(lls, *ss) if ev else newcache())
    sc = lambda b, f, k: W.log(W.at(w, f, W.fdiv(ch(b, f), CO), W.fmod(ch(b, f), CO), k, rep(b))) + (
        0 if not ev else W.at(lls[k], b, f, W.fdiv(ch(b, f), CO), rep(b)))
    if not mpe:
        val, p = one_categorical(W, B, F)
        for k in range(n):
            W.check_all(f"law{k}", (B, F), lambda b, f: W.same(
                p(b, f, k) / sum(p(b, f, j) for j in range(n)),
                W.exp(sc(b, f, k)) / sum((W.exp(sc(b, f, j)) for j in range(1, n)), W.exp(sc(b, f, 0)))))
    for k in range(n):
        W.check(f"once{k}", len(sample_calls(ss[k])) == 1)
        _, c2, m2, r2, _ = sample_calls(ss[k])[0]
        W.check_all(f"channel{k}", (B, F), lambda b, f: W.implies(W.at(m2, b, f), W.eq(W.at(c2, b, f), W.fdiv(ch(b, f), CO))))
        W.check_eq(f"rep{k}", r2, (B,), rep)
        if not mpe:
            W.check_eq(f"mask{k}", m2, (B, F), lambda b, f: W.and_(mask(b, f), W.eq(val(b, f), k)))
        else:
            for j in range(n):
                W.check_all(f"mpe{k}_{j}", (B, F), lambda b, f: W.implies(W.at(m2, b, f), W.le(sc(b, f, j), sc(b, f, k) + (0 if W.sym else 1e-9))))


@harness(H, funcs=["RepetitionMixingLayer._sample"], draws=True)
def repmix_law(W):
    from spflow.modules.sums.repetition_mixing_layer import RepetitionMixingLayer
    B, C, R = (W.dim(n) for n in ("B", "C", "R"))
    ev = W.choice("evidence", [False, True])
    mpe = W.choice("mpe", [False, True])
    s, ll = stub(W, "ll", 1, C, R, B)
    m = RepetitionMixingLayer(s, out_channels=C, num_repetitions=R)
    set_params(W, m)
    w = m.weights
    ctx, ch, mask, _ = mkctx(W, B, 1, C, R, mpe)
    m._sample(data=W.tensor("x", (B, 2)), sampling_ctx=ctx, cache=cached([ll], s) if ev else newcache())
    sc = lambda b, k: W.log(W.at(w, 0, W.at(ch, b, 0), k)) + (W.at(ll, b, 0, W.at(ch, b, 0), k) if ev else 0)
    _, c2, m2, r2, _ = sample_calls(s)[0]
    W.check_eq("channel", c2, (B, 1), lambda b, f: W.at(ch, b, 0))
    W.check_eq("mask", m2, (B, 1), lambda b, f: W.at(mask, b, 0))
    if mpe:
        check_max(W, "mpe", (B,), R, r2, sc)
        return
    val, p = one_categorical(W, B, 1)
    check_law(W, "law", B, 1, R, p, lambda b, f, k: sc(b, k))
    W.check_eq("choice", r2, (B,), lambda b: val(b, 0))


def _fused(kind):
    lin = kind == "linsum"

    def run(W):
        from spflow.modules.einsum import EinsumLayer, LinsumLayer
        B, F, CO, R = (W.dim(n) for n in ("B", "F", "CO", "R"))
        C = W.dim("C")
        D = C if lin else W.dim("D")
        ev = W.choice("evidence", [False, True])
        mpe = W.choice("mpe", [False, True])
        mode = W.choice("mode", ["pair", "consecutive", "interleaved"])
        K = LinsumLayer if lin else EinsumLayer
        x = W.tensor("x", (B, 2))
        if mode == "pair":
            a, la = stub(W, "a", F, C, R, B, Scope([0]))
            b_, lb = stub(W, "b", F, D, R, B, Scope([1]))
            m = K([a, b_], out_channels=CO, num_repetitions=R)
            L = lambda b, f, i, r: W.at(la, b, f, i, r)
            Rr = lambda b, f, j, r: W.at(lb, b, f, j, r)
            cache = cached([la, lb], a, b_) if ev else newcache()
        else:
            D = C
            s, ll = stub(W, "s", 2 * F, C, R, B, Scope(list(range(400))))
            from spflow.modules.ops.split import SplitMode
            m = K(s, out_channels=CO, num_repetitions=R, split_mode=getattr(SplitMode, mode)(2))
            pl = (lambda f: f) if mode == "consecutive" else (lambda f: 2 * f)
            pr = (lambda f: F + f) if mode == "consecutive" else (lambda f: 2 * f + 1)
            L = lambda b, f, i, r: W.at(ll, b, pl(f), i, r)
            Rr = lambda b, f, j, r: W.at(ll, b, pr(f), j, r)
            cache = newcache()
            if ev:
                m.log_likelihood(x, cache=cache)
        set_params(W, m)
        w = m.weights
        ctx, ch, mask, rep = ctx_for(W, B, F, CO, R, mpe)
        m._sample(data=x, sampling_ctx=ctx, cache=cache)
        if lin:
            n = C
            sc = lambda b, f, k: W.log(W.at(w, f, ch(b, f), rep(b), k)) + (L(b, f, k, rep(b)) + Rr(b, f, k, rep(b)) if ev else 0)
        else:
            n = C * D
            sc = lambda b, f, k: W.log(W.at(w, f, ch(b, f), rep(b), W.fdiv(k, D), W.fmod(k, D))) + (
                L(b, f, W.fdiv(k, D), rep(b)) + Rr(b, f, W.fmod(k, D), rep(b)) if ev else 0)
        if mode == "pair":
            ca, cb = sample_calls(a)[0], sample_calls(b_)[0]
            W.check("once", len(sample_calls(a)) == 1 and len(sample_calls(b_)) == 1)
            cl, cr = (lambda b, f: W.at(ca[1], b, f)), (lambda b, f: W.at(cb[1], b, f))
            W.check_eq("mask_left", ca[2], (B, F), mask)
            W.check_eq("mask_right", cb[2], (B, F), mask)
            W.check_eq("rep_left", ca[3], (B,), rep)
            W.check_eq("rep_right", cb[3], (B,), rep)
        else:
            W.check("once", len(sample_calls(s)) == 1)
            c = sample_calls(s)[0]
            cl, cr = (lambda b, f: W.at(c[1], b, pl(f))), (lambda b, f: W.at(c[1], b, pr(f)))
            W.check_all("mask_left", (B, F), lambda b, f: W.eq_bool(W.at(c[2], b, pl(f)), mask(b, f)))
            W.check_all("mask_right", (B, F), lambda b, f: W.eq_bool(W.at(c[2], b, pr(f)), mask(b, f)))
            W.check_eq("rep", c[3], (B,), rep)
        if mpe:
            k = (lambda b, f: cl(b, f)) if lin else (lambda b, f: cl(b, f) * D + cr(b, f))
            if W.sym:
                g = lambda b, f: W.argmax(n, lambda k: sc(b, f, k))
                W.check_all("mpe", (B, F), lambda b, f: W.eq(k(b, f), g(b, f)))
            else:
                W.check_all("mpe", (B, F, n), lambda b, f, j: sc(b, f, j) <= sc(b, f, k(b, f)) + 1e-9)
            return
        val, p = one_categorical(W, B, F)
        check_law(W, "law", B, F, n, p, sc)
        if lin:
            W.check_all("choice", (B, F), lambda b, f: W.and_(W.eq(cl(b, f), val(b, f)), W.eq(cr(b, f), val(b, f))))
        else:
            W.check_all("choice", (B, F), lambda b, f: W.and_(W.eq(cl(b, f), W.fdiv(val(b, f), D)), W.eq(cr(b, f), W.fmod(val(b, f), D))))
    run.__name__ = kind + "_law"
    return run


for _k in ("einsum", "linsum"):
    harness(H, funcs=[("EinsumLayer" if _k == "einsum" else "LinsumLayer") + "._sample"], draws=True, seeds=80, sym_time=200)(_fused(_k))


@harness(H, funcs=["ElementwiseSum._sample"], draws=True, sym_time=120)
def esum_broadcast(W):
    """inputs with a single channel are broadcast: whatever channel is routed, such an input is sampled in its channel 0."""
    from spflow.modules.sums import ElementwiseSum
    B, F, CO, R = (W.dim(n) for n in ("B", "F", "CO", "R"))
    C = W.dim("C", 2, 4)
    ev = W.choice("evidence", [False, True])
    n = W.choice("n", [2, 3])
    one = W.choice("one", [0, 1])
    ss, lls = zip(*[stub(W, f"l{i}", F, 1 if i == one else C, R, B) for i in range(n)])
    m = ElementwiseSum(list(ss), out_channels=CO, num_repetitions=R)
    set_params(W, m)
    w = m.weights
    ctx, ch, mask, rep = ctx_for(W, B, F, C * CO, R, False)
    m._sample(data=W.tensor("x", (B, F)), sampling_ctx=ctx, cache=cached(lls, *ss) if ev else newcache())
    cc = lambda k, b, f: 0 if k == one else W.fdiv(ch(b, f), CO)
    sc = lambda b, f, k: W.log(W.at(w, f, W.fdiv(ch(b, f), CO), W.fmod(ch(b, f), CO), k, rep(b))) + (W.at(lls[k], b, f, cc(k, b, f), rep(b)) if ev else 0)
    val, p = one_categorical(W, B, F)
    for k in range(n):
        W.check_all(f"law{k}", (B, F), lambda b, f: W.same(
            p(b, f, k) / sum(p(b, f, j) for j in range(n)),
            W.exp(sc(b, f, k)) / sum((W.exp(sc(b, f, j)) for j in range(1, n)), W.exp(sc(b, f, 0)))))
        _, c2, m2, r2, _ = sample_calls(ss[k])[0]
        W.check_all(f"channel{k}", (B, F), lambda b, f: W.implies(W.at(m2, b, f), W.eq(W.at(c2, b, f), cc(k, b, f))))
        W.check_eq(f"mask{k}", m2, (B, F), lambda b, f: W.and_(mask(b, f), W.eq(val(b, f), k)))


@harness(H, funcs=["SumConv._sample"], draws=True, seeds=80, sym_time=200)
def sumconv_law(W):
    """every position draws its channel with its posterior weight under the kernel entry of that position"""
    from spflow.modules.conv import SumConv
    B, CI, CO, R = (W.dim(n) for n in ("B", "CI", "CO", "R"))
    K, P = W.dim("K", 1, 4), W.dim("P", 1, 3)
    G = K * P
    F = G * G
    ev = W.choice("evidence", [False, True])
    mpe = W.choice("mpe", [False, True])
    s, ll = stub(W, "ll", F, CI, R, B, Scope(list(range(64))))
    m = SumConv(s, out_channels=CO, kernel_size=K, num_repetitions=R)
    set_params(W, m)
    w = m.weights
    ctx, ch, mask, rep = ctx_for(W, B, F, CO, R, mpe)
    m._sample(data=W.tensor("x", (B, F)), sampling_ctx=ctx, cache=cached([ll], s) if ev else newcache())
    sc = lambda b, i, j, k: W.log(W.at(w, ch(b, i * G + j), k, W.fmod(i, K), W.fmod(j, K), rep(b))) + (W.at(ll, b, i * G + j, k, rep(b)) if ev else 0)
    _, c2, m2, r2, _ = sample_calls(s)[0]
    W.check_all("mask", (B, G, G), lambda b, i, j: W.eq(W.at(m2, b, i * G + j), mask(b, i * G + j)))
    W.check_eq("rep", r2, (B,), rep)
    if mpe:
        if W.sym:
            W.check_all("mpe", (B, G, G), lambda b, i, j: W.eq(W.at(c2, b, i * G + j), W.argmax(CI, lambda k: sc(b, i, j, k))))
        else:
            W.check_all("mpe", (B, G, G, CI), lambda b, i, j, k: sc(b, i, j, k) <= sc(b, i, j, W.at(c2, b, i * G + j)) + 1e-9)
        return
    val, p = one_categorical(W, B, F)
    W.check_all("law", (B, G, G, CI), lambda b, i, j, k: W.same(
        p(b, i * G + j, k) / W.sum(CI, lambda q: p(b, i * G + j, q)), W.exp(sc(b, i, j, k)) / W.sum(CI, lambda q: W.exp(sc(b, i, j, q)))))
    W.check_all("choice", (B, G, G), lambda b, i, j: W.eq(W.at(c2, b, i * G + j), val(b, i * G + j)))


# ---------------------------------------------------------------- leaves: routing of the draws
class Draw:
    """a stand-in distribution whose draws (and mode) are given values"""
    has_rsample = True

    def __init__(self, v, per_row=False):
        self.v, self.per_row = v, per_row

    @property
    def mode(self):
        return self.v

    def rsample(self, shape):
        n = shape[0].item() if isinstance(shape[0], torch.Tensor) else shape[0]
        return self.v.unsqueeze(0).expand(n, *self.v.shape)

    sample = rsample


def _leaf_routed(W, q, D, e=None, soft=False, records=False):
    """whatever the leaf's distribution draws: exactly the missing, selected entries of its own variables are written, each
    with the draw of the channel and repetition routed to it (given the evidence of its own row)"""
    from spflow.modules.leaves import Normal
    if W.sym:
        W.st.cur().fresh["mask_counts"] = True
    B, C, R = W.dim("B"), W.dim("C"), W.dim("R")
    F = len(q)
    mpe = W.choice("mpe", [False, True])
    wide = W.choice("width", ["scope", "data", "one"] if D != F else ["scope", "one"])
    v = W.tensor("v", (F, C, R))

    class Leaf(Normal):
        def distribution(self, with_differentiable_sampling=False):
            return Draw(v)

        def conditional_distribution(self, evidence, with_differentiable_sampling=False):
            return Draw(v.unsqueeze(0) + evidence[:, 0].reshape(-1, 1, 1, 1))

    tab = W.tensor("tab", (F, C, R, 2)) if records == "tables" else None
    if tab is not None:                           # shared parameters with an axis of their own, like a categorical leaf's
        Leaf.params = lambda self: {"table": tab}
    leaf = Leaf(Scope(q), out_channels=C, num_repetitions=R) if e is None else \
        Leaf(Scope(q, evidence=e), out_channels=C, num_repetitions=R, parameter_fn=lambda t: {})
    x, miss, val = W.data("x", (B, D))
    if e is not None:
        ev = W.tensor("e", (B,))
        x[:, e[0]] = ev
    _, ch, mask, rep = mkctx(W, B, {"scope": F, "data": D, "one": 1}[wide], C, R, mpe)
    ctx = routed(ch, mask, rep, C, R, soft, is_mpe=mpe, return_leaf_params=bool(records))
    pars = {}
    if records:
        if tab is None:
            set_params(W, leaf)
        pars = {k: t.clone() for k, t in leaf.params().items()}
    out = leaf._sample(data=x.clone(), sampling_ctx=ctx, cache=newcache())
    if records:
        at = lambda j: {"scope": j, "data": q[j], "one": 0}[wide]
        todo = lambda b, j: W.and_(W.at(mask, b, at(j)), miss(b, q[j]))
        got = ctx.leaf_param_records()
        if len(got) == 0:
            for j in range(F):
                W.check_all("no record", (B,), lambda b: W.not_(todo(b, j)))
            return
        W.check("one record", len(got) == 1 and ctx.leaf_param_records_for(id(leaf)) == got)
        rc = got[0]
        W.check("identity", rc.leaf_id == id(leaf) and list(rc.scope_cols) == list(q) and set(pars) <= set(rc.params))
        for j in range(F):
            W.check_eq("active", rc.active_mask[:, j], (B,), lambda b: todo(b, j))
            for k, t in pars.items():
                for tail in [()] if tab is None else [(0,), (1,)]:
                    W.check_all(f"parameter {k}", (B,), lambda b: W.implies(todo(b, j), W.same(
                        W.at(rc.params[k], b, j, *tail), W.at(t, j, W.at(ch, b, at(j)), W.at(rep, b), *tail))))
        return
    cols = q if all(c < D for c in q) else list(range(D))    # data over all variables, or over the leaf's own variables only
    for c in range(D):
        if c in cols:
            j = cols.index(c)
            k = {"scope": j, "data": c, "one": 0}[wide]
            W.check_eq(f"variable {c}", out[:, c], (B,), lambda b: W.ite(
                W.and_(W.at(mask, b, k), miss(b, c)), W.at(v, j, W.at(ch, b, k), W.at(rep, b)) + (W.at(ev, b) if e else 0), W.at(x, b, c)))
        else:
            W.check_eq(f"variable {c}", out[:, c], (B,), lambda b: W.at(x, b, c))


_LEAF_FUNCS = ["LeafModule._sample", "LeafModule._slice_sampling_context", "LeafModule._resolve_scope_columns", "index_tensor", "repeat_repetition_index"]


@harness(H, funcs=_LEAF_FUNCS)
def leaf_routed(W):
    _leaf_routed(W, [2, 0], 3)


@harness(H, funcs=_LEAF_FUNCS)
def leaf_routed_own_columns(W):
    _leaf_routed(W, [5, 3], 2)


@harness(H, funcs=_LEAF_FUNCS)
def leaf_routed_alone(W):
    _leaf_routed(W, [1], 2)


@harness(H, funcs=_LEAF_FUNCS)
def leaf_routed_conditional(W):
    _leaf_routed(W, [2, 0], 4, [3])


class PieceDraw:
    def __init__(self, v):
        self.v = v

    @property
    def mode(self):
        return self.v

    def sample(self, shape):
        n = shape[0].item() if isinstance(shape[0], torch.Tensor) else shape[0]
        return self.v.unsqueeze(0).expand(n, *self.v.shape)


@harness(H, funcs=["PiecewiseLinear._sample"])
def piecewise_routed(W):
    """as leaf_routed, for the interpolated leaf (draws laid out as 1, feature, channel, repetition)"""
    from spflow.modules.leaves import PiecewiseLinear
    if W.sym:
        W.st.cur().fresh["mask_counts"] = True
    q, D = [2, 0], 3
    B, C, R = W.dim("B"), W.dim("C"), W.dim("R")
    F = len(q)
    mpe = W.choice("mpe", [False, True])
    wide = W.choice("width", ["scope", "data", "one"])
    v = W.tensor("v", (1, F, C, R))

    class Leaf(PiecewiseLinear):
        def distribution(self, with_differentiable_sampling=False):
            return PieceDraw(v)

    leaf = Leaf(Scope(q), out_channels=C, num_repetitions=R)
    leaf.is_initialized = True
    x, miss, _ = W.data("x", (B, D))
    ctx, ch, mask, rep = mkctx(W, B, {"scope": F, "data": D, "one": 1}[wide], C, R, mpe)
    out = leaf._sample(data=x.clone(), sampling_ctx=ctx, cache=newcache())
    for c in range(D):
        if c in q:
            j = q.index(c)
            k = {"scope": j, "data": c, "one": 0}[wide]
            W.check_eq(f"variable {c}", out[:, c], (B,), lambda b: W.ite(
                W.and_(W.at(mask, b, k), miss(b, c)), W.at(v, 0, j, W.at(ch, b, k), W.at(rep, b)), W.at(x, b, c)))
        else:
            W.check_eq(f"variable {c}", out[:, c], (B,), lambda b: W.at(x, b, c))


# ---------------------------------------------------------------- leaves: empirical law (bounded), 6 sigma
def freq_ok(W, name, hits, probs, what=""):
    """hits: bool tensor (n,), probs: success probability of every trial"""
    n = float(hits.sum())
    e = float(probs.sum())
    sd = math.sqrt(float((probs * (1 - probs)).clamp_min(0).sum()))
    W.check(name, abs(n - e) <= 6 * sd + 2, lambda: f"{what}: {n} of {len(hits)} draws, expected {e:.1f} +- {sd:.1f}")


def leaf_cases():
    from spflow.modules import leaves as L
    t = lambda W, F, C, R, lo, hi: torch.tensor([W.rng.uniform(lo, hi) for _ in range(F * C * R)]).reshape(F, C, R)
    return {
        "normal": lambda W, q, *d: L.Normal(q, loc=t(W, *d, -6, 6), scale=t(W, *d, .3, 2)),
        "lognormal": lambda W, q, *d: L.LogNormal(q, loc=t(W, *d, -2, 2), scale=t(W, *d, .2, .8)),
        "laplace": lambda W, q, *d: L.Laplace(q, loc=t(W, *d, -6, 6), scale=t(W, *d, .3, 2)),
        "exponential": lambda W, q, *d: L.Exponential(q, rate=t(W, *d, .1, 5)),
        "gamma": lambda W, q, *d: L.Gamma(q, concentration=t(W, *d, .5, 6), rate=t(W, *d, .3, 3)),
        "uniform": lambda W, q, *d: (lambda lo: L.Uniform(q, low=lo, high=lo + t(W, *d, .2, 4)))(t(W, *d, -5, 5)),
        "poisson": lambda W, q, *d: L.Poisson(q, rate=t(W, *d, .2, 8)),
        "bernoulli": lambda W, q, *d: L.Bernoulli(q, probs=t(W, *d, .05, .95)),
        "geometric": lambda W, q, *d: L.Geometric(q, probs=t(W, *d, .2, .95)),
        "binomial": lambda W, q, *d: L.Binomial(q, total_count=torch.tensor(4.0), probs=t(W, *d, .05, .95)),
        "negative_binomial": lambda W, q, *d: L.NegativeBinomial(q, total_count=torch.tensor(3.0), probs=t(W, *d, .1, .7)),
        "categorical": lambda W, q, *d: L.Categorical(q, probs=(lambda u: u / u.sum(-1, keepdim=True))(W.tensor("p", (*d, 3), "pos"))),
        "hypergeometric": lambda W, q, F, C, R: L.Hypergeometric(q, out_channels=C, num_repetitions=R, N=torch.full((F, C, R), 9.0),
                                                                 K=torch.full((F, C, R), float(W.rng.randint(1, 8))),
                                                                 n=torch.full((F, C, R), float(W.rng.randint(1, 8)))),
    }


CONT = ("normal", "lognormal", "laplace", "exponential", "gamma", "uniform")


def routed(ch, mask, rep, C, R, soft, **k):
    """the routing state as a sampling context, integer or one-hot"""
    from spflow.utils.sampling_context import SamplingContext
    if not soft:
        return SamplingContext(channel_index=ch.clone(), mask=mask.clone(), repetition_index=rep.clone(), **k)
    oh = lambda i, n: torch.nn.functional.one_hot(i, n).to(torch.get_default_dtype())
    return SamplingContext(channel_index=oh(ch, C), mask=mask.clone(), repetition_index=oh(rep, R), is_differentiable=True, **k)


def _leaf_law(fam, soft=False):
    def run(W):
        r = W.rng
        torch.manual_seed(r.randrange(10 ** 9))
        q = W.choice("query", [[0], [2], [3, 1], [1, 3, 2]])
        F, C, R = len(q), W.dim("C"), W.dim("R")
        leaf = leaf_cases()[fam](W, Scope(q), F, C, R)
        if soft and fam == "binomial":     # the default relaxation is a documented normal approximation
            leaf.differentiable_sampling_method = type(leaf.differentiable_sampling_method)("simple")
        n, D = 3000, 4
        width = W.choice("width", ["one", "scope", "all"])
        w = {"one": 1, "scope": F, "all": D}[width]
        ch = torch.randint(C, (n, w))
        rep = torch.randint(R, (n,))
        mask = torch.rand(n, w) < 0.8
        x = torch.full((n, D), math.nan)
        obs = torch.rand(n, D) < 0.2
        x[obs] = 1.0
        ctx = routed(ch, mask, rep, C, R, soft)
        out = leaf._sample(data=x.clone(), sampling_ctx=ctx, cache=newcache()).detach()
        if soft and fam not in CONT:      # a straight-through sample is its value up to rounding
            hit = (out - out.round()).abs() < 1e-5
            out = torch.where(hit, out.round(), out)
        col = lambda j: 0 if width == "one" else (j if width == "scope" else q[j])
        lastp = None
        for j, v in enumerate(q):
            sel = mask[:, col(j)] & ~obs[:, v]
            W.check("filled", not bool(torch.isnan(out[sel, v]).any()))
            W.check("rest_untouched", bool(torch.isnan(out[~sel & ~obs[:, v], v]).all()) and bool((out[obs[:, v], v] == 1.0).all()))
            c, k, s = ch[:, col(j)][sel], rep[sel], out[sel, v].detach()
            if fam in CONT:
                d = leaf.distribution()
                cdf = d.cdf(s.reshape(-1, 1, 1, 1).expand(-1, F, C, R).clone()) if fam != "uniform" else (
                    (s.reshape(-1, 1, 1, 1) - leaf.low) / (leaf.high - leaf.low)).expand(-1, F, C, R)
                u = cdf[torch.arange(len(s)), j, c, k].detach().sort().values
                m = len(u)
                ks = float((u - (torch.arange(m) + 0.5) / m).abs().max()) * math.sqrt(m)
                W.check("law", ks < 3.2, lambda: f"Kolmogorov-Smirnov statistic {ks:.2f} (channel/repetition routed per row)")
                lastu = u
            else:
                for val in range(4 if fam != "categorical" else 3):
                    y = torch.zeros(1, D)
                    y[:, q] = float(val)
                    try:
                        p = leaf.log_likelihood(y).exp()[0, j].detach()
                    except Exception:
                        continue
                    freq_ok(W, "law", s == val, p[c, k], f"value {val}")
        W.check("columns_outside", bool(torch.equal(out[:, [v for v in range(D) if v not in q]].nan_to_num(-9), x[:, [v for v in range(D) if v not in q]].nan_to_num(-9))))
    run.__name__ = ("soft_leaf_" if soft else "leaf_") + fam
    return run


for _f in leaf_cases():
    harness(H, funcs=["LeafModule._sample", "LeafModule._slice_sampling_context", "LeafModule._resolve_scope_columns"], sym=False, seeds=14)(_leaf_law(_f))


@harness(H, funcs=["LeafModule._sample"], sym=False, seeds=60)
def leaf_mpe(W):
    """most-probable completion writes a maximiser of the routed channel's density."""
    r = W.rng
    fam = W.choice("fam", sorted(leaf_cases()))
    q = W.choice("query", [[0], [3, 1], [1, 3, 2]])
    F, C, R = len(q), W.dim("C"), W.dim("R")
    leaf = leaf_cases()[fam](W, Scope(q), F, C, R)
    n, D = 6, 4
    ch, rep, mask = torch.randint(C, (n, F)), torch.randint(R, (n,)), torch.rand(n, F) < 0.8
    x = torch.full((n, D), math.nan)
    obs = torch.rand(n, D) < 0.2
    x[obs] = 1.0
    from spflow.utils.sampling_context import SamplingContext
    ctx = SamplingContext(channel_index=ch.clone(), mask=mask.clone(), repetition_index=rep.clone(), is_mpe=True)
    out = leaf._sample(data=x.clone(), sampling_ctx=ctx, cache=newcache()).detach()
    leaf._validate_args = False
    for j, v in enumerate(q):
        for b in range(n):
            if obs[b, v] or not mask[b, j]:
                W.check("untouched", (math.isnan(out[b, v]) and not obs[b, v]) or out[b, v] == x[b, v])
                continue
            y = torch.zeros(40, D)
            if fam == "hypergeometric":
                lo, hi = max(0, int(leaf.n[0, 0, 0] + leaf.K[0, 0, 0] - 9)), int(min(leaf.n[0, 0, 0], leaf.K[0, 0, 0]))
                cand = list(range(lo, hi + 1))
            else:
                cand = {"bernoulli": range(2), "categorical": range(3), "binomial": range(5)}.get(fam, range(30))
                if fam in CONT:
                    cand = [float(out[b, v]) + d for d in (.01, -.01, .1, -.1, 1.0, -1.0, 3.0)]
                    if fam in ("lognormal", "exponential", "gamma"):
                        cand = [c for c in cand if c > 0]
                    if fam == "uniform":      # no unique mode: documented as undefined by the test suite
                        continue
            best = _ll(leaf, q, D, j, float(out[b, v]), int(ch[b, j]), int(rep[b]))
            if fam == "exponential" and float(out[b, v]) == 0:
                continue
            for c in cand:
                l = _ll(leaf, q, D, j, float(c), int(ch[b, j]), int(rep[b]))
                if fam in ("gamma",) and float(leaf.concentration[j, ch[b, j], rep[b]]) < 1:
                    continue
                W.check("mode", l <= best + 1e-6, lambda: f"{fam}: density at {c} is larger than at the returned {float(out[b, v])} ({l} > {best})")


def _ll(leaf, q, D, j, v, c, k):
    y = torch.ones(1, D)
    y[0, q] = v
    return float(leaf.log_likelihood(y)[0, j, c, k])


@harness(H, funcs=["LeafModule._sample", "LeafModule.conditional_distribution"], sym=False, seeds=24)
def leaf_conditional_law(W):
    from spflow.modules.leaves import Normal
    torch.manual_seed(W.rng.randrange(10 ** 9))
    q, e = W.choice("qe", [([0], [1]), ([2, 0], [3]), ([1], [3, 0])])
    F, C, R = len(q), W.dim("C"), W.dim("R")
    a = W.tensor("a", (F, C, R))

    def fn(ev):
        t = ev.sum(1).reshape(-1, 1, 1, 1)
        return {"loc": t * a.unsqueeze(0), "scale": 0.5 + 0 * t * a.unsqueeze(0)}
    leaf = Normal(Scope(q, evidence=e), out_channels=C, num_repetitions=R, parameter_fn=fn)
    n = 2000
    x = torch.randn(n, 4) * 5
    x[:, q] = math.nan
    hold = torch.rand(n) < 0.3      # rows which need no sample
    x[hold, q[0]] = 0.5
    if F > 1:
        x[hold, q[1]] = 0.5
    ch, rep = torch.randint(C, (n, F)), torch.randint(R, (n,))
    mpe, soft = W.choice("mode", [(False, False), (True, False), (False, True), (True, True)])
    out = leaf._sample(data=x.clone(), sampling_ctx=routed(ch, torch.ones(n, F, dtype=torch.bool), rep, C, R, soft, is_mpe=mpe), cache=newcache()).detach()
    t = x[:, e].sum(1)
    for j, v in enumerate(q):
        if mpe:
            W.check("mode", bool(((out[:, v] - t * a[j, ch[:, j], rep])[~hold].abs() < 1e-5).all()))
            W.check("kept", bool((out[hold, v] == 0.5).all()))
            continue
        z = ((out[:, v] - t * a[j, ch[:, j], rep]) / 0.5)[~hold]
        u = (0.5 * (1 + torch.erf(z / math.sqrt(2)))).sort().values
        m = len(u)
        ks = float((u - (torch.arange(m) + 0.5) / m).abs().max()) * math.sqrt(m)
        W.check("law", ks < 3.2, lambda: f"Kolmogorov-Smirnov statistic {ks:.2f}")
        W.check("kept", bool((out[hold, v] == 0.5).all()))


@harness(H, funcs=["CLTree._sample"], sym=False, seeds=12)
def cltree_law(W):
    """samples of a tree leaf follow its conditional distribution given the observed variables."""
    from spflow.modules.leaves.cltree import CLTree
    r = W.rng
    torch.manual_seed(r.randrange(10 ** 9))
    F, C, R, K = W.dim("F", 2, 4), W.dim("C"), W.dim("R"), W.dim("K", 2, 3)
    order = r.sample(range(F), F)
    par = [-1] * F
    for i in range(1, F):
        par[order[i]] = order[r.randrange(i)]
    lc = W.tensor("cpt", (F, C, R, K, K)).log_softmax(-2)
    root = par.index(-1)
    lc[root] = lc[root, :, :, :, :1].expand(C, R, K, K)
    q = r.sample(range(F + 1), F)
    leaf = CLTree(Scope(q), out_channels=C, num_repetitions=R, K=K, parents=torch.tensor(par), log_cpt=lc)
    obs = {f: float(r.randrange(K)) for f in range(F) if r.random() < 0.4}
    n = 3000
    x = torch.full((n, F + 1), math.nan)
    for f, v in obs.items():
        x[:, q[f]] = v
    c, k = r.randrange(C), r.randrange(R)
    from spflow.utils.sampling_context import SamplingContext
    ctx = SamplingContext(channel_index=torch.full((n, F), c), repetition_index=torch.full((n,), k))
    out = leaf._sample(data=x.clone(), sampling_ctx=ctx, cache=newcache())
    free = [f for f in range(F) if f not in obs]
    rows = []
    for vs in itertools.product(range(K), repeat=len(free)):
        y = torch.zeros(F + 1)
        for f, v in obs.items():
            y[q[f]] = v
        for f, v in zip(free, vs):
            y[q[f]] = float(v)
        rows.append(y)
    st = torch.stack(rows)
    p = leaf.log_likelihood(st)[:, :, c, k].sum(1).softmax(0).detach()
    for i in range(len(rows)):
        hit = (out[:, q] == st[i][q]).all(1)
        freq_ok(W, "law", hit, p[i].expand(n), f"state {st[i][q].tolist()}")
    for f, v in obs.items():
        W.check("kept", bool((out[:, q[f]] == v).all()))


def _cltree_case(W, mpe):
    """one row of a tree leaf with arbitrary tables: (observed values, values returned, score of a complete state)"""
    from .c16_density import cltree
    if W.sym:
        W.st.cur().fresh["open_argmax"] = True
    F = W.choice("F", [2, 3])
    par = W.choice("tree", [[-1, 0], [1, -1]] if F == 2 else [[-1, 0, 0], [1, -1, 1], [1, 2, -1], [2, 0, -1]])
    K = W.choice("K", [2] if W.sym else [2, 3])
    C, R = W.dim("C"), W.dim("R")
    cpt = W.tensor("cpt", (F, C, R, K, K))
    q = [3, 0, 1][:F]
    leaf = cltree(W, q, C, R, K, par, cpt)
    seen = [W.choice(f"seen{f}", [None, 1, 0] if F == 2 else [None, 1]) for f in range(F)]
    W.require(None in seen)
    x = torch.full((1, 4), math.nan)
    for f, v in enumerate(seen):
        if v is not None:
            x[0, q[f]] = float(v)
    from spflow.utils.sampling_context import SamplingContext
    ch, rep = W.tensor("ch", (1, 1), "int", lo=0, hi=C), W.tensor("rep", (1,), "int", lo=0, hi=R)
    ctx = SamplingContext(channel_index=ch.clone(), mask=torch.ones(1, 1, dtype=torch.bool), repetition_index=rep.clone(), is_mpe=mpe)
    out = leaf._sample(data=x.clone(), sampling_ctx=ctx, cache=newcache())
    c, r = W.at(ch, 0, 0), W.at(rep, 0)

    def score(v):
        return sum(W.at(cpt, f, c, r, v[f], 0 if par[f] == -1 else v[par[f]]) for f in range(F))
    states = list(itertools.product(*[range(K) if u is None else [u] for u in seen]))
    W.check("other columns", all(math.isnan(float(out[0, v])) for v in range(4) if v not in q))
    got = tuple(int(float(out[0, q[f]])) for f in range(F))
    W.check("complete", got in states)
    return states, got, score


@harness(H, funcs=["CLTree._sample"], draws=True, seeds=60)
def cltree_exact_law(W):
    """the joint probability of the draws of a row is the probability of the returned state given the observed values"""
    states, got, score = _cltree_case(W, False)
    ds = [d for d in W.draws() if d.kind == "multinomial"]
    p = 1
    for d in ds:
        if len(d.shape) != 2 or not bool((d.shape[0] == 1) and (d.shape[1] == 1)):
            unfamiliar(W, "draw layout")
        p = p * d.prob(0, d.val(0, 0)) / sum(d.prob(0, k) for k in range(2 if W.sym else max(max(s) for s in states) + 1))
    want = W.exp(score(got)) / sum(W.exp(score(s)) for s in states)
    W.check("law", W.eq(p, want) if W.sym else abs(p - want) < 1e-5)


@harness(H, funcs=["HistogramDist.mode", "LeafModule._sample"])
def histogram_mode(W):
    """the most-probable completion of a histogram is the middle of a bin with the largest density"""
    from .c16_density import edges_of
    from spflow.modules.leaves import Histogram
    if W.sym:
        W.st.cur().fresh["open_argmax"] = True
        W.st.cur().fresh["mask_counts"] = True
    nb = W.choice("nb", [1, 2, 3])
    B, C, R = W.dim("B"), W.dim("C"), W.dim("R")
    e, _ = edges_of(W, nb)
    m = Histogram(Scope([1]), bin_edges=[float(i) for i in range(nb + 1)], out_channels=C, num_repetitions=R)
    m.bin_edges = e
    set_params(W, m)
    ctx, ch, mask, rep = mkctx(W, B, 1, C, R, True)
    x, miss, _ = W.data("x", (B, 2))
    out = m._sample(data=x.clone(), sampling_ctx=ctx, cache=newcache())
    E = [W.at(e, k) for k in range(nb + 1)]
    p = lambda b, k: W.at(m.probs, 0, W.at(ch, b, 0), W.at(rep, b), k)

    def ok(b, k):
        """if the value lies in bin k, it is its middle and no bin is denser"""
        v = W.at(out, b, 1)
        inside = W.and_(W.at(mask, b, 0), miss(b, 1), W.le(E[k], v), W.lt(v, E[k + 1]))
        tol = 0 if W.sym else 1e-5
        mid = W.eq(v + v, E[k] + E[k + 1]) if W.sym else abs(2 * v - E[k] - E[k + 1]) < 1e-4
        return W.implies(inside, W.and_(mid, *[W.le(p(b, j) * (E[k + 1] - E[k]), p(b, k) * (E[j + 1] - E[j]) + tol) for j in range(nb)]))
    for k in range(nb):
        W.check_all(f"bin{k}", (B,), lambda b: ok(b, k))
    W.check_all("inside", (B,), lambda b: W.implies(W.and_(W.at(mask, b, 0), miss(b, 1)), W.and_(W.le(E[0], W.at(out, b, 1)), W.lt(W.at(out, b, 1), E[nb]))))


@harness(H, funcs=["CLTree._sample"], seeds=60)
def cltree_mpe(W):
    """most-probable completion returns a state no completion of the observed values exceeds"""
    states, got, score = _cltree_case(W, True)
    for s in states:
        W.check("maximal", score(s) <= score(got) + (0 if W.sym else 1e-5))


@harness(H, funcs=["Histogram._sample", "HistogramDist.sample"], sym=False, seeds=12)
def histogram_law(W):
    histogram_freq(W, False)


def histogram_freq(W, soft):
    from spflow.modules.leaves import Histogram
    torch.manual_seed(W.rng.randrange(10 ** 9))
    C, R, K = W.dim("C"), W.dim("R"), W.dim("K", 2, 5)
    edges = torch.cumsum(torch.cat([torch.tensor([W.rng.uniform(-2, 2)]), W.tensor("w", (K,), "pos")]), 0)
    leaf = Histogram(Scope([1]), bin_edges=edges, logits=W.tensor("l", (1, C, R, K)))
    n = 4000
    ch, rep = torch.randint(C, (n, 1)), torch.randint(R, (n,))
    out = leaf._sample(data=torch.full((n, 2), math.nan), sampling_ctx=routed(ch, torch.ones(n, 1, dtype=torch.bool), rep, C, R, soft), cache=newcache())
    s = out[:, 1].detach()
    for i in range(K):
        for half in (0, 1):
            lo, hi = float(edges[i]), float(edges[i + 1])
            mid = (lo + hi) / 2
            a, b = (lo, mid) if half == 0 else (mid, hi)
            y = torch.tensor([[0.0, (a + b) / 2]])
            p = (leaf.log_likelihood(y).exp()[0, 0] * (b - a)).detach()
            freq_ok(W, "law", (s >= a) & (s < b), p[ch[:, 0], rep], f"bin {i} half {half}")


# ---------------------------------------------------------------- whole circuits
@harness(H, funcs=["Module.sample_with_evidence", "*._sample (composed)"], sym=False, seeds=60, conc_time=120)
def circuit_law(W):
    circuit_freq(W, lambda m, x, ev: m.sample_with_evidence(evidence=x) if ev else m.sample(data=x))


def circuit_freq(W, draw):
    """frequencies of the completions of one evidence row = exact conditional probabilities (6 sigma, 4000 draws)."""
    from ..gen import rand_circuit, states, domain, NoCircuit
    from ..world import Skip
    r = W.rng
    torch.manual_seed(r.randrange(10 ** 9))
    try:
        m, N = rand_circuit(W, N=r.randint(2, 4), splits=("consecutive", "interleaved"), single_root=True, gaps=r.random() < 0.2)
    except NoCircuit:
        raise Skip()
    if m.out_shape.features != 1:
        raise Skip()
    dom = m._dom
    p0 = r.choice([0.0, 0.4, 0.7])
    fixed = {v: r.choice(domain(dom[v])) for v in dom if r.random() < p0}
    if len(fixed) == len(dom):
        fixed.pop(sorted(fixed)[0])
    W.used["desc"] = repr(m) + f" fixed={fixed}"
    n = 4000
    x = torch.full((n, N), math.nan)
    for v, a in fixed.items():
        x[:, v] = a
    for v in range(N):
        if v not in dom:
            x[:, v] = 7.5
    out = draw(m, x.clone(), bool(fixed) or r.random() < 0.5)
    for v in range(N):
        if v in fixed or v not in dom:
            W.check("evidence_kept", bool((out[:, v] == x[:, v]).all()))
    st = states(dom, N, fixed)
    p = m.log_likelihood(st)[:, 0, 0, 0].detach().softmax(0)
    cols = sorted(dom)
    tot = 0
    for i in range(len(st)):
        hit = (out[:, cols] == st[i][cols]).all(1)
        tot += int(hit.sum())
        freq_ok(W, "law", hit, p[i].expand(n), f"state {st[i][cols].tolist()}")
    W.check("support", tot == n)


from .c16_density import piecewise_law  # noqa: E402
harness(H, funcs=["PiecewiseLinear._sample", "PiecewiseLinearDist.sample"], sym=False, seeds=16, conc_time=40)(piecewise_law)


from .c17_classifier import classifier_law  # noqa: E402
harness(H, funcs=["RatSPN._sample", "Einet._sample", "NaiveBayes._sample"], sym=False, seeds=24, conc_time=60)(classifier_law)


@harness(H, funcs=["SOCS.sample", "SOCS._sample", "SOSModel.sample", "build_abs_weight_proposal", "SignedCategorical"], sym=False, seeds=30, conc_time=100)
def socs_law(W):
    """squared circuits: components are chosen by their mass and the chain inside a component has its squared output as
    stationary law; frequencies of all joint states against the exact density (6 sigma, 3000 draws, default chain length)."""
    from spflow.modules.sos.socs import SOCS
    from spflow.utils.cache import Cache
    from .c18_sos import _tree, _inst, _states
    from ..world import Skip
    r = W.rng
    torch.manual_seed(r.randrange(10 ** 6))
    n, K = r.randint(1, 3), 2
    if r.random() < 0.3:
        from spflow.zoo.sos.models import SOSModel
        m = SOSModel(num_variables=n, num_squares=r.randint(1, 2), num_input_units=2, num_sum_units=2, input_layer="categorical",
                     input_layer_kwargs={"num_categories": K}, region_graph="rnd-bt", seed=r.randrange(100), complex=r.random() < 0.3)
    else:
        t = _tree(W, list(range(n)))
        m = SOCS([_inst(W, t, K, 1, r.random() < 0.7, {}, 1) for _ in range(r.randint(1, 3))])
    if tuple(m.out_shape) != (1, 1, 1):
        raise Skip()
    x = _states(range(n), K)
    p = m.log_likelihood(x).exp().flatten().detach()
    c = Cache()
    c.extras["socs_mcmc_steps"] = 40 if p.min() > 0.02 else 150
    N = 3000
    with torch.no_grad():
        out = m.sample(num_samples=N, cache=c) if r.random() < 0.5 else m.sample(data=torch.full((N, n), math.nan), cache=c)
    W.check("shape", tuple(out.shape) == (N, n))
    W.check("filled", not bool(torch.isnan(out).any()))
    for i in range(len(x)):
        freq_ok(W, "law", (out == x[i]).all(1), p[i].expand(N), f"state {x[i].tolist()}")
