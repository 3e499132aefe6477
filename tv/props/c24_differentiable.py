"""C24: differentiable (one-hot) sampling is the same sampling: from the one-hot encoding of any integer routing state every
layer hands its inputs the one-hot encoding of what it hands them in integer mode, and its draws follow the same law."""
import math
import torch
from ..runner import harness
from ..lib import *
from ..layers import LAYERS, FUNCS, BIG, SA, SB
from .c11_law import newcache, one_categorical, unfamiliar
H = []


def soft(W, idx, n):
    return torch.nn.functional.one_hot(idx, n).to(torch.get_default_dtype())


def pair_ctx(W, B, width, C, R, mpe):
    """an arbitrary valid routing state, as integers and one-hot encoded"""
    from spflow.utils.sampling_context import SamplingContext
    hard, ch, mask, rep = mkctx(W, B, width, C, R, mpe)
    oh = SamplingContext(channel_index=soft(W, ch, C), mask=mask.clone(), repetition_index=soft(W, rep, R), is_mpe=mpe, is_differentiable=True)
    return hard, oh


def cached_lls(stubs):
    from spflow.utils.cache import Cache
    c = Cache()
    for s in stubs:
        c["log_likelihood"][s] = s._ll
    return c


def _same(lay, evidence, holes=False):
    def run(W):
        B = W.dim("B")
        stubs = []

        def mk(name, F, C, R, scope):
            s, _ = stub(W, name, F, C, R, B, scope)
            if holes and (len(stubs) or not lay.startswith("esum")):      # some branch stays possible
                h = torch.tensor([W.rng.random() < 0.3 for _ in range(s._ll.numel())]).reshape(s._ll.shape)
                if lay == "rep":
                    h[..., :1] = False
                else:
                    h[:, :, :1] = False
                s._ll = s._ll.masked_fill(h, -math.inf)
            stubs.append(s)
            return s
        if lay == "rep":
            from spflow.modules.sums import RepetitionMixingLayer
            F, C, R = 1, W.dim("C"), W.dim("R")
            m = RepetitionMixingLayer(mk("a", F, C, R, Scope(list(range(64)))), out_channels=C, num_repetitions=R)
        else:
            m, (F, C, R) = ALL[lay](W, mk)
        set_params(W, m, own_only=True)
        wide = W.choice("width", ["full", "one"])
        hard, oh = pair_ctx(W, B, F if wide == "full" else 1, C, R, True)
        D = 64 if not any(isinstance(s.out_shape.features, torch.SymInt) for s in stubs) else 2
        x = W.tensor("x", (B, D))
        ca, cb = newcache(), newcache()
        if evidence:
            ca, cb = cached_lls(stubs), cached_lls(stubs)
            if lay in ("einsum_split", "einsum_halves", "linsum_halves"):
                m.log_likelihood(x, cache=ca)
                m.log_likelihood(x, cache=cb)
        m._sample(data=x, sampling_ctx=hard, cache=ca)
        first = [sample_calls(s) for s in stubs]
        for s in stubs:
            s.calls = []
        m._sample(data=x, sampling_ctx=oh, cache=cb)
        for n, s in enumerate(stubs):
            h, d = first[n], sample_calls(s)
            W.check(f"calls{n}", len(h) == len(d))
            for (_, hc, hm, hr, _), (_, dc, dm, dr, _) in zip(h, d):
                w = hm.shape[1]
                Cs, Rs = s.out_shape.channels, s.out_shape.repetitions
                W.check(f"shape{n}", bool(dc.shape[1] == hc.shape[1]) and bool(dc.shape[2] == Cs) and bool(dr.shape[1] == Rs))
                W.check_eq(f"mask{n}", dm, (B, w), lambda b, f: W.at(hm, b, f))
                chan = lambda b, f, k: W.implies(W.at(hm, b, f), W.same(W.at(dc, b, f, k), W.ite(W.eq(W.at(hc, b, f), k), 1, 0)))
                if lay.endswith("halves") and bool(w == 2 * F):      # the two halves of the features, one after the other
                    for z in range(2):
                        W.check_all(f"channel{n}half{z}", (B, F, Cs), lambda b, f, k: chan(b, z * F + f, k))
                else:
                    W.check_all(f"channel{n}", (B, w, Cs), chan)
                W.check_all(f"repetition{n}", (B, Rs), lambda b, k: W.same(W.at(dr, b, k), W.ite(W.eq(W.at(hr, b), k), 1, 0)))
    run.__name__ = ("impossible_" if holes else "same_") + lay + ("_evidence" if evidence and not holes else "")
    run.__doc__ = "integer and one-hot routing of the same state reach the same inputs in the same channels and repetitions."
    return run



def x_esum_one(W, mk):
    """one input has a single channel, shared by all"""
    from spflow.modules.sums import ElementwiseSum
    F, CO, R = (W.dim(n) for n in ("F", "CO", "R"))
    C = W.dim("C", 2)
    k = W.choice("single", [0, 1])
    return ElementwiseSum([mk("ab"[i], F, 1 if i == k else C, R, BIG) for i in range(2)], out_channels=CO, num_repetitions=R), (F, C * CO, R)


def x_eprod_one(W, mk):
    from spflow.modules.products import ElementwiseProduct
    F, R = (W.dim(n) for n in ("F", "R"))
    C = W.dim("C", 2)
    k = W.choice("single", [0, 1])
    return ElementwiseProduct([mk("ab"[i], F, 1 if i == k else C, R, (SA, SB)[i]) for i in range(2)]), (F, C, R)


def x_oprod_one(W, mk):
    from spflow.modules.products import OuterProduct
    F, R = (W.dim(n) for n in ("F", "R"))
    C = W.dim("C", 2)
    k = W.choice("single", [0, 1])
    return OuterProduct([mk("ab"[i], F, 1 if i == k else C, R, (SA, SB)[i]) for i in range(2)]), (F, C, R)


def x_oprod3(W, mk):
    from spflow.modules.products import OuterProduct
    F, C, D, E, R = (W.dim(n) for n in ("F", "C", "D", "E", "R"))
    sc = [Scope(list(range(20))), Scope(list(range(20, 40))), Scope(list(range(40, 64)))]
    return OuterProduct([mk("a", F, C, R, sc[0]), mk("b", F, D, R, sc[1]), mk("c", F, E, R, sc[2])]), (F, C * D * E, R)


def x_einsum_halves(W, mk):
    from spflow.modules.einsum import EinsumLayer
    from spflow.modules.ops.split import SplitMode
    Q, C, CO, R = (W.dim(n) for n in ("Q", "C", "CO", "R"))
    return EinsumLayer(mk("a", Q * 2, C, R, BIG), out_channels=CO, split_mode=SplitMode.consecutive(num_splits=2)), (Q, CO, R)


def x_linsum_halves(W, mk):
    from spflow.modules.einsum import LinsumLayer
    from spflow.modules.ops.split import SplitMode
    Q, C, CO, R = (W.dim(n) for n in ("Q", "C", "CO", "R"))
    mode = W.choice("mode", ["consecutive", "interleaved"])
    return LinsumLayer(mk("a", Q * 2, C, R, BIG), out_channels=CO, split_mode=getattr(SplitMode, mode)(num_splits=2)), (Q, CO, R)


def x_oprod_split(W, mk):
    from spflow.modules.products import OuterProduct
    from spflow.modules.ops import SplitConsecutive, SplitInterleaved
    Q, C, R = (W.dim(n) for n in ("Q", "C", "R"))
    K = W.choice("split", [SplitConsecutive, SplitInterleaved])
    return OuterProduct(K(mk("a", Q * 2, C, R, BIG), num_splits=2), num_splits=2), (Q, C * C, R)


EXTRA = {k[2:]: v for k, v in list(globals().items()) if k.startswith("x_")}
XFUNCS = {"esum_one": "ElementwiseSum", "eprod_one": "ElementwiseProduct", "oprod_one": "OuterProduct", "oprod3": "OuterProduct",
          "einsum_halves": "EinsumLayer", "linsum_halves": "LinsumLayer", "oprod_split": "OuterProduct"}
ALL = {**LAYERS, **EXTRA}
FUNCS = {**FUNCS, **XFUNCS}
HAS_CHOICE = ("sum", "esum", "rep", "einsum", "linsum", "einsum_split", "sumconv")
for _l in ALL:
    for _e in ((False, True) if _l in HAS_CHOICE + ("esum_one", "einsum_halves", "linsum_halves") else (False,)):
        harness(H, funcs=[FUNCS[_l] + "._sample", "sample_from_logits", "SIMPLE", "index_one_hot", "SamplingContext.with_routing"], seeds=40,
                sym_time=150)(_same(_l, _e))
        if _e:
            harness(H, funcs=[FUNCS[_l] + "._sample", "index_one_hot"], seeds=40, sym=False)(_same(_l, True, True))


# ---------------------------------------------------------------- sampling: Gumbel-max over the very probabilities of integer mode
def noise(W, calls):
    """contract of sample_gumbel towards its caller: an arbitrary tensor of the requested shape"""
    from spflow.utils import sampling_context as sc
    if not hasattr(sc, "sample_gumbel"):
        unfamiliar(W, "no sample_gumbel")
    orig = sc.sample_gumbel

    def stub_gumbel(shape, *a, **k):
        g = W.tensor(f"gumbel{len(calls)}", tuple(shape))
        calls.append((list(shape), g))
        return g
    sc.sample_gumbel = stub_gumbel
    return lambda: setattr(sc, "sample_gumbel", orig)


def _law(lay, evidence):
    def run(W):
        B = W.dim("B")
        stubs = []

        def mk(name, F, C, R, scope):
            s, _ = stub(W, name, F, C, R, B, scope)
            stubs.append(s)
            return s
        if lay == "rep":
            from spflow.modules.sums import RepetitionMixingLayer
            F, C, R = 1, W.dim("C"), W.dim("R")
            m = RepetitionMixingLayer(mk("a", F, C, R, Scope(list(range(64)))), out_channels=C, num_repetitions=R)
        else:
            m, (F, C, R) = ALL[lay](W, mk)
        set_params(W, m, own_only=True)
        hard, oh = pair_ctx(W, B, F, C, R, False)
        tau = W.choice("tau", [1.0, 0.5, 3.0])
        oh.tau = tau
        x = W.tensor("x", (B, 2))
        ca, cb = newcache(), newcache()
        if evidence:
            ca, cb = cached_lls(stubs), cached_lls(stubs)
            if lay == "einsum_split":
                m.log_likelihood(x, cache=ca)
                m.log_likelihood(x, cache=cb)
        m._sample(data=x, sampling_ctx=hard, cache=ca)
        val, p = one_categorical(W, B, F)
        ndraw = len(W.draws())
        first = [sample_calls(s) for s in stubs]
        for s in stubs:
            s.calls = []
        calls = []
        undo = noise(W, calls)
        try:
            m._sample(data=x, sampling_ctx=oh, cache=cb)
        finally:
            undo()
        if len(calls) != 1 or len(W.draws()) != ndraw:
            unfamiliar(W, "differentiable draw organised differently")
        shape, g = calls[0]
        K = shape[-1]
        if len(shape) == 3:
            G = lambda b, f, k: W.at(g, b, f, k)
        elif len(shape) == 2:
            G = lambda b, f, k: W.at(g, b * F + f, k)
        else:
            unfamiliar(W, "noise layout")
        score = lambda b, f, k: W.log(p(b, f, k)) + G(b, f, k)
        # the branch each mode takes, read off the inputs: integer mode takes val, one-hot mode the Gumbel-max winner
        best = (lambda b, f: W.argmax(K, lambda k: score(b, f, k))) if W.sym else (
            lambda b, f: max(range(int(K)), key=lambda k: score(b, f, k)))
        s0, h0, d0 = stubs[0], first[0][0], [sample_calls(s)[0] for s in stubs]
        full = lambda t: (lambda b, f, *k: W.at(t, b, f, *k))
        if lay == "esum":
            for i, s in enumerate(stubs):
                for j in range(len(stubs)):
                    W.check_all(f"taken{i}_{j}", (B, F), lambda b, f: W.implies(
                        W.at(d0[i][2], b, f), W.le(score(b, f, j), score(b, f, i) + (0 if W.sym else 1e-6))))
            W.check_all("one_taken", (B, F), lambda b, f: W.and_(
                W.eq_bool(W.or_(*[W.at(d[2], b, f) for d in d0]), W.at(hard.mask, b, f)), W.not_(W.and_(*[W.at(d[2], b, f) for d in d0]))))
        elif lay == "rep":
            W.check_all("taken", (B, R), lambda b, k: W.same(W.at(d0[0][3], b, k), W.ite(W.eq(best(b, 0), k), 1, 0)))
        elif lay == "einsum":
            D = stubs[1].out_shape.channels
            W.check_all("taken_left", (B, F, stubs[0].out_shape.channels), lambda b, f, k: W.same(
                W.at(d0[0][1], b, f, k), W.ite(W.eq(W.fdiv(best(b, f), D), k), 1, 0)))
            W.check_all("taken_right", (B, F, D), lambda b, f, k: W.same(
                W.at(d0[1][1], b, f, k), W.ite(W.eq(W.fmod(best(b, f), D), k), 1, 0)))
        elif lay == "einsum_split":
            D = s0.out_shape.channels
            t = d0[0][1]
            W.check_all("taken_left", (B, F, D), lambda b, f, k: W.same(W.at(t, b, 2 * f, k), W.ite(W.eq(W.fdiv(best(b, f), D), k), 1, 0)))
            W.check_all("taken_right", (B, F, D), lambda b, f, k: W.same(W.at(t, b, 2 * f + 1, k), W.ite(W.eq(W.fmod(best(b, f), D), k), 1, 0)))
        else:
            for i, s in enumerate(stubs):
                W.check_all(f"taken{i}", (B, F, K), lambda b, f, k: W.same(W.at(d0[i][1], b, f, k), W.ite(W.eq(best(b, f), k), 1, 0)))
    run.__name__ = f"law_{lay}" + ("_evidence" if evidence else "")
    run.__doc__ = "the one-hot draw is the Gumbel-max winner over exactly the probabilities integer mode draws with, at every temperature."
    return run


for _l in HAS_CHOICE:
    for _e in (False, True):
        harness(H, funcs=[FUNCS[_l] + "._sample", "SIMPLE", "sample_categorical_differentiably"], draws=True, seeds=40, sym_time=150)(_law(_l, _e))


# ---------------------------------------------------------------- the straight-through one-hot draw itself
@harness(H, funcs=["SIMPLE", "sample_categorical_differentiably", "sample_from_logits"])
def simple_value(W):
    """the value is exactly the one-hot vector of the maximiser, whatever the temperature and whichever the dimension."""
    from spflow.utils import sampling_context as sc
    B, K, F = W.dim("B"), W.dim("K"), W.dim("F")
    x = W.tensor("x", (B, K, F))
    tau = W.choice("tau", [1.0, 0.25, 4.0])
    how = W.choice("how", ["logits", "log_weights", "from_logits"])
    if how == "from_logits":
        y = sc.sample_from_logits(x, dim=1, is_mpe=True, is_differentiable=True, tau=tau)
    else:
        y = sc.SIMPLE(**{how: x}, dim=1, is_mpe=True, tau=tau)
    if W.sym:
        W.check_all("one_hot", (B, K, F), lambda b, k, f: W.same(W.at(y, b, k, f), W.ite(W.eq(W.argmax(K, lambda j: W.at(x, b, j, f)), k), 1, 0)))
    else:
        W.check("one_hot", bool(((y - torch.nn.functional.one_hot(x.argmax(1), int(K)).movedim(-1, 1)).abs() < 1e-6).all()))


@harness(H, funcs=["SIMPLE", "sample_gumbel"], sym=False, seeds=60)
def simple_gradient(W):
    """backward through a draw is backward through the softmax of the logits at the given temperature (straight-through)."""
    from spflow.utils import sampling_context as sc
    r = W.rng
    torch.manual_seed(r.randrange(10 ** 9))
    x = torch.randn(r.randint(1, 3), r.randint(1, 4), r.randint(1, 3), requires_grad=True)
    d, tau, mpe = r.randrange(3), r.choice([1.0, 0.3, 2.0]), r.random() < .5
    c = torch.randn_like(x)
    y = sc.SIMPLE(logits=x, dim=d, is_mpe=mpe, tau=tau)
    W.check("one_hot", bool((((y - y.round()).abs() < 1e-6).all() and ((y.sum(d) - 1).abs() < 1e-6).all()) & (y > -1e-6).all()))
    (g,) = torch.autograd.grad((y * c).sum(), x)
    (h,) = torch.autograd.grad((torch.softmax(x / tau, d) * c).sum(), x)
    W.check("gradient", bool(((g - h).abs() < 1e-6 * (1 + h.abs())).all()))


@harness(H, funcs=["SIMPLE", "sample_gumbel"], sym=False, seeds=30)
def simple_frequency(W):
    """draws have the softmax probabilities, independently of the temperature (6 sigma)."""
    from spflow.utils import sampling_context as sc
    from .c11_law import freq_ok
    r = W.rng
    torch.manual_seed(r.randrange(10 ** 9))
    K, n = r.randint(1, 5), 20000
    x = torch.randn(K) * r.choice([.3, 1.0, 3.0])
    if K > 1 and r.random() < .3:
        x[r.randrange(K)] = -math.inf
    y = sc.SIMPLE(logits=x.expand(n, K), dim=-1, is_mpe=False, tau=r.choice([1.0, .2, 5.0]))
    p = x.softmax(0)
    for k in range(K):
        freq_ok(W, "law", y[:, k] > .5, p[k].expand(n), f"outcome {k}")
    # consecutive draws are independent
    if K > 1:
        a, b = y[::2, 0] > .5, y[1::2, 0] > .5
        freq_ok(W, "independent", a & b, (p[0] ** 2).expand(n // 2), "pairs")


# ---------------------------------------------------------------- leaves
from .c11_law import _leaf_routed, _leaf_law, leaf_cases, routed, CONT, circuit_freq, histogram_freq, freq_ok  # noqa: E402


def simple_binomial(leaf):
    """the default relaxation of binomial leaves is a documented normal approximation; the exact one is the contract"""
    from spflow.modules.leaves.binomial import BinomialDifferentiableSamplingMethod as M
    if hasattr(leaf, "differentiable_sampling_method"):
        leaf.differentiable_sampling_method = M.SIMPLE
    return leaf


for _f in leaf_cases():
    harness(H, funcs=["LeafModule._sample", "*WithDifferentiableSampling*.rsample"], sym=False, seeds=10)(_leaf_law(_f, True))


_SOFT_LEAF = ["LeafModule._sample", "LeafModule._slice_sampling_context", "LeafModule._resolve_scope_columns", "index_tensor", "index_one_hot"]


@harness(H, funcs=_SOFT_LEAF)
def soft_leaf_routed(W):
    _leaf_routed(W, [2, 0], 3, soft=True)


@harness(H, funcs=_SOFT_LEAF)
def soft_leaf_routed_alone(W):
    _leaf_routed(W, [1], 2, soft=True)


@harness(H, funcs=_SOFT_LEAF)
def soft_leaf_routed_conditional(W):
    _leaf_routed(W, [2, 0], 4, [3], soft=True)


_RECORDS = _SOFT_LEAF + ["LeafModule._collect_leaf_param_record", "LeafModule._select_param_repetition", "LeafModule._select_param_channel",
                         "LeafModule._normalize_param_tensor_for_routing", "SamplingContext.leaf_param_records"]


@harness(H, funcs=_RECORDS)
def leaf_records_routed(W):
    _leaf_routed(W, [2, 0], 3, records=True)


@harness(H, funcs=_RECORDS)
def soft_leaf_records_routed(W):
    _leaf_routed(W, [2, 0], 3, soft=True, records=True)


@harness(H, funcs=_RECORDS)
def leaf_tables_routed(W):
    """the same for shared parameters with further axes, whatever the number of rows, features, channels and repetitions"""
    _leaf_routed(W, [2, 0], 3, records="tables")


@harness(H, funcs=["LeafModule._sample", "index_one_hot"], sym=False, seeds=120)
def leaf_mpe_same(W):
    """most-probable completion writes the same entries with the same values in both modes."""
    r = W.rng
    fam = W.choice("fam", sorted(leaf_cases()))
    torch.manual_seed(r.randrange(10 ** 9))
    q = W.choice("query", [[0], [3, 1], [1, 3, 2]])
    F, C, R = len(q), W.dim("C"), W.dim("R")
    leaf = simple_binomial(leaf_cases()[fam](W, Scope(q), F, C, R))
    n, D = 6, 4
    w = r.choice([1, F, D])
    ch, rep, mask = torch.randint(C, (n, w)), torch.randint(R, (n,)), torch.rand(n, w) < 0.8
    x = torch.full((n, D), math.nan)
    obs = torch.rand(n, D) < 0.3
    x[obs] = 1.0
    a, b = (leaf._sample(data=x.clone(), sampling_ctx=routed(ch, mask, rep, C, R, s, is_mpe=True), cache=newcache()).detach() for s in (False, True))
    W.check("same", bool((((a - b).abs() < 1e-6 * (1 + a.abs())) | (a.isnan() & b.isnan())).all()))


@harness(H, funcs=["LeafModule._collect_leaf_param_record", "LeafModule._select_param_repetition", "LeafModule._select_param_channel",
                   "LeafModule._normalize_param_tensor_for_routing", "SamplingContext.leaf_param_records"], sym=False, seeds=400)
def leaf_records(W):
    """a sampled leaf reports, for every row it completes, the parameters of the routed channel and repetition, and which
    of its variables it completed."""
    r = W.rng
    fam = W.choice("fam", sorted(leaf_cases()))
    torch.manual_seed(r.randrange(10 ** 9))
    q = W.choice("query", [[0], [3, 1], [1, 3, 2]])
    F, C, R = len(q), W.dim("C"), W.dim("R")
    leaf = simple_binomial(leaf_cases()[fam](W, Scope(q), F, C, R))
    n, D = r.choice([1, F, C, 6]), 4           # as many rows as features or channels: shapes that could be mistaken for each other
    soft, w = r.random() < .5, r.choice([1, F, D])
    ch, rep, mask = torch.randint(C, (n, w)), torch.randint(R, (n,)), torch.rand(n, w) < 0.8
    x = torch.full((n, D), math.nan)
    obs = torch.rand(n, D) < 0.3
    x[obs] = 1.0
    ctx = routed(ch, mask, rep, C, R, soft, is_mpe=r.random() < .5, return_leaf_params=True)
    leaf._sample(data=x.clone(), sampling_ctx=ctx, cache=newcache())
    rec = ctx.leaf_param_records()
    col = lambda j: 0 if w == 1 else (j if w == F else q[j])
    todo = torch.stack([mask[:, col(j)] & ~obs[:, v] for j, v in enumerate(q)], 1)
    if not bool(todo.any()):
        W.check("none", len(rec) == 0)
        return
    W.check("one_record", len(rec) == 1 and ctx.leaf_param_records_for(id(leaf)) == rec)
    rc = rec[0]
    W.check("identity", rc.leaf_id == id(leaf) and tuple(rc.scope_cols) == tuple(q) and rc.leaf_type == type(leaf).__name__)
    W.check("active", bool((rc.active_mask == todo).all()))
    pars = dict(leaf.params())
    W.check("names", set(pars) <= set(rc.params))
    rows = todo.any(1)
    for k, v in pars.items():
        v = v.detach()
        got = rc.params[k].detach()
        for b in range(n):
            for j in range(F):
                if not bool(todo[b, j]):
                    continue
                c = int(ch[b, col(j)])
                want = v[j, min(c, v.shape[1] - 1), min(int(rep[b]), v.shape[2] - 1)]
                W.check("parameter", bool(((got[b, j] - want).abs() < 1e-6 * (1 + want.abs())).all()), lambda: f"{fam} {k}: {got[b, j]} instead of {want}")


@harness(H, funcs=["Histogram._sample", "HistogramDistWithDifferentiableSampling.rsample"], sym=False, seeds=10)
def soft_histogram(W):
    """one-hot routed histograms are sampled from the density of the routed channel and repetition."""
    histogram_freq(W, True)


@harness(H, funcs=["BinomialWithDifferentiableSamplingNormal.rsample"], sym=False, seeds=8)
def soft_binomial_normal(W):
    """the default relaxation of the binomial leaf: the rounded normal with the binomial's mean and variance, clipped to
    {0..n} (a documented approximation of the exact law)."""
    torch.manual_seed(W.rng.randrange(10 ** 9))
    C, R = W.dim("C"), W.dim("R")
    leaf = leaf_cases()["binomial"](W, Scope([0]), 1, C, R)
    n = 4000
    ch, rep = torch.randint(C, (n, 1)), torch.randint(R, (n,))
    out = leaf._sample(data=torch.full((n, 1), math.nan), sampling_ctx=routed(ch, torch.ones(n, 1, dtype=torch.bool), rep, C, R, True), cache=newcache())
    s = out[:, 0].detach()
    s = torch.where((s - s.round()).abs() < 1e-5, s.round(), s)
    N, p = leaf.total_count[0].detach(), leaf.probs[0].detach()
    mean, sd = N * p, (N * p * (1 - p)).sqrt()
    z = torch.distributions.Normal(0.0, 1.0)
    for v in range(int(N.max()) + 1):
        up = torch.where(v >= N, torch.ones_like(p), z.cdf((v + .5 - mean) / sd))
        lo = torch.zeros_like(p) if v == 0 else z.cdf((v - .5 - mean) / sd)
        q = torch.where(v > N, torch.zeros_like(p), up - lo)
        freq_ok(W, "law", s == v, q[ch[:, 0], rep], f"value {v}")


# ---------------------------------------------------------------- whole circuits
def soft_root(m, n, mpe=False, records=False):
    from spflow.utils.sampling_context import SamplingContext
    Fo, C, R = (int(v) for v in tuple(m.out_shape))
    ch, rep = torch.zeros(n, 1, C), torch.zeros(n, R)
    ch[:, :, 0] = 1
    rep[:, 0] = 1
    return SamplingContext(channel_index=ch, mask=torch.ones(n, 1, dtype=torch.bool), repetition_index=rep, is_mpe=mpe, is_differentiable=True,
                           return_leaf_params=records)


def draw_soft(m, x, ev, mpe=False):
    from spflow.utils.cache import Cache
    cache = Cache()
    if ev:
        m.log_likelihood(x, cache=cache)
    out = m._sample(data=x.clone(), sampling_ctx=soft_root(m, x.shape[0], mpe), cache=cache).detach()
    return torch.where((out - out.round()).abs() < 1e-5, out.round(), out)


@harness(H, funcs=["*._sample (composed, differentiable)"], sym=False, seeds=50, conc_time=120)
def soft_circuit_law(W):
    circuit_freq(W, draw_soft)


@harness(H, funcs=["*._sample (composed, differentiable)"], sym=False, seeds=120, conc_time=60)
def soft_circuit_mpe(W):
    """most-probable completion of a circuit is the same in both modes."""
    from ..gen import rand_circuit, domain, NoCircuit
    from ..world import Skip
    r = W.rng
    torch.manual_seed(r.randrange(10 ** 9))
    try:
        m, N = rand_circuit(W, leaves=("Bernoulli", "Categorical3", "Categorical2", "Normal"), splits=("consecutive", "interleaved"),
                            single_root=True, gaps=r.random() < 0.3)
    except NoCircuit:
        raise Skip()
    n, dom = 20, m._dom
    x = torch.full((n, N), math.nan)
    p = r.choice([0.0, 0.3, 0.8])
    for v in range(N):
        o = torch.rand(n) < p
        if v not in dom:
            x[o, v] = 7.25
        elif dom[v] == "Normal":
            x[o, v] = torch.randn(int(o.sum()))
        else:
            x[o, v] = torch.tensor([r.choice(domain(dom[v])) for _ in range(int(o.sum()))])
    ev = r.random() < .7
    a = (m.sample_with_evidence(evidence=x.clone(), is_mpe=True) if ev else m.mpe(data=x.clone())).detach()
    b = draw_soft(m, x.clone(), ev, True)
    obs = ~x.isnan()
    W.check("evidence_kept", bool((b[obs] == x[obs]).all()))
    W.check("same", bool((((a - b).abs() < 1e-5) | (a.isnan() & b.isnan())).all()), lambda: f"{a} {b}")


@harness(H, funcs=["to_one_hot", "index_one_hot", "index_tensor"], seeds=30)
def one_hot_codes(W):
    """the one-hot code of an index is 1 exactly at it, on the requested axis; selecting with it equals selecting with the index"""
    from spflow.utils.sampling_context import to_one_hot, index_tensor
    A, B, K = W.dim("A"), W.dim("B"), W.dim("K")
    i = W.tensor("i", (A, B), "int", lo=0, hi=K)
    dim = W.choice("axis", [0, 1, 2, -1, -2, -3])
    o = to_one_hot(i, dim=dim, dim_size=K)
    p = dim % 3
    put = lambda a, b, k: [(k, a, b), (a, k, b), (a, b, k)][p]
    W.check_all("code", (A, B, K), lambda a, b, k: W.same(W.at(o, *put(a, b, k)), W.ite(W.eq(W.at(i, a, b), k), 1, 0)))
    v = W.tensor("v", put(A, B, K))
    picked = index_tensor(v, index=o, dim=p, is_differentiable=True)
    W.check_all("select", (A, B), lambda a, b: W.same(W.at(picked, a, b), W.at(v, *put(a, b, W.at(i, a, b)))))
