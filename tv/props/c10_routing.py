"""C10: sampling keeps evidence, fills every missing value of the scope with a supported value, and every layer routes a
valid channel / repetition to exactly the features to be sampled, each once.  Routing contracts are proved per layer for an
arbitrary valid sampling context; the end-to-end clause is checked on random circuits (bounded)."""
import itertools
import math
import torch
from ..runner import harness
from ..lib import *
from .c02_product import mksplit, scopes
from .c11_law import ctx_for, newcache, leaf_cases, CONT
from . import c04_ops, c11_law
H = []
for _h in c04_ops.H:
    if _h.name in ("split_routing", "split_by_index_routing", "cat_routing"):
        H.append(_h)
for _h in c11_law.H:
    if _h.name in ("esum_broadcast", "repmix_law", "sum_mpe", "piecewise_routed") or _h.name.startswith("leaf_routed"):
        H.append(_h)


def one_call(W, s, B, rep, tag=""):
    W.check("once" + tag, len(sample_calls(s)) == 1)
    _, c, m, r, _ = sample_calls(s)[0]
    W.check_eq("rep" + tag, r, (B,), rep)
    return c, m


def untouched(W, m, B, F, x, ctx, n=2):
    out = m._sample(data=x, sampling_ctx=ctx, cache=newcache())
    W.check_eq("data_unchanged", out, (B, n), lambda b, f: W.at(x, b, f))


@harness(H, funcs=["Product._sample", "SamplingContext.broadcast_feature_width"])
def product_route(W):
    from spflow.modules.products import Product
    B, F, C, R = (W.dim(n) for n in ("B", "F", "C", "R"))
    s, _ = stub(W, "ll", F, C, R, B, Scope(list(range(64))))
    m = Product(s)
    ctx, ch, mask, rep = mkctx(W, B, 1, C, R, W.choice("mpe", [False, True]))
    untouched(W, m, B, F, W.tensor("x", (B, 2)), ctx)
    c, k = one_call(W, s, B, lambda b: W.at(rep, b))
    W.check_eq("channel", c, (B, F), lambda b, f: W.at(ch, b, 0))
    W.check_eq("mask", k, (B, F), lambda b, f: W.at(mask, b, 0))


@harness(H, funcs=["JointLogLikelihood._sample", "SamplingContext.broadcast_feature_width"])
def joint_route(W):
    """every feature of the wrapped module is sampled in the routed channel and repetition"""
    from spflow.zoo.cms.joint import JointLogLikelihood
    B, F, C, R = (W.dim(n) for n in ("B", "F", "C", "R"))
    s, _ = stub(W, "ll", F, C, R, B, Scope(list(range(64))))
    m = JointLogLikelihood(s)
    ctx, ch, mask, rep = mkctx(W, B, 1, C, R, W.choice("mpe", [False, True]))
    untouched(W, m, B, F, W.tensor("x", (B, 2)), ctx)
    c, k = one_call(W, s, B, lambda b: W.at(rep, b))
    W.check_eq("channel", c, (B, F), lambda b, f: W.at(ch, b, 0))
    W.check_eq("mask", k, (B, F), lambda b, f: W.at(mask, b, 0))


@harness(H, funcs=["BaseProduct._sample", "ElementwiseProduct.map_out_channels_to_in_channels", "ElementwiseProduct.map_out_mask_to_in_mask"])
def eprod_route(W):
    """every input is sampled in the routed channel (an input with a single channel: in that channel)."""
    from spflow.modules.products import ElementwiseProduct
    B, F, R = (W.dim(n) for n in ("B", "F", "R"))
    n = W.choice("n", [2, 3])
    bc = W.choice("broadcast", [None, 0, 1])
    C = W.dim("C", 1 if bc is None else 2, 5)
    sc = scopes(n)
    xs = [stub(W, f"l{i}", F, 1 if bc == i else C, R, B, sc[i])[0] for i in range(n)]
    m = ElementwiseProduct(xs)
    ctx, ch, mask, rep = ctx_for(W, B, F, C, R, W.choice("mpe", [False, True]))
    untouched(W, m, B, F, W.tensor("x", (B, 2)), ctx)
    for i in range(n):
        c, k = one_call(W, xs[i], B, rep, str(i))
        W.check_eq(f"channel{i}", c, (B, F), lambda b, f: W.ite(W.eq(C, 1), 0, ch(b, f)) if bc != i else 0)
        W.check_eq(f"mask{i}", k, (B, F), mask)


@harness(H, funcs=["BaseProduct._sample", "OuterProduct.map_out_channels_to_in_channels", "OuterProduct.map_out_mask_to_in_mask"])
def oprod_route(W):
    """the routed channel is decomposed into one channel per input, first input slowest."""
    from spflow.modules.products import OuterProduct
    B, F, R = (W.dim(n) for n in ("B", "F", "R"))
    n = W.choice("n", [2, 3])
    Cs = [W.dim(f"C{i}") for i in range(n)]
    T = 1
    for c in Cs:
        T = T * c
    sc = scopes(n)
    xs = [stub(W, f"l{i}", F, Cs[i], R, B, sc[i])[0] for i in range(n)]
    m = OuterProduct(xs, num_splits=n)
    ctx, ch, mask, rep = ctx_for(W, B, F, T, R, W.choice("mpe", [False, True]))
    untouched(W, m, B, F, W.tensor("x", (B, 2)), ctx)
    for i in range(n):
        c, k = one_call(W, xs[i], B, rep, str(i))
        step = 1
        for cc in Cs[i + 1:]:
            step = step * cc
        W.check_eq(f"channel{i}", c, (B, F), lambda b, f: W.fmod(W.fdiv(ch(b, f), step), Cs[i]))
        W.check_eq(f"mask{i}", k, (B, F), mask)


@harness(H, funcs=["BaseProduct._sample", "ElementwiseProduct.map_out_channels_to_in_channels", "ElementwiseProduct.map_out_mask_to_in_mask",
                   "SplitConsecutive._sample", "SplitInterleaved._sample"])
def eprod_split_route(W):
    from spflow.modules.products import ElementwiseProduct
    B, Q, C, R = (W.dim(n) for n in ("B", "Q", "C", "R"))
    k = W.choice("k", [2, 3])
    kind = W.choice("split", ["consecutive", "interleaved"])
    s, _ = stub(W, "ll", Q * k, C, R, B, Scope(list(range(64))))
    sp, pos = mksplit(W, s, kind, k, Q * k)
    m = ElementwiseProduct(sp, num_splits=k)
    ctx, ch, mask, rep = ctx_for(W, B, Q, C, R, False)
    untouched(W, m, B, Q, W.tensor("x", (B, 2)), ctx)
    c, mk = one_call(W, s, B, rep)
    W.check("width", W.eq(c.shape[1], Q * k))
    for i in range(k):
        W.check_all(f"channel{i}", (B, Q), lambda b, f: W.eq(W.at(c, b, pos(i, f)), ch(b, f)))
        W.check_all(f"mask{i}", (B, Q), lambda b, f: W.eq_bool(W.at(mk, b, pos(i, f)), mask(b, f)))


@harness(H, funcs=["BaseProduct._sample", "OuterProduct.map_out_channels_to_in_channels", "OuterProduct.map_out_mask_to_in_mask",
                   "SplitConsecutive._sample", "SplitInterleaved._sample"],
         sym_time=100)
def oprod_split_route(W):
    from spflow.modules.products import OuterProduct
    B, Q, R = (W.dim(n) for n in ("B", "Q", "R"))
    C = W.dim("C")
    k = W.choice("k", [2, 3])
    kind = W.choice("split", ["consecutive", "interleaved"])
    s, _ = stub(W, "ll", Q * k, C, R, B, Scope(list(range(64))))
    sp, pos = mksplit(W, s, kind, k, Q * k)
    m = OuterProduct(sp, num_splits=k)
    ctx, ch, mask, rep = ctx_for(W, B, Q, C ** k, R, False)
    untouched(W, m, B, Q, W.tensor("x", (B, 2)), ctx)
    c, mk = one_call(W, s, B, rep)
    W.check("width", W.eq(c.shape[1], Q * k))
    for i in range(k):
        W.check_all(f"channel{i}", (B, Q), lambda b, f: W.eq(W.at(c, b, pos(i, f)), W.fmod(W.fdiv(ch(b, f), C ** (k - 1 - i)), C)))
        W.check_all(f"mask{i}", (B, Q), lambda b, f: W.eq_bool(W.at(mk, b, pos(i, f)), mask(b, f)))


@harness(H, funcs=["Factorize._sample", "Factorize._route_sampling_integer", "Factorize._select_sampling_feature_owners"],
         sym_configs=[{"F": f, "depth": d, "R": r} for f, d, r in ((2, 1, 2), (3, 1, 2), (4, 2, 1))])
def factorize_route(W):
    """input feature i gets the routing of the output feature it is a factor of in the routed repetition."""
    from spflow.modules.rat import Factorize
    import numpy as np
    B, C = W.dim("B"), W.dim("C")
    R = int(W.dim("R"))
    F, depth = int(W.dim("F", 1, 8)), int(W.dim("depth", 0, 2))
    W.require(2 ** depth <= F)
    O = 2 ** depth
    s, _ = stub(W, "ll", F, C, R, B, Scope(list(range(F))))
    m = Factorize([s], depth=depth, num_repetitions=R)
    ctx, ch, mask, rep = ctx_for(W, B, O, C, R, W.choice("mpe", [False, True]))
    untouched(W, m, B, F, W.tensor("x", (B, 2)), ctx)
    c, mk = one_call(W, s, B, rep)
    own = m.indices
    for r in range(R):
        for i in range(F):
            for o in range(O):
                isown = lambda b: W.and_(W.eq(rep(b), r), W.eq(W.at(own, i, o, r), 1))
                W.check_all(f"channel{r}_{i}_{o}", (B,), lambda b: W.implies(isown(b), W.eq(W.at(c, b, i), ch(b, o))))
                W.check_all(f"mask{r}_{i}_{o}", (B,), lambda b: W.implies(isown(b), W.eq_bool(W.at(mk, b, i), mask(b, o))))


@harness(H, funcs=["ProdConv._sample", "upsample_sampling_context"], seeds=30)
def prodconv_route(W):
    """every pixel of a patch is sampled with the routing of that patch"""
    from spflow.modules.conv import ProdConv
    B, C, R, K, P = (W.dim(n) for n in ("B", "C", "R", "K", "P"))
    G = K * P
    s, _ = stub(W, "ll", G * G, C, R, B, Scope(list(range(64))))
    m = ProdConv(s, kernel_size_h=K, kernel_size_w=K, padding_h=0, padding_w=0)
    ctx, ch, mask, rep = ctx_for(W, B, P * P, C, R, False)
    untouched(W, m, B, G * G, W.tensor("x", (B, 2)), ctx)
    c, mk = one_call(W, s, B, rep)
    o = lambda i, j: W.fdiv(i, K) * P + W.fdiv(j, K)
    W.check_all("channel", (B, G, G), lambda b, i, j: W.eq(W.at(c, b, i * G + j), ch(b, o(i, j))))
    W.check_all("mask", (B, G, G), lambda b, i, j: W.eq_bool(W.at(mk, b, i * G + j), mask(b, o(i, j))))


GRIDS = [(k, i, p) for i in range(1, 8) for k in itertools.product(range(1, 4), repeat=2) for p in itertools.product(range(k[0]), range(k[1]))
         if (i + 2 * p[0]) % k[0] == 0 and (i + 2 * p[1]) % k[1] == 0]
SGRIDS = [((2, 2), 2, (1, 1)), ((2, 2), 4, (1, 1)), ((3, 1), 3, (0, 0)), ((1, 2), 2, (0, 1)), ((3, 3), 1, (1, 1)), ((3, 2), 4, (1, 0)), ((2, 3), 2, (0, 2)), ((3, 3), 2, (2, 2))]


@harness(H, funcs=["ProdConv._sample", "upsample_sampling_context"], seeds=60, literal=("grid",), sym_configs=[{"grid": g} for g in SGRIDS])
def prodconv_route_padded(W):
    """rectangular kernels; padding shifts the patches"""
    from spflow.modules.conv import ProdConv
    B, C, R = (W.dim(n) for n in ("B", "C", "R"))
    (KH, KW), I, (PH, PW) = W.choice("grid", SGRIDS if W.sym else GRIDS)
    OH, OW = (I + 2 * PH) // KH, (I + 2 * PW) // KW
    s, _ = stub(W, "ll", I * I, C, R, B, Scope(list(range(I * I))))
    m = ProdConv(s, kernel_size_h=KH, kernel_size_w=KW, padding_h=PH, padding_w=PW)
    ctx, ch, mask, rep = ctx_for(W, B, OH * OW, C, R, False)
    untouched(W, m, B, I * I, W.tensor("x", (B, 2)), ctx)
    c, mk = one_call(W, s, B, rep)
    for f in range(I * I):
        o = ((f // I + PH) // KH) * OW + (f % I + PW) // KW
        W.check_all(f"channel{f}", (B,), lambda b: W.eq(W.at(c, b, f), ch(b, o)))
        W.check_all(f"mask{f}", (B,), lambda b: W.eq_bool(W.at(mk, b, f), mask(b, o)))


@harness(H, funcs=["ProdConv._sample"], sym=False, seeds=80)
def prodconv_uncovered(W):
    """where the patches do not cover the image, sampling is refused: no pixel is routed by a patch it is not in"""
    from spflow.modules.conv import ProdConv
    from spflow.exceptions import ShapeError
    r = W.rng
    K, I = r.randint(2, 5), r.randint(2, 7)
    P = r.randint(0, K - 1)
    O = (I + 2 * P) // K
    W.require((I + 2 * P) % K and O > 0 and O * K < I + P)
    s, _ = stub(W, "ll", I * I, 1, 1, 2, Scope(list(range(I * I))))
    m = ProdConv(s, kernel_size_h=K, kernel_size_w=K, padding_h=P, padding_w=P)
    ctx, _, _, _ = ctx_for(W, 2, O * O, 1, 1, False)
    W.raises("refused", ShapeError, lambda: m._sample(data=torch.full((2, I * I), math.nan), sampling_ctx=ctx, cache=newcache()))


# ---------------------------------------------------------------- sampling context
@harness(H, funcs=["SamplingContext.copy", "SamplingContext.with_routing", "SamplingContext.update"])
def context_copy(W):
    """a derived context never shares routing state with its parent."""
    B, F, C, R = (W.dim(n) for n in ("B", "F", "C", "R"))
    ctx, ch, mask, rep = mkctx(W, B, F, C, R, True)
    kid = ctx.copy() if W.choice("how", ["copy", "routing"]) == "copy" else ctx.with_routing(channel_index=ctx.channel_index, mask=ctx.mask)
    kid.channel_index.zero_()
    kid.mask.zero_()
    kid.repetition_index.zero_()
    W.check_eq("channel", ctx.channel_index, (B, F), lambda b, f: W.at(ch, b, f))
    W.check_eq("mask", ctx.mask, (B, F), lambda b, f: W.at(mask, b, f))
    W.check_eq("rep", ctx.repetition_index, (B,), lambda b: W.at(rep, b))
    W.check("mode", kid.is_mpe and not kid.is_differentiable)


@harness(H, funcs=["SamplingContext.validate_sampling_context", "SamplingContext.route_channel_offsets"], sym=False, seeds=150)
def context_rejects(W):
    """a context whose active channel or repetition is outside the layer, or of the wrong size, is rejected by every layer."""
    from spflow.exceptions import InvalidParameterError, ShapeError
    from spflow.modules.sums import Sum, ElementwiseSum
    from spflow.modules.products import ElementwiseProduct, OuterProduct, Product
    from spflow.modules.einsum import EinsumLayer, LinsumLayer
    from spflow.modules.ops import Cat
    from spflow.utils.sampling_context import SamplingContext
    r = W.rng
    B, F, C, R = r.randint(1, 4), r.randint(1, 4), r.randint(1, 3), r.randint(1, 3)
    a, b = (stub(W, x, F, C, R, B, Scope([i]))[0] for i, x in enumerate("ab"))
    kind = r.choice(["sum", "esum", "eprod", "oprod", "einsum", "linsum", "cat1", "cat2", "product"])
    m = {"sum": lambda: Sum(a, out_channels=2, num_repetitions=R), "esum": lambda: ElementwiseSum([a, stub(W, "c", F, C, R, B, Scope([0]))[0]], out_channels=2, num_repetitions=R),
         "eprod": lambda: ElementwiseProduct([a, b]), "oprod": lambda: OuterProduct([a, b], num_splits=2),
         "einsum": lambda: EinsumLayer([a, b], out_channels=2, num_repetitions=R), "linsum": lambda: LinsumLayer([a, b], out_channels=2, num_repetitions=R),
         "cat1": lambda: Cat([a, b], dim=1), "cat2": lambda: Cat([a, stub(W, "c", F, C, R, B, Scope([0]))[0]], dim=2), "product": lambda: Product(a)}[kind]()
    Fo, Co, Ro = int(m.out_shape.features), int(m.out_shape.channels), int(m.out_shape.repetitions)
    bad = r.choice(["channel", "channel_masked", "neg", "rep", "neg_rep", "width", "batch"])
    W.used["case"] = f"{kind} {bad}"
    ch, mask, rep = torch.randint(Co, (B, Fo)), torch.ones(B, Fo, dtype=torch.bool), torch.randint(Ro, (B,))
    i, j = r.randrange(B), r.randrange(Fo)
    ok = False
    if bad == "channel":
        ch[i, j] = Co + r.randint(0, 2)
    elif bad == "neg":
        ch[i, j] = -1
    elif bad == "channel_masked":      # positions that are not to be sampled may hold anything
        ch[i, j], mask[i, j], ok = Co + 1, False, True
    elif bad == "rep":
        rep[i] = Ro + r.randint(0, 2)
    elif bad == "neg_rep":
        rep[i] = -1
    elif bad == "width":
        w = Fo + 1
        ch, mask = torch.zeros(B, w, dtype=torch.long), torch.ones(B, w, dtype=torch.bool)
        if kind in ("sum", "esum") and False:
            ok = True
    elif bad == "batch":
        ch, mask, rep = (torch.cat([t, t[:1]]) for t in (ch, mask, rep))
    run = lambda: m._sample(data=torch.full((B, 2), math.nan), sampling_ctx=SamplingContext(channel_index=ch, mask=mask, repetition_index=rep), cache=newcache())
    if ok:
        return
    W.raises("rejected", (InvalidParameterError, ShapeError, ValueError, IndexError), run)


# ---------------------------------------------------------------- leaves and whole circuits (bounded)
def supported(fam, leaf, v, j, c, k):
    """v: value tensor (n,) of feature j"""
    isint = (v == v.round()).all()
    if fam in ("normal", "laplace"):
        return bool(torch.isfinite(v).all())
    if fam in ("lognormal", "exponential", "gamma"):
        return bool(((v >= 0) & torch.isfinite(v)).all())
    if fam == "uniform":
        return bool(((v >= leaf.low[j, c, k]) & (v <= leaf.high[j, c, k])).all())
    if fam in ("poisson", "geometric", "negative_binomial"):
        return bool(isint and (v >= 0).all())
    if fam == "bernoulli":
        return bool(((v == 0) | (v == 1)).all())
    if fam == "categorical":
        return bool(isint and ((v >= 0) & (v < leaf.probs.shape[-1])).all())
    if fam == "binomial":
        return bool(isint and ((v >= 0) & (v <= 4)).all())
    if fam == "hypergeometric":
        K, n = float(leaf.K[0, 0, 0]), float(leaf.n[0, 0, 0])
        return bool(isint and ((v >= max(0, n + K - 9)) & (v <= min(n, K))).all())
    raise KeyError(fam)


@harness(H, funcs=["LeafModule._sample"], sym=False, seeds=150)
def leaf_fills(W):
    """exactly the unmasked missing entries of the leaf's own variables are written, with a value in the support of the
    routed channel and repetition; everything else is bitwise unchanged."""
    fam = W.choice("fam", sorted(leaf_cases()))
    torch.manual_seed(W.rng.randrange(10 ** 9))
    q = W.choice("query", [[0], [3, 1], [1, 3, 2]])
    F, C, R = len(q), W.dim("C"), W.dim("R")
    leaf = leaf_cases()[fam](W, Scope(q), F, C, R)
    n, D = 12, 5
    mpe = fam != "uniform" and W.rng.random() < 0.4
    from spflow.utils.sampling_context import SamplingContext
    ch, rep, mask = torch.randint(C, (n, F)), torch.randint(R, (n,)), torch.rand(n, F) < W.rng.choice([0.0, 0.6, 1.0])
    x = torch.full((n, D), math.nan)
    obs = torch.rand(n, D) < W.rng.choice([0.0, 0.3, 1.0])
    x[obs] = torch.tensor([W.rng.choice([-math.inf, -3.25, 1.0, 2.0, 1e30]) for _ in range(int(obs.sum()))])
    out = leaf._sample(data=x.clone(), sampling_ctx=SamplingContext(channel_index=ch.clone(), mask=mask.clone(), repetition_index=rep.clone(), is_mpe=mpe),
                       cache=newcache())
    todo = torch.zeros(n, D, dtype=torch.bool)
    for j, v in enumerate(q):
        todo[:, v] = mask[:, j] & ~obs[:, v]
    W.check("shape", tuple(out.shape) == (n, D))
    W.check("kept", bool(((out == x) | (out.isnan() & x.isnan()))[~todo].all()))
    W.check("filled", bool(out[todo].isfinite().all()))
    for j, v in enumerate(q):
        for b in range(n):
            if todo[b, v]:
                W.check("supported", supported(fam, leaf, out[b:b + 1, v].detach(), j, int(ch[b, j]), int(rep[b])),
                        lambda: f"{fam} returned {float(out[b, v])}")


@harness(H, funcs=["Module.sample", "Module.mpe", "Module.sample_with_evidence", "*._sample"], sym=False, seeds=150, conc_time=60)
def circuit_fills(W):
    from ..gen import rand_circuit, domain, NoCircuit
    from ..world import Skip
    r = W.rng
    torch.manual_seed(r.randrange(10 ** 9))
    try:
        m, N = rand_circuit(W, leaves=("Bernoulli", "Categorical3", "Categorical2", "Normal"), splits=("consecutive", "interleaved"),
                            single_root=r.random() < 0.8, gaps=r.random() < 0.3)
    except NoCircuit:
        raise Skip()
    dom = m._dom
    n = 40
    x = torch.full((n, N), math.nan)
    p = r.choice([0.0, 0.3, 0.8, 1.0])
    for v in range(N):
        o = torch.rand(n) < p
        if v not in dom:
            x[o, v] = 7.25
        elif dom[v] == "Normal":
            x[o, v] = torch.randn(int(o.sum()))
        else:
            x[o, v] = torch.tensor([r.choice(domain(dom[v])) for _ in range(int(o.sum()))])
    how = r.choice(["sample", "mpe", "evidence", "evidence_mpe"])
    W.used["how"] = how
    x0 = x.clone()
    out = {"sample": lambda: m.sample(data=x), "mpe": lambda: m.mpe(data=x), "evidence": lambda: m.sample_with_evidence(evidence=x),
           "evidence_mpe": lambda: m.sample_with_evidence(evidence=x, is_mpe=True)}[how]()
    obs = ~x0.isnan()
    W.check("shape", out.shape == x0.shape)
    W.check("evidence_kept", bool((out[obs] == x0[obs]).all()))
    for v in range(N):
        miss = x0[:, v].isnan()
        if v not in dom:
            W.check("others_untouched", bool(out[miss, v].isnan().all()))
        elif dom[v] == "Normal":
            W.check("filled", bool(out[miss, v].isfinite().all()), f"variable {v}")
        else:
            W.check("supported", all(float(a) in domain(dom[v]) for a in out[miss, v]), lambda: f"variable {v}: {out[miss, v].unique().tolist()}")


@harness(H, funcs=["Module._prepare_sample_data", "Module.sample"], sym=False, seeds=60)
def circuit_num_samples(W):
    from ..gen import rand_circuit, domain, NoCircuit
    from ..world import Skip
    r = W.rng
    torch.manual_seed(r.randrange(10 ** 9))
    try:
        m, N = rand_circuit(W, splits=("consecutive", "interleaved"), single_root=True)
    except NoCircuit:
        raise Skip()
    n = r.randint(1, 6)
    out = m.sample(num_samples=n) if r.random() < 0.5 else m.mpe(num_samples=n)
    W.check("shape", tuple(out.shape) == (n, N))
    W.check("supported", all(float(out[i, v]) in domain(m._dom[v]) for i in range(n) for v in range(N)))


@harness(H, funcs=["CLTree._sample", "Histogram._sample", "PiecewiseLinear._sample"], sym=False, seeds=60)
def special_leaf_fills(W):
    from spflow.modules import leaves as L
    from spflow.utils.sampling_context import SamplingContext
    r = W.rng
    torch.manual_seed(r.randrange(10 ** 9))
    kind = W.choice("kind", ["cltree", "histogram", "piecewise"])
    n, D = 25, 5
    C, R = W.dim("C"), W.dim("R")
    q = r.sample(range(D), 3 if kind == "cltree" else r.randint(1, 3))
    F = len(q)
    if kind == "cltree":
        K = r.choice([2, 3])
        par = [-1, 0, r.choice([0, 1])]
        lc = W.tensor("cpt", (F, C, R, K, K)).log_softmax(-2)
        lc[0] = lc[0, :, :, :, :1].expand(C, R, K, K)
        from spflow.modules.leaves.cltree import CLTree
        leaf = CLTree(Scope(q), out_channels=C, num_repetitions=R, K=K, parents=torch.tensor(par), log_cpt=lc)
        ok = lambda v, j, b: float(v) in range(K)
    elif kind == "histogram":
        e = torch.cumsum(torch.rand(5) + .1, 0)
        q = q[:1]
        F = 1
        leaf = L.Histogram(Scope(q), bin_edges=e, logits=W.tensor("l", (1, C, R, 4)))
        ok = lambda v, j, b: float(e[0]) <= float(v) <= float(e[-1])
    else:
        leaf = L.PiecewiseLinear(Scope(q), out_channels=C, num_repetitions=R)
        from spflow.utils.domain import Domain
        leaf.initialize(torch.randn(60, F), [Domain.continuous_inf_support() for _ in q])
        ok = lambda v, j, b: math.isfinite(float(v))
    ch, rep = torch.randint(C, (n, F)), torch.randint(R, (n,))
    mask = torch.rand(n, F) < .7 if r.random() < .5 else (torch.rand(n, 1) < .7).expand(n, F).clone()
    if kind == "cltree":
        ch = ch[:, :1].expand(n, F).clone()
    x = torch.full((n, D), math.nan)
    obs = torch.rand(n, D) < .3
    x[obs] = 1.0
    out = leaf._sample(data=x.clone(), sampling_ctx=SamplingContext(channel_index=ch, mask=mask, repetition_index=rep, is_mpe=r.random() < .4), cache=newcache())
    for j in range(D):
        for b in range(n):
            if j in q and mask[b, q.index(j)] and not obs[b, j]:
                W.check("supported", ok(out[b, j], q.index(j), b), lambda: f"{kind} returned {float(out[b, j])}")
            else:
                W.check("kept", float(out[b, j]) == float(x[b, j]) or (math.isnan(out[b, j]) and math.isnan(x[b, j])))
