"""C04: split / cat only rearrange features: parts are a partition in order, merge inverts split, routing follows."""
import torch
from ..runner import harness
from ..lib import *
from .c02_product import mksplit
H = []
BIG = Scope(list(range(64)))


@harness(H, funcs=["SplitConsecutive.log_likelihood", "SplitInterleaved.log_likelihood", "Split.__init__",
                   "SplitConsecutive.merge_split_tensors", "SplitInterleaved.merge_split_tensors",
                   "SplitConsecutive.merge_split_indices", "SplitInterleaved.merge_split_indices"])
def split_parts(W):
    B, Q, C, R = (W.dim(n) for n in ("B", "Q", "C", "R"))
    k = W.choice("k", [2, 3, 4])
    kind = W.choice("split", ["consecutive", "interleaved"])
    F = Q * k
    s, ll = stub(W, "ll", F, C, R, B, BIG, kind="ll")
    sp, pos = mksplit(W, s, kind, k, F)
    parts = sp.log_likelihood(W.tensor("x", (B, F)))
    W.check("num_parts", len(parts) == k)
    for i in range(k):
        W.check_eq(f"part{i}", parts[i], (B, Q, C, R), lambda b, j, c, r: W.at(ll, b, pos(i, j), c, r))
    W.check_eq("merge_inverts", sp.merge_split_tensors(*parts), (B, F, C, R), lambda b, f, c, r: W.at(ll, b, f, c, r))
    ch = [W.tensor(f"ci{i}", (B, Q), "int", lo=0, hi=C) for i in range(k)]
    m = sp.merge_split_indices(*ch)
    for i in range(k):
        W.check_all(f"merge_indices{i}", (B, Q), lambda b, j: W.eq(W.at(m, b, pos(i, j)), W.at(ch[i], b, j)))
    W.check("merge_width", W.eq(m.shape[1], F))
    W.check("out_shape", W.and_(W.eq(sp.out_shape.features, F), W.eq(sp.out_shape.channels, C), W.eq(sp.out_shape.repetitions, R)))


@harness(H, funcs=["SplitByIndex.*"], fix={}, seeds=80)
def split_by_index_parts(W):
    from spflow.modules.ops import SplitByIndex
    B, C, R = (W.dim(n) for n in ("B", "C", "R"))
    F = int(W.dim("F", 2, 6))
    perm = W.perm("perm", F)
    k = W.choice("k", [1, 2, 3])
    W.require(k <= F)
    cuts = [0] + [(F * i) // k for i in range(1, k)] + [F]
    groups = [perm[a:b] for a, b in zip(cuts, cuts[1:])]
    s, ll = stub(W, "ll", F, C, R, B, Scope(list(range(F))), kind="ll")
    sp = SplitByIndex(s, indices=groups)
    parts = sp.log_likelihood(W.tensor("x", (B, F)))
    for i, g in enumerate(groups):
        W.check_eq(f"part{i}", parts[i], (B, len(g), C, R), lambda b, j, c, r: W.pick(j, len(g), lambda q: W.at(ll, b, g[q], c, r)))
    W.check_eq("merge_inverts", sp.merge_split_tensors(*parts), (B, F, C, R), lambda b, f, c, r: W.at(ll, b, f, c, r))
    ch = [W.tensor(f"ci{i}", (B, len(g)), "int", lo=0, hi=C) for i, g in enumerate(groups)]
    m = sp.merge_split_indices(*ch)
    for i, g in enumerate(groups):
        for j, q in enumerate(g):
            W.check_all(f"merge_indices{i}_{j}", (B,), lambda b: W.eq(W.at(m, b, q), W.at(ch[i], b, j)))


@harness(H, funcs=["SplitByIndex._validate_indices"], sym=False, seeds=150)
def split_by_index_rejects(W):
    from spflow.modules.ops import SplitByIndex
    r = W.rng
    F = r.randint(1, 5)
    g = [[r.randint(-1, F) for _ in range(r.randint(1, 3))] for _ in range(r.randint(1, 3))]
    if r.random() < 0.4:
        p = r.sample(range(F), F)
        c = r.randint(0, F)
        g = [x for x in (p[:c], p[c:]) if x]
    flat = [x for y in g for x in y]
    W.note(str(g))
    s = Stub(torch.zeros(1, F, 1, 1), (F, 1, 1), Scope(list(range(F))))
    if sorted(flat) == list(range(F)):
        SplitByIndex(s, indices=g)
        W.check("accepted", True)
    else:
        W.raises("non_partition_rejected", (ValueError,), lambda: SplitByIndex(s, indices=g))


@harness(H, funcs=["SplitConsecutive._sample", "SplitInterleaved._sample", "SamplingContext.repeat_split_feature_width",
                   "SamplingContext.broadcast_feature_width", "SamplingContext.validate_sampling_context"])
def split_routing(W):
    """channel and mask of a part feature reach exactly the input feature it was taken from."""
    B, Q, C, R = (W.dim(n) for n in ("B", "Q", "C", "R"))
    k = W.choice("k", [2, 3])
    kind = W.choice("split", ["consecutive", "interleaved"])
    width = W.choice("width", ["full", "part", "one"])
    F = Q * k
    s, ll = stub(W, "ll", F, C, R, B, BIG)
    sp, pos = mksplit(W, s, kind, k, F)
    w = F if width == "full" else Q if width == "part" else 1
    ctx, ch, mask, rep = mkctx(W, B, w, C, R)
    data = W.tensor("x", (B, F))
    out = sp._sample(data=data, sampling_ctx=ctx, cache={})
    calls = sample_calls(s)
    W.check("once", len(calls) == 1)
    _, c2, m2, r2, _ = calls[0]
    W.check_eq("rep", r2, (B,), lambda b: W.at(rep, b))
    if width == "part":
        for i in range(k):
            W.check_all(f"channel{i}", (B, Q), lambda b, j: W.eq(W.at(c2, b, pos(i, j)), W.at(ch, b, j)))
            W.check_all(f"mask{i}", (B, Q), lambda b, j: W.eq_bool(W.at(m2, b, pos(i, j)), W.at(mask, b, j)))
    else:
        W.check_eq("channel", c2, (B, F), lambda b, f: W.at(ch, b, f if width == "full" else 0))
        W.check_eq("mask", m2, (B, F), lambda b, f: W.at(mask, b, f if width == "full" else 0))
    W.check_eq("data_unchanged", out, (B, F), lambda b, f: W.at(data, b, f))


@harness(H, funcs=["SplitByIndex._sample", "SamplingContext.scatter_split_groups_to_input_width"], seeds=80, fix={})
def split_by_index_routing(W):
    B, C, R = (W.dim(n) for n in ("B", "C", "R"))
    Q = int(W.dim("Q", hi=4))
    k = W.choice("k", [2, 3])
    width = W.choice("width", ["full", "part", "one"])
    F = Q * k
    s, ll = stub(W, "ll", F, C, R, B, Scope(list(range(F))))
    sp, pos = mksplit(W, s, "index", k, F)
    w = F if width == "full" else Q if width == "part" else 1
    ctx, ch, mask, rep = mkctx(W, B, w, C, R)
    data = W.tensor("x", (B, F))
    sp._sample(data=data, sampling_ctx=ctx, cache={})
    _, c2, m2, r2, _ = sample_calls(s)[0]
    if width == "part":
        for i in range(k):
            for j in range(Q):
                W.check_all(f"channel{i}_{j}", (B,), lambda b: W.eq(W.at(c2, b, pos(i, j)), W.at(ch, b, j)))
                W.check_all(f"mask{i}_{j}", (B,), lambda b: W.eq_bool(W.at(m2, b, pos(i, j)), W.at(mask, b, j)))
    else:
        W.check_eq("channel", c2, (B, F), lambda b, f: W.at(ch, b, f if width == "full" else 0))
        W.check_eq("mask", m2, (B, F), lambda b, f: W.at(mask, b, f if width == "full" else 0))


@harness(H, funcs=["Cat.__init__", "Cat.log_likelihood"])
def cat_ll(W):
    """dim=1: features of the inputs one after the other; dim=2: channels one after the other."""
    from spflow.modules.ops import Cat
    B, R = W.dim("B"), W.dim("R")
    n = W.choice("n", [2, 3])
    dim = W.choice("dim", [1, 2])
    S = [W.dim(f"S{i}") for i in range(n)]
    K = W.dim("K")
    xs, lls = [], []
    for i in range(n):
        F, C = (S[i], K) if dim == 1 else (K, S[i])
        a, l = stub(W, f"l{i}", F, C, R, B, Scope([i]) if dim == 1 else Scope([0]), kind="ll")
        xs.append(a); lls.append(l)
    m = Cat(xs, dim=dim)
    out = m.log_likelihood(W.tensor("x", (B, n)))
    T = sum(S[1:], S[0])
    W.check("out_shape", W.and_(W.eq(m.out_shape.features, T if dim == 1 else K), W.eq(m.out_shape.channels, K if dim == 1 else T),
                                W.eq(m.out_shape.repetitions, R)))
    W.check("rank", len(out.shape) == 4)
    W.check("shape", W.and_(W.eq(out.shape[1], T if dim == 1 else K), W.eq(out.shape[2], K if dim == 1 else T)))
    off = 0
    for i in range(n):
        o = off
        if dim == 1:
            W.check_all(f"block{i}", (B, S[i], K, R), lambda b, f, c, r: W.same(W.at(out, b, o + f, c, r), W.at(lls[i], b, f, c, r)))
        else:
            W.check_all(f"block{i}", (B, K, S[i], R), lambda b, f, c, r: W.same(W.at(out, b, f, o + c, r), W.at(lls[i], b, f, c, r)))
        off = off + S[i]


@harness(H, funcs=["Cat._sample", "SamplingContext.slice_feature_ranges", "SamplingContext.route_channel_offsets",
                   "SamplingContext.with_routing"])
def cat_routing(W):
    """dim=1: each input gets its own slice; dim=2: exactly the input owning the routed channel is sampled, with the
    channel counted from that input's first channel."""
    from spflow.modules.ops import Cat
    B, R = W.dim("B"), W.dim("R")
    n = W.choice("n", [2, 3])
    dim = W.choice("dim", [1, 2])
    wide = W.choice("width", ["full", "one"])
    S = [W.dim(f"S{i}") for i in range(n)]
    K = W.dim("K")
    xs = []
    for i in range(n):
        F, C = (S[i], K) if dim == 1 else (K, S[i])
        xs.append(stub(W, f"l{i}", F, C, R, B, Scope([i]) if dim == 1 else Scope([0]))[0])
    m = Cat(xs, dim=dim)
    T = sum(S[1:], S[0])
    F, C = (T, K) if dim == 1 else (K, T)
    ctx, ch, mask, rep = mkctx(W, B, F if wide == "full" else 1, C, R)
    data = W.tensor("x", (B, n))
    out = m._sample(data=data, sampling_ctx=ctx, cache={})
    at = (lambda f: f) if wide == "full" else (lambda f: 0)
    off = 0
    for i in range(n):
        o = off
        calls = sample_calls(xs[i])
        W.check(f"once{i}", len(calls) == 1)
        _, c2, m2, r2, _ = calls[0]
        W.check_eq(f"rep{i}", r2, (B,), lambda b: W.at(rep, b))
        if dim == 1:
            W.check_eq(f"channel{i}", c2, (B, S[i]), lambda b, f: W.at(ch, b, at(o + f)))
            W.check_eq(f"mask{i}", m2, (B, S[i]), lambda b, f: W.at(mask, b, at(o + f)))
        else:
            own = lambda b, f: W.and_(W.le(o, W.at(ch, b, at(f))), W.lt(W.at(ch, b, at(f)), o + S[i]))
            W.check_eq(f"mask{i}", m2, (B, K), lambda b, f: W.and_(W.at(mask, b, at(f)), own(b, f)))
            W.check_all(f"channel{i}", (B, K), lambda b, f: W.implies(W.at(m2, b, f), W.eq(W.at(c2, b, f) + o, W.at(ch, b, at(f)))))
            W.check_all(f"valid{i}", (B, K), lambda b, f: W.and_(W.le(0, W.at(c2, b, f)), W.lt(W.at(c2, b, f), S[i])))
        off = off + S[i]
    W.check_eq("data_unchanged", out, (B, n), lambda b, f: W.at(data, b, f))
