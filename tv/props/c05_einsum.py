"""C05: einsum and linsum layers compute their documented mixtures of products."""
import torch
from ..runner import harness
from ..lib import *
from .c01_sum import normalised
from .c02_product import mksplit
H = []
BIG = Scope(list(range(64)))
EF = ["EinsumLayer.__init__", "EinsumLayer.log_likelihood", "EinsumLayer._log_likelihood_from_inputs",
      "EinsumLayer._contract_probabilities", "EinsumLayer._normalized_weights", "EinsumLayer.log_weights"]
LF = ["LinsumLayer.__init__", "LinsumLayer.log_likelihood", "LinsumLayer.weights", "LinsumLayer.log_weights"]


def espec(W, w, la, lb, CL, CR):
    """P[b,f,o,r] = sum_ij w[f,o,r,i,j] exp(l[i]) exp(r[j])"""
    return lambda b, f, o, r: W.log(W.sum(CL, lambda i: W.sum(CR, lambda j: W.at(w, f, o, r, i, j) * W.exp(la(b, f, i, r)) * W.exp(lb(b, f, j, r)))))


def two(W, D, CL, CR, R, B, kind="ll"):
    a, la = stub(W, "la", D, CL, R, B, Scope([0]), kind=kind)
    c, lc = stub(W, "lc", D, CR, R, B, Scope([1]), kind=kind)
    return a, la, c, lc


@harness(H, funcs=EF)
def einsum_two(W):
    from spflow.modules.einsum import EinsumLayer
    B, D, CO, R = (W.dim(n) for n in ("B", "D", "CO", "R"))
    CL, CR = W.dim("CL", hi=4), W.dim("CR", hi=4)
    a, la, c, lc = two(W, D, CL, CR, R, B)
    m = EinsumLayer([a, c], out_channels=CO)
    set_params(W, m)
    mode = W.choice("mode", ["train", "eval"])
    m.train(mode == "train")
    w = m.weights
    W.check_eq("norm", w.sum((-2, -1)), (D, CO, R), lambda *i: 1)
    W.check_eq("logw", m.log_weights, (D, CO, R, CL, CR), lambda *i: W.log(W.at(w, *i)))
    out = m.log_likelihood(W.tensor("x", (B, 2)))
    W.check_eq("mix", out, (B, D, CO, R), espec(W, w, lambda *i: W.at(la, *i), lambda *i: W.at(lc, *i), CL, CR))
    W.check("out_shape", W.and_(W.eq(m.out_shape.features, D), W.eq(m.out_shape.channels, CO), W.eq(m.out_shape.repetitions, R)))


@harness(H, funcs=EF, seeds=12, maxdim=2)
def einsum_wide(W):
    """the factored contraction schedule (many input channels) computes the same function."""
    from spflow.modules.einsum import EinsumLayer
    B, D, R = (W.dim(n) for n in ("B", "D", "R"))
    CL, CR = W.choice("wide", [(16, 16), (17, 16), (16, 17), (20, 15)])
    CO = W.choice("CO_", [1, 2, 18])
    a, la, c, lc = two(W, D, CL, CR, R, B)
    m = EinsumLayer([a, c], out_channels=CO)
    set_params(W, m)
    w = m.weights
    out = m.log_likelihood(W.tensor("x", (B, 2)))
    W.check_eq("mix", out, (B, D, CO, R), espec(W, w, lambda *i: W.at(la, *i), lambda *i: W.at(lc, *i), CL, CR))


@harness(H, funcs=EF + ["Split.log_likelihood"])
def einsum_split(W):
    from spflow.modules.einsum import EinsumLayer
    B, Q, CO, R = (W.dim(n) for n in ("B", "Q", "CO", "R"))
    C = W.dim("C", hi=4)
    how = W.choice("how", ["default", "consecutive", "interleaved", "mode"])
    from spflow.modules.ops.split import SplitMode
    s, ll = stub(W, "ll", 2 * Q, C, R, B, BIG, kind="ll")
    if how == "default":
        m, pos = EinsumLayer(s, out_channels=CO), (lambda i, j: i * Q + j)
    elif how == "mode":
        m, pos = EinsumLayer(s, out_channels=CO, split_mode=SplitMode.interleaved(num_splits=2)), (lambda i, j: j * 2 + i)
    else:
        sp, pos = mksplit(W, s, how, 2, 2 * Q)
        m = EinsumLayer(sp, out_channels=CO)
    set_params(W, m)
    w = m.weights
    out = m.log_likelihood(W.tensor("x", (B, 2 * Q)))
    W.check_eq("mix", out, (B, Q, CO, R), espec(W, w, lambda b, f, i, r: W.at(ll, b, pos(0, f), i, r),
                                                lambda b, f, j, r: W.at(ll, b, pos(1, f), j, r), C, C))


@harness(H, funcs=EF, seeds=60, fix={"Q": 2})
def einsum_split_by_index(W):
    from spflow.modules.einsum import EinsumLayer, LinsumLayer
    B, CO, R, C = (W.dim(n) for n in ("B", "CO", "R", "C"))
    Q = int(W.dim("Q", hi=3))
    s, ll = stub(W, "ll", 2 * Q, C, R, B, Scope(list(range(2 * Q))), kind="ll")
    sp, pos = mksplit(W, s, "index", 2, 2 * Q)
    x = W.tensor("x", (B, 2 * Q))
    m = EinsumLayer(sp, out_channels=CO)
    set_params(W, m)
    side = lambda k: lambda b, f, i, r: W.pick(f, Q, lambda q: W.at(ll, b, pos(k, q), i, r))
    L, Rr = side(0), side(1)
    W.check_eq("einsum", m.log_likelihood(x), (B, Q, CO, R), espec(W, m.weights, L, Rr, C, C))
    m = LinsumLayer(sp, out_channels=CO)
    set_params(W, m)
    W.check_eq("linsum", m.log_likelihood(x), (B, Q, CO, R), lspec(W, m.weights, L, Rr, C))


@harness(H, funcs=["EinsumLayer.weights.setter", "EinsumLayer.log_weights.setter", "EinsumLayer.__init__"])
def einsum_setters(W):
    """weights put in by the constructor or a setter are the weights used, also after an earlier evaluation."""
    from spflow.modules.einsum import EinsumLayer
    B, D, CO, R = (W.dim(n) for n in ("B", "D", "CO", "R"))
    CL, CR = W.dim("CL", hi=4), W.dim("CR", hi=4)
    a, la, c, lc = two(W, D, CL, CR, R, B)
    u = W.tensor("w", (D, CO, R, CL, CR), "pos")
    w = u / u.sum((-2, -1), keepdim=True)
    A, Cc = (lambda *i: W.at(la, *i)), (lambda *i: W.at(lc, *i))
    x = W.tensor("x", (B, 2))
    m2 = EinsumLayer([a, c], out_channels=CO, weights=w)
    W.check_eq("ctor_w", m2.weights, (D, CO, R, CL, CR), lambda *i: W.at(w, *i))
    m = EinsumLayer([a, c], out_channels=CO)
    m.eval()
    m.log_likelihood(x)
    m.weights = w
    W.check_eq("set_w", m.weights, (D, CO, R, CL, CR), lambda *i: W.at(w, *i))
    W.check_eq("ll_after_set", m.log_likelihood(x), (B, D, CO, R), espec(W, m.weights, A, Cc, CL, CR))
    v = W.tensor("v", (D, CO, R, CL, CR))
    m.log_weights = v
    z = lambda f, o, r: W.sum(CL, lambda i: W.sum(CR, lambda j: W.exp(W.at(v, f, o, r, i, j))))
    W.check_eq("set_logw", m.weights, (D, CO, R, CL, CR), lambda f, o, r, i, j: W.exp(W.at(v, f, o, r, i, j)) / z(f, o, r))
    W.check_eq("ll_after_logw", m.log_likelihood(x), (B, D, CO, R), espec(W, m.weights, A, Cc, CL, CR))


@harness(H, funcs=["EinsumLayer._normalized_weights", "EinsumLayer._clear_eval_weight_cache"], sym=False, seeds=120)
def einsum_current_weights(W):
    """whatever sequence of updates, copies and mode switches happened, evaluation uses the current parameters."""
    import copy
    from spflow.modules.einsum import EinsumLayer, LinsumLayer
    B, D, CO, R, CL, CR = (W.dim(n) for n in ("B", "D", "CO", "R", "CL", "CR"))
    a, la, c, lc = two(W, D, CL, CR, R, B)
    x = W.tensor("x", (B, 2))
    m = EinsumLayer([a, c], out_channels=CO)
    objs = [m]
    steps = []
    for k in range(W.rng.randint(2, 7)):
        m = W.rng.choice(objs)
        op = W.rng.choice(["weights", "log_weights", "load", "inplace", "copy", "train", "eval", "opt", "newparam", "data", "look", "zero", "freeze"])
        steps.append(op)
        v = W.tensor(f"v{k}", (D, CO, R, CL, CR))
        if op == "weights":
            u = v.exp()
            m.weights = u / u.sum((-2, -1), keepdim=True)
        elif op == "log_weights":
            m.log_weights = v
        elif op == "load":
            sd = m.state_dict()
            m.load_state_dict({n: (v if n == "logits" else t) for n, t in sd.items()})
        elif op == "inplace":
            with torch.no_grad():
                m.logits.add_(v)
        elif op == "zero":
            with torch.no_grad():
                m.logits.zero_()
        elif op == "copy":
            objs.append(copy.deepcopy(m))
        elif op in ("train", "eval"):
            m.train(op == "train")
        elif op == "opt":
            m.logits.requires_grad_(True)
            o = torch.optim.SGD([m.logits], lr=0.5)
            with torch.enable_grad():
                m.log_likelihood(x).exp().clamp(max=50).sum().backward()
            if m.logits.grad is not None and bool(torch.isfinite(m.logits.grad).all()):
                o.step()
            m.logits.grad = None
        elif op == "freeze":
            m.logits.requires_grad_(not m.logits.requires_grad)
        elif op == "newparam":
            m.logits = torch.nn.Parameter(v)
        elif op == "data":
            m.logits.data = v
        if W.rng.random() < 0.7:
            for q in objs:
                with torch.no_grad():
                    q.log_likelihood(x)
    W.note(" ".join(steps))
    for q in objs:
        l = q.logits.detach()
        w = torch.softmax(l.flatten(-2), -1).reshape(l.shape)
        with torch.no_grad():
            W.check_eq("current_weights", q.weights, tuple(w.shape), lambda *i: W.at(w, *i))
            a2, c2 = q.inputs[0]._ll, q.inputs[1]._ll
            W.check_eq("current_ll", q.log_likelihood(x), (B, D, CO, R),
                       espec(W, w, lambda *i: W.at(a2, *i), lambda *i: W.at(c2, *i), CL, CR))


@harness(H, funcs=["EinsumLayer.weights.setter", "LinsumLayer.weights.setter", "EinsumLayer.__init__", "LinsumLayer.__init__"], sym=False)
def einsum_rejects(W):
    from spflow.modules.einsum import EinsumLayer, LinsumLayer
    from spflow.exceptions import InvalidWeightsError, ShapeError
    D, CO, R, CL, CR = (W.dim(n) for n in ("D", "CO", "R", "CL", "CR"))
    lin = W.choice("lin", [True, False])
    if lin:
        CR = CL
    a, la, c, lc = two(W, D, CL, CR, R, 1)
    cls = LinsumLayer if lin else EinsumLayer
    m = cls([a, c], out_channels=CO)
    shp = (D, CO, R, CL) if lin else (D, CO, R, CL, CR)
    ax = (-1,) if lin else (-2, -1)
    u = W.tensor("w", shp, "pos")
    w = u / u.sum(ax, keepdim=True)
    kind = W.choice("kind", ["neg", "zero", "scale", "one", "shape"])
    bad = w.clone()
    j = tuple(W.rng.randrange(d) for d in w.shape)
    if kind == "neg":
        bad[j] = -bad[j]
    elif kind == "zero":
        W.require(CL * (1 if lin else CR) > 1)
        bad[j] = 0.0
        bad = bad / bad.sum(ax, keepdim=True)
    elif kind == "scale":
        bad = bad * W.rng.choice([0.5, 1.3])
    elif kind == "one":
        bad[j] = bad[j] + 0.25
    else:
        bad = torch.cat([bad, bad], 0)

    def setit():
        m.weights = bad
    E = (InvalidWeightsError, ShapeError, ValueError)
    W.raises("setter_rejects", E, setit)
    W.raises("ctor_rejects", E, lambda: cls([a, c], out_channels=CO, weights=bad))
    b2, _ = stub(W, "o", D, CR, R, 1, Scope([0]))
    W.raises("overlapping_scopes_rejected", (Exception,), lambda: cls([a, b2], out_channels=CO))
    d2, _ = stub(W, "o2", D + 1, CR, R, 1, Scope([1]))
    W.raises("features_mismatch_rejected", (ValueError, ShapeError), lambda: cls([a, d2], out_channels=CO))
    e2, _ = stub(W, "o3", D, CR, R + 1, 1, Scope([1]))
    W.raises("repetition_mismatch_rejected", (ValueError, ShapeError), lambda: cls([a, e2], out_channels=CO))


def lspec(W, w, la, lb, C):
    return lambda b, f, o, r: W.log(W.sum(C, lambda i: W.at(w, f, o, r, i) * W.exp(la(b, f, i, r)) * W.exp(lb(b, f, i, r))))


@harness(H, funcs=LF)
def linsum_two(W):
    from spflow.modules.einsum import LinsumLayer
    B, D, C, CO, R = (W.dim(n) for n in ("B", "D", "C", "CO", "R"))
    a, la, c, lc = two(W, D, C, C, R, B)
    m = LinsumLayer([a, c], out_channels=CO)
    set_params(W, m)
    w = m.weights
    W.check_eq("norm", w.sum(-1), (D, CO, R), lambda *i: 1)
    W.check_eq("logw", m.log_weights, (D, CO, R, C), lambda *i: W.log(W.at(w, *i)))
    out = m.log_likelihood(W.tensor("x", (B, 2)))
    W.check_eq("mix", out, (B, D, CO, R), lspec(W, w, lambda *i: W.at(la, *i), lambda *i: W.at(lc, *i), C))
    W.check("out_shape", W.and_(W.eq(m.out_shape.features, D), W.eq(m.out_shape.channels, CO), W.eq(m.out_shape.repetitions, R)))


@harness(H, funcs=LF + ["Split.log_likelihood"])
def linsum_split(W):
    from spflow.modules.einsum import LinsumLayer
    from spflow.modules.ops.split import SplitMode
    B, Q, C, CO, R = (W.dim(n) for n in ("B", "Q", "C", "CO", "R"))
    how = W.choice("how", ["default", "consecutive", "interleaved", "mode"])
    s, ll = stub(W, "ll", 2 * Q, C, R, B, BIG, kind="ll")
    if how == "default":
        m, pos = LinsumLayer(s, out_channels=CO), (lambda i, j: i * Q + j)
    elif how == "mode":
        m, pos = LinsumLayer(s, out_channels=CO, split_mode=SplitMode.interleaved(num_splits=2)), (lambda i, j: j * 2 + i)
    else:
        sp, pos = mksplit(W, s, how, 2, 2 * Q)
        m = LinsumLayer(sp, out_channels=CO)
    set_params(W, m)
    out = m.log_likelihood(W.tensor("x", (B, 2 * Q)))
    W.check_eq("mix", out, (B, Q, CO, R), lspec(W, m.weights, lambda b, f, i, r: W.at(ll, b, pos(0, f), i, r),
                                                lambda b, f, j, r: W.at(ll, b, pos(1, f), j, r), C))


@harness(H, funcs=["LinsumLayer.weights.setter", "LinsumLayer.log_weights.setter", "LinsumLayer.__init__"])
def linsum_setters(W):
    from spflow.modules.einsum import LinsumLayer
    B, D, C, CO, R = (W.dim(n) for n in ("B", "D", "C", "CO", "R"))
    a, la, c, lc = two(W, D, C, C, R, B)
    w = normalised(W, "w", (D, CO, R, C), 3)
    A, Cc = (lambda *i: W.at(la, *i)), (lambda *i: W.at(lc, *i))
    x = W.tensor("x", (B, 2))
    W.check_eq("ctor_w", LinsumLayer([a, c], out_channels=CO, weights=w).weights, (D, CO, R, C), lambda *i: W.at(w, *i))
    m = LinsumLayer([a, c], out_channels=CO)
    m.log_likelihood(x)
    m.weights = w
    W.check_eq("set_w", m.weights, (D, CO, R, C), lambda *i: W.at(w, *i))
    W.check_eq("ll_after_set", m.log_likelihood(x), (B, D, CO, R), lspec(W, w, A, Cc, C))
    v = W.tensor("v", (D, CO, R, C))
    m.log_weights = v
    W.check_eq("set_logw", m.weights, (D, CO, R, C), lambda f, o, r, i: W.exp(W.at(v, f, o, r, i)) / W.sum(C, lambda k: W.exp(W.at(v, f, o, r, k))))


@harness(H, funcs=["EinsumLayer.log_likelihood", "LinsumLayer.log_likelihood"], sym=False, seeds=60)
def einsum_mass_and_scale(W):
    """normalised inputs give a normalised output; scaling an input's likelihoods by e^K scales the output by e^K,
    also far outside the range of exp (log-domain stability)."""
    from spflow.modules.einsum import EinsumLayer, LinsumLayer
    D, C, CO, R = (W.dim(n) for n in ("D", "C", "CO", "R"))
    NL, NR = W.rng.randint(2, 4), W.rng.randint(2, 3)
    u = W.tensor("u", (NL, D, C, R), "pos"); u = (u / u.sum(0, keepdim=True)).log()
    v = W.tensor("v", (NR, D, C, R), "pos"); v = (v / v.sum(0, keepdim=True)).log()
    la = u.repeat_interleave(NR, 0)
    lc = v.repeat(NL, 1, 1, 1)
    K = W.rng.choice([-3000.0, -900.0, -50.0, 800.0, 2500.0])
    x = torch.zeros(NL * NR, 2)
    for cls in (EinsumLayer, LinsumLayer):
        a, c = Stub(la, (D, C, R), Scope([0])), Stub(lc, (D, C, R), Scope([1]))
        m = cls([a, c], out_channels=CO)
        set_params(W, m)
        out = m.log_likelihood(x)
        if cls is EinsumLayer:
            W.check_eq("mass", out.exp().sum(0), (D, CO, R), lambda *i: 1)
        a._ll = la + K
        W.check_eq("scale_left", m.log_likelihood(x), tuple(out.shape), lambda *i: W.at(out, *i) + K)
        c._ll = lc - 2 * K
        W.check_eq("scale_both", m.log_likelihood(x), tuple(out.shape), lambda *i: W.at(out, *i) - K)


@harness(H, funcs=["EinsumLayer.log_likelihood", "LinsumLayer.log_likelihood"], sym=False, seeds=80)
def far_apart(W):
    """scaling an input of one row, feature or repetition scales that output only and by the same factor, at any magnitude"""
    from spflow.modules.einsum import EinsumLayer, LinsumLayer
    B, D, C, CR, CO, R = (W.dim(n) for n in ("B", "D", "C", "CR", "CO", "R"))
    K = W.choice("kind", [EinsumLayer, LinsumLayer])
    if W.choice("how", ["two", "split"]) == "two":
        a, la, c, lc = two(W, D, C, CR if K is EinsumLayer else C, R, B, kind="real")
        m = K([a, c], out_channels=CO)
        o, p = far(W, B, D, 1, R), far(W, B, D, 1, R)
        ss, os, want = [a, c], [o, p], o + p
    else:
        s, ll = stub(W, "ll", 2 * D, C, R, B, BIG)
        how = W.choice("split", ["consecutive", "interleaved"])
        sp, pos = mksplit(W, s, how, 2, 2 * D)
        m = K(sp, out_channels=CO)
        o = far(W, B, 2 * D, 1, R)
        ss, os = [s], [o]
        want = torch.stack([o[:, pos(0, f)] + o[:, pos(1, f)] for f in range(D)], 1)
    if W.choice("wide", [False, False, False, True]) and K is EinsumLayer:
        a, c = (stub(W, n, D, 16, R, B, Scope([i]))[0] for i, n in enumerate(("wa", "wb")))
        o, p = far(W, B, D, 1, R), far(W, B, D, 1, R)
        m, ss, os, want = K([a, c], out_channels=1), [a, c], [o, p], o + p
    set_params(W, m)
    m.train(W.choice("train", [True, False]))
    shifts(W, "scale", m, ss, os, W.tensor("x", (B, 64)), want)


@harness(H, funcs=["EinsumLayer.weights.setter", "LinsumLayer.weights.setter"])
def einsum_accepts(W):
    """the setters accept exactly the convex combinations (up to the tolerance of the comparison)"""
    from spflow.modules.einsum import EinsumLayer, LinsumLayer
    from .c01_sum import accepted_weights
    D, CO, R, CL, CR = (W.dim(n) for n in ("D", "CO", "R", "CL", "CR"))
    if W.choice("lin", [True, False]):
        accepted_weights(W, lambda: (LinsumLayer([x for x in two(W, D, CL, CL, R, 2)[::2]], out_channels=CO), (D, CO, R, CL)), (3,))
    else:
        accepted_weights(W, lambda: (EinsumLayer([x for x in two(W, D, CL, CR, R, 2)[::2]], out_channels=CO), (D, CO, R, CL, CR)), (3, 4))
