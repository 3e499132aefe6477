"""C01: every sum layer computes a normalised convex mixture of its inputs."""
import torch
from ..runner import harness
from ..lib import *
H = []
FUN = ["Sum.__init__", "Sum.log_likelihood", "Sum.weights", "Sum.log_weights", "Sum._process_weights_parameter", "proj_convex_to_real"]


@harness(H, funcs=FUN)
def sum_ll(W):
    from spflow.modules.sums import Sum
    B, F, CI, CO, R = (W.dim(n) for n in ("B", "F", "CI", "CO", "R"))
    s, ll = stub(W, "ll", F, CI, R, B, kind="ll")
    m = Sum(s, out_channels=CO, num_repetitions=R)
    set_params(W, m)
    w = m.weights
    W.check_eq("norm", w.sum(1), (F, CO, R), lambda f, o, r: 1)
    W.check_eq("logw", m.log_weights, (F, CI, CO, R), lambda f, c, o, r: W.log(W.at(w, f, c, o, r)))
    out = m.log_likelihood(W.tensor("x", (B, F)))
    W.check_eq("mix", out, (B, F, CO, R), lambda b, f, o, r: W.log(W.sum(CI, lambda c: W.at(w, f, c, o, r) * W.exp(W.at(ll, b, f, c, r)))))
    W.check("out_shape", W.and_(W.eq(m.out_shape.features, F), W.eq(m.out_shape.channels, CO), W.eq(m.out_shape.repetitions, R)))


@harness(H, funcs=FUN + ["Cat.log_likelihood"])
def sum_ll_list(W):
    """Sum over a list of inputs mixes all channels of all inputs, in order."""
    from spflow.modules.sums import Sum
    B, F, C1, C2, CO, R = (W.dim(n) for n in ("B", "F", "C1", "C2", "CO", "R"))
    a, la = stub(W, "a", F, C1, R, B)
    b_, lb = stub(W, "b", F, C2, R, B)
    m = Sum([a, b_], out_channels=CO, num_repetitions=R)
    set_params(W, m)
    w = m.weights
    out = m.log_likelihood(W.tensor("x", (B, F)))
    W.check_eq("norm", w.sum(1), (F, CO, R), lambda f, o, r: 1)
    W.check_eq("mix", out, (B, F, CO, R), lambda b, f, o, r: W.log(
        W.sum(C1, lambda c: W.at(w, f, c, o, r) * W.exp(W.at(la, b, f, c, r)))
        + W.sum(C2, lambda c: W.at(w, f, C1 + c, o, r) * W.exp(W.at(lb, b, f, c, r)))))


@harness(H, funcs=["WeightedSum.__init__", "WeightedSum.log_likelihood", "WeightedSum.log_weights"])
def weighted_sum_ll(W):
    """the unnormalised non-negative mixture of the integral circuits"""
    from spflow.zoo.pic.weighted_sum import WeightedSum
    B, F, CI, CO, R = (W.dim(n) for n in ("B", "F", "CI", "CO", "R"))
    s, ll = stub(W, "ll", F, CI, R, B, kind="ll")
    w = W.tensor("w", (F, CI, CO, R), "pos")
    m = WeightedSum(s, w)
    W.check_eq("kept", m.weights, (F, CI, CO, R), lambda *i: W.at(w, *i))
    out = m.log_likelihood(W.tensor("x", (B, F)))
    W.check_eq("mix", out, (B, F, CO, R), lambda b, f, o, r: W.log(W.sum(CI, lambda c: W.at(w, f, c, o, r) * W.exp(W.at(ll, b, f, c, r)))))


@harness(H, funcs=["WeightedSum.__init__", "WeightedSum.weights.setter", "WeightedSum.log_likelihood"])
def weighted_sum_weights(W):
    """1-4 dimensional weights, weights shared by all features, a list of inputs, weights assigned later"""
    from spflow.zoo.pic.weighted_sum import WeightedSum
    B, F, CI, CO = (W.dim(n) for n in ("B", "F", "CI", "CO"))
    case = W.choice("case", [1, 2, 3, 4, "shared", "list", "assigned"])
    R = 1 if case in (1, 2, 3) else W.dim("R")
    if case == 1:
        CO = 1
    x = W.tensor("x", (B, F))
    if case == "list":
        C2 = W.dim("C2")
        la, lb = W.tensor("la", (B, F, CI, R), "ll"), W.tensor("lb", (B, F, C2, R), "ll")
        w = W.tensor("w", (F, CI + C2, CO, R), "pos")
        m = WeightedSum([Stub(la, (F, CI, R), Scope(list(range(64)))), Stub(lb, (F, C2, R), Scope(list(range(64))))], w)
        W.check_eq("list", m.log_likelihood(x), (B, F, CO, R), lambda b, f, o, r: W.log(
            W.sum(CI, lambda c: W.at(w, f, c, o, r) * W.exp(W.at(la, b, f, c, r)))
            + W.sum(C2, lambda c: W.at(w, f, CI + c, o, r) * W.exp(W.at(lb, b, f, c, r)))))
        return
    s, ll = stub(W, "ll", F, CI, R, B, kind="ll")
    shape = {1: (CI,), 2: (CI, CO), 3: (F, CI, CO), "shared": (1, CI, CO, R)}.get(case, (F, CI, CO, R))
    w = W.tensor("w", shape, "pos")
    at = {1: lambda f, c, o, r: W.at(w, c), 2: lambda f, c, o, r: W.at(w, c, o), 3: lambda f, c, o, r: W.at(w, f, c, o),
          "shared": lambda f, c, o, r: W.at(w, 0, c, o, r)}.get(case, lambda *i: W.at(w, *i))
    if case == "assigned":
        m = WeightedSum(s, W.tensor("v", shape, "pos"))
        m.weights = w
    else:
        m = WeightedSum(s, w)
    W.check_eq("kept", m.weights, (F, CI, CO, R), at)
    W.check_eq("mix", m.log_likelihood(x), (B, F, CO, R), lambda b, f, o, r: W.log(
        W.sum(CI, lambda c: at(f, c, o, r) * W.exp(W.at(ll, b, f, c, r)))))


def normalised(W, name, shape, dim):
    u = W.tensor(name, shape, "pos")
    return u / u.sum(dim, keepdim=True)


@harness(H, funcs=FUN + ["Sum.weights.setter", "Sum.log_weights.setter"])
def sum_setters(W):
    """user supplied normalised weights are exactly the mixture weights, by every route."""
    from spflow.modules.sums import Sum
    B, F, CI, CO, R = (W.dim(n) for n in ("B", "F", "CI", "CO", "R"))
    s, ll = stub(W, "ll", F, CI, R, B)
    w = normalised(W, "w", (F, CI, CO, R), 1)
    m = Sum(s, out_channels=CO, num_repetitions=R)
    m.weights = w
    W.check_eq("set_w", m.weights, (F, CI, CO, R), lambda *i: W.at(w, *i))
    m3 = Sum(s, weights=w)
    W.check_eq("ctor_w", m3.weights, (F, CI, CO, R), lambda *i: W.at(w, *i))
    v = W.tensor("v", (F, CI, CO, R))
    m.log_weights = v
    W.check_eq("set_logw", m.weights, (F, CI, CO, R),
               lambda f, c, o, r: W.exp(W.at(v, f, c, o, r)) / W.sum(CI, lambda k: W.exp(W.at(v, f, k, o, r))))
    out = m.log_likelihood(W.tensor("x", (B, F)))
    W.check_eq("ll_after_set", out, (B, F, CO, R), lambda b, f, o, r: W.log(
        W.sum(CI, lambda c: W.exp(W.at(v, f, c, o, r)) * W.exp(W.at(ll, b, f, c, r)))
        / W.sum(CI, lambda c: W.exp(W.at(v, f, c, o, r)))))


@harness(H, funcs=FUN)
def sum_ctor_low_dim(W):
    """1-3 dimensional weights are broadcast to the documented axes."""
    from spflow.modules.sums import Sum
    B, F, CI, CO = (W.dim(n) for n in ("B", "F", "CI", "CO"))
    s, ll = stub(W, "ll", 1, CI, 1, B)
    w1 = normalised(W, "w1", (CI,), 0)
    W.check_eq("w1", Sum(s, weights=w1).weights, (1, CI, 1, 1), lambda f, c, o, r: W.at(w1, c))
    w2 = normalised(W, "w2", (CI, CO), 0)
    W.check_eq("w2", Sum(s, weights=w2).weights, (1, CI, CO, 1), lambda f, c, o, r: W.at(w2, c, o))
    s3, _ = stub(W, "l3", F, CI, 1, B)
    w3 = normalised(W, "w3", (F, CI, CO), 1)
    W.check_eq("w3", Sum(s3, weights=w3).weights, (F, CI, CO, 1), lambda f, c, o, r: W.at(w3, f, c, o))


@harness(H, funcs=FUN + ["Sum.weights.setter"], sym=False)
def sum_rejects(W):
    """weights that are not a convex combination are rejected at every entry point."""
    from spflow.modules.sums import Sum, ElementwiseSum
    from spflow.exceptions import InvalidWeightsError, ShapeError
    F, CI, CO, R = (W.dim(n) for n in ("F", "CI", "CO", "R"))
    s, _ = stub(W, "ll", F, CI, R, 2)
    w = normalised(W, "w", (F, CI, CO, R), 1)
    m = Sum(s, out_channels=CO, num_repetitions=R)
    j = tuple(W.rng.randrange(d) for d in w.shape)
    kind = W.choice("kind", ["neg", "zero", "scale", "onecol", "balanced", "slight", "shape"])
    bad = w.clone()
    if kind == "neg":
        bad[j] = -bad[j]
    elif kind == "zero":
        W.require(CI > 1)
        bad[j] = 0.0
        bad = bad / bad.sum(1, keepdim=True)
    elif kind == "scale":
        bad = bad * W.rng.choice([0.5, 0.9, 1.1, 3.0])
    elif kind == "onecol":
        bad[j] = bad[j] + 0.3
    elif kind == "balanced":        # wrong columns whose errors cancel
        W.require(F * CO * R > 1)
        t = [(f, o, r) for f in range(F) for o in range(CO) for r in range(R)]
        a_, b_ = W.rng.sample(t, 2)
        bad[a_[0], :, a_[1], a_[2]] *= 1.2
        bad[b_[0], :, b_[1], b_[2]] *= 0.8
    elif kind == "slight":
        bad = bad * W.rng.choice([0.9996, 1.0005])
    else:
        bad = torch.cat([bad, bad], 0)
    E = (InvalidWeightsError, ShapeError, ValueError)

    def setit():
        m.weights = bad
    W.raises("setter_rejects", E, setit)
    if kind != "shape":
        W.raises("ctor_rejects", E, lambda: Sum(s, weights=bad))
    W.check_eq("unchanged_is_normalised", m.weights.sum(1), (F, CO, R), lambda *i: 1)
    a, _ = stub(W, "a", F, CI, R, 2)
    b, _ = stub(W, "b", F, CI, R, 2)
    we = normalised(W, "we", (F, CI, CO, 2, R), 3)
    me = ElementwiseSum([a, b], out_channels=CO, num_repetitions=R)
    be = we.clone()
    if kind == "slight":
        be = be * W.rng.choice([0.9996, 1.0005])
    elif kind == "balanced":
        be[0, 0, 0, :, R - 1] *= 1.1
        be[F - 1, CI - 1, CO - 1, :, 0] *= 0.9
    else:
        be[0, 0, 0, 1, R - 1] += W.rng.choice([-0.2, 0.2, -1.5])

    def sete():
        me.weights = be
    W.raises("elementwise_setter_rejects", E, sete)
    W.raises("elementwise_ctor_rejects", E, lambda: ElementwiseSum([a, b], weights=be))


@harness(H, funcs=["ElementwiseSum.__init__", "ElementwiseSum.log_likelihood", "ElementwiseSum.weights", "ElementwiseSum.log_weights"],
         sym_time=150)
def elementwise_sum_ll(W):
    """output channel (ci, co) = mixture over the inputs of channel ci (single channel inputs broadcast)."""
    from spflow.modules.sums import ElementwiseSum
    B, F, C, CO, R = (W.dim(n) for n in ("B", "F", "C", "CO", "R"))
    bc = W.choice("broadcast", [None, 0, 2])
    xs, lls, chs = [], [], []
    for i in range(3):
        c = 1 if bc == i else C
        a, l = stub(W, f"ll{i}", F, c, R, B, kind="ll")
        xs.append(a); lls.append(l); chs.append(c)
    m = ElementwiseSum(xs, out_channels=CO, num_repetitions=R)
    set_params(W, m)
    w = m.weights
    W.check_eq("norm", w.sum(3), (F, C, CO, R), lambda *i: 1)
    W.check_eq("logw", m.log_weights, (F, C, CO, 3, R), lambda *i: W.log(W.at(w, *i)))
    out = m.log_likelihood(W.tensor("x", (B, F)))

    def spec(b, f, k, r):
        ci, co = W.fdiv(k, CO), W.fmod(k, CO)
        t = 0
        for i in range(3):
            t = t + W.at(w, f, ci, co, i, r) * W.exp(W.at(lls[i], b, f, 0 if bc == i else ci, r))
        return W.log(t)
    W.check_eq("mix", out, (B, F, C * CO, R), spec)


@harness(H, funcs=["ElementwiseSum.weights.setter", "ElementwiseSum.log_weights.setter", "ElementwiseSum.__init__"])
def elementwise_sum_setters(W):
    from spflow.modules.sums import ElementwiseSum
    F, C, CO, R = (W.dim(n) for n in ("F", "C", "CO", "R"))
    a, _ = stub(W, "a", F, C, R, 1)
    b, _ = stub(W, "b", F, C, R, 1)
    w = normalised(W, "w", (F, C, CO, 2, R), 3)
    m = ElementwiseSum([a, b], out_channels=CO, num_repetitions=R)
    m.weights = w
    W.check_eq("set_w", m.weights, (F, C, CO, 2, R), lambda *i: W.at(w, *i))
    m2 = ElementwiseSum([a, b], weights=w)
    W.check_eq("ctor_w", m2.weights, (F, C, CO, 2, R), lambda *i: W.at(w, *i))
    v = W.tensor("v", (F, C, CO, 2, R))
    m.log_weights = v
    W.check_eq("set_logw", m.weights, (F, C, CO, 2, R), lambda f, c, o, i, r: W.exp(W.at(v, f, c, o, i, r)) / (
        W.exp(W.at(v, f, c, o, 0, r)) + W.exp(W.at(v, f, c, o, 1, r))))


@harness(H, funcs=["RepetitionMixingLayer.__init__", "RepetitionMixingLayer.log_likelihood"])
def rep_mixing_ll(W):
    """mixes the repetitions of each channel with weights that sum to one over repetitions."""
    from spflow.modules.sums import RepetitionMixingLayer
    B, F, C, R = (W.dim(n) for n in ("B", "F", "C", "R"))
    s, ll = stub(W, "ll", F, C, R, B, kind="ll")
    m = RepetitionMixingLayer(s, out_channels=C, num_repetitions=R)
    set_params(W, m)
    w = m.weights
    W.check_eq("norm", w.sum(2), (F, C), lambda f, c: 1)
    out = m.log_likelihood(W.tensor("x", (B, F)))
    W.check_eq("mix", out, (B, F, C, 1), lambda b, f, c, _: W.log(
        W.sum(R, lambda r: W.at(w, f, c, r) * W.exp(W.at(ll, b, f, c, r)))))


@harness(H, funcs=["Sum.log_likelihood", "RepetitionMixingLayer.log_likelihood"])
def sum_preserves_mass(W):
    """if every input channel has total mass one over a finite support (the batch axis enumerates it), so does
    every output channel."""
    from spflow.modules.sums import Sum, RepetitionMixingLayer
    B, F, CI, CO, R = (W.dim(n) for n in ("B", "F", "CI", "CO", "R"))
    u = W.tensor("u", (B, F, CI, R), "pos")
    ll = (u / u.sum(0, keepdim=True)).log()
    m = Sum(Stub(ll, (F, CI, R)), out_channels=CO, num_repetitions=R)
    set_params(W, m)
    x = W.tensor("x", (B, F))
    W.check_eq("mass", m.log_likelihood(x).exp().sum(0), (F, CO, R), lambda *i: 1)
    m = RepetitionMixingLayer(Stub(ll, (F, CI, R)), out_channels=CI, num_repetitions=R)
    set_params(W, m)
    W.check_eq("mass_rep", m.log_likelihood(x).exp().sum(0), (F, CI, 1), lambda *i: 1)


@harness(H, funcs=["Sum.log_likelihood", "WeightedSum.log_likelihood", "ElementwiseSum.log_likelihood", "RepetitionMixingLayer.log_likelihood"], sym=False, seeds=80)
def far_apart(W):
    """scaling the inputs of one row, feature or repetition scales that output only and by the same factor, at any magnitude"""
    from spflow.modules.sums import Sum, ElementwiseSum
    from spflow.modules.sums.repetition_mixing_layer import RepetitionMixingLayer
    from spflow.zoo.pic.weighted_sum import WeightedSum
    B, F, C, CO, R = (W.dim(n) for n in ("B", "F", "C", "CO", "R"))
    kind = W.choice("kind", ["sum", "weighted", "elementwise", "repetitions"])
    k = 2 if kind == "elementwise" else 1
    ss = [stub(W, f"l{i}", F, C, R, B)[0] for i in range(k)]
    o = far(W, B, F, 1, R)
    want = o
    if kind == "sum":
        m = Sum(ss[0], out_channels=CO, num_repetitions=R)
    elif kind == "weighted":
        m = WeightedSum(ss[0], torch.rand(F, C, CO, R) + 0.01)
    elif kind == "elementwise":
        m = ElementwiseSum(ss, out_channels=CO, num_repetitions=R)
    else:
        o = far(W, B, F, 1, 1)
        want = o
        m = RepetitionMixingLayer(ss[0], out_channels=C, num_repetitions=R)
    if kind != "weighted":
        set_params(W, m)
    shifts(W, "scale", m, ss, [o] * k, W.tensor("x", (B, F)), want)


@harness(H, funcs=["RepetitionMixingLayer.__init__", "RepetitionMixingLayer._process_weights_parameter", "Sum.weights.setter", "Sum.log_weights.setter"])
def rep_mixing_setters(W):
    """weights normalised over the repetitions are exactly the mixture weights, by every route."""
    from spflow.modules.sums.repetition_mixing_layer import RepetitionMixingLayer
    B, F, C, R = (W.dim(n) for n in ("B", "F", "C", "R"))
    s, ll = stub(W, "ll", F, C, R, B)
    w = normalised(W, "w", (F, C, R), 2)
    m = RepetitionMixingLayer(s, weights=w)
    W.check_eq("ctor_w", m.weights, (F, C, R), lambda *i: W.at(w, *i))
    m = RepetitionMixingLayer(s, out_channels=C, num_repetitions=R)
    m.weights = w
    W.check_eq("set_w", m.weights, (F, C, R), lambda *i: W.at(w, *i))
    v = W.tensor("v", (F, C, R))
    m.log_weights = v
    den = lambda f, c: W.sum(R, lambda k: W.exp(W.at(v, f, c, k)))
    W.check_eq("set_logw", m.weights, (F, C, R), lambda f, c, r: W.exp(W.at(v, f, c, r)) / den(f, c))
    one = stub(W, "l1", 1, C, R, B)[0]
    w2 = normalised(W, "w2", (C, R), 1)
    W.check_eq("ctor_w2", RepetitionMixingLayer(one, weights=w2).weights, (1, C, R), lambda f, c, r: W.at(w2, c, r))


@harness(H, funcs=["RepetitionMixingLayer._process_weights_parameter", "Sum._process_weights_parameter", "Sum.weights.setter"], sym=False, seeds=60)
def rep_mixing_rejects(W):
    """weights that are no mixture over the repetitions, or contradict the other arguments, are rejected"""
    from spflow.modules.sums.repetition_mixing_layer import RepetitionMixingLayer
    F, C, R = W.rng.randint(1, 3), W.rng.randint(1, 3), W.rng.randint(2, 3)
    s, _ = stub(W, "ll", F, C, R, 2)
    w = normalised(W, "w", (F, C, R), 2)
    kind = W.choice("kind", ["channels", "scale", "negative", "out_channels", "repetitions", "dims", "wrong channels"])
    bad, kw = w, {}
    if kind == "channels":
        bad = normalised(W, "w", (F, C, R), 1)
        W.require(not torch.allclose(bad.sum(2), torch.ones(F, C), atol=1e-3))
    elif kind == "scale":
        bad = w * W.rng.choice([.5, 1.1, 3])
    elif kind == "negative":
        bad = w.clone()
        bad[0, 0, 0] -= 2
        bad[0, 0, 1] += 2
    elif kind == "out_channels":
        kw = {"out_channels": C + 1}
    elif kind == "repetitions":
        kw = {"num_repetitions": R + 1}
    elif kind == "dims":
        bad = w[None]
    else:
        bad = normalised(W, "w", (F, C + 1, R), 2)
    W.raises(kind, Exception, lambda: RepetitionMixingLayer(s, weights=bad, **kw))


def accepted_weights(W, mk, axes):
    """after `m.weights = u` for arbitrary numbers u: either refused, and then u is not a convex combination, or u is positive and sums to
    one over the axes (up to the tolerance of the comparison)"""
    from spflow.exceptions import InvalidWeightsError
    m, shape = mk()
    u = W.tensor("u", shape)
    if not W.sym:
        v = u.exp() / u.exp().sum(axes, keepdim=True)
        e = torch.randn(v.sum(axes, keepdim=True).shape) * .1
        u = W.rng.choice([u, v, v * W.rng.choice([.9, 1.2]), -v, v + W.rng.choice([.3, 1]) * (u - u.mean(axes, keepdim=True)), v * (1 + e - e.mean())])
    rest = [k for k in range(len(shape)) if k not in axes]

    def tot(*i):
        at = dict(zip(rest, i))

        def go(ks):
            if not ks:
                return W.at(u, *[at[k] for k in range(len(shape))])
            return W.sum(shape[ks[0]], lambda j: (at.__setitem__(ks[0], j), go(ks[1:]))[1])
        return go(list(axes))
    try:
        m.weights = u
    except (InvalidWeightsError, ValueError):
        if bool((u > 0).all()) and bool((u.sum(axes) == 1).all()):
            W.check("needless refusal", False)
        return
    W.check_all("positive", shape, lambda *i: W.lt(0, W.at(u, *i)))
    W.check_all("sums to one", [shape[k] for k in rest], lambda *i: W.and_(W.lt(tot(*i), 1.001), W.lt(0.999, tot(*i))))


@harness(H, funcs=["Sum.weights.setter"])
def sum_accepts(W):
    from spflow.modules.sums import Sum
    F, CI, CO, R = (W.dim(n) for n in ("F", "CI", "CO", "R"))
    accepted_weights(W, lambda: (Sum(stub(W, "ll", F, CI, R, 2)[0], out_channels=CO, num_repetitions=R), (F, CI, CO, R)), (1,))


@harness(H, funcs=["ElementwiseSum.weights.setter"])
def elementwise_sum_accepts(W):
    from spflow.modules.sums import ElementwiseSum
    F, C, CO, R, N = W.dim("F"), W.dim("C"), W.dim("CO"), W.dim("R"), W.choice("N", [1, 2, 3])
    accepted_weights(W, lambda: (ElementwiseSum([stub(W, f"l{k}", F, C, R, 2)[0] for k in range(N)], out_channels=CO, num_repetitions=R), (F, C, CO, N, R)), (3,))
