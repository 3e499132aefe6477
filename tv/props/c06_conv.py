"""C06: convolutional sum = per-pixel mixture with the weights of the pixel's position in its patch; convolutional product =
sum of the log-likelihoods of exactly the pixels of the patch, padding contributing nothing."""
import math
import torch
from ..runner import harness
from ..lib import *
H = []
BIG = Scope(list(range(64)))


@harness(H, funcs=["SumConv.__init__", "SumConv.log_likelihood", "SumConv.log_weights"])
def sumconv_ll(W):
    from spflow.modules.conv import SumConv
    B, K, P, CI, CO, R = (W.dim(n) for n in ("B", "K", "P", "CI", "CO", "R"))
    G = K * P
    s, ll = stub(W, "ll", G * G, CI, R, B, BIG, kind="ll")
    m = SumConv(s, out_channels=CO, kernel_size=K, num_repetitions=R)
    set_params(W, m)
    lg = m.logits
    out = m.log_likelihood(W.tensor("x", (B, 2)))
    W.check("shape", W.and_(W.eq(out.shape[1], G * G), W.eq(out.shape[2], CO), W.eq(out.shape[3], R)))
    den = lambda o, u, v, r: W.sum(CI, lambda j: W.exp(W.at(lg, o, j, u, v, r)))
    # pixel (y, x) with y = p*K + u, x = q*K + v
    W.check_all("mixture", (B, P, K, P, K, CO, R), lambda b, p, u, q, v, o, r: W.same(
        W.at(out, b, (p * K + u) * G + q * K + v, o, r),
        W.log(W.sum(CI, lambda i: W.exp(W.at(ll, b, (p * K + u) * G + q * K + v, i, r)) * W.exp(W.at(lg, o, i, u, v, r)) / den(o, u, v, r)))))


@harness(H, funcs=["SumConv.log_likelihood"])
def sumconv_single_pixel(W):
    """a single pixel sits at position (0, 0) whatever the kernel size"""
    from spflow.modules.conv import SumConv
    B, CI, CO, R = (W.dim(n) for n in ("B", "CI", "CO", "R"))
    K = W.dim("K")
    s, ll = stub(W, "ll", 1, CI, R, B, Scope([0]), kind="ll")
    m = SumConv(s, out_channels=CO, kernel_size=K, num_repetitions=R)
    set_params(W, m)
    lg = m.logits
    out = m.log_likelihood(W.tensor("x", (B, 1)))
    W.check_eq("mixture", out, (B, 1, CO, R), lambda b, f, o, r: W.log(W.sum(CI, lambda i: W.exp(W.at(ll, b, 0, i, r)) * W.exp(W.at(lg, o, i, 0, 0, r)))
               / W.sum(CI, lambda i: W.exp(W.at(lg, o, i, 0, 0, r)))))


@harness(H, funcs=["SumConv.weights", "SumConv.log_weights"])
def sumconv_weights(W):
    from spflow.modules.conv import SumConv
    K, P, CI, CO, R = (W.dim(n) for n in ("K", "P", "CI", "CO", "R"))
    s, _ = stub(W, "ll", P * P * K * K, CI, R, 1, BIG)
    m = SumConv(s, out_channels=CO, kernel_size=K, num_repetitions=R)
    set_params(W, m)
    w, lw = m.weights, m.log_weights
    sh = (CO, CI, K, K, R)
    W.check_all("nonneg", sh, lambda *i: W.le(0, W.at(w, *i)))
    W.check_all("normalised", (CO, K, K, R), lambda o, u, v, r: W.same(W.sum(CI, lambda i: W.at(w, o, i, u, v, r)), 1))
    W.check_eq("log", lw, sh, lambda *i: W.log(W.at(w, *i)))


@harness(H, funcs=["SumConv.weights.setter", "proj_convex_to_real"])
def sumconv_set_weights(W):
    """weights read back after setting them are the weights that were set"""
    from spflow.modules.conv import SumConv
    K, CI, CO, R = (W.dim(n) for n in ("K", "CI", "CO", "R"))
    s, _ = stub(W, "ll", K * K, CI, R, 1, BIG)
    m = SumConv(s, out_channels=CO, kernel_size=K, num_repetitions=R)
    u = W.tensor("u", (CO, CI, K, K, R), "pos")
    w = u / u.sum(1, keepdim=True)
    m.weights = w
    W.check_eq("roundtrip", m.weights, (CO, CI, K, K, R), lambda *i: W.at(w, *i))


@harness(H, funcs=["SumConv.__init__", "SumConv.weights.setter", "SumConv.log_likelihood"], sym=False, seeds=80)
def sumconv_rejects(W):
    from spflow.modules.conv import SumConv
    r = W.rng
    case = W.choice("case", ["kernel", "channels", "grid", "divisible", "reps", "unnormalised", "negative", "shape"])
    CI, R = r.randint(1, 3), r.randint(1, 3)
    n = r.randint(1, 5)
    mk = lambda F, R: stub(W, "ll", F, CI, R, 2, Scope(list(range(F))))[0]
    from spflow.exceptions import ShapeError, InvalidWeightsError
    E = (ValueError, RuntimeError, ShapeError, InvalidWeightsError)
    x = torch.zeros(2, 3)
    if case == "kernel":
        W.raises("rejected", E, lambda: SumConv(mk(n * n, R), out_channels=2, kernel_size=r.randint(-2, 0), num_repetitions=R))
    elif case == "channels":
        W.raises("rejected", E, lambda: SumConv(mk(n * n, R), out_channels=r.randint(-2, 0), kernel_size=1, num_repetitions=R))
    elif case == "grid":
        F = r.choice([2, 3, 5, 6, 7, 8, 10, 12])
        W.raises("rejected", E, lambda: SumConv(mk(F, R), out_channels=2, kernel_size=1, num_repetitions=R).log_likelihood(x))
    elif case == "divisible":
        I, K = r.choice([(3, 2), (5, 2), (4, 3), (5, 3), (7, 3)])
        W.raises("rejected", E, lambda: SumConv(mk(I * I, R), out_channels=2, kernel_size=K, num_repetitions=R).log_likelihood(x))
    elif case == "reps":
        W.raises("rejected", E, lambda: SumConv(mk(4, R), out_channels=2, kernel_size=2, num_repetitions=R + 1).log_likelihood(x))
    else:
        m = SumConv(mk(4, R), out_channels=2, kernel_size=2, num_repetitions=R)
        w = m.weights.detach().clone()
        if case == "unnormalised":
            w = w * 1.3
        elif case == "negative":
            w[0] = -w[0] if CI == 1 else w[0] * 0
            if CI > 1:
                w[0, 0], w[0, 1] = -0.5, 1.5
        else:
            w = w[..., :1, :, :]
        W.raises("rejected", E, lambda: setattr(m, "weights", w))


def _prodconv(pad):
    def run(W):
        from spflow.modules.conv import ProdConv
        B, C, R = (W.dim(n) for n in ("B", "C", "R"))
        KH, KW = W.dim("KH"), W.dim("KW")
        if pad:
            I = W.dim("I", 1, 6)
            PH, PW = W.dim("PH", 0, 2), W.dim("PW", 0, 2)
            W.require(KH <= I + 2 * PH)
            W.require(KW <= I + 2 * PW)
        else:
            P, Q = W.dim("P"), W.dim("Q")
            if W.sym:
                KW, I = KH, KH * P
            else:
                I = W.rng.choice([k for k in range(1, 13) if k % KH == 0 and k % KW == 0])
            PH = PW = 0
        OH, OW = W.fdiv(I + 2 * PH, KH), W.fdiv(I + 2 * PW, KW)
        s, ll = stub(W, "ll", I * I, C, R, B, BIG, kind="ll" if not pad else "real", f2s=None if W.sym else grid_scopes(I, R))
        m = ProdConv(s, kernel_size_h=KH, kernel_size_w=KW, padding_h=PH, padding_w=PW)
        out = m.log_likelihood(W.tensor("x", (B, 2)))
        W.check("shape", W.and_(W.eq(out.shape[1], OH * OW), W.eq(out.shape[2], C), W.eq(out.shape[3], R)))
        W.check("out_shape", W.and_(W.eq(m.out_shape.features, OH * OW), W.eq(m.out_shape.channels, C), W.eq(m.out_shape.repetitions, R)))

        def pixel(b, y, x, c, r):
            if not pad:
                return W.at(ll, b, y * I + x, c, r)
            ok = W.and_(W.le(0, y), W.lt(y, I), W.le(0, x), W.lt(x, I))
            if W.sym:
                return W.ite(ok, W.at(ll, b, y * I + x, c, r), 0)
            return W.at(ll, b, y * I + x, c, r) if ok else 0.0
        W.check_all("patch_sum", (B, OH, OW, C, R), lambda b, p, q, c, r: W.same(W.at(out, b, p * OW + q, c, r),
                    W.sum(KH, lambda u: W.sum(KW, lambda v: pixel(b, p * KH - PH + u, q * KW - PW + v, c, r)))))
    run.__name__ = "prodconv_padded" if pad else "prodconv_ll"
    return run


def grid_scopes(I, R):
    import numpy as np
    o = np.empty((I * I, R), dtype=object)
    for i in range(I * I):
        for r in range(R):
            o[i, r] = Scope([i])
    return o


harness(H, funcs=["ProdConv.__init__", "ProdConv.log_likelihood", "ProdConv._compute_scope"])(_prodconv(False))
harness(H, funcs=["ProdConv.log_likelihood"], seeds=150, maxdim=4,
        sym_configs=[{"I": i, "KH": a, "KW": b, "PH": p, "PW": q} for i, a, b, p, q in ((2, 2, 2, 1, 1), (3, 2, 3, 1, 0), (2, 1, 2, 0, 1), (4, 3, 2, 1, 2))])(_prodconv(True))


@harness(H, funcs=["ProdConv.feature_to_scope", "SumConv.feature_to_scope"], sym=False, seeds=150)
def conv_scopes(W):
    """the scope of an output pixel is the union of the scopes of the input pixels in its patch, and the overall scope is
    the scope of the input"""
    from spflow.modules.conv import ProdConv, SumConv
    r = W.rng
    I, R, C = r.randint(1, 6), r.randint(1, 2), 2
    KH, KW, PH, PW = r.randint(1, 3), r.randint(1, 3), r.randint(0, 2), r.randint(0, 2)
    W.require(KH <= I + 2 * PH and KW <= I + 2 * PW)
    if r.random() < 0.5:
        PH = PW = 0
        ks = [k for k in range(1, I + 1) if I % k == 0]
        KH, KW = r.choice(ks), r.choice(ks)
    W.used["conv"] = f"grid {I}, kernel {KH}x{KW}, padding {PH}x{PW}"
    s, _ = stub(W, "ll", I * I, C, R, 2, Scope(list(range(I * I))), f2s=grid_scopes(I, R))
    m = ProdConv(s, kernel_size_h=KH, kernel_size_w=KW, padding_h=PH, padding_w=PW)
    OH, OW = (I + 2 * PH) // KH, (I + 2 * PW) // KW
    f = m.feature_to_scope
    W.check("shape", f.shape == (OH * OW, R))
    for k in range(R):
        for p in range(OH):
            for q in range(OW):
                want = {y * I + x for y in range(p * KH - PH, p * KH - PH + KH) for x in range(q * KW - PW, q * KW - PW + KW) if 0 <= y < I and 0 <= x < I}
                W.check("patch_scope", set(f[p * OW + q, k].query) == want)
    W.check("scope", set(m.scope.query) == set(range(I * I)))
    if PH == PW == 0:
        x = SumConv(s, out_channels=2, kernel_size=1, num_repetitions=R)
        W.check("sum_scope", all(x.feature_to_scope[i, k] == Scope([i]) for i in range(I * I) for k in range(R)) and x.scope == s.scope)


@harness(H, funcs=["SumConv", "ProdConv (composed)"], sym=False, seeds=25, conc_time=100)
def conv_circuit_normalised(W):
    """a stack of convolutional layers over binary pixels: likelihoods of all images sum to one (bounded: 2x2 and 3x3 grids,
    4x4 through its 2x2 blocks being independent is not used)"""
    from spflow.modules.conv import ProdConv, SumConv
    from spflow.modules.leaves import Bernoulli
    r = W.rng
    torch.manual_seed(r.randrange(10 ** 9))
    I = r.choice([1, 2, 3])
    R, C = r.randint(1, 2), r.randint(1, 3)
    x = Bernoulli(Scope(list(range(I * I))), out_channels=C, num_repetitions=R)
    x.logits.data = torch.randn_like(x.logits)
    for _ in range(r.randint(0, 2)):
        x = SumConv(x, out_channels=r.randint(1, 3), kernel_size=r.choice([1, I]), num_repetitions=R)
        x.logits.data = torch.randn_like(x.logits) * 2
    kh, kw = r.choice([(I, I), (1, I), (I, 1)])
    x = ProdConv(x, kernel_size_h=kh, kernel_size_w=kw)
    n = int(x.out_shape.features)
    if n > 1:
        from spflow.modules.products import Product
        x = Product(x)
    st = torch.tensor([[float((k >> j) & 1) for j in range(I * I)] for k in range(2 ** (I * I))])
    tot = x.log_likelihood(st).exp().sum(0)
    W.check("total_one", bool(((tot - 1).abs() < 1e-8).all()), lambda: str(tot.flatten().tolist()))


@harness(H, funcs=["SumConv.log_likelihood"], sym=False, seeds=60)
def far_apart(W):
    """scaling the inputs of one row, pixel or repetition scales that pixel only and by the same factor, at any magnitude"""
    from spflow.modules.conv import SumConv
    B, C, CO, R = (W.dim(n) for n in ("B", "C", "CO", "R"))
    K = W.choice("K", [1, 2, 3])
    n = K * W.choice("tiles", [1, 2])
    s, ll = stub(W, "ll", n * n, C, R, B, Scope(list(range(n * n))))
    m = SumConv(s, out_channels=CO, kernel_size=K, num_repetitions=R)
    set_params(W, m)
    o = far(W, B, n * n, 1, R)
    shifts(W, "scale", m, [s], [o], W.tensor("x", (B, n * n)), o)


@harness(H, funcs=["SumConv.weights.setter"])
def sumconv_accepts(W):
    """the setter accepts exactly the convex combinations (up to the tolerance of the comparison)"""
    from spflow.modules.conv import SumConv
    from .c01_sum import accepted_weights
    CI, CO, R = (W.dim(n) for n in ("CI", "CO", "R"))
    K = W.choice("K", [1, 2])
    accepted_weights(W, lambda: (SumConv(stub(W, "ll", 4, CI, R, 2, Scope([0, 1, 2, 3]))[0], out_channels=CO, kernel_size=K, num_repetitions=R), (CO, CI, K, K, R)), (1,))
