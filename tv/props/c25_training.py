"""C25: gradient training and the autoencoder minimise the objectives they state; the joint-circuit encoders are the conditionals
of their joint distribution."""
import itertools
import math
import numpy as np
import torch
from torch import nn
from ..runner import harness
from ..lib import *
from .c11_law import newcache, freq_ok, unfamiliar
from .c24_differentiable import soft
H = []


def close(a, b, tol=1e-6):
    return bool(((a - b).abs() <= tol * (1 + b.abs())).all())


# ---------------------------------------------------------------- latent routing layers
PAIR = [{"Q": q, "R": r} for q in (1, 2, 3) for r in (1, 2)]


@harness(H, funcs=["_PairwiseLatentProduct.log_likelihood"], sym_configs=PAIR, literal=("Q", "R"))
def pair_ll(W):
    """each output is the product of two neighbouring latents and has their joint scope."""
    from spflow.zoo.apc.encoders.convpc_joint_encoder import _PairwiseLatentProduct as P
    B, Q, C, R = (W.dim(n) for n in ("B", "Q", "C", "R"))
    s, ll = stub(W, "a", 2 * Q, C, R, B, Scope(list(range(2 * int(Q)))))
    m = P(s)
    out = m.log_likelihood(W.tensor("x", (B, 2)), cache=newcache())
    W.check_eq("pairs", out, (B, Q, C, R), lambda b, f, c, r: W.at(ll, b, 2 * f, c, r) + W.at(ll, b, 2 * f + 1, c, r))
    W.check("scopes", all(sorted(m.feature_to_scope[f, r].query) == [2 * f, 2 * f + 1] for f in range(int(Q)) for r in range(int(R))))


def both_modes(W, m, s, B, width, C, R):
    """route the same arbitrary state through m in integer and one-hot mode"""
    from spflow.utils.sampling_context import SamplingContext
    hard, ch, mask, rep = mkctx(W, B, width, C, R, W.choice("mpe", [False, True]))
    oh = SamplingContext(channel_index=soft(W, ch, C), mask=mask.clone(), repetition_index=soft(W, rep, R), is_differentiable=True)
    x = W.tensor("x", (B, 2))
    if W.choice("soft", [False, True]):
        m._sample(data=x, sampling_ctx=oh, cache=newcache())
        (_, c, k, r, _), = sample_calls(s)
        W.check_all("repetition", (B, R), lambda b, i: W.same(W.at(r, b, i), W.ite(W.eq(W.at(rep, b), i), 1, 0)))
        chan = lambda b, f, v: W.and_(*[W.same(W.at(c, b, f, i), W.ite(W.eq(v, i), 1, 0)) for i in range(int(C))]) if not W.sym else None
        return ch, mask, c, k, True
    m._sample(data=x, sampling_ctx=hard, cache=newcache())
    (_, c, k, r, _), = sample_calls(s)
    W.check_eq("repetition", r, (B,), lambda b: W.at(rep, b))
    return ch, mask, c, k, False


def routed_to(W, B, F, C, got, gmask, is_soft, ch, mask):
    """latent f of the input is routed as ch(b, f), mask(b, f)"""
    W.check_eq("mask", gmask, (B, F), mask)
    if is_soft:
        W.check_all("channel", (B, F, C), lambda b, f, k: W.implies(mask(b, f), W.same(W.at(got, b, f, k), W.ite(W.eq(ch(b, f), k), 1, 0))))
    else:
        W.check_all("channel", (B, F), lambda b, f: W.implies(mask(b, f), W.same(W.at(got, b, f), ch(b, f))))


@harness(H, funcs=["_PairwiseLatentProduct._sample"], sym_configs=PAIR, literal=("Q", "R"), seeds=60)
def pair_route(W):
    """both latents of a pair are sampled from the component their product was routed to."""
    from spflow.zoo.apc.encoders.convpc_joint_encoder import _PairwiseLatentProduct as P
    B, Q, C, R = (W.dim(n) for n in ("B", "Q", "C", "R"))
    s, _ = stub(W, "a", 2 * Q, C, R, B, Scope(list(range(2 * int(Q)))))
    wide = W.choice("width", ["full", "one"])
    ch, mask, c, k, so = both_modes(W, P(s), s, B, Q if wide == "full" else 1, C, R)
    p = (lambda f: W.fdiv(f, 2)) if wide == "full" else (lambda f: 0)
    routed_to(W, B, 2 * Q, C, c, k, so, lambda b, f: W.at(ch, b, p(f)), lambda b, f: W.at(mask, b, p(f)))


LAYOUT = [(1, 1, None), (1, 1, [0]), (2, 2, None), (2, 2, [1, 0]), (1, 3, [2, 0, 1]), (3, 3, [1, 2, 0]), (3, 3, [2, 1, 0]), (2, 4, None), (2, 4, [3, 1, 0, 2]),
          (3, 4, [1, 2, 3, 0]), (4, 4, [2, 0, 3, 1])]
PACKED = [{"layout": k} for k in range(len(LAYOUT))]


def packing(W, B):
    from spflow.zoo.apc.encoders.convpc_joint_encoder import _LatentFeaturePacking as P
    F, T, perm = LAYOUT[W.choice("layout", list(range(len(LAYOUT))))]
    if not W.sym and W.rng.random() < .5:
        T = W.rng.randint(1, 6)
        F, perm = W.rng.randint(1, T), W.rng.sample(range(T), T)
    C = W.dim("C")
    R = W.choice("R", [1, 2])
    s, ll = stub(W, "a", F, C, R, B, Scope(list(range(F))))
    t = None if perm is None else torch.tensor(perm)
    m = P(s, T, t, None if t is None else torch.argsort(t))
    return m, s, ll, F, T, C, R, list(range(T)) if perm is None else perm


@harness(H, funcs=["_LatentFeaturePacking.log_likelihood"], seeds=60, sym_configs=PACKED, literal=("layout",))
def pack_ll(W):
    """the latents appear once each, permuted, and the remaining features are neutral."""
    B = W.dim("B")
    m, s, ll, F, T, C, R, perm = packing(W, B)
    out = m.log_likelihood(W.tensor("x", (B, 2)), cache=newcache())
    W.check("features", out.shape[1] == T)
    for t in range(T):
        W.check_eq(f"feature{t}", out[:, t], (B, C, R), (lambda b, c, r: W.at(ll, b, perm[t], c, r)) if perm[t] < F else (lambda b, c, r: 0))
        W.check("scope", all(list(m.feature_to_scope[t, r].query) == ([perm[t]] if perm[t] < F else []) for r in range(R)))


@harness(H, funcs=["_LatentFeaturePacking._sample"], seeds=200, sym_time=150, sym_configs=PACKED, literal=("layout",))
def pack_route(W):
    """every latent is sampled from the component of the packed feature it appears as."""
    B = W.dim("B")
    m, s, _, F, T, C, R, perm = packing(W, B)
    wide = W.choice("width", ["full", "one"])
    ch, mask, c, k, so = both_modes(W, m, s, B, T if wide == "full" else 1, C, R)
    for f in range(F):
        t = perm.index(f) if wide == "full" else 0
        routed_to(W, B, 1, C, c[:, f:f + 1], k[:, f:f + 1], so, lambda b, _: W.at(ch, b, t), lambda b, _: W.at(mask, b, t))


# ---------------------------------------------------------------- latent statistics
def record(params, B, L, leaf):
    from spflow.utils.sampling_context import LeafParamRecord
    return LeafParamRecord(leaf_id=id(leaf), leaf_type=type(leaf).__name__, scope_cols=tuple(range(int(L))),
                           active_mask=torch.ones(int(B), int(L), dtype=torch.bool), params=params)


@harness(H, funcs=["latent_stats_from_leaf_record"])
def stats_normal(W):
    """posterior moments of a Gaussian latent and its exact divergence from the standard normal prior."""
    from spflow.zoo.apc.encoders.latent_stats import latent_stats_from_leaf_record as f
    from spflow.modules.leaves import Normal
    B, L = W.dim("B"), W.dim("L")
    loc, ls = W.tensor("loc", (B, L)), W.tensor("log_scale", (B, L))
    leaf = Normal(Scope([0]))
    class Rec:
        params = {"loc": loc, "log_scale": ls}
    st = f(leaf=leaf, record=Rec(), batch_size=B, latent_dim=L)
    W.check_eq("mean", st.mu, (B, L), lambda b, i: W.at(loc, b, i))
    W.check_eq("log_variance", st.logvar, (B, L), lambda b, i: 2 * W.at(ls, b, i))
    W.check_eq("mode", st.decode_latent, (B, L), lambda b, i: W.at(loc, b, i))
    W.check_eq("divergence", st.kld_per_sample, (B,), lambda b: W.sum(L, lambda i: W.frac(1, 2) * (
        W.at(loc, b, i) * W.at(loc, b, i) + W.exp(2 * W.at(ls, b, i)) - 1 - 2 * W.at(ls, b, i))))


@harness(H, funcs=["latent_stats_from_leaf_record", "_probs_from_logits_or_probs"], sym=False, seeds=160)
def stats_leaves(W):
    """mean, log-variance, mode and divergence from the uninformed prior equal their definitions for every latent family."""
    from spflow.zoo.apc.encoders.latent_stats import latent_stats_from_leaf_record as f
    from spflow.modules import leaves as L
    import torch.distributions as D
    r = W.rng
    torch.manual_seed(r.randrange(10 ** 9))
    torch.set_default_dtype(torch.float64)
    B, n = W.dim("B"), W.dim("L")
    fam = W.choice("fam", ["Normal", "Bernoulli", "Binomial", "Categorical"])
    sc = Scope(list(range(n)))
    how = r.random() < .5
    if fam == "Normal":
        loc, s = torch.randn(B, n) * 2, torch.rand(B, n) * 3 + .05
        leaf, par = L.Normal(sc), {"loc": loc, **({"scale": s} if how else {"log_scale": s.log()})}
        d, prior, vals = D.Normal(loc, s), D.Normal(torch.zeros(B, n), torch.ones(B, n)), None
        mode = loc
    elif fam == "Bernoulli":
        t = torch.randn(B, n) * 3
        leaf, par = L.Bernoulli(sc), ({"logits": t} if how else {"probs": t.sigmoid()})
        d, prior, vals = D.Bernoulli(logits=t), D.Bernoulli(torch.full((B, n), .5)), [0., 1.]
    elif fam == "Binomial":
        N = torch.randint(1, 6, (B, n)).double()
        t = torch.randn(B, n) * 2
        leaf = L.Binomial(sc, total_count=torch.full((n, 1, 1), 5.))
        par = {"total_count": N, **({"logits": t} if how else {"probs": t.sigmoid()})}
        d, prior, vals = D.Binomial(N, logits=t), D.Binomial(N, torch.full((B, n), .5)), [float(v) for v in range(6)]
    else:
        K = r.randint(2, 4)
        t = torch.randn(B, n, K) * 2
        leaf, par = L.Categorical(sc, K=K), ({"logits": t} if how else {"probs": t.softmax(-1)})
        d, prior, vals = D.Categorical(logits=t), D.Categorical(torch.ones(B, n, K)), [float(v) for v in range(K)]
    st = f(leaf=leaf, record=record(par, B, n, leaf), batch_size=B, latent_dim=n)
    if vals is None:
        mu, var, kl = d.mean, d.variance, D.kl_divergence(d, prior)
    else:
        def lp(d, v):
            if fam == "Binomial":
                ok = v <= d.total_count
                return torch.where(ok, D.Binomial(d.total_count, logits=d.logits, validate_args=False).log_prob(torch.minimum(torch.full((B, n), v), d.total_count)), torch.tensor(-math.inf))
            return d.log_prob(torch.full((B, n), v))
        P = torch.stack([lp(d, v) for v in vals])
        Q = torch.stack([lp(prior, v) for v in vals])
        p, V = P.exp(), torch.tensor(vals)[:, None, None]
        mu = (p * V).sum(0)
        var = (p * (V - mu) ** 2).sum(0)
        kl = torch.where(p > 0, p * (P - Q), torch.zeros(())).sum(0)
        top = p.max(0).values
    W.check("mean", close(st.mu, mu))
    W.check("variance", close(st.logvar.exp(), var, 1e-5))
    W.check("divergence", tuple(st.kld_per_sample.shape) == (B,) and close(st.kld_per_sample, kl.sum(1), 1e-5))
    if vals is None:
        W.check("mode", close(st.decode_latent, mode))
    else:
        at = lp(d, 0.).new_tensor([[float(P[vals.index(float(st.decode_latent[b, i])), b, i]) for i in range(n)] for b in range(B)])
        W.check("mode", close(at.exp(), top))


# ---------------------------------------------------------------- the autoencoder's objective
class Enc(nn.Module):
    """contract stub of an encoder: arbitrary answers, remembers what it was asked"""

    def __init__(self, W, B, D, L):
        super().__init__()
        from spflow.zoo.apc.encoders.base import LatentStats
        t = lambda n, s: W.tensor(n, s)
        self.z, self.rec = t("z", (B, L)), W.tensor("rec", (B, D), "unit")
        self.st = LatentStats(mu=t("mu", (B, L)), logvar=t("logvar", (B, L)), kld_per_sample=t("kld", (B,)), decode_latent=t("mode", (B, L)))
        self.joint, self.px = t("joint", (B,)), t("px", (B,))
        self.log = []

    def encode(self, x, *, mpe=False, tau=1.0, return_latent_stats=False):
        self.log.append(("encode", x, mpe, tau))
        return (self.st, self.z) if return_latent_stats else self.z

    def decode(self, z, *, x=None, mpe=False, tau=1.0, fill_evidence=False):
        self.log.append(("decode", z, mpe, tau))
        return self.rec

    def joint_log_likelihood(self, x, z):
        self.log.append(("joint", x, z))
        return self.joint

    def log_likelihood_x(self, x):
        self.log.append(("px", x))
        return self.px


WEIGHTS = [(0.5, 2.0, 1.5), (1.0, 0.0, 0.0), (0.0, 2.0, 0.0), (0.0, 0.0, 0.5), (2.0, 0.0, 0.5), (0.5, 1.0, 0.0), (0.0, 1.0, 3.0), (0.0, 0.0, 0.0)]


@harness(H, funcs=["AutoencodingPC.loss_components", "AutoencodingPC._reconstruction_loss", "AutoencodingPC._kld_from_stats"], seeds=150, sym_time=150,
         sym_configs=[{"weights": k} for k in range(len(WEIGHTS))], literal=("weights",))
def apc_objective(W):
    """the loss is the weighted sum of reconstruction error, mean divergence and mean negative log-likelihood of this batch,
    each computed from the encoder's own answers."""
    from spflow.zoo.apc.model import AutoencodingPC
    from spflow.zoo.apc.config import ApcConfig, ApcLossWeights
    B, D, L = W.dim("B"), W.dim("D"), W.dim("L")
    x = W.tensor("x", (B, D), "unit")
    enc = Enc(W, B, D, L)
    w = WEIGHTS[W.choice("weights", list(range(len(WEIGHTS))))]
    loss = W.choice("rec_loss", ["mse", "bce"])
    mpe, zx = W.choice("train_decode_mpe", [False, True]), W.choice("nll_x_and_z", [False, True])
    own = W.choice("decoder", [False, True])
    seen = []

    class Dec(nn.Module):
        def forward(self, z):
            seen.append(z)
            return enc.rec
    m = AutoencodingPC(enc, Dec() if own else None, ApcConfig(latent_dim=1, rec_loss=loss, sample_tau=0.5, train_decode_mpe=mpe, nll_x_and_z=zx,
                                                             loss_weights=ApcLossWeights(rec=w[0], kld=w[1], nll=w[2])))
    c = m.loss_components(x)
    rec = lambda: W.sum(B, lambda b: W.sum(D, lambda d: err(b, d))) / B
    if loss == "mse":
        err = lambda b, d: (W.at(x, b, d) - W.at(enc.rec, b, d)) * (W.at(x, b, d) - W.at(enc.rec, b, d))
    else:
        err = lambda b, d: -(W.at(x, b, d) * clog(W.at(enc.rec, b, d)) + (1 - W.at(x, b, d)) * clog(1 - W.at(enc.rec, b, d)))
        clog = lambda v: W.ite(W.lt(W.log(v), -100), -100, W.log(v))
    src = enc.joint if zx else enc.px
    want = {"rec": rec, "kld": lambda: W.sum(B, lambda b: W.at(enc.st.kld_per_sample, b)) / B, "nll": lambda: -W.sum(B, lambda b: W.at(src, b)) / B}
    for k, v in zip(("rec", "kld", "nll"), w):
        W.check_val(k, W.at(c[k]), want[k]() if v else 0)
    num = lambda a: W.frac(int(a * 2), 2)
    W.check_val("total", W.at(c["total"]), sum(num(v) * W.at(c[k]) for k, v in zip(("rec", "kld", "nll"), w)))
    # what the pieces were asked
    used = seen if own else [e[1] for e in enc.log if e[0] == "decode"]
    W.check("decoded", len(used) == (1 if w[0] else 0) and all(u is (enc.st.decode_latent if mpe else enc.z) for u in used))
    W.check("samples", all(e[2] is False and e[3] == 0.5 for e in enc.log if e[0] in ("encode", "decode")))
    W.check("one_encoding", sum(e[0] == "encode" for e in enc.log) <= 1)
    W.check("likelihood", [e for e in enc.log if e[0] in ("joint", "px")] == [] if not w[2] else
            [e[0] for e in enc.log if e[0] in ("joint", "px")] == ["joint" if zx else "px"])
    W.check("likelihood_args", all(e[1] is x and (e[0] == "px" or e[2] is enc.z) for e in enc.log if e[0] in ("joint", "px")))


class Enc2(nn.Module):
    """contract stub of an encoder for the wrappers: a fresh arbitrary answer per call, every request remembered"""

    def __init__(self, W, B, D, L):
        super().__init__()
        self.W, self.B, self.D, self.L, self.log = W, B, D, L, []

    def _say(self, what, shape, *req):
        out = self.W.tensor(f"ans{len(self.log)}", shape)
        self.log.append((what, out) + req)
        return out

    def encode(self, x, *, mpe=False, tau=1.0, return_latent_stats=False):
        return self._say("encode", (self.B, self.L), x, mpe, tau, return_latent_stats)

    def decode(self, z, *, x=None, mpe=False, tau=1.0, fill_evidence=False):
        return self._say("decode", (self.B, self.D), z, mpe, tau, (x, fill_evidence))

    def sample_prior_z(self, num_samples, *, tau=1.0):
        return self._say("prior", (self.B, self.L), num_samples, None, tau, None)

    def log_likelihood_x(self, x):
        return self._say("px", (self.B,), x)

    def joint_log_likelihood(self, x, z):
        return self._say("joint", (self.B,), x, z)


@harness(H, funcs=["AutoencodingPC.encode", "AutoencodingPC.decode", "AutoencodingPC.reconstruct", "AutoencodingPC.sample_x", "AutoencodingPC.sample_z",
                   "AutoencodingPC.log_likelihood_x", "AutoencodingPC.joint_log_likelihood"], seeds=80,
         sym_configs=[{"call": c, "tau_given": t, "decoder": o} for c in range(7) for t in (False, True) for o in (False, True)], literal=("call",))
def apc_wrappers(W):
    """each entry point is exactly its chain of encoder/decoder calls, at the requested (or configured) temperature and mode."""
    from spflow.zoo.apc.model import AutoencodingPC
    from spflow.zoo.apc.config import ApcConfig
    B, D, L = W.dim("B"), W.dim("D"), W.dim("L")
    enc = Enc2(W, B, D, L)
    call = W.choice("call", list(range(7)))
    given, mpe, own = W.choice("tau_given", [False, True]), W.choice("mpe", [False, True]), W.choice("decoder", [False, True])
    seen = []

    class Dec(nn.Module):
        def forward(self, z):
            seen.append((z, W.tensor("dec", (B, D))))
            return seen[-1][1]
    m = AutoencodingPC(enc, Dec() if own else None, ApcConfig(latent_dim=1, sample_tau=0.5))
    x, z = W.tensor("x", (B, D)), W.tensor("z", (B, L))
    tau, kw = (0.25, {"tau": 0.25}) if given else (0.5, {})
    asked = lambda i, what, req, mode: enc.log[i][0] == what and (enc.log[i][2] is req or enc.log[i][2] == req) and enc.log[i][3] is mode and enc.log[i][4] == tau

    def decoded(out, zz, mode, at):
        """out is the decoder's answer for zz; the encoder was asked for nothing else"""
        if own:
            return len(seen) == 1 and seen[0][0] is zz and out is seen[0][1] and len(enc.log) == at
        return not seen and len(enc.log) == at + 1 and asked(at, "decode", zz, mode) and out is enc.log[at][1] and enc.log[at][5] == (None, False)
    if call == 0:
        out = m.encode(x, mpe=mpe, **kw)
        W.check("encode", len(enc.log) == 1 and asked(0, "encode", x, mpe) and out is enc.log[0][1])
    elif call == 1:
        W.check("decode", decoded(m.decode(z, mpe=mpe, **kw), z, mpe, 0))
    elif call == 2:
        out = m.reconstruct(x, mpe=mpe, **kw)
        W.check("reconstruct", asked(0, "encode", x, mpe) and decoded(out, enc.log[0][1], mpe, 1))
    elif call == 3:
        out = m.sample_x(B, **kw)
        W.check("sample_x", enc.log[0][0] == "prior" and enc.log[0][2] is B and enc.log[0][4] == tau and decoded(out, enc.log[0][1], False, 1))
    elif call == 4:
        out = m.sample_z(B, **kw)
        W.check("sample_z", len(enc.log) == 1 and enc.log[0][0] == "prior" and enc.log[0][2] is B and enc.log[0][4] == tau and out is enc.log[0][1])
    elif call == 5:
        out = m.log_likelihood_x(x)
        W.check("px", len(enc.log) == 1 and enc.log[0][0] == "px" and enc.log[0][2] is x and out is enc.log[0][1])
    else:
        out = m.joint_log_likelihood(x, z)
        W.check("joint", len(enc.log) == 1 and enc.log[0][0] == "joint" and enc.log[0][2] is x and enc.log[0][3] is z and out is enc.log[0][1])


@harness(H, funcs=["MLPDecoder1D.*", "ConvDecoder2D.*", "NeuralDecoder2D.*"], sym=False, seeds=60)
def decoders(W):
    """a decoder answers every latent row on its own, in the declared shape and range, accepts structured latents and rejects wrong widths;
    every parameter is reached by the reconstruction error."""
    from spflow.zoo.apc.decoders import MLPDecoder1D, ConvDecoder2D, NeuralDecoder2D
    from spflow.exceptions import InvalidParameterError
    g = lambda name, *v: W.choice(name, list(v))
    kind, act, L = g("kind", "mlp", "conv", "neural"), g("act", "identity", "tanh", "sigmoid"), g("L", 2, 4)
    torch.manual_seed(W.choice("seed", list(range(50))))
    if kind == "mlp":
        shape = (g("D", 1, 3),)
        d = MLPDecoder1D(L, shape[0], hidden_dims=g("hidden", (3,), (4, 2)), out_activation=act)
    elif kind == "conv":
        shape = (g("ch", 1, 3), g("h", 1, 5, 8), g("w", 2, 6, 7))
        d = ConvDecoder2D(L, shape, base_channels=g("base", 1, 4), num_upsamples=g("ups", 0, 1, 2), out_activation=act)
    else:
        scales = g("scales", 2, 3)
        shape = (g("ch", 1, 3), g("h", 8, 16), g("w", 8, 16))
        d = NeuralDecoder2D(L, shape, num_hidden=4, num_res_hidden=2, num_res_layers=g("res", 1, 2), num_scales=scales, bn=g("bn", True, False), out_activation=act)
    B = g("B", 1, 2, 4) + 1
    z = torch.randn(B, L)
    d.train()
    out = d(z)
    W.check("shape", tuple(out.shape) == (B,) + shape)
    loss = out.square().sum() + out.sum()
    grads = torch.autograd.grad(loss, list(d.parameters()), allow_unused=True)
    W.check("reaches_parameters", all(v is not None for v in grads))
    d.eval()
    out = d(z)
    lo, hi = {"identity": (-float("inf"), float("inf")), "tanh": (-1., 1.), "sigmoid": (0., 1.)}[act]
    W.check("range", bool(((out >= lo) & (out <= hi)).all()))
    perm = torch.randperm(B)
    W.check("rows", close(d(z[perm]), out[perm], 1e-5) and close(d(z[:1]), out[:1], 1e-5))
    W.check("structured", close(d(z.reshape(B, 2, L // 2)), out, 1e-5))
    for bad in (torch.randn(B, L + 1), torch.randn(B, L - 1)):
        try:
            d(bad)
            W.check("rejects", False)
        except InvalidParameterError:
            pass


# ---------------------------------------------------------------- encoders
def bern(sc, c, r):
    from spflow.modules.leaves import Bernoulli
    return Bernoulli(scope=sc, out_channels=c, num_repetitions=r)


def cat3(sc, c, r):
    from spflow.modules.leaves import Categorical
    return Categorical(scope=sc, out_channels=c, num_repetitions=r, K=3)


def encoder(W, z_leaf=bern, L=None):
    """a random joint encoder over binary data"""
    from spflow.zoo.apc.encoders.convpc_joint_encoder import ConvPcJointEncoder
    from spflow.zoo.apc.encoders.einet_joint_encoder import EinetJointEncoder
    r = W.rng
    kind = W.choice("encoder", ["conv", "einet"])
    R = W.choice("R", [1, 2])
    if kind == "einet":
        D = r.randint(1, 4)
        L = L or r.randint(1, 3)
        depth = max(d for d in range(0, 3) if 2 ** d <= D + L)
        e = EinetJointEncoder(num_x_features=D, latent_dim=L, num_sums=r.randint(1, 3), num_leaves=r.randint(1, 3), depth=r.randint(0, depth),
                              num_repetitions=R, layer_type=r.choice(["linsum", "einsum"]), x_leaf_factory=bern, z_leaf_factory=z_leaf)
    else:
        side, depth, ld, lats = r.choice([(2, 2, 0, (1, 2, 3, 4, 8)), (4, 2, 0, (1, 2, 3, 4, 8)), (2, 2, 1, (1, 2, 4)), (4, 3, 1, (1, 3, 4)), (4, 2, 1, (1, 2, 4)), (4, 3, 2, (1, 2))])
        L = L or r.choice([l for l in lats if l <= 4] if z_leaf is not bern else lats)
        ch = r.randint(1, 3)
        e = ConvPcJointEncoder(input_height=side, input_width=side, latent_dim=L, channels=ch, depth=depth, kernel_size=2, num_repetitions=R,
                               use_sum_conv=W.choice("sumconv", [False, True]), latent_depth=ld, perm_latents=W.choice("perm", [True, False]),
                               latent_channels=r.randint(1, 3), x_leaf_channels=ch if ld == 0 else r.randint(1, 3), x_leaf_factory=bern, z_leaf_factory=z_leaf)
    for p in e.parameters():
        p.data = torch.randn_like(p) * r.choice([.5, 2.0])
    W.used["desc"] = repr(e)
    return e, e.num_x_features, L, kind


def bits(n, K=2):
    return torch.tensor(list(itertools.product([float(v) for v in range(K)], repeat=n)))


def image(e, kind, x):
    return x.reshape(-1, 1, e.input_height, e.input_width) if kind == "conv" else x


@harness(H, funcs=["JointPcEncoderBase.joint_log_likelihood", "JointPcEncoderBase.log_likelihood_x", "ConvPcJointEncoder.__init__", "EinetJointEncoder.__init__"],
         sym=False, seeds=60, conc_time=60)
def encoder_joint(W):
    """joint_log_likelihood is a normalised distribution over data and latents and log_likelihood_x its marginal, missing
    data included."""
    torch.manual_seed(W.rng.randrange(10 ** 9))
    torch.set_default_dtype(torch.float64)
    e, D, L, kind = encoder(W)
    Z = bits(L)
    X = bits(D) if D <= 4 else (torch.rand(6, D) < .5).double()
    with torch.no_grad():
        J = torch.stack([e.joint_log_likelihood(image(e, kind, x.expand(len(Z), D)), Z) for x in X])
        px = e.log_likelihood_x(image(e, kind, X))
        W.check("marginal", close(J.logsumexp(1), px))
        if D <= 4:
            W.check("normalised", abs(float(px.exp().sum()) - 1) < 1e-6)
            i = W.rng.randrange(D)
            Y = X.clone()
            Y[:, i] = math.nan
            a = e.log_likelihood_x(image(e, kind, Y))
            for b in range(len(X)):
                same = (torch.cat([X[:, :i], X[:, i + 1:]], 1) == torch.cat([X[b, :i], X[b, i + 1:]])).all(1)
                W.check("missing", close(a[b], px[same].logsumexp(0)))


@harness(H, funcs=["JointPcEncoderBase.encode", "JointPcEncoderBase._sample_joint", "_LatentFeaturePacking._sample", "_PairwiseLatentProduct._sample"],
         sym=False, seeds=50, conc_time=150)
def encoder_posterior(W):
    """encodings are draws from the posterior over latents given the (possibly incomplete) data (6 sigma, 4000 draws)."""
    r = W.rng
    torch.manual_seed(r.randrange(10 ** 9))
    torch.set_default_dtype(torch.float64)
    K, leaf = r.choice([(2, bern), (3, cat3)])
    e, D, L, kind = encoder(W, leaf, None if K == 2 else r.choice([1, 2]))
    n = 4000
    x = (torch.rand(1, D) < .5).double()
    x[torch.rand(1, D) < r.choice([0.0, .4])] = math.nan
    keep = x.clone()
    Z = bits(L, K)
    tau = r.choice([1.0, .3, 3.0])
    with torch.no_grad():
        p = e.joint_log_likelihood(image(e, kind, x.expand(len(Z), D)), Z).softmax(0)
        xs = image(e, kind, x.expand(n, D).clone())
        z = e.encode(xs, tau=tau, return_latent_stats=r.random() < .3)
        z = z if isinstance(z, torch.Tensor) else z[1]
    W.check("shape", tuple(z.shape) == (n, L))
    W.check("input_kept", bool(((xs.reshape(n, D) == keep) | keep.isnan()).all()))
    tot = 0
    for k in range(len(Z)):
        hit = ((z - Z[k]).abs() < 1e-5).all(1)
        tot += int(hit.sum())
        freq_ok(W, "law", hit, p[k].expand(n), f"latent {Z[k].tolist()}")
    W.check("support", tot == n)


@harness(H, funcs=["JointPcEncoderBase.decode", "JointPcEncoderBase.sample_prior_z"], sym=False, seeds=50, conc_time=120)
def encoder_decode(W):
    """decoded data follow the conditional given the latents and any observed data, which is kept; prior latents follow the
    marginal."""
    r = W.rng
    torch.manual_seed(r.randrange(10 ** 9))
    torch.set_default_dtype(torch.float64)
    e, D, L, kind = encoder(W)
    n = 4000
    tau = r.choice([1.0, .3, 3.0])
    with torch.no_grad():
        Z = bits(L)
        p = e.joint_log_likelihood(image(e, kind, torch.full((len(Z), D), math.nan)), Z).exp()
        z = e.sample_prior_z(n, tau=tau)
        for k in range(min(len(Z), 16)):
            freq_ok(W, "prior", ((z - Z[k]).abs() < 1e-5).all(1), p[k].expand(n), f"latent {Z[k].tolist()}")
        zz = Z[r.randrange(len(Z))]
        free = sorted(r.sample(range(D), min(D, r.randint(1, 3))))
        x = (torch.rand(D) < .5).double()
        given = x.clone()
        given[free] = math.nan
        if r.random() < .3 and D <= 4:
            free, given = list(range(D)), None
        st = bits(len(free))
        full = x.expand(len(st), D).clone()
        full[:, free] = st
        q = e.joint_log_likelihood(image(e, kind, full), zz.expand(len(st), L)).softmax(0)
        arg = None if given is None else image(e, kind, given.expand(n, D).clone())
        out = e.decode(zz.expand(n, L).clone(), x=arg, tau=tau, fill_evidence=r.random() < .5)
        if kind == "conv":
            W.check("image", tuple(out.shape) == (n, 1, e.input_height, e.input_width))
        out = out.reshape(n, D)
        rest = [v for v in range(D) if v not in free]
        W.check("evidence_kept", bool(((out[:, rest] - x[rest]).abs() < 1e-6).all()))
        tot = 0
        for k in range(len(st)):
            hit = ((out[:, free] - st[k]).abs() < 1e-5).all(1)
            tot += int(hit.sum())
            freq_ok(W, "law", hit, q[k].expand(n), f"data {st[k].tolist()}")
        W.check("support", tot == n)


@harness(H, funcs=["JointPcEncoderBase.encode", "JointPcEncoderBase.decode"], sym=False, seeds=60, conc_time=60)
def encoder_mpe(W):
    """most-probable encoding and decoding are the circuit's own most-probable completion."""
    r = W.rng
    torch.manual_seed(r.randrange(10 ** 9))
    torch.set_default_dtype(torch.float64)
    e, D, L, kind = encoder(W)
    n = 6
    x, z = (torch.rand(n, D) < .5).double(), (torch.rand(n, L) < .5).double()
    x[torch.rand(n, D) < r.choice([0, .5])] = math.nan
    nan = lambda k: torch.full((n, k), math.nan)
    with torch.no_grad():
        full = lambda a, b: e.pc.sample_with_evidence(evidence=torch.cat([a, b], 1), is_mpe=True)
        a = e.encode(image(e, kind, x), mpe=True)
        W.check("encode", close(a, full(x, nan(L))[:, D:], 1e-5))
        b = e.decode(z, mpe=True).reshape(n, D)
        W.check("decode", close(b, full(nan(D), z)[:, :D], 1e-5))


@harness(H, funcs=["JointPcEncoderBase.encode", "JointPcEncoderBase.latent_stats", "find_unique_latent_record"], sym=False, seeds=30, conc_time=90)
def encoder_gaussian(W):
    """with Gaussian latents, encodings (with or without statistics) have the posterior's distribution function, and the
    statistics are those of the component each row drew."""
    from spflow.modules.leaves import Normal
    r = W.rng
    torch.manual_seed(r.randrange(10 ** 9))
    torch.set_default_dtype(torch.float64)
    norm = lambda sc, c, k: Normal(scope=sc, out_channels=c, num_repetitions=k, loc=torch.randn(len(sc), c, k) * 2, scale=torch.rand(len(sc), c, k) + .3)
    e, D, L, kind = encoder(W, norm, 1)
    e._z_leaf.loc.data = torch.randn_like(e._z_leaf.loc) * 2
    for p in e._z_leaf.parameters():
        if p is not e._z_leaf.loc:
            p.data = torch.rand_like(p) * .8 - .4
    n = 4000
    x = (torch.rand(1, D) < .5).double()
    g = torch.linspace(-16, 16, 3201)[:, None]
    with torch.no_grad():
        dens = e.joint_log_likelihood(image(e, kind, x.expand(len(g), D)), g).exp()
        cdf = dens.cumsum(0) / dens.sum()
        st, z1 = e.encode(image(e, kind, x.expand(n, D).clone()), return_latent_stats=True)
        z0 = e.encode(image(e, kind, x.expand(n, D).clone()))
        for name, z in (("plain", z0), ("with_stats", z1)):
            for q in (.1, .3, .5, .7, .9):
                i = int((cdf < q).sum())
                freq_ok(W, name, z[:, 0] <= float(g[i]), cdf[i].expand(n), f"P(z<={float(g[i]):.2f})")
        pars = {(round(float(l), 9), round(float(s), 9)) for l, s in zip(e._z_leaf.loc.flatten(), e._z_leaf.scale.flatten())}
        W.check("components", all((round(float(m), 9), round(float((.5 * v).exp()), 9)) in pars for m, v in zip(st.mu[:50, 0], st.logvar[:50, 0])))


# ---------------------------------------------------------------- training loops
class Toy(nn.Module):
    """a differentiable model with a per-row loss"""

    def __init__(self, k=3):
        super().__init__()
        self.w = nn.Parameter(torch.randn(k))
        self.seen = []

    def log_likelihood(self, data, cache=None):
        self.seen.append((data.detach().clone(), self.training, torch.is_grad_enabled()))
        return -((data * self.w).sum(1) - data[:, 0].sin()) ** 2 + (data ** 2 @ torch.sigmoid(self.w)) * .1

    def loss_components(self, x):
        ll = self.log_likelihood(x)
        kld, rec = (x.abs() * self.w ** 2).sum(1).mean(), (x - self.w).pow(2).sum(1).mean()
        return {"rec": rec, "kld": kld, "nll": -ll.mean(), "total": rec + .3 * kld - ll.mean(), "note": "text"}


def batches(x, n):
    return [x[i:i + n] for i in range(0, len(x), n)]


@harness(H, funcs=["negative_log_likelihood_loss", "classification_loss"])
def losses(W):
    """the loss is the mean negative log-likelihood."""
    from spflow.learn.gradient_descent import negative_log_likelihood_loss as nll
    B = W.dim("B")
    ll = W.tensor("ll", (B, 1, 1, 1))
    x = W.tensor("x", (B, 2))

    class M:
        def log_likelihood(self, d, cache=None):
            assert d is x
            return ll
    W.check_val("mean", W.at(nll(M(), x)), -W.sum(B, lambda b: W.at(ll, b, 0, 0, 0)) / B)


@harness(H, funcs=["train_gradient_descent", "_process_training_batch", "_run_validation_epoch", "TrainingMetrics.*", "_extract_batch_data"], sym=False, seeds=60)
def descent(W):
    """every batch makes one optimiser step on its own mean negative log-likelihood; validation changes nothing; the learning
    rate drops tenfold at half and three quarters of the epochs."""
    from spflow.learn.gradient_descent import train_gradient_descent
    r = W.rng
    torch.manual_seed(r.randrange(10 ** 9))
    torch.set_default_dtype(torch.float64)
    model = Toy()
    ref = Toy()
    ref.load_state_dict(model.state_dict())
    N, n, E = r.randint(1, 7), r.randint(1, 4), r.choice([1, 2, 4, 5, 11])
    x, v = torch.randn(N, 3), torch.randn(5, 3)
    form = r.choice([lambda b: b, lambda b: (b,), lambda b: [b], lambda b: (b, torch.zeros(len(b)))])
    lr = r.choice([.01, .1])
    own = r.random() < .5
    flat = E == 1 or r.random() < .3              # a constant learning rate instead of the default schedule
    mk = lambda m: torch.optim.SGD(m.parameters(), lr=lr, momentum=.5) if own else torch.optim.Adam(m.parameters(), lr=lr)
    got, ep, val = [], [], r.random() < .6
    mine = mk(model) if own or flat else None
    train_gradient_descent(model, [form(b) for b in batches(x, n)], epochs=E, lr=lr, optimizer=mine,
                           scheduler=torch.optim.lr_scheduler.LambdaLR(mine, lambda k: 1.0) if flat else None,
                           validation_dataloader=[form(b) for b in batches(v, 2)] if val else None,
                           callback_batch=lambda l, s: got.append((l.detach().clone(), s, torch.is_grad_enabled())),
                           callback_epoch=lambda ls, k: ep.append(([l.detach().clone() for l in ls], k)))
    opt = mk(ref)
    want, wep, seen = [], [], []
    steps = 0
    for k in range(E):
        if not flat:
            for g in opt.param_groups:
                g["lr"] = lr * .1 ** sum(k >= int(E * q) for q in (.5, .75))
        row = []
        for b in batches(x, n):
            opt.zero_grad()
            l = -ref.log_likelihood(b).mean()
            l.backward()
            opt.step()
            steps += 1
            want.append((l.detach(), steps))
            row.append(l.detach())
        wep.append(row)
    tr = [a for a in got if a[2]]
    W.check("parameters", close(model.w.detach(), ref.w.detach(), 1e-9), lambda: f"{model.w} instead of {ref.w}")
    W.check("steps", len(tr) == len(want) and all(abs(float(a[0] - b[0])) < 1e-9 and a[1] == b[1] for a, b in zip(tr, want)))
    W.check("epochs", [k for _, k in ep] == list(range(E)) and all(len(a) == len(b) and all(abs(float(p - q)) < 1e-9 for p, q in zip(a, b)) for (a, _), b in zip(ep, wep)))
    vs = [s for s in model.seen if not s[2]]
    W.check("modes", all(s[1] == s[2] for s in model.seen) and model.training)
    k = len(batches(v, 2)) * (1 + (E - 1) // 10)
    W.check("validation", len(vs) == (k if val else 0) and all(any(s[0].shape == b.shape and bool((s[0] == b).all()) for b in batches(v, 2)) for s in vs))


@harness(H, funcs=["train_gradient_descent", "classification_loss", "_classification_forward_outputs", "TrainingMetrics.update_train_batch",
                   "TrainingMetrics.get_train_accuracy"], sym=False, seeds=40)
def descent_classifier(W):
    """classification steps minimise mean cross-entropy of the posterior plus the weighted mean negative log-likelihood, and
    report the fraction of rows classified correctly."""
    from spflow.learn import gradient_descent as gd
    from spflow.zoo.naive_bayes import NaiveBayes
    from spflow.modules.leaves import Bernoulli
    from spflow.interfaces.classifier import Classifier
    import copy
    r = W.rng
    torch.manual_seed(r.randrange(10 ** 9))
    torch.set_default_dtype(torch.float64)
    K, D = r.randint(2, 3), r.randint(1, 3)
    bare = r.random() < .3

    class Bare(nn.Module, Classifier):
        """a classifier which only offers probabilities"""
        def __init__(self, m):
            super().__init__()
            self.m = m

        def log_likelihood(self, data, cache=None):
            return self.m.log_likelihood(data, cache=cache)

        def predict_proba(self, data):
            return self.m.log_posterior(data).exp()
    model = NaiveBayes(Bernoulli(Scope(list(range(D))), out_channels=K), num_classes=K)
    model = Bare(model) if bare else model
    for p in model.parameters():
        p.data = torch.randn_like(p)
    ref = copy.deepcopy(model)
    inner = ref.m if bare else ref
    N, n, E, w = r.randint(1, 7), r.randint(1, 4), r.choice([2, 4]), r.choice([0.0, 1.0, .25])
    x, y = (torch.rand(N, D) < .5).double(), torch.randint(K, (N,))
    data = list(zip(batches(x, n), batches(y, n)))
    V = r.randint(1, 6)
    vx, vy = (torch.rand(V, D) < .5).double(), torch.randint(K, (V,))
    val = r.choice([None, list(zip(batches(vx, n), batches(vy, n)))])
    acc, step, vacc = [], [], []

    class Spy(gd.TrainingMetrics):
        def __init__(self):
            super().__init__()
            acc.append(self)
    old, gd.TrainingMetrics = gd.TrainingMetrics, Spy
    try:
        gd.train_gradient_descent(model, data, epochs=E, is_classification=True, validation_dataloader=val, callback_epoch=lambda *_: vacc.append(acc[0].get_val_accuracy()) if acc else None,
                                  optimizer=torch.optim.SGD(model.parameters(), lr=.1), nll_weight=w,
                                  callback_batch=lambda l, s: step.append(l.detach().clone()))
    finally:
        gd.TrainingMetrics = old
    opt = torch.optim.SGD(ref.parameters(), lr=.1)
    want, right = [], 0
    for k in range(E):
        right = 0
        for g in opt.param_groups:
            g["lr"] = .1 * .1 ** (sum(k >= int(E * q) for q in (.5, .75)))
        for a, b in data:
            opt.zero_grad()
            ll = ref.log_likelihood(a)
            post = inner.log_posterior(a)
            right += int((post.argmax(-1) == b).sum())
            l = -post[torch.arange(len(a)), b].mean() - w * ll.mean()
            l.backward()
            opt.step()
            want.append(l.detach())
        if k == 0 and val:
            vright = 0
            with torch.no_grad():
                for a, b in val:
                    post = inner.log_posterior(a)
                    vright += int((post.argmax(-1) == b).sum())
                    want.append(-post[torch.arange(len(a)), b].mean() - w * ref.log_likelihood(a).mean())
    W.check("losses", len(step) == len(want) and all(abs(float(a - b)) < 1e-9 for a, b in zip(step, want)))
    W.check("parameters", all(close(a.detach(), b.detach(), 1e-8) for a, b in zip(model.parameters(), ref.parameters())))
    W.check("accuracy", len(acc) != 1 or abs(acc[0].get_train_accuracy() - 100 * right / N) < 1e-9)
    W.check("validation accuracy", not val or len(acc) != 1 or abs(vacc[0] - 100 * vright / V) < 1e-9)


@harness(H, funcs=["train_apc_step", "evaluate_apc", "fit_apc", "_to_loader"], sym=False, seeds=60)
def apc_training(W):
    """evaluation averages over rows whatever the batching and leaves the model alone; a training step is one optimiser step on
    the total; every epoch visits every row once and reports row averages."""
    from spflow.zoo.apc import train as T
    from spflow.zoo.apc.config import ApcTrainConfig
    r = W.rng
    torch.manual_seed(r.randrange(10 ** 9))
    torch.set_default_dtype(torch.float64)
    m, ref = Toy(), Toy()
    ref.load_state_dict(m.state_dict())
    N, n = r.randint(1, 9), r.randint(1, 4)
    x = torch.randn(N, 3)
    mode = r.random() < .5
    m.train(mode)
    data = r.choice([x, [(b,) for b in batches(x, n)], batches(x, n)])
    ev = T.evaluate_apc(m, data, batch_size=n)
    whole = ref.loss_components(x)
    W.check("average", set(ev) == {"rec", "kld", "nll", "total"} and all(abs(ev[k] - float(whole[k])) < 1e-9 * (1 + abs(ev[k])) for k in ev))
    W.check("evaluation_mode", all(not t and not g for _, t, g in m.seen) and m.training == mode and bool((m.w == ref.w).all()))
    # one step
    clip = r.choice([None, .1, 100.0])
    out = T.train_apc_step(m, r.choice([x, (x,), [x]]), torch.optim.SGD(m.parameters(), lr=.05), grad_clip_norm=clip)
    whole = ref.loss_components(x)
    g, = torch.autograd.grad(whole["total"], ref.w)
    if clip is not None:
        g = g * min(1.0, clip / (float(g.norm()) + 1e-6))
    W.check("step", close(m.w.detach(), (ref.w - .05 * g).detach(), 1e-8))
    W.check("metrics", set(out) == {"rec", "kld", "nll", "total"} and all(abs(float(out[k] - whole[k])) < 1e-9 * (1 + abs(float(whole[k]))) and not out[k].requires_grad for k in out))
    # epochs
    m.seen.clear()
    E = r.randint(1, 3)
    v = torch.randn(4, 3)
    hist = T.fit_apc(m, x, config=ApcTrainConfig(epochs=E, batch_size=n, learning_rate=1e-3), optimizer=torch.optim.SGD(m.parameters(), lr=0.0), val_data=v if mode else None)
    tr = torch.cat([s[0] for s in m.seen if s[2]])
    key = lambda t: sorted(map(tuple, t.tolist()))
    W.check("every_row_once", len(tr) == E * N and all(key(tr[i * N:(i + 1) * N]) == key(x) for i in range(E)) and all(len(s[0]) <= n for s in m.seen))
    with torch.no_grad():
        a, b = m.loss_components(x), m.loss_components(v)
    W.check("history", len(hist) == E and all(h["epoch"] == i + 1 and all(abs(h[f"train_{k}"] - float(a[k])) < 1e-8 * (1 + abs(float(a[k]))) for k in ev)
                                              and (not mode or all(abs(h[f"val_{k}"] - float(b[k])) < 1e-8 * (1 + abs(float(b[k]))) for k in ev)) for i, h in enumerate(hist)))


# ---------------------------------------------------------------- gradients
@harness(H, funcs=["*.log_likelihood (composed)"], sym=False, seeds=60, conc_time=90)
def gradients(W):
    """the gradient of the log-likelihood with respect to every parameter is its derivative (central differences)."""
    from ..gen import rand_circuit, NoCircuit
    from ..world import Skip
    r = W.rng
    torch.manual_seed(r.randrange(10 ** 9))
    torch.set_default_dtype(torch.float64)
    try:
        m, N = rand_circuit(W, N=r.randint(2, 4), leaves=("Bernoulli", "Categorical3", "Normal"), splits=("consecutive", "interleaved"), single_root=True)
    except NoCircuit:
        raise Skip()
    W.used["desc"] = repr(m)
    m = m.double()
    x = torch.full((3, N), 1.0)
    for v in range(N):
        x[:, v] = torch.randint(2, (3,)).double()
    x[torch.rand(3, N) < .2] = math.nan
    if r.random() < .5:
        m.eval()
    f = lambda: m.log_likelihood(x).sum()
    ps = [p for p in m.parameters() if p.requires_grad]
    gs = torch.autograd.grad(f(), ps, allow_unused=True)
    for p, g in zip(ps, gs):
        d = torch.randn_like(p)
        h = 1e-5
        with torch.no_grad():
            p += h * d
            a = f()
            p -= 2 * h * d
            b = f()
            p += h * d
        num = float((a - b) / (2 * h))
        ana = 0.0 if g is None else float((g * d).sum())
        W.check("derivative", abs(num - ana) <= 1e-5 * (1 + abs(num)), lambda: f"{tuple(p.shape)}: {ana} instead of {num}")


# ---------------------------------------------------------------- continuous mixtures
def _cm_data(W, leaf, N, F, K):
    z = torch.randn(N, 1)
    t = z * torch.tensor([W.rng.uniform(-2, 2) for _ in range(F)]) + torch.randn(N, F) * .5
    return t if leaf == "normal" else (t > 0).to(t.dtype) if leaf == "bernoulli" else torch.bucketize(t, torch.tensor([-.5, .5])[:K - 1]).to(t.dtype)


@harness(H, funcs=["learn_continuous_mixture_factorized", "learn_continuous_mixture_cltree", "_iter_minibatches"], sym=False, seeds=50)
def continuous_mixture_selection(W):
    """training is deterministic in its seed; the returned circuit is the epoch with the best likelihood on the validation data (on
    the training data without one) up to the stopping point, the last epoch without selection"""
    from spflow.zoo.cms import learn_continuous_mixture_factorized, learn_continuous_mixture_cltree
    tree = W.rng.random() < .4
    leaf = W.rng.choice(["bernoulli", "categorical"] if tree else ["bernoulli", "categorical", "normal"])
    N, F, K = W.rng.randint(5, 12), W.rng.randint(2, 3), 2 if leaf == "bernoulli" else 3
    x, v = _cm_data(W, leaf, N, F, K), _cm_data(W, leaf, 6, F, K)
    if tree:
        for k in range(F):              # every category occurs
            x[:K, k] = torch.arange(K).to(x.dtype)
    if not tree and W.rng.random() < .4:
        x[torch.rand(x.shape) < .15] = float("nan")
    learn = learn_continuous_mixture_cltree if tree else learn_continuous_mixture_factorized
    kw = dict(leaf=leaf, latent_dim=W.rng.randint(1, 2), num_points_train=4, num_points_eval=W.rng.choice([None, 6]), batch_size=W.rng.choice([3, 100]),
              lr=W.rng.choice([.02, .3]), seed=W.rng.randrange(50), num_cats=K)
    E = 5

    def run(**k):
        torch.manual_seed(11)
        return learn(x, **{**kw, **k})

    def mean(m, d):
        with torch.no_grad():
            out = m.log_likelihood(d)
            W.check("one value per row", out.numel() == len(d))
            return float(out.mean())
    each = [run(num_epochs=e, patience=0) for e in range(1, E + 1)]
    again = run(num_epochs=E, patience=0)
    W.check("deterministic", abs(mean(again, v) - mean(each[-1], v)) < 1e-6)
    W.check("learns", abs(mean(each[0], v) - mean(each[-1], v)) > 1e-9)

    def expect(scores, patience):
        best, bad = None, 0
        for i, s in enumerate(scores):
            if best is None or s > scores[best] + 1e-12:
                best, bad = i, 0
            else:
                bad += 1
                if patience and bad >= patience:
                    break
        return best
    for val in (None, v):
        patience = W.rng.choice([1, 2, 10])
        on = x if val is None else val
        scores = [mean(m, on) for m in each]
        want = scores[expect(scores, patience)]
        got = mean(run(num_epochs=E, patience=patience, val_data=val), on)
        W.check("selected", abs(got - want) <= 1e-5 * (1 + abs(want)))


@harness(H, funcs=["learn_continuous_mixture_factorized", "learn_continuous_mixture_cltree"], sym=False, seeds=6)
def continuous_mixture_learns(W):
    """training raises the likelihood of the data"""
    from spflow.zoo.cms import learn_continuous_mixture_factorized, learn_continuous_mixture_cltree
    tree = W.rng.random() < .4
    leaf = W.rng.choice(["bernoulli", "categorical"] if tree else ["bernoulli", "categorical", "normal"])
    K = 2 if leaf == "bernoulli" else 3
    x = _cm_data(W, leaf, 60, 3, K)
    learn = learn_continuous_mixture_cltree if tree else learn_continuous_mixture_factorized
    out = []
    for e in (1, 40):
        torch.manual_seed(3)
        with torch.no_grad():
            pass
        m = learn(x, leaf=leaf, latent_dim=1, num_points_train=16, num_epochs=e, lr=.01, seed=2, num_cats=K, patience=0)
        out.append(float(m.log_likelihood(x).mean()))
    W.check("better", out[1] > out[0] + 1e-3)


@harness(H, funcs=["_latent_opt_factorized", "_latent_opt_cltree", "LatentOptimizationConfig"], sym=False, seeds=12)
def latent_optimisation(W):
    """optimising the integration points keeps the best epoch: more epochs never score lower on the data it selects on"""
    from spflow.zoo.cms import learn_continuous_mixture_factorized, learn_continuous_mixture_cltree
    from spflow.zoo.cms.continuous_mixtures import LatentOptimizationConfig
    tree = W.rng.random() < .4
    leaf = W.rng.choice(["bernoulli", "categorical"] if tree else ["bernoulli", "categorical", "normal"])
    F, K = W.rng.randint(2, 3), 2 if leaf == "bernoulli" else 3
    x, v = _cm_data(W, leaf, 12, F, K), _cm_data(W, leaf, 6, F, K)
    if tree:
        for k in range(F):
            x[:K, k] = torch.arange(K).to(x.dtype)
    learn = learn_continuous_mixture_cltree if tree else learn_continuous_mixture_factorized
    val = W.rng.choice([None, v])
    on = x if val is None else v
    pts, lr, bs = W.rng.randint(1, 5), W.rng.choice([.05, .8]), W.rng.choice([4, 100])
    sc = []
    for e in range(1, 6):
        torch.manual_seed(5)
        m = learn(x, leaf=leaf, latent_dim=1, num_points_train=4, num_epochs=2, lr=.05, seed=2, num_cats=K, patience=0 if val is None else 3, val_data=val,
                  lo=LatentOptimizationConfig(num_points=pts, num_epochs=e, batch_size=bs, lr=lr, patience=0, seed=4))
        W.check("components", m.log_likelihood(on).numel() == len(on))
        sc.append(float(m.log_likelihood(on).mean()))
    W.check("never lower", all(b >= a - 1e-6 for a, b in zip(sc, sc[1:])))
