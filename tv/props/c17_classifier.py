"""C17: class probabilities are the normalised product of class prior and class-conditional likelihood."""
import itertools
import math
import numpy as np
import torch
from ..runner import harness
from ..lib import *
from .. import gen
H = []


def posterior(W, name, out, B, C, ll, lp):
    """out(b,c) = exp(ll(b,c) + lp(c)) / sum_k exp(ll(b,k) + lp(k)), and the rows are distributions"""
    W.check(name + "_shape", W.and_(W.eq(out.shape[0], B), W.eq(out.shape[1], C)))
    joint = lambda b, c: W.exp(ll(b, c) + lp(c))
    W.check_all(name, (B, C), lambda b, c: W.same(W.at(out, b, c), joint(b, c) / W.sum(C, lambda k: joint(b, k))))
    if W.sym:
        W.check_all(name + "_range", (B, C), lambda b, c: W.le(0, W.at(out, b, c)))
    else:
        W.check_all(name + "_range", (B, C), lambda b, c: 0 <= W.at(out, b, c) <= 1 + 1e-6)
    W.check_all(name + "_sum", (B,), lambda b: W.same(W.sum(C, lambda c: W.at(out, b, c)), 1))


@harness(H, funcs=["log_posterior"])
def bayes_rule(W):
    from spflow.utils.inference import log_posterior
    B, C = W.dim("B"), W.dim("C")
    ll, lp = W.tensor("ll", (B, C), "ll"), W.tensor("lp", (1, C))
    # a common factor of the class conditionals, however small, cancels
    out = log_posterior(log_likelihood=ll if W.sym else ll.double() - W.rng.choice([0, 60, 512, 5000]), log_prior=lp)
    if W.sym:
        out = out.exp()
        ok = lambda b: W.not_(W.eq(W.sum(C, lambda k: W.exp(W.at(ll, b, k) + W.at(lp, 0, k))), 0))
    else:
        out = out.exp()
        ok = lambda b: any(W.at(ll, b, k) > -math.inf for k in range(int(C)))
    joint = lambda b, c: W.exp(W.at(ll, b, c) + W.at(lp, 0, c))
    W.check_all("bayes", (B, C), lambda b, c: W.implies(ok(b), W.same(W.at(out, b, c), joint(b, c) / W.sum(C, lambda k: joint(b, k))) if W.sym or ok(b) else True))


def classifier(W, kind, C, B):
    """a real classifier whose class-conditional likelihoods are arbitrary; returns (model, data, ll(b,c), log prior(c))"""
    from spflow.modules.sums import Sum
    from spflow.modules.leaves import Normal
    x = W.tensor("x", (B, 3))
    ll = W.tensor("cond", (B, 1, C, 1))
    s = Stub(ll, (1, C, 1), scope=Scope([0, 1, 2]))
    root = Sum(inputs=s, out_channels=1, num_repetitions=1)
    set_params(W, root)
    if kind == "naive_bayes":
        from spflow.zoo.naive_bayes import NaiveBayes
        m = NaiveBayes([Normal(Scope([i]), out_channels=2) for i in range(3)], num_classes=2)
        m.num_classes, m.conditional_root = C, s
    elif kind == "rat":
        from spflow.zoo.rat import RatSPN
        m = RatSPN([Normal(Scope([0, 1, 2, 3]), out_channels=2, num_repetitions=2)], n_root_nodes=2, n_region_nodes=2, num_repetitions=2, depth=1)
        m.n_root_nodes = C
    else:
        from spflow.zoo.einet import Einet
        m = Einet([Normal(Scope([0, 1, 2, 3]), out_channels=2, num_repetitions=2)], num_classes=2, num_sums=2, num_leaves=2, depth=1, num_repetitions=2)
        m.num_classes = C
    m.root_node = root
    return m, x, (lambda b, c: W.at(ll, b, 0, c, 0)), (lambda c: W.at(root.log_weights, 0, c, 0, 0))


@harness(H, funcs=["NaiveBayes.log_posterior", "NaiveBayes.predict_proba", "RatSPN.log_posterior", "RatSPN.predict_proba", "Einet.log_posterior",
                   "Einet.predict_proba", "Classifier.predict", "log_posterior"])
def predict_proba(W):
    """for arbitrary class-conditional likelihoods and priors; the model's own likelihood is the normaliser"""
    from spflow.exceptions import UnsupportedOperationError
    kind = W.choice("kind", ["naive_bayes", "rat", "einet"])
    B, C = W.dim("B"), W.dim("C", 2)
    m, x, ll, lp = classifier(W, kind, C, B)
    out = m.predict_proba(x)
    posterior(W, "posterior", out, B, C, ll, lp)
    W.check_all("log", (B, C), lambda b, c: W.same(W.exp(W.at(m.log_posterior(x), b, c)), W.at(out, b, c)))
    tot = m.log_likelihood(x)
    W.check_all("joint", (B, C), lambda b, c: W.same(W.at(out, b, c) * W.exp(W.at(tot, b, 0, 0, 0)), W.exp(ll(b, c) + lp(c))))
    y = m.predict(x)
    W.check("labels_shape", W.and_(W.eq(len(y.shape), 1), W.eq(y.shape[0], B)))
    W.check_all("labels_range", (B,), lambda b: W.and_(W.le(0, W.at(y, b)), W.lt(W.at(y, b), C)))
    if W.sym:
        W.check_all("labels", (B, C), lambda b, c: W.le(ll(b, c) + lp(c), ll(b, W.at(y, b)) + lp(W.at(y, b))))     # exp is increasing
    else:
        W.check_all("labels", (B, C), lambda b, c: float(out[b, c]) <= float(out[b, int(y[b])]) + 1e-7)
    if not W.sym:
        m.num_classes = m.n_root_nodes = 1
        W.raises("one_class", UnsupportedOperationError, lambda: m.predict_proba(x))


@harness(H, funcs=["NaiveBayes.__init__", "NaiveBayes.predict_proba", "NaiveBayes._build_prior_weights"])
def naive_bayes(W):
    """prior times the product of the leaves' likelihoods (which are arbitrary here)"""
    from spflow.zoo.naive_bayes import NaiveBayes
    from spflow.modules.leaves import Normal
    B, C = W.dim("B"), W.dim("C", 2)
    Fs = W.choice("features", [[1], [1, 2], [2, 1, 1]])
    q = [4, 1, 3, 0]
    ls, t = [], []
    for i, f in enumerate(Fs):
        ls.append(Normal(Scope(q[sum(Fs[:i]):sum(Fs[:i + 1])]), loc=W.tensor(f"loc{i}", (f, C, 1)), scale=W.tensor(f"scale{i}", (f, C, 1), "pos")))
        t.append(W.tensor(f"leaf{i}", (B, f, C, 1)))
        ls[-1].log_likelihood = lambda data, cache=None, v=t[-1]: v
    x = W.tensor("x", (B, 5))
    if W.sym:
        m = NaiveBayes(ls, num_classes=C)
        set_params(W, m.root_node)
        pr = lambda c: W.at(m.root_node.log_weights, 0, c, 0, 0)
    else:
        p = W.tensor("prior", (C,), "pos")
        m = NaiveBayes(ls, num_classes=int(C), class_prior=p)
        pr = lambda c: float((p[c] / p.sum()).log())
    ll = lambda b, c: sum(W.at(t[i], b, f, c, 0) for i in range(len(Fs)) for f in range(Fs[i]))
    posterior(W, "posterior", m.predict_proba(x), B, C, ll, pr)
    if not W.sym:
        u = NaiveBayes(ls, num_classes=int(C))
        posterior(W, "uniform", u.predict_proba(x), B, C, ll, lambda c: -math.log(C))


@harness(H, funcs=["NaiveBayes.__init__", "NaiveBayes._validate_targets", "NaiveBayes.maximum_likelihood_estimation", "NaiveBayes._build_prior_weights",
                   "NaiveBayes._normalize_empirical_prior"], sym=False, seeds=60)
def naive_bayes_fit(W):
    """training estimates every class from its own rows and the prior from the class frequencies; malformed arguments are rejected"""
    from spflow.zoo.naive_bayes import NaiveBayes
    from spflow.modules.leaves import Normal, Categorical
    from spflow.exceptions import InvalidParameterError
    r = W.rng
    C, n = W.dim("C", 2, 4), r.choice([8, 30])
    q = r.sample(range(4), 3)
    learn = r.random() < 0.5
    mk = lambda **kw: NaiveBayes([Normal(Scope([q[0]]), out_channels=C), Categorical(Scope(q[1:]), out_channels=C, K=3)], num_classes=C, **kw)
    m = mk(learnable_prior=learn)
    torch.manual_seed(r.randrange(10 ** 6))
    x = torch.randint(0, 3, (n, 4)).to(torch.get_default_dtype())
    x[:, q[0]] = torch.randn(n)
    y = torch.cat([torch.arange(C), torch.arange(C), torch.randint(0, C, (n - 2 * C,))])[torch.randperm(n)]
    m.maximum_likelihood_estimation(x, targets=y, bias_correction=False)
    w = m.root_node.weights[0, :, 0, 0]
    want = torch.bincount(y, minlength=C).to(w.dtype) / n if learn else torch.full((C,), 1 / C)
    W.check("prior", bool(torch.allclose(w, want, atol=1e-5)))
    for c in range(C):
        s = x[y == c]
        W.check("mean", bool(abs(m.leaf_modules[0].loc[0, c, 0] - s[:, q[0]].mean()) < 1e-4))
        for i in (1, 2):
            f = torch.stack([(s[:, q[i]] == k).to(w.dtype).mean() for k in range(3)])
            W.check("table", bool(torch.allclose(m.leaf_modules[1].probs[i - 1, c, 0], f, atol=1e-3)))
    one = mk(learnable_prior=learn)
    one.maximum_likelihood_estimation(x, targets=y * 0 + r.randrange(C), bias_correction=r.random() < 0.5)     # the other classes have no samples
    p = one.predict_proba(x)
    W.check("absent_classes", bool(torch.isfinite(p).all()) and bool(torch.allclose(p.sum(1), torch.ones(n), atol=1e-4)), f"{p[0]}")
    for bad in ([0.5] * C + [0.1], [-0.1] + [1.0] * (C - 1), [0.0] + [1.0] * (C - 1), [math.nan] + [1.0] * (C - 1), [[1.0] * C]):
        W.raises("bad_prior", InvalidParameterError, lambda: mk(class_prior=bad))
    for bad in (y[:-1], y.float(), y + 1, y - 1, y == 0, y[:, None], None):
        W.raises("bad_targets", InvalidParameterError, lambda: m.maximum_likelihood_estimation(x, targets=bad))
    W.raises("channels", InvalidParameterError, lambda: NaiveBayes([Normal(Scope([0]), out_channels=C + 1)], num_classes=C))
    W.raises("repetitions", InvalidParameterError, lambda: NaiveBayes([Normal(Scope([0]), out_channels=C, num_repetitions=2)], num_classes=C))


def build(W, C):
    """a random real classifier over categorical variables"""
    from spflow.modules.leaves import Categorical
    r = W.rng
    kind = W.choice("kind", ["naive_bayes", "rat", "einet"])
    torch.manual_seed(r.randrange(10 ** 6))
    if kind == "naive_bayes":
        from spflow.zoo.naive_bayes import NaiveBayes
        N = r.randint(2, 4)
        cut = r.randint(1, N - 1)
        m = NaiveBayes([Categorical(Scope(list(range(cut))), out_channels=C, K=2), Categorical(Scope(list(range(cut, N))), out_channels=C, K=2)],
                       num_classes=C, class_prior=(torch.rand(C) + 0.1) if r.random() < .7 else None)
        return kind, m, N
    N, R, K = 4, r.randint(1, 3), r.randint(1, 3)
    if kind == "rat":
        from spflow.zoo.rat import RatSPN
        m = RatSPN([Categorical(Scope(list(range(N))), out_channels=K, num_repetitions=R, K=2)], n_root_nodes=C, n_region_nodes=r.randint(1, 3),
                   num_repetitions=R, depth=r.randint(1, 2), outer_product=r.random() < .5)
    else:
        from spflow.zoo.einet import Einet
        t = r.choice(["linsum", "einsum"])
        st = r.choice(["top-down", "bottom-up"])
        m = Einet([Categorical(Scope(list(range(N))), out_channels=K, num_repetitions=R, K=2)], num_classes=C, num_sums=r.randint(1, 3), num_leaves=K,
                  depth=r.randint(0, 2), num_repetitions=R, layer_type=t, structure=st)
    m.root_node.logits.data = torch.randn_like(m.root_node.logits)
    return kind, m, N


def class_conditionals(W, m, C, st):
    """p(state, class) by switching the root on one class at a time"""
    lg = m.root_node.logits
    keep = lg.data.clone()
    w = keep.softmax(1)[0, :, 0, 0]
    out = []
    for c in range(C):
        v = torch.full_like(keep, -80.0)
        v[0, c] = 80.0
        lg.data = v
        out.append(m.log_likelihood(st)[:, 0, 0, 0].detach().exp() * w[c])
    lg.data = keep
    return torch.stack(out, 1)


@harness(H, funcs=["RatSPN.predict_proba", "Einet.predict_proba", "NaiveBayes.predict_proba", "Classifier.predict"], sym=False, seeds=80)
def whole_classifier(W):
    """real classifiers: the posterior is that of the enumerated joint distribution, with any values missing"""
    C = W.dim("C", 2, 4)
    kind, m, N = build(W, C)
    dt = torch.get_default_dtype()
    st = torch.tensor(list(itertools.product(range(2), repeat=N))).to(dt)
    J = class_conditionals(W, m, C, st)
    W.check("normalised", abs(float(J.sum()) - 1) < 1e-4)
    x = torch.tensor([[W.rng.choice([0.0, 1.0, math.nan]) for _ in range(N)] for _ in range(6)] + [[math.nan] * N])
    want = torch.stack([J[((st == v) | torch.isnan(v)).all(1)].sum(0) for v in x])
    want = want / want.sum(1, keepdim=True)
    p = m.predict_proba(x).detach()
    W.check("posterior", tuple(p.shape) == (7, C) and bool(torch.allclose(p, want, atol=1e-4)))
    W.check("sum", bool(torch.allclose(p.sum(1), torch.ones(7), atol=1e-5)))
    y = m.predict(x)
    W.check("labels", bool((p.gather(1, y[:, None])[:, 0] >= p.max(1).values - 1e-7).all()))


@harness(H, funcs=["RatSPN._sample", "Einet._sample", "NaiveBayes._sample"], sym=False, seeds=24, conc_time=60)
def classifier_law(W):
    """conditional samples of a classifier follow its distribution given the evidence"""
    from .c11_law import freq_ok
    C = W.dim("C", 2, 3)
    kind, m, N = build(W, C)
    if kind == "einet" and m.depth == 0 and False:
        return
    dt = torch.get_default_dtype()
    st = torch.tensor(list(itertools.product(range(2), repeat=N))).to(dt)
    fixed = {v: float(W.rng.randrange(2)) for v in range(N - 1) if W.rng.random() < 0.7}
    p = m.log_likelihood(st)[:, 0, 0, 0].detach().exp().double()
    for v, a in fixed.items():
        p = p * (st[:, v] == a)
    p = p / p.sum()
    n = 4000
    x = torch.full((n, N), math.nan)
    for v, a in fixed.items():
        x[:, v] = a
    out = m.sample_with_evidence(evidence=x.clone()) if fixed else m.sample(data=x.clone())
    for i in range(len(st)):
        freq_ok(W, "law", (out == st[i]).all(1), p[i].expand(n), f"{kind} {fixed} {st[i].tolist()}")


@harness(H, funcs=["SPFlowClassifier.predict", "SPFlowClassifier.predict_proba", "SPFlowClassifier.fit"], sym=False, seeds=30)
def sklearn_classifier(W):
    """the estimator returns the wrapped posterior and the original label of its largest entry"""
    from spflow.interfaces.sklearn import SPFlowClassifier
    C = W.dim("C", 2, 4)
    kind, m, N = build(W, C)
    labels = W.choice("labels", [["b", "a", "d", "c"], [7, 3, 5, 1], [0, 1, 2, 3]])[:C]
    y = np.array([labels[i % C] for i in range(3 * C)])
    X = np.array([[W.rng.randrange(2) for _ in range(N)] for _ in range(3 * C)], dtype=float)
    est = SPFlowClassifier(m, dtype="float64" if torch.get_default_dtype() == torch.float64 else "float32").fit(X, y)
    p = est.predict_proba(X)
    ref = m.predict_proba(torch.tensor(X).to(torch.get_default_dtype())).detach().numpy()
    W.check("posterior", p.shape == ref.shape and bool(np.allclose(p, ref, atol=1e-6)))
    W.check("labels", list(est.predict(X)) == [sorted(labels)[k] for k in ref.argmax(1)])
