"""C19: information measures equal their definitions on the circuit's distribution."""
import itertools
import math
import torch
from ..runner import harness
from ..lib import *
from .. import gen
from .c18_sos import cl
H = []
AGGS = [("logmeanexp", "logmeanexp"), ("logsumexp", "logmeanexp"), ("first", "logsumexp"), ("logmeanexp", "first")]


class RowModel(Stub):
    """an arbitrary circuit: its log-likelihood is any function of the data row (missing entries included)"""

    def __init__(self, W, scope, F, C, R, leaves, imp=True):
        super().__init__(None, (F, C, R), scope)
        self.W, self.dims, self.imp = W, (F, C, R), imp
        self.inputs = torch.nn.ModuleList(leaves)
        self.rows = []

    def value(self, row, f, c, r):
        """row: one (missing, value) pair per column; a row may be impossible (log 0)"""
        W = self.W
        args = [f, c, r]
        for miss, v in row:
            args += [W.ite(miss, 1, 0), W.ite(miss, 0, v)]
        if W.sym:
            x = W.fn("?ll", *args)
            if not self.imp:
                return x
            return W.ite(W.lt(W.fn("?imp", *args), 0), W.tm.lift(-math.inf), x)
        if not self.imp:
            args.append(1)
        h = math.sin(sum((k + 1.37) * float(a) * 12.9898 + k for k, a in enumerate(args))) * 43758.5453
        h -= math.floor(h)
        return -math.inf if self.imp and h < 0.05 else -4 * h

    def log_likelihood(self, data, cache=None):
        W, (F, C, R) = self.W, self.dims
        D = int(data.shape[1])
        if W.sym:
            tm = W.tm

            def el(b, f, c, r):
                row = []
                for j in range(D):
                    v = W.at(data, b, j)
                    m = tm.isnan(v) if not isinstance(v, (int, float)) else (v != v)
                    row.append((m, v))
                return self.value([(m, W.ite(m, 0, v)) for m, v in row], f, c, r)
            return W.st.sym_tensor(el, (data.shape[0], F, C, R))
        out = torch.empty(len(data), int(F), int(C), int(R))
        for b, row in enumerate(data.tolist()):
            for i in itertools.product(range(int(F)), range(int(C)), range(int(R))):
                out[(b, *i)] = self.value([(v != v, 0.0 if v != v else v) for v in row], *i)
        return out


def reduced(W, m, row, ca, ra):
    """(log) value of a data row: features multiply, repetitions and channels are aggregated as named"""
    F, C, R = m.dims
    tot = lambda c, r: sum((m.value(row, f, c, r) for f in range(int(F))), 0)
    if ra == "first":
        e = lambda c: W.exp(tot(c, 0))
    else:
        e = lambda c: W.sum(R, lambda r: W.exp(tot(c, r))) / (R if ra == "logmeanexp" else 1)
    if ca == "first":
        return e(0)
    return W.sum(C, lambda c: e(c)) / (C if ca == "logmeanexp" else 1)


def leavesof(q, K):
    from spflow.modules.leaves import Bernoulli, Categorical
    return [Bernoulli(Scope([v])) if K[v] == 2 else Categorical(Scope([v]), K=K[v]) for v in q]


def model(W, imp=True):
    F, C, R = W.choice("FCR", [(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 2)])
    K = {0: 2, 1: 3, 2: 2}
    q = [2, 0, 1]
    return RowModel(W, Scope(q), F, C, R, leavesof(q, K), imp and (not W.sym or F * C * R == 1)), K


def plogp(W, p):
    return W.ite(W.lt(0, p), lambda: p * W.log(p), 0) if not W.sym else W.ite(W.lt(0, p), p * W.log(p), 0)


def H_of(W, m, K, rvs, ca, ra):
    t = 0
    for st in itertools.product(*[range(K[v]) for v in rvs]):
        row = [(False, st[rvs.index(j)]) if j in rvs else (True, 0) for j in range(3)]
        t = t - plogp(W, reduced(W, m, row, ca, ra))
    return t


@harness(H, funcs=["reduce_log_likelihood"])
def reduction(W):
    """a (batch, features, channels, repetitions) log-likelihood becomes one value per row: features multiply, then
    repetitions and channels are averaged, added or the first taken, as asked"""
    from spflow.measures._utils import reduce_log_likelihood
    N, F, C, R = W.dim("N"), W.dim("F", hi=3), W.dim("C"), W.dim("R")
    x = W.tensor("x", (N, F, C, R), "ll")
    ca, ra = W.choice("ca", ["logmeanexp", "logsumexp", "first"]), W.choice("ra", ["logmeanexp", "logsumexp", "first"])
    out = reduce_log_likelihood(x, channel_agg=ca, repetition_agg=ra)
    W.check("shape", W.eq(out.dim(), 1))
    tot = lambda n, c, r: W.prod(F, lambda f: W.exp(W.at(x, n, f, c, r)))
    e = lambda n, c: tot(n, c, 0) if ra == "first" else W.sum(R, lambda r: tot(n, c, r)) / (R if ra == "logmeanexp" else 1)
    g = lambda n: e(n, 0) if ca == "first" else W.sum(C, lambda c: e(n, c)) / (C if ca == "logmeanexp" else 1)
    W.check_all("value", (N,), lambda n: W.same(W.exp(W.at(out, n)), g(n)))


@harness(H, funcs=["entropy", "reduce_log_likelihood", "infer_discrete_domains", "iter_modules"], literal=("variables", "states"))
def entropy_definition(W):
    """the exact entropy is the sum of -p log p over all joint states of the chosen variables, the others being missing"""
    from spflow.measures.information_theory import entropy
    m, K = model(W)
    rvs = W.choice("rvs", [[1], [2, 0], [1, 2, 0]] if W.sym else [[0], [1], [2, 0], [0, 1], [1, 2, 0]])
    if W.sym and len(rvs) == 3:
        W.require(m.dims == (1, 1, 1))
    ca, ra = W.choice("agg", AGGS)
    out = entropy(m, rvs, method="exact", channel_agg=ca, repetition_agg=ra)
    W.check("value", W.same(W.at(out), H_of(W, m, K, rvs, ca, ra)))


@harness(H, funcs=["mutual_information", "conditional_mutual_information"], literal=("variables", "states"))
def mutual_information_definitions(W):
    """I(X;Y) = H(X)+H(Y)-H(X,Y) and I(X;Y|Z) = H(X,Z)+H(Y,Z)-H(Z)-H(X,Y,Z), each entropy being the definition's"""
    from spflow.measures.information_theory import mutual_information, conditional_mutual_information
    m, K = model(W, imp=False)
    if W.sym:
        W.require(m.dims == (1, 1, 1))
    ca, ra = W.choice("agg", AGGS)
    h = lambda *rvs: H_of(W, m, K, list(rvs), ca, ra)
    kw = dict(method="exact", channel_agg=ca, repetition_agg=ra)
    cond = W.choice("cond", [False, True])
    x, y = W.choice("xy", [([0], [1]), ([2], [0]), ([1], [2])] if cond else [([0], [1]), ([1, 0], [2]), ([2], [0, 1])])
    if not cond:
        out, ref = mutual_information(m, x, y, **kw), h(*x) + h(*y) - h(*x, *y)
    else:
        z = [v for v in range(3) if v not in x + y]
        out = conditional_mutual_information(m, Scope(x), y, z, **kw)
        ref = h(*x, *z) + h(*y, *z) - h(*z) - h(*x, *y, *z)
    W.check("value", W.same(W.at(out), ref))


@harness(H, funcs=["entropy", "mutual_information", "conditional_mutual_information"], draws=False, literal=("variables", "states"))
def monte_carlo_estimators(W):
    """the sampled estimators are the averages of the log-densities their definitions name, over the model's samples"""
    from spflow.measures import information_theory as I
    m, K = model(W, imp=False)
    N = W.dim("N")
    s = W.tensor("s", (N, 3), "real")
    m.sample = lambda num_samples, **kw: s
    ca, ra = W.choice("agg", AGGS)
    if W.sym:
        W.require(m.dims == (1, 1, 1) or (ca, ra) == AGGS[0])
    kw = dict(method="mc", num_samples=N, channel_agg=ca, repetition_agg=ra)
    which = W.choice("which", ["h", "mi", "cmi"])

    def ll(n, *rvs):
        return W.log(reduced(W, m, [(j not in rvs, W.at(s, n, j) if j in rvs else 0) for j in range(3)], ca, ra))
    if which == "h":
        x = W.choice("x", [[1], [2, 0]])
        out = I.entropy(m, x, **kw)
        f = lambda n: -ll(n, *x)
    elif which == "mi":
        x, y = W.choice("xy", [([0], [1]), ([1, 0], [2])])
        out = I.mutual_information(m, x, y, **kw)
        f = lambda n: ll(n, *x, *y) - ll(n, *x) - ll(n, *y)
    else:
        x, y, z = [2], [0], [1]
        out = I.conditional_mutual_information(m, x, y, z, **kw)
        f = lambda n: ll(n, *x, *y, *z) + ll(n, *z) - ll(n, *x, *z) - ll(n, *y, *z)
    W.check("value", W.same(W.at(out), W.sum(N, f) / N))


def cond(W, m, x, n, j, y, ca, ra, drop=()):
    """p(Y_j = y | the other observed entries of row n, those in drop ignored)"""
    x, miss, val = x
    row = lambda on: [((not on) if k == j else ((True if k in drop else miss(n, k))), (y if on else 0) if k == j else val(n, k)) for k in range(3)]
    return reduced(W, m, row(True), ca, ra) / reduced(W, m, row(False), ca, ra)


@harness(H, funcs=["conditional_probability", "weight_of_evidence"], literal=("variables", "states"))
def evidence_scores(W):
    """p(y|e) = p(y,e)/p(e); the weight of evidence is the difference of the log odds of the Laplace-corrected, clamped
    conditional probabilities"""
    from spflow.measures.weight_of_evidence import conditional_probability, weight_of_evidence
    m, K = model(W, imp=False)
    N = W.dim("N")
    j = W.choice("j", [0, 1, 2])
    y = W.choice("y", [1, 0])
    ca, ra = W.choice("agg", AGGS)
    if W.sym:
        W.require(m.dims == (1, 1, 1) or (ca, ra) == AGGS[0])
    e, r = W.data("e", (N, 3), "real"), W.data("r", (N, 3), "real")
    kw = dict(y_index=j, y_value=y, channel_agg=ca, repetition_agg=ra)
    which = W.choice("which", ["p", "woe"])
    if which == "p":
        e0 = e[0].clone()
        out = conditional_probability(m, evidence=e[0], **kw)
        W.check_all("value", (N,), lambda n: W.same(W.at(out, n), cond(W, m, e, n, j, y, ca, ra)))
        W.check_all("unchanged", (N, 3), lambda n, k: W.or_(W.and_(W.isnan(W.at(e[0], n, k)), W.isnan(W.at(e0, n, k))), W.eq(W.at(e[0], n, k), W.at(e0, n, k))))
        return
    if W.sym:
        W.require(m.dims == (1, 1, 1) and (ca, ra) == AGGS[0])
    n_ = W.dim("n", lo=1)
    k = W.choice("k", [None, 5])
    out = weight_of_evidence(m, evidence_full=e[0], evidence_reduced=r[0], n=n_, k=k, **kw)
    W.check_all("value", (N,), lambda n: W.same(W.at(out, n), woe(W, cond(W, m, e, n, j, y, ca, ra), cond(W, m, r, n, j, y, ca, ra), n_, k or K[j])))


def woe(W, p, q, n, k, eps=1e-6):
    def lo(p):
        l = (p * n + 1) / (n + k)
        l = W.ite(W.lt(l, eps), eps, W.ite(W.lt(1 - eps, l), 1 - eps, l))
        return W.log(l / (1 - l))
    return lo(p) - lo(q)


@harness(H, funcs=["weight_of_evidence_leave_one_out"], literal=("variables", "states"))
def leave_one_out(W):
    """feature i's score compares the row with and without feature i; rows that do not observe i, and the target, stay NaN"""
    from spflow.measures.weight_of_evidence import weight_of_evidence_leave_one_out
    m, K = model(W, imp=False)
    if W.sym:
        W.require(m.dims == (1, 1, 1))
    N = W.dim("N")
    j = W.choice("j", [0, 2])
    y = W.choice("y", [1])
    ca, ra = W.choice("agg", AGGS[:1] if W.sym else AGGS)
    e = W.data("e", (N, 3), "real")
    n_ = W.dim("n", lo=1)
    out = weight_of_evidence_leave_one_out(m, y_index=j, y_value=y, x_instance=e[0], n=n_, channel_agg=ca, repetition_agg=ra)
    W.check_all("target", (N,), lambda n: W.isnan(W.at(out, n, j)))
    for i in range(3):
        if i == j:
            continue
        W.check_all(f"missing{i}", (N,), lambda n: W.implies(e[1](n, i), W.isnan(W.at(out, n, i))))
        W.check_all(f"value{i}", (N,), lambda n: W.or_(e[1](n, i), W.same(W.at(out, n, i),
                    woe(W, cond(W, m, e, n, j, y, ca, ra), cond(W, m, e, n, j, y, ca, ra, [i]), n_, K[j]))))


def joint(m, N):
    """all joint states of the circuit's variables and their probabilities (one channel, one repetition)"""
    x = gen.states(m._dom, N)
    p = m.log_likelihood(x).reshape(len(x)).exp()
    return x, p


def H_enum(x, p, vs):
    d = {}
    for row, q in zip(x[:, vs].tolist(), p.tolist()):
        d[tuple(row)] = d.get(tuple(row), 0.0) + q
    return -sum(q * math.log(q) for q in d.values() if q > 0)


@harness(H, funcs=["entropy", "mutual_information", "conditional_mutual_information", "conditional_probability", "infer_discrete_domains"],
         sym=False, seeds=60, draws=False)
def real_circuits(W):
    """on random discrete circuits, the exact measures equal the ones computed from the enumerated joint distribution; entropy
    and mutual information are not negative"""
    from spflow.measures import information_theory as I
    from spflow.measures.weight_of_evidence import conditional_probability, weight_of_evidence
    r = W.rng
    try:
        m, N = gen.rand_circuit(W, N=r.randint(3, 4), C=1, reps=(1,), single_root=True, depth=r.randint(1, 3), gaps=True)
    except gen.NoCircuit:
        return
    if tuple(int(v) for v in (m.out_shape.features, m.out_shape.channels, m.out_shape.repetitions)) != (1, 1, 1):
        return
    x, p = joint(m, N)
    W.check("normalised", cl(p.sum().item(), 1.0))
    vs = r.sample(sorted(m._dom), len(m._dom))
    h = lambda q: H_enum(x, p, q)
    k = r.randint(1, len(vs))
    e = I.entropy(m, vs[:k], method="exact").item()
    W.check("entropy", cl(e, h(vs[:k])))
    W.check("entropy-sign", e >= -1e-9)
    k1 = r.randint(1, len(vs) - 1)
    a, b = vs[:k1], vs[k1:]
    mi = I.mutual_information(m, a, b, method="exact").item()
    W.check("mi", cl(mi, h(a) + h(b) - h(a + b)))
    W.check("mi-sign", mi >= -1e-9)
    a, b, c = vs[:1], vs[1:2], vs[2:]
    cmi = I.conditional_mutual_information(m, a, b, c, method="exact").item()
    W.check("cmi", cl(cmi, h(a + c) + h(b + c) - h(c) - h(a + b + c)))
    W.check("cmi-sign", cmi >= -1e-9)
    j = vs[0]
    y = r.choice(gen.domain(m._dom[j]))
    e = x[r.randrange(len(x))].clone()
    keep = r.sample(vs[1:], r.randint(0, len(vs) - 1))
    e[[v for v in range(N) if v not in keep]] = math.nan
    ok = torch.ones(len(x), dtype=torch.bool)
    for v in keep:
        ok &= x[:, v] == e[v]
    ref = p[ok & (x[:, j] == y)].sum() / p[ok].sum()
    out = conditional_probability(m, y_index=j, y_value=y, evidence=e[None])
    W.check("conditional", cl(out.item(), ref.item()))
    n = r.randint(1, 50)
    red = e.clone()
    if keep:
        red[r.choice(keep)] = math.nan
    w = weight_of_evidence(m, y_index=j, y_value=y, evidence_full=e[None], evidence_reduced=red[None], n=n).item()
    pq = [conditional_probability(m, y_index=j, y_value=y, evidence=q[None]).item() for q in (e, red)]
    W.check("woe", cl(w, woe(W, *pq, n, len(gen.domain(m._dom[j])))))


@harness(H, funcs=["entropy", "mutual_information", "conditional_mutual_information"], sym=False, seeds=12, conc_time=20, draws=False)
def sampled_close(W):
    """the Monte Carlo estimates approach the exact values"""
    from spflow.measures import information_theory as I
    r = W.rng
    try:
        m, N = gen.rand_circuit(W, N=3, C=1, reps=(1,), single_root=True, depth=r.randint(1, 2),
                                splits=("consecutive", "interleaved"))
    except gen.NoCircuit:
        return
    if tuple(int(v) for v in (m.out_shape.features, m.out_shape.channels, m.out_shape.repetitions)) != (1, 1, 1):
        return
    kw = dict(method="mc", num_samples=20000, seed=r.randint(0, 10**6))
    state = torch.random.get_rng_state()
    for f, args in ((I.entropy, ([0],)), (I.entropy, ([1, 2],)), (I.mutual_information, ([0], [1, 2])),
                    (I.conditional_mutual_information, ([0], [1], [2]))):
        ex, mc = f(m, *args, method="exact").item(), f(m, *args, **kw).item()
        W.check("close-" + f.__name__, abs(ex - mc) < 0.12)
        W.check("seeded", f(m, *args, **kw).item() == mc)
    W.check("generator-untouched", bool((torch.random.get_rng_state() == state).all()))


@harness(H, funcs=["entropy", "mutual_information", "conditional_mutual_information", "infer_discrete_domains", "weight_of_evidence"], sym=False, seeds=1)
def rejections(W):
    """calls without a meaning are rejected"""
    from spflow.measures import information_theory as I
    from spflow.measures.weight_of_evidence import conditional_probability, weight_of_evidence
    from spflow.exceptions import InvalidParameterError, UnsupportedOperationError
    from spflow.modules.leaves import Bernoulli, Categorical, Normal
    from spflow.modules.products import Product
    m = Product([Bernoulli(Scope([0])), Categorical(Scope([1]), K=3), Normal(Scope([2]))])
    bad = (InvalidParameterError, UnsupportedOperationError)
    x = torch.zeros(1, 3)
    for nm, f in [("empty", lambda: I.entropy(m, [], method="exact")), ("method", lambda: I.entropy(m, [0], method="other")),
                  ("continuous", lambda: I.entropy(m, [2], method="exact")), ("absent", lambda: I.entropy(m, [5], method="exact")),
                  ("overlap", lambda: I.mutual_information(m, [0, 1], [1], method="exact")),
                  ("overlap-mc", lambda: I.mutual_information(m, [0], [0])),
                  ("overlap-cond", lambda: I.conditional_mutual_information(m, [0], [1], [0], method="exact")),
                  ("mi-method", lambda: I.mutual_information(m, [0], [1], method="other")),
                  ("cmi-method", lambda: I.conditional_mutual_information(m, [0], [1], [2], method="other")),
                  ("samples", lambda: I.entropy(m, [0], num_samples=0)),
                  ("mi-samples", lambda: I.mutual_information(m, [0], [1], num_samples=0)),
                  ("agg", lambda: I.entropy(Bernoulli(Scope([0]), out_channels=2), [0], method="exact", channel_agg="other")),
                  ("evidence", lambda: conditional_probability(m, y_index=0, y_value=1, evidence=x[0])),
                  ("shapes", lambda: weight_of_evidence(m, y_index=0, y_value=1, evidence_full=x, evidence_reduced=x[:, :2], n=2)),
                  ("n", lambda: weight_of_evidence(m, y_index=0, y_value=1, evidence_full=x, evidence_reduced=x, n=0))]:
        W.raises(nm, bad, f)
    from spflow.modules.sums import Sum
    two = Sum([Categorical(Scope([0]), K=3), Categorical(Scope([0]), K=2)], out_channels=1)
    W.raises("inconsistent", bad, lambda: I.entropy(two, [0], method="exact"))
