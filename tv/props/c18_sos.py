"""C18: inner products, signed evaluation and normalisers of squared circuits."""
import itertools
import math
import torch
from ..runner import harness
from ..lib import *
from .. import gen
from .c07_leaves import FAM, mkleaf, density, lgam
H = []
EPS = 1e-30


def val(W, out, *i):
    """the signed number a pair (log|v|, sign v) stands for"""
    return W.at(out[1], *i) * W.exp(W.at(out[0], *i))


@harness(H, funcs=["signed_logsumexp", "sign_of"])
def signed_sum_of_terms(W):
    """sign * exp(log|.|) is the signed sum of the terms, including impossible terms and exact cancellation"""
    from spflow.utils.signed_semiring import signed_logsumexp
    B, N = W.dim("B"), W.dim("N")
    keep = W.choice("keepdim", [False, True])
    l, s = W.tensor("l", (B, N), "ll"), W.tensor("s", (B, N), "int", lo=-1, hi=2)
    out = signed_logsumexp(l, s, dim=1, keepdim=keep)
    i = (lambda b: (b, 0)) if keep else (lambda b: (b,))
    W.check("shape", W.and_(W.eq(len(out[0].shape), 2 if keep else 1), W.eq(out[0].shape[0], B), W.eq(out[1].shape[0], B)))
    W.check_all("value", (B,), lambda b: W.same(val(W, out, *i(b)), W.sum(N, lambda n: W.at(s, b, n) * W.exp(W.at(l, b, n)))))
    W.check_all("sign", (B,), lambda b: W.and_(W.le(-1, W.at(out[1], *i(b))), W.le(W.at(out[1], *i(b)), 1)))


class SignedStub(Stub):
    """a child with arbitrary signed outputs"""

    def signed_logabs_and_sign(self, data, cache=None):
        return self._ll, self._sg

    def log_likelihood(self, data, cache=None):
        raise AssertionError("signed child has no log-likelihood")


def sstub(W, name, F, C, R, B, scope=None, f2s=None):
    l, s = W.tensor(name + ".l", (B, F, C, R), "ll"), W.tensor(name + ".s", (B, F, C, R), "int", lo=-1, hi=2)
    m = SignedStub(l, (F, C, R), scope, f2s)
    m._sg = s
    return m, (lambda b, f, c, r: W.at(s, b, f, c, r) * W.exp(W.at(l, b, f, c, r)))


def floor_w(W, w):
    """weights keep their sign; magnitudes below 1e-30 (other than zero) are raised to it"""
    a = W.ite(W.lt(w, 0), -w, w)
    big = W.not_(W.lt(a, EPS))
    return W.ite(big, w, W.ite(W.lt(0, w), EPS, W.ite(W.lt(w, 0), -EPS, 0)))


@harness(H, funcs=["SignedSum.signed_logabs_and_sign", "signed_logsumexp"])
def signed_sum_layer(W):
    from spflow.modules.sums import SignedSum
    B, F, C, R, O = (W.dim(n) for n in "BFCRO")
    n = W.choice("inputs", [1, 2])
    ch = [sstub(W, f"x{i}", F, C, R, B) for i in range(n)]
    m = SignedSum(inputs=ch[0][0] if n == 1 else [c[0] for c in ch], out_channels=O, num_repetitions=R)
    set_params(W, m)
    x = W.tensor("d", (B, 1))
    out = m.signed_logabs_and_sign(x)
    W.check("out_shape", W.and_(*[W.eq(p, q) for p, q in zip(tuple(m.out_shape), (F, O, R))]))
    W.check("shape", W.and_(*[W.eq(p, q) for p, q in zip(out[0].shape, (B, F, O, R))]))
    w = lambda f, i, o, r: floor_w(W, W.at(m.weights, f, i, o, r))
    W.check_all("value", (B, F, O, R), lambda b, f, o, r: W.same(val(W, out, b, f, o, r), sum(
        (W.sum(C, lambda c: w(f, k * C + c, o, r) * ch[k][1](b, f, c, r)) for k in range(n)), 0)))
    W.raises("no_ll", Exception, lambda: m.log_likelihood(x))


@harness(H, funcs=["SignedCategorical.signed_logabs_and_sign"])
def signed_categorical(W):
    from spflow.zoo.sos.signed_categorical import SignedCategorical
    B, C, R = W.dim("B"), W.dim("C"), W.dim("R")
    K = W.choice("K", [2, 3])
    q = W.choice("query", [[0], [2, 0], [1, 3, 0]])
    F = len(q)
    w = W.tensor("w", (F, C, R, K))
    m = SignedCategorical(Scope(q), weights=torch.zeros(1, 1, 1, 1).expand(F, int(C), int(R), K) if not W.sym else w, out_channels=C, num_repetitions=R)
    m.weights.data = w
    x = W.tensor("x", (B, 4), "int", lo=0, hi=K)
    out = m.signed_logabs_and_sign(x if W.sym else x.float())
    W.check("shape", W.and_(*[W.eq(p, t) for p, t in zip(out[0].shape, (B, F, C, R))]))
    for f in range(F):
        W.check_all(f"value{f}", (B, C, R), lambda b, c, r: W.same(val(W, out, b, f, c, r), W.pick(
            W.at(x, b, q[f]), K, lambda k: floor_w(W, W.at(w, f, c, r, k)))))
    W.sym or W.check("scope", all(m.feature_to_scope[i, 0].query == (q[i],) for i in range(F)))


@harness(H, funcs=["_signed_eval"])
def signed_products(W):
    """products multiply values, concatenations keep them in place, non-negative modules enter with their likelihood"""
    from spflow.modules.sos.socs import _signed_eval
    from spflow.modules.products import Product
    from spflow.modules.ops import Cat
    from spflow.modules.sums import Sum
    from spflow.utils.cache import Cache
    B, C, R = (W.dim(n) for n in "BCR")
    kind = W.choice("kind", ["product", "product_list", "cat1", "cat2", "sum", "plain"])
    x = W.tensor("d", (B, 3))
    if kind in ("sum", "plain"):
        F = W.dim("F")
        s, ll = stub(W, "x", F, C, R, B, kind="ll")
        m = s
        spec = lambda b, f, c, r: W.exp(W.at(ll, b, f, c, r))
        O = C
        if kind == "sum":
            O = W.dim("O")
            m = Sum(s, out_channels=O, num_repetitions=R)
            set_params(W, m)
            ref = m.log_likelihood(x)
            spec = lambda b, f, c, r: W.exp(W.at(ref, b, f, c, r))
        shape = (B, F, O, R)
    elif kind == "product":
        F = W.choice("F", [1, 2, 3, 4])
        s, v = sstub(W, "x", F, C, R, B, Scope(list(range(int(F)))))
        m = Product(s)
        shape = (B, 1, C, R)
        spec = lambda b, f, c, r: math.prod(v(b, i, c, r) for i in range(int(F)))
    else:
        a, va = sstub(W, "x", 1, C, R, B, Scope([0]))
        C2 = W.dim("C2") if kind == "cat2" else C
        p, vp = sstub(W, "y", 1, C2, R, B, Scope([0 if kind == "cat2" else 1]))
        m = Product([a, p]) if kind == "product_list" else Cat([a, p], dim=2 if kind == "cat2" else 1)
        shape = {"product_list": (B, 1, C, R), "cat1": (B, 2, C, R), "cat2": (B, 1, C + C2, R)}[kind]
        if kind == "product_list":
            spec = lambda b, f, c, r: va(b, 0, c, r) * vp(b, 0, c, r)
        elif kind == "cat1":
            spec = lambda b, f, c, r: W.ite(W.eq(f, 0), va(b, 0, c, r), vp(b, 0, c, r))
        else:
            spec = None
    out = _signed_eval(m, x, Cache())
    W.check("shape", W.and_(*[W.eq(p_, t) for p_, t in zip(out[0].shape, shape)]))
    if spec:
        W.check_all("value", shape, lambda *i: W.same(val(W, out, *i), spec(*i)))
    else:
        W.check_all("value1", (B, C, R), lambda b, c, r: W.same(val(W, out, b, 0, c, r), va(b, 0, c, r)))
        W.check_all("value2", (B, C2, R), lambda b, c, r: W.same(val(W, out, b, 0, C + c, r), vp(b, 0, c, r)))


# ------------------------------------------------------------------ inner product recursion
def table(W, name, q, C, R, K):
    """a leaf over K states with arbitrary signed values: any function of one variable"""
    from spflow.zoo.sos.signed_categorical import SignedCategorical
    F = len(q)
    w = W.tensor(name, (F, C, R, K))
    m = SignedCategorical(Scope(q), weights=w if W.sym else torch.zeros(F, int(C), int(R), K), out_channels=C, num_repetitions=R)
    m.weights.data = w
    return m, (lambda f, c, r, k: W.at(w, f, c, r, k))


def _form(W, t, K, fs, f, cs, r):
    return sum((math.prod(g(f, c, r, k) for g, c in zip(fs, cs)) for k in range(K)), 0)


def ip(ms, cache=None):
    from spflow.utils.inner_product import inner_product_matrix, triple_product_tensor
    return (inner_product_matrix if len(ms) == 2 else triple_product_tensor)(*ms, cache=cache)


def _ip_sum(n):
    def run(W):
        from spflow.modules.sums import Sum, SignedSum
        R = W.dim("R")
        F, K = W.choice("FK", [(1, 2), (1, 3), (2, 2)])
        q = [2, 0][:F]
        kinds = W.choice("kinds", [("s",) * n, ("m",) * n, ("s", "m", "s")[:n], ("m", "s", "m")[:n]])
        ms, fs, Os = [], [], []
        for i in range(n):
            C, O = W.dim(f"C{i}"), W.dim(f"O{i}")
            t, g = table(W, f"t{i}", q, C, R, K)
            m = (SignedSum if kinds[i] == "s" else Sum)(inputs=t, out_channels=O, num_repetitions=R)
            set_params(W, m)
            ms.append(m)
            Os.append(O)
            fs.append((lambda m, g, C: lambda f, o, r, k: W.sum(C, lambda c: W.at(m.weights, f, c, o, r) * g(f, c, r, k)))(m, g, C))
        out = ip(ms)
        W.check("shape", W.and_(*[W.eq(a, b) for a, b in zip(out.shape, (F, *Os, R))]))
        for f in range(F):
            W.check_all(f"form{f}", (*Os, R), lambda *i: W.same(W.at(out, f, *i), _form(W, None, K, fs, f, i[:-1], i[-1])))
    run.__name__ = "inner_product_sum" if n == 2 else "triple_product_sum"
    return run


def _ip_prod(n):
    def run(W):
        from spflow.modules.products import Product
        from spflow.modules.ops import Cat
        R = W.dim("R")
        kind = W.choice("kind", ["product", "product_list", "cat1", "cat2"])
        F = W.choice("F", [1, 2, 3]) if kind == "product" else 2
        K = 2
        q = [2, 0, 1][:F]
        ms, fs, Cs = [], [], []
        for i in range(n):
            C = W.dim(f"C{i}")
            if kind == "product":
                t, g = table(W, f"t{i}", q, C, R, K)
                ms.append(Product(t))
                fs.append(g)
                Cs.append(C)
                continue
            C2 = W.dim(f"D{i}") if kind == "cat2" else C
            t1, g1 = table(W, f"t{i}", [2], C, R, K)
            t2, g2 = table(W, f"u{i}", [2 if kind == "cat2" else 0], C2, R, K)
            ms.append(Product([t1, t2]) if kind == "product_list" else Cat([t1, t2], dim=2 if kind == "cat2" else 1))
            if kind == "cat2":
                fs.append((g1, g2))
                Cs.append((C, C2))
            else:
                fs.append((lambda g1, g2: lambda f, c, r, k: (g1, g2)[f](0, c, r, k))(g1, g2))
                Cs.append(C)
        out = ip(ms)
        if kind == "cat2":
            W.check("shape", W.and_(*[W.eq(a, b) for a, b in zip(out.shape, (1, *[a + b for a, b in Cs], R))]))
            for h in itertools.product((0, 1), repeat=n):
                W.check_all("form" + "".join(map(str, h)), (*[c[s] for c, s in zip(Cs, h)], R), lambda *i: W.same(
                    W.at(out, 0, *[c[0] + j if s else j for j, s, c in zip(i[:-1], h, Cs)], i[-1]),
                    _form(W, None, K, [g[s] for g, s in zip(fs, h)], 0, i[:-1], i[-1])))
        elif kind == "cat1":
            W.check("shape", W.and_(*[W.eq(a, b) for a, b in zip(out.shape, (2, *Cs, R))]))
            for f in range(2):
                W.check_all(f"form{f}", (*Cs, R), lambda *i: W.same(W.at(out, f, *i), _form(W, None, K, fs, f, i[:-1], i[-1])))
        else:
            W.check("shape", W.and_(*[W.eq(a, b) for a, b in zip(out.shape, (1, *Cs, R))]))
            # sum over all joint states of the product of the products
            W.check_all("form", (*Cs, R), lambda *i: W.same(W.at(out, 0, *i), sum(math.prod(
                math.prod(g(f, c, i[-1], k) for f, k in enumerate(st)) for g, c in zip(fs, i[:-1]))
                for st in itertools.product(range(K), repeat=F))))
    run.__name__ = "inner_product_product" if n == 2 else "triple_product_product"
    return run


for _n in (2, 3):
    harness(H, funcs=["inner_product_matrix" if _n == 2 else "triple_product_tensor", "leaf_inner_product"])(_ip_sum(_n))
    harness(H, funcs=["inner_product_matrix" if _n == 2 else "triple_product_tensor", "leaf_inner_product"])(_ip_prod(_n))


# ------------------------------------------------------------------ leaves
DISC = {"bernoulli": 2, "categorical": 3, "binomial": 4}
# product of the densities = inner product * a normalised density of the named family with these parameters


def _nd(W, x, m, tau):
    return -0.5 * tau * (x - m) * (x - m) + 0.5 * W.log(tau) - 0.5 * math.log(2 * math.pi)


def _gauss(W, ps, shift=0):
    tau = sum((1 / (p("scale") * p("scale")) for p in ps), 0)
    m = (sum((p("loc") / (p("scale") * p("scale")) for p in ps), 0) - shift) / tau
    return m, tau


CONJ = {
    "normal": lambda W, x, ps: _nd(W, x, *_gauss(W, ps)),
    "lognormal": lambda W, x, ps: _nd(W, W.log(x), *_gauss(W, ps, len(ps) - 1)) - W.log(x),
    "exponential": lambda W, x, ps: W.log(sum((p("rate") for p in ps), 0)) - sum((p("rate") for p in ps), 0) * x,
    "gamma": lambda W, x, ps: (lambda a, b: a * W.log(b) + (a - 1) * W.log(x) - b * x - lgam(W, a))(
        sum((p("concentration") for p in ps), 0) - (len(ps) - 1), sum((p("rate") for p in ps), 0)),
}
TRIPLE = ("normal", "bernoulli", "categorical", "geometric", "uniform", "binomial")


def mx(W, vs):
    r = vs[0]
    for v in vs[1:]:
        r = W.ite(W.lt(r, v), v, r)
    return r


def _mk_leaf(fam, n):
    def run(W):
        R = W.dim("R")
        q = W.choice("query", [[0], [1, 0]])
        F = len(q)
        Cs = [W.dim(f"C{i}") for i in range(n)]
        ls = []
        for i in range(n):
            pre = _Pre(W, f"l{i}.")
            ls.append(mkleaf(pre, fam, q, Cs[i], R, odds=True))
        out = ip([l for l, _ in ls])
        W.check("shape", W.and_(*[W.eq(a, b) for a, b in zip(out.shape, (F, *Cs, R))]))
        ps = lambda f, i: [(lambda par, c: lambda k: par(k, f, c, i[-1]))(p, c) for (_, p), c in zip(ls, i)]
        for f in range(F):
            if fam in DISC:
                d = lambda W, x, i: sum((density(W, fam, x, p, f, c, i[-1]) for (_, p), c in zip(ls, i)), 0)
                # (binomial probabilities are computed with a floor of 1e-30)
                ok = lambda i: W.and_(True, *[W.le(EPS * (1 + p("odds")), t) for p in ps(f, i) for t in (1, p("odds")) if fam == "binomial"])
                W.check_all(f"form{f}", (*Cs, R), lambda *i: W.implies(ok(i), W.same(W.at(out, f, *i), sum((W.exp(d(W, k, i)) for k in range(DISC[fam])), 0))))
            elif fam == "uniform":
                # the overlap of the supports divided by the widths
                wd = lambda f, i: math.prod(p("width") for p in ps(f, i))
                ov = lambda f, i: mx(W, [-mx(W, [-p("low") - p("width") for p in ps(f, i)]) - mx(W, [p("low") for p in ps(f, i)]), 0])
                W.check_all(f"form{f}", (*Cs, R), lambda *i: W.implies(W.and_(*[W.le(EPS, p("width")) for p in ps(f, i)]),
                                                                     W.same(W.at(out, f, *i), ov(f, i) / wd(f, i))))
            elif fam == "geometric":
                # sum_k prod p_i q_i^k = prod p_i / (1 - prod q_i), with p = o/(1+o), q = 1/(1+o)
                pr = lambda i: math.prod(p("odds") / (1 + p("odds")) for p in ps(f, i))
                qr = lambda i: math.prod(1 / (1 + p("odds")) for p in ps(f, i))
                # (the denominator is computed with a floor of 1e-30)
                W.check_all(f"form{f}", (*Cs, R), lambda *i: W.implies(W.le(EPS, 1 - qr(i)), W.same(W.at(out, f, *i), pr(i) / (1 - qr(i)))))
            else:
                x = W.at(W.tensor(f"x{f}", (1,), FAM[fam][2]), 0)
                # (scales and rate sums are computed with a floor of 1e-30)
                lim = {"normal": ("scale",), "lognormal": ("scale",), "exponential": ("rate",), "gamma": ("rate",)}.get(fam, ())
                if fam == "normal" and n == 2:
                    lim = ()
                ok = lambda i: W.and_(*[W.le(EPS, p(k)) for p in ps(f, i) for k in lim], True)
                W.check_all(f"form{f}", (*Cs, R), lambda *i: W.implies(ok(i), W.same(
                    sum((density(W, fam, x, p, f, c, i[-1]) for (_, p), c in zip(ls, i)), 0),
                    W.log(W.at(out, f, *i)) + CONJ[fam](W, x, ps(f, i)))))
    run.__name__ = f"leaf_{'inner' if n == 2 else 'triple'}_{fam}"
    return run


class _Pre:
    """the same world with prefixed tensor names"""

    def __init__(self, W, pre):
        object.__setattr__(self, "_w", W)
        object.__setattr__(self, "_p", pre)

    def __getattr__(self, k):
        return getattr(self._w, k)

    def tensor(self, name, *a, **k):
        t = self._w.tensor(self._p + name, *a, **k)
        return t + 0.5 if name.endswith("concentration") else t   # (the Gamma product needs a sum above 1)


for _f in ("bernoulli", "categorical", "normal", "lognormal", "exponential", "geometric", "gamma", "uniform", "binomial"):
    harness(H, funcs=["leaf_inner_product"])(_mk_leaf(_f, 2))
for _f in TRIPLE:
    harness(H, funcs=["triple_product_tensor"])(_mk_leaf(_f, 3))


# ------------------------------------------------------------------ normalised squares
def _comp(W, i, kind, R, n=0):
    """a component over K=2 states, the value it computes from data and its value function (signed weights above the floor)"""
    from spflow.modules.sums import SignedSum
    from spflow.modules.products import Product
    C = W.dim(f"C{i}")
    if kind == "table":
        t, g = table(W, f"t{i}", [2], W.dim("O"), R, 2)
        return t, lambda o, r, st, fl: fl(g(0, o, r, st[0])), lambda o, r, st: [g(0, o, r, st[0])]
    if kind == "product":
        t, g = table(W, f"t{i}", [2, 0], W.dim("O"), R, 2)
        return Product(t), lambda o, r, st, fl: fl(g(0, o, r, st[0])) * fl(g(1, o, r, st[1])), lambda o, r, st: [g(k, o, r, st[k]) for k in (0, 1)]
    t, g = table(W, f"t{i}", [2], C, R, 2)
    m = SignedSum(inputs=t, out_channels=W.dim("O"), num_repetitions=R)
    set_params(W, m)
    return m, lambda o, r, st, fl: W.sum(C, lambda c: fl(W.at(m.weights, 0, c, o, r)) * fl(g(0, c, r, st[0]))), lambda o, r, st: []


@harness(H, funcs=["SOCS.log_likelihood", "SOCS._log_partition"])
def socs_density(W):
    """the squares' sum over its total over all states (the total is floored at 1e-30)"""
    from spflow.modules.sos.socs import SOCS
    kind, n = W.choice("kn", [("table", 1), ("table", 2), ("sum", 1), ("sum", 2), ("product", 1)] + ([] if W.sym else [("product", 2)]))
    B, O, R = W.dim("B"), W.dim("O"), W.dim("R")
    cs = [_comp(W, i, kind, R) for i in range(n)]
    m = SOCS([c[0] for c in cs])
    x = W.tensor("x", (B, 3), "int", lo=0, hi=2)
    out = m.log_likelihood(x if W.sym else x.float())
    q = [2, 0] if kind == "product" else [2]
    sts = list(itertools.product((0, 1), repeat=len(q)))
    sq = lambda f, o, r, st, fl: (lambda v: v * v)(f(o, r, st, fl))
    Z = lambda o, r: sum((sq(c[1], o, r, st, lambda v: v) for c in cs for st in sts), 0)
    xs = lambda b: [W.at(x, b, v) for v in q]
    num = lambda b, o, r: sum((sq(c[1], o, r, xs(b), lambda v: floor_w(W, v)) for c in cs), 0)
    # (entries of a table that are squared directly are taken to be at least 1e-30 in magnitude)
    ok = lambda b, o, r: W.and_(W.le(EPS, Z(o, r)), *[W.or_(W.le(EPS, v), W.le(v, -EPS)) for c in cs for v in c[2](o, r, xs(b))])
    W.check("shape", W.and_(*[W.eq(a, b) for a, b in zip(out.shape, (B, 1, O, R))]))
    W.check_all("density", (B, O, R), lambda b, o, r: W.implies(ok(b, o, r), W.same(W.exp(W.at(out, b, 0, o, r)) * Z(o, r), num(b, o, r))))


@harness(H, funcs=["ExpSOCS.log_likelihood", "ExpSOCS._log_partition", "triple_product_scalar"])
def exp_socs_density(W):
    from spflow.zoo.sos.exp_socs import ExpSOCS
    from spflow.modules.sums import SignedSum, Sum
    from spflow.modules.products import Product
    from spflow.modules.leaves import Categorical
    kind, n = W.choice("kn", [("sum", 1), ("sum", 2), ("product", 1)] + ([] if W.sym else [("product", 2)]))
    B = W.dim("B")
    q = [2, 0] if kind == "product" else [2]
    sts = list(itertools.product((0, 1), repeat=len(q)))
    cs = []
    for i in range(n):
        C = W.dim(f"C{i}")
        t, g = table(W, f"t{i}", q, C, 1, 2)
        m = SignedSum(inputs=Product(t) if len(q) == 2 else t, out_channels=1, num_repetitions=1)
        set_params(W, m)
        cs.append((m, (lambda m, g, C: lambda st, fl: W.sum(C, lambda c: fl(W.at(m.weights, 0, c, 0, 0)) * math.prod(
            fl(g(f, c, 0, s)) for f, s in enumerate(st))))(m, g, C)))
    M = W.dim("M")
    u = W.tensor("mono", (len(q), M, 1, 2), "pos")
    leaf = Categorical(Scope(q), probs=u / u.sum(-1, keepdim=True))
    mono = Sum(inputs=Product(leaf) if len(q) == 2 else leaf, out_channels=1, num_repetitions=1)
    set_params(W, mono)
    mu = lambda st: W.sum(M, lambda c: W.at(mono.weights, 0, c, 0, 0) * math.prod(
        W.at(u, f, c, 0, s) / (W.at(u, f, c, 0, 0) + W.at(u, f, c, 0, 1)) for f, s in enumerate(st)))
    m = ExpSOCS(monotone=mono, components=[c for c, _ in cs])
    x = W.tensor("x", (B, 3), "int", lo=0, hi=2)
    out = m.log_likelihood(x if W.sym else x.float())
    fl = lambda v: floor_w(W, v)
    sq = lambda st, h: sum(((lambda v: v * v)(f(st, h)) for _, f in cs), 0)
    Z = sum((mu(st) * sq(st, lambda v: v) for st in sts), 0)
    num = lambda b: (lambda st: mu(st) * sq(st, fl))([W.at(x, b, v) for v in q])
    W.check("shape", W.and_(*[W.eq(a, b) for a, b in zip(out.shape, (B, 1, 1, 1))]))
    W.check_all("density", (B,), lambda b: W.implies(W.le(EPS, Z), W.same(W.exp(W.at(out, b, 0, 0, 0)) * Z, num(b))))


# ------------------------------------------------------------------ bounded: whole circuits against enumeration
def _tree(W, vs, depth=0):
    """a random region tree over the variables: leaf | (split, arity-of-cat)"""
    r = W.rng
    if len(vs) == 1 or (depth and r.random() < 0.3):
        return ("leaf", tuple(r.sample(vs, len(vs))))
    vs = r.sample(vs, len(vs))
    k = r.randint(1, len(vs) - 1)
    return ("split", _tree(W, vs[:k], depth + 1), _tree(W, vs[k:], depth + 1), r.random() < 0.4)


def _inst(W, t, K, R, signed, pool, C=None):
    """an instance of the region tree with its own channels and parameters; output features = 1 for splits"""
    from spflow.modules.sums import Sum, SignedSum
    from spflow.modules.products import Product
    from spflow.modules.ops import Cat
    from spflow.modules.leaves import Categorical
    r = W.rng
    C = C or r.randint(1, 3)
    key = (t, C, signed)
    if key in pool and r.random() < 0.5:
        return pool[key]
    if t[0] == "leaf":
        q = list(t[1])
        if signed and r.random() < 0.7:
            from spflow.zoo.sos.signed_categorical import SignedCategorical
            m = SignedCategorical(Scope(q), weights=torch.randn(len(q), C, R, K), out_channels=C, num_repetitions=R)
        else:
            m = Categorical(Scope(q), probs=torch.softmax(torch.randn(len(q), C, R, K), -1))
        if len(q) > 1:
            m = Product(m)
        pool[key] = m
        return m
    C0 = r.randint(1, 3)

    def prod():
        a, b = (_inst(W, c, K, R, signed, pool, C0) for c in t[1:3])
        return Product([a, b]) if r.random() < 0.5 else Product(Cat([a, b], dim=1))
    x = [prod() for _ in range(2)] if t[3] else prod()
    if t[3]:
        x = Cat(x, dim=2)
    if signed:
        m = SignedSum(inputs=x, out_channels=C, num_repetitions=R, weights=torch.randn(1, x.out_shape.channels, C, R))
    else:
        m = Sum(inputs=x, out_channels=C, num_repetitions=R)
    pool[key] = m
    return m


def _ref(m, x, pos):
    """the function a circuit computes, read off its parameters: x (B, vars) of states -> (B, F, C, R)"""
    from spflow.modules.sums import Sum, SignedSum
    from spflow.modules.products import Product
    from spflow.modules.ops import Cat
    n = type(m).__name__
    if n in ("SignedCategorical", "Categorical"):
        t = m.weights if n == "SignedCategorical" else m.probs
        return torch.stack([t[f][..., x[:, pos[v]].long()].permute(2, 0, 1) for f, v in enumerate(m.scope.query)], 1)
    if n in ("Sum", "SignedSum"):
        return torch.einsum("bfir,fior->bfor", _ref(m.inputs, x, pos), m.weights)
    if n == "Cat":
        return torch.cat([_ref(c, x, pos) for c in m.inputs], m.dim)
    assert n == "Product", n
    return _ref(m.inputs, x, pos).prod(1, keepdim=True)


def _states(vs, K):
    return torch.tensor(list(itertools.product(range(K), repeat=len(vs))), dtype=torch.get_default_dtype())


def cl(a, b, tol=1e-6):
    a, b = torch.as_tensor(a, dtype=torch.float64), torch.as_tensor(b, dtype=torch.float64)
    return a.shape == b.shape and bool(torch.all((a - b).abs() <= tol * (1 + b.abs())))


@harness(H, funcs=["inner_product_matrix", "triple_product_tensor", "_signed_eval", "log_self_inner_product_scalar"], sym=False, seeds=120)
def circuits_enumerated(W):
    """pair and triple products of compatible circuits equal the sums over all joint states, with and without a shared cache"""
    from spflow.utils.inner_product import inner_product_matrix, triple_product_tensor, log_self_inner_product_scalar
    from spflow.modules.sos.socs import _signed_eval
    from spflow.utils.cache import Cache
    r = W.rng
    torch.manual_seed(r.randrange(10 ** 6))
    vs = r.sample(range(5), r.randint(1, 3))
    K, R = r.choice([2, 3]), r.choice([1, 2])
    t = _tree(W, vs)
    pool = {}
    ms = [_inst(W, t, K, R, r.random() < 0.7, pool if r.random() < 0.5 else {}) for _ in range(3)]
    pos = {v: v for v in range(5)}
    st = _states(vs, K)
    x = torch.zeros(len(st), 5)
    x[:, vs] = st
    v = [_ref(m, x, pos) for m in ms]
    for m, u in zip(ms, v):
        la, sg = _signed_eval(m, x, Cache())
        W.check("signed_eval", cl(sg * la.exp(), u))
    cache = Cache() if r.random() < 0.7 else None
    for i, j in r.sample([(0, 1), (1, 0), (0, 0), (2, 1), (1, 2)], 4):
        W.check("pair", cl(inner_product_matrix(ms[i], ms[j], cache=cache), torch.einsum("bfir,bfjr->fijr", v[i], v[j])))
    for i, j, k in r.sample([(0, 1, 2), (1, 0, 2), (0, 0, 1), (2, 1, 0), (1, 0, 0)], 3):
        W.check("triple", cl(triple_product_tensor(ms[i], ms[j], ms[k], cache=cache), torch.einsum("bfir,bfjr,bfkr->fijkr", v[i], v[j], v[k])))
    if tuple(ms[0].out_shape) == (1, 1, 1):
        W.check("self", cl(log_self_inner_product_scalar(ms[0], cache=cache), (v[0] ** 2).sum().log()))


@harness(H, funcs=["SOCS.log_likelihood", "ExpSOCS.log_likelihood", "build_socs", "build_complex_socs", "build_abs_weight_proposal", "check_compatible_components"], sym=False, seeds=100)
def socs_enumerated(W):
    """squared circuits are the named function of their components and sum to one over all states"""
    from spflow.modules.sos.socs import SOCS
    from spflow.zoo.sos.exp_socs import ExpSOCS
    from spflow.learn.build_socs import build_socs, build_abs_weight_proposal, build_complex_socs
    from spflow.utils.cache import Cache
    from spflow.exceptions import UnsupportedOperationError
    r = W.rng
    torch.manual_seed(r.randrange(10 ** 6))
    vs = r.sample(range(5), r.randint(1, 3))
    K = r.choice([2, 3])
    t = _tree(W, vs)
    kind = r.choice(["socs", "socs", "exp", "build", "complex"])
    R = 1 if kind == "exp" else r.choice([1, 2])
    C = 1 if kind == "exp" else r.choice([1, 1, 2])
    pos = {v: v for v in range(5)}
    st = _states(vs, K)
    x = torch.zeros(len(st), 5)
    x[:, vs] = st
    mono = None
    if kind == "build":
        tpl = _inst(W, t, K, R, False, {}, C)
        n = r.choice([1, 2, 3])
        signed = r.random() < 0.7
        m = build_socs(tpl, num_components=n, signed=signed, seed=r.choice([None, 3]), noise_scale=r.choice([0.0, 0.3]))
        W.check("count", len(m.components) == n)
        W.check("template_kept", all(p.grad is None for p in tpl.parameters()) and "SignedSum" not in str(type(tpl)))
        if not signed:
            W.check("unsigned", all(cl(_ref(c, x, pos), _ref(tpl, x, pos)) for c in m.components))
        comps = list(m.components)
    else:
        comps = [_inst(W, t, K, R, r.random() < 0.8, {}, C) for _ in range(2 if kind == "complex" else r.randint(1, 3))]
        if kind == "exp":
            mono = _inst(W, t, K, R, False, {}, 1)
            m = ExpSOCS(monotone=mono, components=comps)
        else:
            m = build_complex_socs(*comps) if kind == "complex" else SOCS(comps)
    un = sum(_ref(c, x, pos) ** 2 for c in comps)
    if mono is not None:
        un = un * _ref(mono, x, pos)
    cache = Cache() if r.random() < 0.5 else None
    out = m.log_likelihood(x, cache=cache) if cache is not None else m.log_likelihood(x)
    W.check("shape", tuple(out.shape) == (len(x), *tuple(m.out_shape)))
    W.check("density", cl(out.exp(), un / un.sum(0, keepdim=True)))
    W.check("total", cl(out.exp().sum(0), torch.ones(out.shape[1:])))
    if cache is not None and len(x) > 1:
        W.check("again", cl(m.log_likelihood(x, cache=cache), out))
    W.check("scope", set(m.scope.query) == set(vs))
    # the proposal: every signed weight replaced by its share of the absolute weights
    c = comps[0]
    pr = build_abs_weight_proposal(c)
    pl = pr.log_likelihood(x)
    W.check("proposal_normalised", cl(pl.exp().sum(0), torch.ones(pl.shape[1:]), 1e-4))
    W.check("proposal_support", bool(torch.isfinite(pl[_ref(c, x, pos).abs() > 1e-4]).all()))
    if mono is None:
        W.raises("no_mpe", UnsupportedOperationError, lambda: m.sample(num_samples=2, is_mpe=True))
        W.raises("no_evidence", UnsupportedOperationError, lambda: m.sample(data=torch.zeros(2, 5)))
    else:
        W.raises("no_sample", UnsupportedOperationError, lambda: m.sample(num_samples=2))
    W.raises("no_em", UnsupportedOperationError, lambda: m._expectation_maximization_step(x, cache=Cache()))


@harness(H, funcs=["SOSModel", "_build_tree", "_build_quadtree_patch", "_build_random_binary_tree", "_build_linear_tree_from_order"], sym=False, seeds=80)
def sos_structures(W):
    """any number of variables and any image size: every product multiplies disjoint groups of variables, the root covers all"""
    from spflow.zoo.sos.models import SOSModel
    from spflow.modules.products.base_product import BaseProduct
    r = W.rng
    rg = r.choice(["rnd-bt", "rnd-lt", "lt", "qt", "qt-2", "qt-4"])
    img = (r.choice([1, 1, 2, 3]), r.randint(1, 6), r.randint(1, 6)) if rg.startswith("qt") else None
    n = img[0] * img[1] * img[2] if img else r.randint(1, 20)
    m = SOSModel(num_variables=n, image_shape=img, num_input_units=r.randint(1, 2), num_sum_units=r.randint(1, 2), num_squares=1, input_layer="categorical",
                 input_layer_kwargs={"num_categories": 2}, region_graph=rg, seed=r.randrange(1000))
    W.check("covers", sorted(m.scope.query) == list(range(n)))
    for k in m.modules():
        fs = getattr(k, "inputs", None)
        if isinstance(fs, torch.nn.ModuleList) and (type(k).__name__.endswith("Product") or (type(k).__name__ == "Cat" and k.dim == 1)):
            sets = [set(i.scope.query) for i in fs]
            W.check("disjoint", sum(map(len, sets)) == len(set().union(*sets)))
    leaves = [set(k.scope.query) for k in m.modules() if type(k).__name__ == "SignedCategorical" or hasattr(k, "distribution")]
    W.check("leaves", set().union(*leaves) == set(range(n)))


@harness(H, funcs=["SOSModel", "ExpSOSModel", "_build_tree"], sym=False, seeds=60)
def sos_models(W):
    """every region graph, discrete and Gaussian inputs, real and complex: the model is a density over all its variables"""
    from spflow.zoo.sos.models import SOSModel, ExpSOSModel
    r = W.rng
    torch.manual_seed(r.randrange(10 ** 6))
    rg = r.choice(["rnd-bt", "rnd-lt", "lt", "qt", "qt-2", "qt-4"])
    img = r.choice([(1, 2, 2), (2, 1, 2), (1, 3, 1), (2, 2, 1), (1, 1, 1), (1, 1, 3), (1, 2, 3), (1, 3, 2), (3, 1, 1), (1, 1, 5), (1, 5, 1)]) if rg.startswith("qt") or r.random() < 0.2 else None
    n = img[0] * img[1] * img[2] if img else r.randint(1, 4)
    il = r.choice(["categorical", "embedding"])
    K = 2
    kw = {"num_categories": K} if il == "categorical" else {"num_states": K}
    args = dict(num_variables=n, image_shape=img, num_input_units=r.randint(1, 3), num_sum_units=r.randint(1, 3), input_layer=il,
                input_layer_kwargs=kw, region_graph=rg, structured_decomposable=r.random() < 0.5, complex=r.random() < 0.5, seed=r.randrange(100),
                non_monotonic_inputs=r.choice([None, True, False]))
    exp = r.random() < 0.4
    m = ExpSOSModel(mono_num_input_units=r.randint(1, 3), mono_num_sum_units=r.randint(1, 3), **args) if exp else SOSModel(num_squares=r.randint(1, 3), **args)
    W.check("scope", sorted(m.scope.query) == list(range(n)) and tuple(m.out_shape) == (1, 1, 1))
    x = _states(range(n), K)
    pos = {v: v for v in range(n)}
    un = sum(_ref(c, x, pos) ** 2 for c in m.components)
    if exp:
        un = un * _ref(m.monotone, x, pos)
    out = m.log_likelihood(x)
    W.check("density", cl(out.exp(), un / un.sum(0, keepdim=True)))
    W.check("total", cl(out.exp().sum(), 1.0))
    if args["complex"]:
        W.check("pairs", [id(c) for p in m.complex_component_pairs for c in p] == [id(c) for c in m.components])
    # (complex models pair the components in order; each pair contributes |real + i*imag|^2)


# ------------------------------------------------------------------ bounded: leaf products against enumeration and quadrature
def _lf(W, fam, q, C, R):
    """a random leaf of the family -> (leaf, grid, weights) with the grid covering its support"""
    from spflow.modules import leaves as L
    r = W.rng
    F = len(q)
    U = lambda lo, hi, k=(): lo + (hi - lo) * torch.rand(F, C, R, *k)
    S = Scope(q)
    if fam == "laplace":
        return L.Laplace(S, loc=U(-2, 2), scale=r.choice([U(.3, 2), torch.ones(F, C, R) * 0.7, 0.7 + U(0, 1e-4), 0.7 + U(0, 1e-9)]))
    if fam == "poisson":
        return L.Poisson(S, rate=r.choice([U(.1, 5), U(100, 120), U(380, 460)]))
    if fam == "hypergeometric":
        N = torch.full((F, C, R), 9.0)
        return L.Hypergeometric(S, K=torch.full((F, C, R), float(r.randint(1, 8))), N=N, n=torch.full((F, C, R), float(r.randint(1, 8))))
    if fam == "binomial":
        return L.Binomial(S, total_count=torch.randint(1, 7, (F, C, R)).to(torch.get_default_dtype()), probs=U(.05, .95))
    if fam == "negative_binomial":
        return L.NegativeBinomial(S, total_count=r.choice([U(1, 6).round(), U(80, 100).round()]), probs=r.choice([U(.1, .8), U(.9, .99)]))
    if fam == "histogram":
        nb = r.randint(1, 4)
        e = sorted(r.sample(range(-5, 6), nb + 1))
        m = L.Histogram(S, bin_edges=[v / 2 for v in e], out_channels=C, num_repetitions=R)
        with torch.no_grad():
            for p in m.parameters():
                p.copy_(torch.randn_like(p))
        return m
    if fam == "cltree":
        raise AssertionError
    from .c16_density import pl_dist
    raise AssertionError


def _grid(fam, ls):
    if fam == "laplace":
        # between and beyond the locations, refined
        k = sorted({round(float(v), 9) for l in ls for v in l.loc.flatten()})
        pts = [k[0] - 60.0] + [k[0] - 2.0 ** -j * 60 for j in range(1, 9)] + k + [k[-1] + 2.0 ** -j * 60 for j in range(8, 0, -1)] + [k[-1] + 60.0]
        return _gauss_grid(sorted(set(pts)))
    if fam == "histogram":
        k = sorted({float(v) for l in ls for v in l.bin_edges})
        return _gauss_grid(k)
    n = {"poisson": 1500, "hypergeometric": 10, "binomial": 8, "negative_binomial": 40000}[fam]
    return torch.arange(n + 1, dtype=torch.float64), torch.ones(n + 1, dtype=torch.float64)


def _gauss_grid(pts, n=12):
    import numpy as np
    gx, gw = np.polynomial.legendre.leggauss(n)
    gx, gw = torch.tensor(gx), torch.tensor(gw)
    xs, ws = [], []
    for a, b in zip(pts, pts[1:]):
        if b > a:
            xs.append((a + b) / 2 + (b - a) / 2 * gx)
            ws.append((b - a) / 2 * gw)
    return torch.cat(xs), torch.cat(ws)


@harness(H, funcs=["leaf_inner_product", "triple_product_tensor"], sym=False, seeds=140)
def leaf_products_enumerated(W):
    """families without a proved form: the product equals the numerical sum or integral of the leaves' own densities"""
    from spflow.utils.inner_product import inner_product_matrix, triple_product_tensor
    r = W.rng
    torch.manual_seed(r.randrange(10 ** 6))
    fam = r.choice(["laplace", "poisson", "hypergeometric", "binomial", "negative_binomial", "histogram"])
    q = r.sample(range(4), r.choice([1, 1, 2])) if fam != "histogram" else [r.randrange(4)]
    R = r.choice([1, 2])
    n = 3 if fam in ("binomial", "hypergeometric", "negative_binomial", "histogram") and r.random() < 0.4 else 2
    Cs = [r.randint(1, 3) for _ in range(n)]
    ls = [_lf(W, fam, q, c, R) for c in Cs]
    if fam == "histogram":
        for l in ls:
            l.min_prob = 0.0
    xs, ws = _grid(fam, ls)
    D = []
    for l in ls:
        x = torch.full((len(xs), 4), float("nan"))
        for v in q:
            x[:, v] = xs
        if fam in ("binomial", "hypergeometric"):
            D.append(_count_density(fam, l, xs))
        else:
            D.append(l.log_likelihood(x).exp())
    if n == 2:
        W.check("pair " + fam, cl(inner_product_matrix(*ls), torch.einsum("x,xfir,xfjr->fijr", ws, *D), 1e-5))
    else:
        W.check("triple " + fam, cl(triple_product_tensor(*ls), torch.einsum("x,xfir,xfjr,xfkr->fijkr", ws, *D), 1e-5))


def _count_density(fam, l, xs):
    """counts outside a leaf's own support have probability zero"""
    out = []
    for x in xs:
        k = float(x)
        if fam == "binomial":
            n, p = l.total_count, l.probs
            v = torch.exp(torch.lgamma(n + 1) - torch.lgamma(torch.tensor(k + 1)) - torch.lgamma((n - k).clamp(min=0) + 1)) * p ** k * (1 - p) ** (n - k).clamp(min=0)
            out.append(torch.where(n >= k, v, torch.zeros_like(v)))
        else:
            cb = lambda a, b: math.comb(int(a), int(b)) if 0 <= b <= a else 0
            out.append(torch.tensor([[[cb(K, k) * cb(N - K, n - k) / cb(N, n) for K, N, n in zip(*t)] for t in zip(a, b, c)]
                                     for a, b, c in zip(l.K.tolist(), l.N.tolist(), l.n.tolist())]))
    return torch.stack(out)


@harness(H, funcs=["leaf_inner_product"], sym=False, seeds=40)
def linear_and_tree_products(W):
    """piecewise-linear leaves: integral of the product of the interpolations; tree leaves: sum over all joint states"""
    from spflow.utils.inner_product import inner_product_matrix, triple_product_tensor
    from spflow.modules.leaves import PiecewiseLinear, CLTree
    from spflow.utils.domain import Domain
    r = W.rng
    torch.manual_seed(r.randrange(10 ** 6))
    R, n = r.choice([1, 2]), r.choice([2, 2, 3])
    if r.random() < 0.5:
        F = r.choice([1, 2])
        q = r.sample(range(4), F)
        ls, kn = [], []
        for _ in range(n):
            C = r.randint(1, 2)
            ks = {}
            for i in itertools.product(range(R), range(C), range(F)):
                k = r.randint(3, 5)
                a = torch.rand(1) * 2 - 1
                xs = torch.cat([a, a + torch.cumsum(torch.rand(k - 1) + 0.1, 0)])
                ys = torch.rand(k)
                ys[0] = ys[-1] = 0
                ks[i] = (xs, ys)
            m = PiecewiseLinear(Scope(q), out_channels=C, num_repetitions=R)
            m.xs = [[[[ks[a, c, f][0]] for f in range(F)] for c in range(C)] for a in range(R)]
            m.ys = [[[[ks[a, c, f][1]] for f in range(F)] for c in range(C)] for a in range(R)]
            m.domains, m.is_initialized = [Domain.continuous_inf_support() for _ in range(F)], True
            ls.append(m)
            kn.append((C, ks))
        import numpy as np
        ev = lambda x, k: torch.tensor(np.interp(x.numpy(), k[0].numpy(), k[1].numpy(), left=0, right=0))
        got = (inner_product_matrix if n == 2 else triple_product_tensor)(*ls)
        ok = tuple(got.shape) == (F, *[c for c, _ in kn], R)
        for f in range(F):
            for a in range(R):
                for cs in itertools.product(*[range(c) for c, _ in kn]):
                    k = [ks[a, c, f] for (_, ks), c in zip(kn, cs)]
                    xs, ws = _gauss_grid(sorted({float(v) for t, _ in k for v in t}), 3)
                    ok = ok and cl(got[(f, *cs, a)], (ws * math.prod(ev(xs, t) for t in k)).sum(), 1e-5)
        W.check("linear", ok)
    else:
        F, K = r.choice([2, 3, 4]), r.choice([2, 3])
        q = r.sample(range(5), F)
        par = torch.tensor(rand_parents(r, F))
        ls = []
        for _ in range(2):
            C = r.randint(1, 2)
            m = CLTree(Scope(q), parents=par, log_cpt=torch.log_softmax(torch.randn(F, C, R, K, K), -2), K=K, out_channels=C, num_repetitions=R)
            ls.append(m)
        st = _states(q, K)
        x = torch.zeros(len(st), 5)
        x[:, q] = st
        D = [l.log_likelihood(x).sum(1).exp() for l in ls]
        got = inner_product_matrix(*ls)
        W.check("tree", cl(got.prod(0), torch.einsum("xir,xjr->ijr", *D), 1e-5))


def rand_parents(r, F):
    order = r.sample(range(F), F)
    p = [-1] * F
    for i, v in enumerate(order[1:], 1):
        p[v] = r.choice(order[:i])
    return p


@harness(H, funcs=["inner_product_matrix", "SOCS", "ExpSOCS", "SignedCategorical", "leaf_inner_product"], sym=False, seeds=30)
def square_rejections(W):
    """incompatible operands and unsupported queries are refused"""
    from spflow.utils.inner_product import inner_product_matrix, triple_product_tensor, log_self_inner_product_scalar
    from spflow.modules.sos.socs import SOCS
    from spflow.zoo.sos.exp_socs import ExpSOCS
    from spflow.zoo.sos.signed_categorical import SignedCategorical
    from spflow.modules.leaves import Categorical, Bernoulli, Normal
    from spflow.modules.sums import Sum, SignedSum
    from spflow.modules.products import Product
    r = W.rng
    q = r.sample(range(4), 2)
    cat = lambda q, C=2, R=1, K=2: Categorical(Scope(q), probs=torch.softmax(torch.randn(len(q), C, R, K), -1))
    sg = lambda q, C=2, R=1, K=2: SignedCategorical(Scope(q), weights=torch.randn(len(q), C, R, K), out_channels=C, num_repetitions=R)
    a, b = r.choice([cat, sg]), r.choice([cat, sg])
    three = r.random() < 0.4
    f = (lambda x, y: triple_product_tensor(x, x, y)) if three else inner_product_matrix
    W.raises("order", Exception, lambda: f(a(q), b(q[::-1])))
    W.raises("scope", Exception, lambda: f(a(q), b([q[0]])))
    W.raises("scope2", Exception, lambda: f(a([q[1]]), b([q[0]])))
    W.raises("states", Exception, lambda: f(a(q, K=2), b(q, K=3)))
    W.raises("repetitions", Exception, lambda: f(a(q, R=2), b(q, R=1)))
    W.raises("family", Exception, lambda: f(Bernoulli(Scope(q), out_channels=2), Normal(Scope(q), out_channels=2)))
    W.raises("structure", Exception, lambda: f(Product(a(q)), a(q)))
    W.raises("scalar", Exception, lambda: log_self_inner_product_scalar(a(q)))
    W.raises("empty", Exception, lambda: SOCS([]))
    W.raises("socs_scope", Exception, lambda: SOCS([a([q[0]]), b([q[1]])]))
    W.raises("socs_shape", Exception, lambda: SOCS([a(q, C=1), b(q, C=2)]))
    W.raises("exp_scope", Exception, lambda: ExpSOCS(monotone=cat([q[0]], C=1), components=[a([q[1]], C=1)]))
    W.raises("exp_shape", Exception, lambda: ExpSOCS(monotone=cat([q[0]], C=2), components=[a([q[0]], C=1)]))
    x = torch.zeros(2, 4)
    x[0, q[0]] = float("nan")
    W.raises("signed_missing", Exception, lambda: sg(q).signed_logabs_and_sign(x))
    y = torch.zeros(2, 4)
    y[0, q[0]] = r.choice([-1.0, 2.0])
    W.raises("signed_range", Exception, lambda: sg(q).signed_logabs_and_sign(y))
    W.raises("signed_ll", Exception, lambda: sg(q).log_likelihood(torch.zeros(2, 4)))
    W.raises("sum_over_signed", Exception, lambda: Sum(inputs=SignedSum(inputs=sg([q[0]]), out_channels=2), out_channels=1).log_likelihood(torch.zeros(2, 4)))


@harness(H, funcs=["SOCS.log_likelihood", "SOCS.marginalize", "ExpSOCS.marginalize"], sym=False, seeds=30)
def squares_missing(W):
    """a missing entry, like a marginalised variable, sums the squared density over that variable's states"""
    from spflow.modules.sos.socs import SOCS
    from spflow.zoo.sos.exp_socs import ExpSOCS
    from spflow.modules.sums import Sum, SignedSum
    from spflow.modules.products import Product
    from spflow.modules.leaves import Categorical
    torch.manual_seed(W.rng.randrange(10 ** 6))
    kind = W.rng.choice(["socs", "exp"])
    cat = lambda: Product(Categorical(Scope([0, 1]), probs=torch.softmax(torch.randn(2, 3, 1, 2), -1)))
    comp = SignedSum(inputs=cat(), out_channels=1, weights=torch.randn(1, 3, 1, 1)) if W.rng.random() < 0.5 else Sum(inputs=cat(), out_channels=1)
    m = SOCS([comp]) if kind == "socs" else ExpSOCS(monotone=Sum(inputs=cat(), out_channels=1), components=[comp])
    st = _states([0, 1], 2)
    full = m.log_likelihood(st).exp().flatten()
    x = torch.tensor([[0.0, float("nan")], [1.0, float("nan")]])
    want = torch.stack([full[0] + full[1], full[2] + full[3]])
    if W.rng.random() < 0.5:
        W.check("missing:" + kind, cl(m.log_likelihood(x).exp().flatten(), want))
    try:
        g = m.marginalize([1])
    except Exception as e:
        W.note(f"marginalize rejected: {type(e).__name__}")
        return
    W.check("marginalized:" + kind, cl(g.log_likelihood(torch.tensor([[0.0, 0.0], [1.0, 0.0]])).exp().flatten(), want))
