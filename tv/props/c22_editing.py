"""C22 -- conversions and editing utilities preserve the distribution."""
from __future__ import annotations
import contextlib
import copy
import itertools
import pathlib
import random
import tempfile
import numpy as np
import torch
from ..runner import harness
from ..lib import *
from ..gen import rand_circuit, states
from .c18_sos import cl

H = []


# ---------------------------------------------------------------- the expression language
class Ex:
    """one expression: the tree and how it is written"""

    def __init__(self, kind, vs, nf=1, kids=(), weights=(), name=None):
        self.kind, self.vs, self.nf, self.kids, self.weights, self.name = kind, tuple(vs), nf, list(kids), list(weights), name


def rand_expr(r, vs, depth, n, one=False, allow_multi=True):
    """an expression over the variables vs; `one`: it must have a single feature"""
    def atom(nf=None):
        n[0] += 1
        k = nf if nf else (1 if one or not allow_multi or r.random() < .5 else len(vs))
        return Ex("atom", vs, k, name=f"a{n[0]}")
    k = r.choice(["atom", "sum", "product"]) if depth > 0 else "atom"
    if k == "product" and len(vs) > 1:
        p = r.sample(vs, len(vs))
        m = r.randint(2, min(3, len(p)))
        cuts = [0] + sorted(r.sample(range(1, len(p)), m - 1)) + [len(p)]
        return Ex("product", vs, 1, [rand_expr(r, p[a:b], depth - 1, n) for a, b in zip(cuts, cuts[1:])])
    if k == "sum":
        m = r.randint(2, 3)
        if not one and allow_multi and len(vs) > 1 and r.random() < .3:
            kids = [atom(len(vs)) for _ in range(m)]
        else:
            kids = [rand_expr(r, vs, depth - 1, n, one=True) for _ in range(m)]
        return Ex("sum", vs, kids[0].nf, kids, [r.choice([1, 2, 3, .5, .25, 7]) for _ in kids])
    return atom()


def write(r, e, mods):
    """the Python expression, with the operators and functions in any of the accepted spellings, grouped either way"""
    from spflow.dsl import term, w as weighted

    def group(ks, op):
        if len(ks) == 1:
            return ks[0]
        i = r.choice([1, len(ks) - 1])
        return op(group(ks[:i], op), group(ks[i:], op))
    if e.kind == "atom":
        return term(mods[e.name]) if r.random() < .2 else mods[e.name]
    ks = [write(r, k, mods) for k in e.kids]
    if e.kind == "product":
        return group(ks, lambda a, b: a * b)
    ts = []
    for w, k, c in zip(e.weights, ks, e.kids):
        if c.kind == "product" and r.random() < .5:              # (w * a) * b
            inner = [write(r, x, mods) for x in c.kids]
            late = c.kids[0].kind == "atom" and inner[0] is mods[c.kids[0].name] and r.random() < .4      # a * (w * b)
            t = inner[0] * (w * inner[1]) if late else w * inner[0]
            for x in inner[1 + late:]:
                t = t * x
        else:
            t = r.choice([lambda: w * k, lambda: k * w, lambda: weighted(w, k)])()
        ts.append(t)
    return group(ts, lambda a, b: a + b)


def flat(e):
    """sums in pre-order"""
    return ([e] if e.kind == "sum" else []) + [s for k in e.kids for s in flat(k)]


def value(W, e, lls, sums, f, b, c, r):
    """the log-likelihood the expression denotes, in feature f"""
    if e.kind == "atom":
        return W.at(lls[e.name], b, f, c, r)
    if e.kind == "product":
        return sum((value(W, k, lls, sums, g, b, c, r) for k in e.kids for g in range(k.nf)), 0)
    w = sums[id(e)].weights
    return W.log(sum((W.at(w, f, i, 0, r) * W.exp(value(W, k, lls, sums, f, b, 0, r)) for i, k in enumerate(e.kids)), 0))


EXPR = [("sum", s) for s in range(6)] + [("product", s) for s in range(4)]


@harness(H, funcs=["Term.__mul__", "Term.__rmul__", "ProductExpr.__mul__", "ProductExpr.build", "WeightedExpr.__add__", "WeightedExpr.__mul__", "SumExpr.__add__",
                   "SumExpr.build", "term", "w", "as_expr", "Term.build", "_make_sum_weights", "_validate_product_modules", "_validate_sum_modules", "dsl", "build"], seeds=150,
         literal=("expression",), sym_configs=[{"expression": e} for e in EXPR], sym_time=60, maxdim=3)
def expression_language(W):
    """a built expression evaluates to the weighted mixtures and products it is written as, for arbitrary operands"""
    from spflow.dsl import dsl, build, w as weighted
    from spflow.modules.module import Module
    from spflow.modules.sums import Sum
    kind, seed = W.choice("expression", EXPR)
    r = random.Random(f"{kind}{seed}" if W.sym else W.rng.random())
    if not W.sym:
        kind = r.choice(["sum", "product"])
    B, R, n = W.dim("B"), W.dim("R"), [0]
    if kind == "product":                     # no mixtures: any number of channels
        C = W.dim("C")
        vs = list(range(r.randint(2, 5)))
        e = Ex("product", vs, 1, [Ex("atom", [v], 1, name=f"a{v}") for v in vs])
    else:
        C = 1
        while True:
            e, n = rand_expr(r, list(range(r.randint(1, 5))), 3, [0]), n
            if e.kind != "atom":
                break
    mods, lls = {}, {}

    def make(x):
        if x.kind == "atom":
            mods[x.name], lls[x.name] = stub(W, x.name, x.nf, C, R, B, Scope(list(x.vs)))
        for k in x.kids:
            make(k)
    make(e)
    before = {k: getattr(Module, k, None) for k in ("__mul__", "__rmul__", "__add__", "__radd__")}
    with dsl():
        m = build(write(r, e, mods))
    W.check("operators removed", all(getattr(Module, k, None) is v for k, v in before.items()))
    W.check("scope", set(m.scope.query) == set(e.vs))
    found, want = [x for x in m.modules() if isinstance(x, Sum)], flat(e)
    W.check("sums", len(found) == len(want))
    for s, x in zip(found, want):
        t = sum(x.weights)
        ww = s.weights
        W.check("weights shape", tuple(ww.shape)[:3] == (x.nf, len(x.kids), 1))
        for f, (i, a) in itertools.product(range(x.nf), enumerate(x.weights)):
            if W.sym:
                continue
            W.check("weights", cl(ww[f, i, 0], torch.full_like(ww[f, i, 0], a / t), 1e-5))
        set_params(W, s)
    W.check_eq("value", m.log_likelihood(W.tensor("x", (B, 6))), (B, e.nf, C, R),
               lambda b, f, c, q: (value(W, e, lls, {id(x): s for x, s in zip(want, found)}, 0, b, c, q) if e.nf == 1 else
                                   _by_feature(W, e, f, lambda g: value(W, e, lls, {id(x): s for x, s in zip(want, found)}, g, b, c, q))))


def _by_feature(W, e, f, g):
    out = g(e.nf - 1)
    for i in reversed(range(e.nf - 1)):
        out = W.ite(W.eq(f, i), g(i), out)
    return out


@harness(H, funcs=["_validate_product_modules", "_validate_sum_modules", "WeightedExpr.__post_init__", "SumExpr.__post_init__", "dsl"], sym=False, seeds=60)
def expression_errors(W):
    """expressions that denote no smooth and decomposable circuit are rejected, and the operators are removed even then"""
    from spflow.dsl import dsl, build, w, term
    from spflow.modules.module import Module
    r = W.rng
    mk = lambda vs, F=1, C=1, R=1: Stub(torch.zeros(2, F, C, R), (F, C, R), Scope(list(vs)))
    a, b, ab = mk([0]), mk([1]), mk([0, 1])
    cases = {"product overlap": lambda: build(ab * a), "sum scopes": lambda: build(.5 * a + .5 * b), "sum nested scopes": lambda: build(.5 * (a * b) + .5 * a),
             "weight sign": lambda: build(-1. * a + 2. * a), "weight zero": lambda: build(0. * a + 1. * a), "weight nan": lambda: build(float("nan") * a + 1. * a),
             "weight inf": lambda: build(float("inf") * a + 1. * a), "unweighted": lambda: build(a + a), "mixed": lambda: build(.5 * a + a), "lone weight": lambda: build(.5 * a),
             "channels": lambda: build(.5 * mk([0], 1, 2) + .5 * mk([0], 1, 2)), "product channels": lambda: build(mk([0], 1, 2) * b),
             "repetitions": lambda: build(.5 * mk([0], 1, 1, 2) + .5 * a), "product repetitions": lambda: build(mk([0], 1, 1, 2) * b),
             "features": lambda: build(.5 * mk([0, 1], 2) + .5 * (a * b))}
    k = W.choice("case", sorted(cases))
    before = {n: getattr(Module, n, None) for n in ("__mul__", "__rmul__", "__add__", "__radd__")}

    def go():
        with dsl():
            if r.random() < .3:
                with dsl():
                    pass
            cases[k]()
    W.raises(k, Exception, go)
    W.check("operators removed", all(getattr(Module, n, None) is v for n, v in before.items()))


# ---------------------------------------------------------------- images
class Columns(Stub):
    """log-likelihood of feature i = value in data column scope[i] (0 where missing)"""

    def log_likelihood(self, data, cache=None):
        self.calls.append(data)
        x = data[:, list(self.scope.query)]
        return torch.where(torch.isnan(x), torch.zeros_like(x), x).unsqueeze(2).unsqueeze(3)


@harness(H, funcs=["ImageWrapper.log_likelihood", "ImageWrapper.flatten", "ImageWrapper.to_image_format", "ImageWrapper._to_module_data", "ImageWrapper._to_image"],
         literal=("shape",), sym_time=60, maxdim=4, seeds=40)
def image_wrapper(W):
    """pixel (c, h, w) is the (c*H*W + h*W + w)-th smallest variable of the wrapped circuit; images convert back unchanged"""
    from spflow.modules.wrapper.image_wrapper import ImageWrapper
    c, h, w = W.choice("shape", [(1, 1, 1), (1, 2, 3), (3, 2, 2), (2, 3, 1)])
    vs = list(range(c * h * w)) if W.choice("gaps", [False, True]) is False else [3 * i + 1 for i in range(c * h * w)]
    B = W.dim("B")
    m = ImageWrapper(Columns(None, (len(vs), 1, 1), Scope(vs)), num_channel=c, height=h, width=w)
    x, miss, val = W.data("x", (B, c, h, w))
    keep = x.clone()
    pix = lambda b, f: (b, f // (h * w), (f // w) % h, f % w)

    def want(b, f, *_):
        cell = [W.ite(miss(*pix(b, i)), 0, val(*pix(b, i))) for i in range(len(vs))]
        out = cell[-1]
        for i in reversed(range(len(vs) - 1)):
            out = W.ite(W.eq(f, i), cell[i], out)
        return out
    W.check_eq("value", m.log_likelihood(x), (B, len(vs), 1, 1), want)
    W.check_eq("there and back", m.to_image_format(m.flatten(x)), (B, c, h, w), lambda b, i, j, k: W.at(keep, b, i, j, k))
    W.check_eq("columns and back", m._to_image(m._to_module_data(x)), (B, c, h, w), lambda b, i, j, k: W.at(keep, b, i, j, k))


@harness(H, funcs=["ImageWrapper.marginalize", "ImageWrapper.sample", "ImageWrapper._sample", "ImageWrapper.log_likelihood"], sym=False, seeds=80)
def image_wrapper_circuits(W):
    """marginalised rows, columns and channels = missing pixels; samples keep the given pixels and fill the others"""
    from spflow.modules.wrapper.image_wrapper import ImageWrapper, MarginalizationContext
    from spflow.modules.leaves import Normal
    from spflow.modules.products import Product
    from spflow.modules.sums import Sum
    r = W.rng
    c, h, w = r.randint(1, 2), r.randint(1, 3), r.randint(1, 3)
    n = c * h * w
    leaf = Normal(Scope(list(range(n))), loc=torch.randn(n, 2, 1) + 10 * torch.arange(float(n)).view(-1, 1, 1), scale=torch.rand(n, 2, 1) + .1)
    m = ImageWrapper(Sum(Product(leaf), out_channels=2), num_channel=c, height=h, width=w)
    x = (torch.randn(5, n) + 10 * torch.arange(float(n))).view(5, c, h, w)
    for _ in range(2):
        d = {k: sorted(r.sample(range(s), r.randint(0, s - 1))) for k, s in (("c", c), ("h", h), ("w", w))}
        mm = m.marginalize(MarginalizationContext(**d))
        keep = [[i for i in range(s) if i not in d[k]] for k, s in (("c", c), ("h", h), ("w", w))]
        y = torch.full_like(x, float("nan"))
        part = x[:, keep[0]][:, :, keep[1]][:, :, :, keep[2]]
        for (a, i), (b, j), (e, k) in itertools.product(enumerate(keep[0]), enumerate(keep[1]), enumerate(keep[2])):
            y[:, i, j, k] = part[:, a, b, e]
        W.check("shape", (mm.num_channel, mm.height, mm.width) == tuple(part.shape[1:]))
        W.check("marginal", cl(mm.log_likelihood(part).sum(1), m.log_likelihood(y).sum(1), 1e-4))
        ev = part.clone()
        miss = torch.rand(ev.shape) < .5
        ev[miss] = float("nan")
        s = mm.sample(data=ev.clone(), is_mpe=r.random() < .5)
        W.check("evidence", s.shape == part.shape and bool((s[~miss] == part[~miss]).all()) and bool(torch.isfinite(s).all()))
        idx = torch.arange(float(n)).view(c, h, w)[keep[0]][:, keep[1]][:, :, keep[2]]
        W.check("pixel", bool(((s - 10 * idx).abs() < 12).all()))
    W.check("all", m.marginalize(MarginalizationContext(h=list(range(h)))) is None)


# ---------------------------------------------------------------- temporary replacements
@harness(H, funcs=["replace", "_extract_class_and_name"], sym=False, seeds=60)
def replacement_is_temporary(W):
    """the replacement is used inside the context, through the cache where the method is cached, and the class is as before afterwards"""
    from spflow.utils.replace import replace
    from spflow.utils.cache import Cache
    from spflow.modules.sums import Sum, ElementwiseSum
    from spflow.modules.products import Product, ElementwiseProduct
    from spflow.modules.leaves import Normal
    cls = W.rng.choice([Sum, Product, Normal, ElementwiseProduct, ElementwiseSum])
    name = W.rng.choice(["log_likelihood", "_sample", "marginalize"])
    target = getattr(cls, name)
    owner = next(k for k in cls.__mro__ if name in vars(k))
    before = vars(owner)[name]
    n = [0]
    fail, nested = W.rng.random() < .5, W.rng.random() < .5

    def new(self, *a, cache=None, **k):
        n[0] += 1
        return torch.full((1, 1, 1, 1), 7.)
    x = torch.zeros(2, 1)
    m = Product(Normal(Scope([0])))
    try:
        with replace(target, new):
            W.check("in use", vars(owner)[name] is not before)
            if nested:
                with replace(target, new):
                    pass
                W.check("inner restored", vars(owner)[name] is not before)
            if cls is Product and name == "log_likelihood":
                c = Cache()
                W.check("value", float(m.log_likelihood(x, cache=c)) == 7 and float(m.log_likelihood(x, cache=c)) == 7)
                W.check("cached once", n[0] == 1)
            if fail:
                raise KeyError
    except KeyError:
        pass
    W.check("restored", vars(owner)[name] is before)
    W.check("class kept", all(name in vars(k) for k in cls.__mro__ if k is owner) and (owner is cls or name not in vars(cls)))


# ---------------------------------------------------------------- statistics
def zoo(W):
    """a circuit of any kind, random parameters, over discrete variables; returns the module and the number of variables"""
    from spflow.zoo.rat import RatSPN
    from spflow.zoo.einet import Einet
    from spflow.zoo.conv import ConvPc
    from spflow.zoo.naive_bayes import NaiveBayes
    from spflow.modules.leaves import Bernoulli
    r = W.rng
    k = W.choice("kind", ["random", "random", "rat", "einet", "conv", "bayes", "shared"])
    lf = lambda F, C=2, R=1: Bernoulli(Scope(list(range(F))), out_channels=C, num_repetitions=R)
    if k == "random":
        m, N = rand_circuit(W, splits=("consecutive", "interleaved"))
        return m, N
    if k == "rat":
        m = RatSPN([lf(4, 2, 2)], r.choice([1, 2]), 2, 2, r.choice([1, 2]))
    elif k == "einet":
        m = Einet([lf(4)], r.choice([1, 3]), 2, 2, r.choice([0, 1, 2]), 1, layer_type=r.choice(["einsum", "linsum"]))
    elif k == "conv":
        m = ConvPc(lf(4), 2, 2, 2, 1)
    elif k == "bayes":
        m = NaiveBayes([lf(3, 2), Bernoulli(Scope([3]), out_channels=2)], num_classes=2)
    else:
        from spflow.modules.sums import Sum
        from spflow.modules.products import Product
        a = lf(4, 2)
        p = Product(a)
        m = Sum([Sum(p, out_channels=2), Sum(p, out_channels=1), p], out_channels=1)
    for p in m.parameters():
        p.data = torch.randn_like(p)
    return m, 4


def children(m):
    """direct sub-circuits, read off the module tree (concatenations that only join a node's inputs are transparent)"""
    from spflow.modules.module import Module
    from spflow.modules.ops.cat import Cat
    root = getattr(m, "root_node", None)
    if isinstance(root, Module):
        return [root]
    out = []
    for n, c in m.named_children():
        kids = list(c) if isinstance(c, torch.nn.ModuleList) else [c]
        for k in kids:
            if isinstance(k, Cat) and n == "inputs" and not isinstance(c, torch.nn.ModuleList):
                out += list(k.inputs)
            elif isinstance(k, Module):
                out.append(k)
    return out


@harness(H, funcs=["get_structure_stats", "_iter_structure_children", "StructureStats.to_dict"], sym=False, seeds=100)
def structure_statistics(W):
    """node, edge, parameter, depth and scope counts agree with a direct walk over the circuit"""
    from spflow.utils.structure_stats import get_structure_stats
    m, N = zoo(W)
    s = get_structure_stats(m)
    nodes, edges, indeg = {}, 0, {}

    def walk(x):
        nonlocal edges
        if id(x) in nodes:
            return
        nodes[id(x)] = x
        for k in children(x):
            edges += 1
            indeg[id(k)] = indeg.get(id(k), 0) + 1
            walk(k)
    walk(m)
    depth = lambda x: 1 + max([depth(k) for k in children(x)], default=0)
    W.check("nodes", s.num_nodes_total == len(nodes) == sum(s.node_type_counts.values()))
    W.check("edges", s.num_edges_total == edges)
    W.check("parameters", s.num_parameters_total == sum(p.numel() for p in m.parameters()))
    W.check("depth", s.max_depth == depth(m))
    W.check("shared", s.num_shared_nodes == sum(v > 1 for v in indeg.values()))
    sc = [len(x.scope.query) for x in nodes.values()]
    W.check("scopes", (s.scope_size_min, s.scope_size_max) == (min(sc), max(sc)) and abs(s.scope_size_mean - sum(sc) / len(sc)) < 1e-9 and
            s.scope_size_histogram == {k: sc.count(k) for k in set(sc)})
    for n, k in s.node_type_counts.items():
        W.check("types", k == sum(type(x).__name__ == n for x in nodes.values()))


# ---------------------------------------------------------------- saving, copying
@harness(H, funcs=["save_model", "load_model"], sym=False, seeds=80)
def saved_and_copied_circuits(W):
    """a saved and loaded, copied, or state-restored circuit represents the same distribution and samples alike"""
    from spflow.utils.model_manager import save_model, load_model
    m, N = zoo(W)
    x = torch.randint(0, 2, (6, N)).double()
    x[torch.rand(x.shape) < .2] = float("nan")
    want = m.log_likelihood(x)
    how = W.choice("how", ["file", "deepcopy", "state"])
    if how == "file":
        with tempfile.TemporaryDirectory() as d:
            save_model(m, pathlib.Path(d) / "m.pkl")
            q = load_model(pathlib.Path(d) / "m.pkl")
    else:
        q = copy.deepcopy(m)
        if how == "state":
            sd = {k: v.clone() for k, v in m.state_dict().items()}
            for p in q.parameters():
                p.data = torch.randn_like(p)
            if W.rng.random() < .5:
                q.eval()
            q.log_likelihood(x)
            q.load_state_dict(sd)
    W.check("value", cl(q.log_likelihood(x), want, 1e-6))
    if tuple(m.out_shape)[1:] == (1, 1) and tuple(m.out_shape)[0] == 1:
        s = []
        for k in (m, q):
            torch.manual_seed(3)
            s.append(k.sample(data=x.clone()))
        W.check("samples", bool(torch.equal(torch.nan_to_num(s[0]), torch.nan_to_num(s[1]))))
    for p in q.parameters():
        p.data = p.data + 1.5
    W.check("independent", cl(m.log_likelihood(x), want, 1e-6))


# ---------------------------------------------------------------- scikit-learn wrappers
@harness(H, funcs=["_reduce_log_likelihood"], sym_time=60, maxdim=4, seeds=40)
def reduced_log_likelihood(W):
    """one number per row: features add up, repetitions and channels are selected, mixed or averaged as asked"""
    from spflow.interfaces.sklearn import _reduce_log_likelihood
    B, F, C, R = (W.dim(n) for n in ("B", "F", "C", "R"))
    ca, ra = W.choice("channels", ["first", "logsumexp", "logmeanexp"]), W.choice("repetitions", ["first", "logsumexp", "logmeanexp"])
    ll = W.tensor("ll", (B, F, C, R))
    tot = lambda b, c, r: W.sum(F, lambda f: W.at(ll, b, f, c, r))

    def over(n, how, g):
        if how == "first":
            return g(0)
        s = W.sum(n, lambda i: W.exp(g(i)))
        return W.log(s / n) if how == "logmeanexp" else W.log(s)
    W.check_eq("value", _reduce_log_likelihood(ll, channel_agg=ca, repetition_agg=ra), (B,),
               lambda b: over(C, ca, lambda c: over(R, ra, lambda r: tot(b, c, r))))


@harness(H, funcs=["SPFlowDensityEstimator.fit", "SPFlowDensityEstimator.score_samples", "SPFlowDensityEstimator.sample", "SPFlowClassifier.predict",
                   "SPFlowClassifier.predict_proba", "SPFlowClassifier.fit"], sym=False, seeds=60)
def estimators(W):
    """scores are the model's log-likelihoods, fitting with a given model is its estimation, samples follow the generator's state (a seed
    reproduces, and leaves the global generator alone; without one, calls differ); class labels follow the model's class order"""
    try:
        from spflow.interfaces.sklearn import SPFlowDensityEstimator, SPFlowClassifier, _SKLEARN_AVAILABLE
    except ImportError:
        return
    if not _SKLEARN_AVAILABLE:
        return
    from spflow.modules.leaves import Normal, Bernoulli
    from spflow.modules.sums import Sum
    from spflow.modules.products import Product
    from spflow.zoo.naive_bayes import NaiveBayes
    r = W.rng
    D = r.randint(1, 3)
    X = np.random.default_rng(r.randrange(1000)).normal(size=(r.choice([20, 60]), D)) * 2 + 1
    what = W.choice("what", ["density", "mle", "learn", "classifier"])
    if what == "classifier":
        K = r.randint(2, 3)
        m = NaiveBayes(Bernoulli(Scope(list(range(D))), out_channels=K), num_classes=K)
        for p in m.parameters():
            p.data = torch.randn_like(p)
        names = r.choice([["a", "b", "c"], [10, 20, 30], [0, 1, 2]])[:K]
        y = np.array([names[i % K] for i in r.sample(range(12), 12)])
        x = np.array(list(itertools.product([0., 1.], repeat=D)))
        clf = SPFlowClassifier(m).fit(x, y)
        p = m.predict_proba(torch.tensor(x)).detach()
        W.check("proba", cl(torch.tensor(clf.predict_proba(x)), p, 1e-6))
        W.check("labels", list(clf.predict(x)) == [sorted(names)[i] for i in p.argmax(1).tolist()])
        few = SPFlowClassifier(m).fit(x, np.array([names[0]] * len(x)))
        W.raises("labels missing", Exception, lambda: few.predict(x))
        return
    if what == "density":
        m = Sum(Product(Normal(Scope(list(range(D))), out_channels=3)), out_channels=r.choice([1, 2]))
        for p in m.parameters():
            p.data = torch.randn_like(p)
        est = SPFlowDensityEstimator(m, fit_params=False, channel_agg=r.choice(["first", "logsumexp", "logmeanexp"])).fit(X)
        ll = m.log_likelihood(torch.tensor(X))[:, 0, :, 0]
        n = ll.shape[1]
        want = {"first": ll[:, 0], "logsumexp": torch.logsumexp(ll, 1), "logmeanexp": torch.logsumexp(ll, 1) - np.log(n)}[est.channel_agg]
        W.check("score", cl(torch.tensor(est.score_samples(X)), want, 1e-5))
        W.check("nothing fitted", est.model_ is m)
    elif what == "mle":
        m = Normal(Scope(list(range(D))))
        est = SPFlowDensityEstimator(m).fit(X)
        W.check("location", cl(est.model_.loc.flatten(), torch.tensor(X).mean(0), 1e-4))
    else:
        est = SPFlowDensityEstimator(structure_learner=r.choice(["learn_spn", "prometheus"]), min_instances_slice=30, dtype="float64").fit(X)
        m = est.model_
        W.check("score", cl(torch.tensor(est.score_samples(X)), m.log_likelihood(torch.tensor(X)).sum((1, 2, 3)), 1e-4))
    if tuple(m.out_shape)[1] != 1:
        return
    a = est.sample(5, random_state=3)
    torch.manual_seed(11)
    s0 = torch.get_rng_state()
    b = est.sample(5, random_state=3)
    W.check("seeded", bool((a == b).all()) and a.shape == (5, D))
    W.check("generator kept", bool((torch.get_rng_state() == s0).all()))
    c, d = est.sample(5), est.sample(5)
    W.check("unseeded calls differ", not bool((c == d).all()))
