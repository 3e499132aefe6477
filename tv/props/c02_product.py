"""C02: product layers factorise over disjoint scopes: log-likelihood is the sum of the inputs' log-likelihoods,
channel by channel (elementwise), over the channel cross product (outer) or over all features (product)."""
import torch
from ..runner import harness
from ..lib import *
H = []


def scopes(n, per=1):
    return [Scope(list(range(i * per, (i + 1) * per))) for i in range(n)]


@harness(H, funcs=["Product.__init__", "Product.log_likelihood"])
def product_ll(W):
    from spflow.modules.products import Product
    B, F, C, R = (W.dim(n) for n in ("B", "F", "C", "R"))
    s, ll = stub(W, "ll", F, C, R, B, kind="ll")
    m = Product(s)
    out = m.log_likelihood(W.tensor("x", (B, F)))
    W.check_eq("sum", out, (B, 1, C, R), lambda b, f, c, r: W.sum(F, lambda i: W.at(ll, b, i, c, r)))
    W.check("out_shape", W.and_(W.eq(m.out_shape.features, 1), W.eq(m.out_shape.channels, C), W.eq(m.out_shape.repetitions, R)))


@harness(H, funcs=["Product.__init__", "Product.log_likelihood", "Cat.log_likelihood"])
def product_ll_list(W):
    from spflow.modules.products import Product
    B, F1, F2, F3, C, R = (W.dim(n) for n in ("B", "F1", "F2", "F3", "C", "R"))
    sc = scopes(3)
    xs = [stub(W, f"l{i}", F, C, R, B, sc[i]) for i, F in enumerate((F1, F2, F3))]
    m = Product([x[0] for x in xs])
    out = m.log_likelihood(W.tensor("x", (B, 3)))
    l = [x[1] for x in xs]
    W.check_eq("sum", out, (B, 1, C, R), lambda b, f, c, r: W.sum(F1, lambda i: W.at(l[0], b, i, c, r))
               + W.sum(F2, lambda i: W.at(l[1], b, i, c, r)) + W.sum(F3, lambda i: W.at(l[2], b, i, c, r)))
    W.check("scope", set(m.scope.query) == {0, 1, 2})


@harness(H, funcs=["BaseProduct.__init__", "ElementwiseProduct.__init__", "ElementwiseProduct.log_likelihood",
                   "ElementwiseProduct.check_shapes", "BaseProduct._get_input_log_likelihoods"])
def elementwise_ll(W):
    from spflow.modules.products import ElementwiseProduct
    B, F, C, R = (W.dim(n) for n in ("B", "F", "C", "R"))
    n = W.choice("n", [2, 3])
    bc = W.choice("broadcast", [None, 0, 1])
    sc = scopes(n)
    xs, lls = [], []
    for i in range(n):
        a, l = stub(W, f"l{i}", F, 1 if bc == i else C, R, B, sc[i], kind="ll")
        xs.append(a); lls.append(l)
    m = ElementwiseProduct(xs)
    out = m.log_likelihood(W.tensor("x", (B, n)))

    def spec(b, f, c, r):
        t = 0
        for i in range(n):
            t = t + W.at(lls[i], b, f, 0 if bc == i else c, r)
        return t
    W.check_eq("sum", out, (B, F, C, R), spec)
    W.check("scope", set(m.scope.query) == set(range(n)))


@harness(H, funcs=["OuterProduct.__init__", "OuterProduct.log_likelihood", "OuterProduct.check_shapes"])
def outer_ll(W):
    """output channel ravel(c1, c2[, c3]) = sum of the chosen input channels."""
    from spflow.modules.products import OuterProduct
    B, F, R = (W.dim(n) for n in ("B", "F", "R"))
    n = W.choice("n", [2, 3])
    Cs = [W.dim(f"C{i}", hi=4) for i in range(n)]
    sc = scopes(n)
    xs, lls = [], []
    for i in range(n):
        a, l = stub(W, f"l{i}", F, Cs[i], R, B, sc[i], kind="ll")
        xs.append(a); lls.append(l)
    m = OuterProduct(xs)
    out = m.log_likelihood(W.tensor("x", (B, n)))
    T = 1
    for c in Cs:
        T = T * c

    def spec(b, f, k, r):
        t = 0
        for i in reversed(range(n)):
            t = t + W.at(lls[i], b, f, W.fmod(k, Cs[i]), r)
            k = W.fdiv(k, Cs[i])
        return t
    W.check_eq("sum", out, (B, F, T, R), spec)
    W.check("out_channels", W.eq(m.out_shape.channels, T))


def mksplit(W, s, kind, k, F):
    from spflow.modules.ops import SplitConsecutive, SplitInterleaved, SplitByIndex
    if kind == "consecutive":
        return SplitConsecutive(s, num_splits=k), lambda i, j: i * W.fdiv(F, k) + j
    if kind == "interleaved":
        return SplitInterleaved(s, num_splits=k), lambda i, j: i + j * k
    perm = W.perm("perm", int(F))
    q = int(F) // k
    groups = [perm[i * q:(i + 1) * q] for i in range(k)]
    return SplitByIndex(s, indices=groups), lambda i, j: groups[i][int(j)]


@harness(H, funcs=["ElementwiseProduct.log_likelihood", "OuterProduct.log_likelihood", "SplitConsecutive.log_likelihood",
                   "SplitInterleaved.log_likelihood"])
def split_products(W):
    """a product over a split input multiplies the parts, feature by feature."""
    from spflow.modules.products import ElementwiseProduct, OuterProduct
    B, Q, R = (W.dim(n) for n in ("B", "Q", "R"))
    C = W.dim("C", hi=4)
    k = W.choice("k", [2, 3])
    kind = W.choice("split", ["consecutive", "interleaved"])
    F = Q * k
    sc = Scope(list(range(60)))
    x = W.tensor("x", (B, F))
    s, ll = stub(W, "ll", F, C, R, B, sc, kind="ll")
    sp, pos = mksplit(W, s, kind, k, F)
    m = ElementwiseProduct(sp)
    out = m.log_likelihood(x)

    def spec(b, f, c, r):
        t = 0
        for i in range(k):
            t = t + W.at(ll, b, pos(i, f), c, r)
        return t
    W.check_eq("elementwise", out, (B, Q, C, R), spec)
    mo = OuterProduct(sp, num_splits=k)
    out = mo.log_likelihood(x)

    def spec2(b, f, ch, r):
        t = 0
        for i in reversed(range(k)):
            t = t + W.at(ll, b, pos(i, f), W.fmod(ch, C), r)
            ch = W.fdiv(ch, C)
        return t
    W.check_eq("outer", out, (B, Q, C ** k, R), spec2)


@harness(H, funcs=["SplitByIndex.log_likelihood", "ElementwiseProduct.log_likelihood", "OuterProduct.log_likelihood"],
         fix={"Q": 2})
def split_by_index_products(W):
    from spflow.modules.products import ElementwiseProduct, OuterProduct
    B, R = (W.dim(n) for n in ("B", "R"))
    Q = W.dim("Q", hi=3)
    C = W.dim("C", hi=3)
    k = W.choice("k", [2, 3])
    F = int(Q * k)
    x = W.tensor("x", (B, F))
    s, ll = stub(W, "ll", F, C, R, B, Scope(list(range(F))))
    sp, pos = mksplit(W, s, "index", k, F)
    out = ElementwiseProduct(sp).log_likelihood(x)
    W.check_eq("elementwise", out, (B, Q, C, R), lambda b, f, c, r: W.pick(
        f, Q, lambda j: sum((W.at(ll, b, pos(i, j), c, r) for i in range(k)), 0)))
    out = OuterProduct(sp, num_splits=k).log_likelihood(x)

    def spec2(b, f, ch, r):
        chs = []
        for i in range(k):
            chs.insert(0, W.fmod(ch, C))
            ch = W.fdiv(ch, C)
        return W.pick(f, Q, lambda j: sum((W.at(ll, b, pos(i, j), chs[i], r) for i in range(k)), 0))
    W.check_eq("outer", out, (B, Q, C ** k, R), spec2)


@harness(H, funcs=["JointLogLikelihood.log_likelihood", "JointLogLikelihood.__init__", "JointLogLikelihood.feature_to_scope"])
def joint_ll(W):
    """the joint of a module is the product over its features, in every channel and repetition"""
    from spflow.zoo.cms.joint import JointLogLikelihood
    B, F, C, R = (W.dim(n) for n in ("B", "F", "C", "R"))
    s, ll = stub(W, "ll", F, C, R, B, Scope(list(range(64))))
    m = JointLogLikelihood(s)
    W.check("out_shape", W.and_(*[W.eq(p, q) for p, q in zip(tuple(m.out_shape), (1, C, R))]))
    W.check_eq("sum", m.log_likelihood(W.tensor("x", (B, 2))), (B, 1, C, R), lambda b, f, c, r: W.sum(F, lambda i: W.at(ll, b, i, c, r)))


@harness(H, funcs=["Factorize.__init__", "Factorize._factorize"], seeds=80)
def factorize_partition(W):
    """for every repetition the groups of a random factorisation partition the input features into non-empty
    groups."""
    from spflow.modules.rat import Factorize
    depth = W.choice("depth", [0, 1, 2])
    F = W.dim("F", 2 ** depth, 2 ** depth + 4)
    B, C = W.dim("B"), W.dim("C")
    R = W.dim("R", hi=4)
    s, ll = stub(W, "ll", F, C, R, B, Scope(list(range(int(F)))))
    m = Factorize([s], depth=depth, num_repetitions=R)
    ind = m.indices
    O = 2 ** depth
    W.check_eq("partition", ind.sum(1), (F, R), lambda *i: 1)
    W.check_all("zero_one", (F, O, R), lambda i, o, r: W.or_(W.eq(W.at(ind, i, o, r), 0), W.eq(W.at(ind, i, o, r), 1)))
    W.check_all("nonempty", (O, R), lambda o, r: W.le(1, W.at(ind.sum(0), o, r)))


@harness(H, funcs=["Factorize.log_likelihood"], seeds=80)
def factorize_ll(W):
    """for any partition of the features, the log-likelihood of a group is the sum over its members."""
    from spflow.modules.rat import Factorize
    depth = W.choice("depth", [0, 1, 2])
    O = 2 ** depth
    F = W.dim("F", O, O + 4)
    B, C = W.dim("B"), W.dim("C")
    R = W.dim("R", hi=4)
    W.require(W.le(O, F))
    s, ll = stub(W, "ll", F, C, R, B, Scope(list(range(O))))
    m = Factorize([stub(W, "ll0", O, C, 1, B, Scope(list(range(O))))[0]], depth=depth, num_repetitions=1)
    own = W.tensor("owner", (F, R), kind="int", lo=0, hi=O)
    m.inputs[0] = s
    m.indices = (own.unsqueeze(1) == torch.arange(O).reshape(1, O, 1)).to(torch.get_default_dtype())
    out = m.log_likelihood(W.tensor("x", (B, F)))
    W.check_eq("block_sum", out, (B, O, C, R),
               lambda b, o, c, r: W.sum(F, lambda i: W.ite(W.eq(W.at(own, i, r), o), W.at(ll, b, i, c, r), 0)))


@harness(H, funcs=["BaseProduct.__init__", "Cat.__init__", "Scope.all_pairwise_disjoint"], sym=False)
def overlapping_scopes_rejected(W):
    """no product over inputs that share a variable can be built; sums / concatenation of channels need equal scopes."""
    from spflow.modules.products import Product, ElementwiseProduct, OuterProduct
    from spflow.modules.ops import Cat
    from spflow.modules.sums import Sum, ElementwiseSum
    from spflow.exceptions import ScopeError
    n = W.rng.randint(2, 5)
    total = W.rng.randint(n, 9)
    assign = [W.rng.sample(range(total), W.rng.randint(1, 3)) for _ in range(n)]
    sets = [set(a) for a in assign]
    overlap = any(sets[i] & sets[j] for i in range(n) for j in range(i))
    F = W.rng.choice([1, 2]) if all(len(a) == 2 for a in assign) else 1
    W.note(str(assign))
    xs = [Stub(torch.zeros(1, F, 2, 1), (F, 2, 1), Scope(a)) for a in assign]
    E = (ScopeError, ValueError)
    for name, mk in (("product", lambda: Product(xs)), ("elementwise", lambda: ElementwiseProduct(xs)),
                     ("outer", lambda: OuterProduct(xs)), ("cat1", lambda: Cat(xs, dim=1))):
        if overlap:
            W.raises(name + "_rejects_overlap", E, mk)
        else:
            m = mk()
            W.check(name + "_scope", set(m.scope.query) == set().union(*sets))
    equal = all(s == sets[0] for s in sets)
    for name, mk in (("cat2", lambda: Cat(xs, dim=2)), ("sum", lambda: Sum(xs)),
                     ("esum", lambda: ElementwiseSum(xs, out_channels=2))):
        if not equal:
            W.raises(name + "_rejects_unequal", E, mk)
        else:
            W.check(name + "_scope", set(mk().scope.query) == sets[0])
