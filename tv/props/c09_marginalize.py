"""C09: structural marginalisation = marginalisation by missing values.
Per layer: given children whose marginalize() obeys the contract (the child over the remaining features, same values as the
child with the removed variables missing), the layer's marginalize() obeys it too; the original layer is unchanged."""
import itertools
import math
import torch
from ..runner import harness
from ..lib import *
from . import c07_leaves as L7
H = []


class MStub(Stub):
    """child over features with literal scopes; `ll` is its value with the removed variables missing."""

    def __init__(self, ll, shape, fscopes):
        R = int(shape[2])
        f2s = np.empty((len(fscopes), R), dtype=object)
        for i, s in enumerate(fscopes):
            for r in range(R):
                f2s[i, r] = Scope(list(s))
        super().__init__(ll, shape, Scope([v for s in fscopes for v in s]), f2s)
        self.fscopes = fscopes

    def marginalize(self, marg_rvs, prune=True, cache=None):
        self.calls.append(("marg", list(marg_rvs)))
        keep = [i for i, s in enumerate(self.fscopes) if any(v not in marg_rvs for v in s)]
        if not keep:
            return None
        ll = torch.stack([self._ll[:, i] for i in keep], dim=1)
        return MStub(ll, (len(keep), self.out_shape.channels, self.out_shape.repetitions),
                     [[v for v in self.fscopes[i] if v not in marg_rvs] for i in keep])


CASES = [  # feature scopes, removed variables
    ([[0], [1], [2]], [1]), ([[0], [1], [2]], [0, 2]), ([[3], [1], [0]], [3]), ([[0, 1], [2], [5, 3]], [2]),
    ([[0, 1], [2, 4]], [0, 1]), ([[0, 1], [2, 4]], [0, 4]), ([[4, 2], [0]], [4, 0]), ([[1], [0]], [7]), ([[2, 0], [1]], [1, 9]),
    ([[0], [1]], [0, 1]), ([[1, 0, 3]], [1, 3]), ([[6], [2, 5], [1]], []),
]


def mstub(W, name, case, B, C, R):
    fs, rm = case
    ll = W.tensor(name, (B, len(fs), C, R))
    gone = [all(v in rm for v in s) for s in fs]
    if any(gone):
        z = torch.zeros_like(ll[:, 0])
        ll = torch.stack([z if g else ll[:, i] for i, g in enumerate(gone)], dim=1)
    return MStub(ll, (len(fs), C, R), fs), ll, [i for i, g in enumerate(gone) if not g]


def _compare(W, name, m, rm, prune, keep, B, x):
    """obligation: m.marginalize(rm) has the values of m at the kept output features; m itself keeps its values"""
    before = m.log_likelihood(x)
    shape = tuple(before.shape)
    mm = m.marginalize(rm, prune=prune)
    if not keep:
        W.check(name + "/nothing_left", mm is None)
        return
    W.check(name + "/something_left", mm is not None)
    out = mm.log_likelihood(x)
    W.check_eq(name, out, (B, len(keep)) + shape[2:], lambda b, f, *i: W.pick(f, len(keep), lambda k: W.at(before, b, keep[k], *i)))
    W.check(name + "/scope", set(mm.scope.query) == set(m.scope.query) - set(rm))
    W.check_eq(name + "/original_unchanged", m.log_likelihood(x), shape, lambda *i: W.at(before, *i))


@harness(H, funcs=["Sum.marginalize", "Sum.log_likelihood", "proj_convex_to_real"], seeds=60, sym_time=200)
def sum_marg(W):
    from spflow.modules.sums import Sum
    B, CI, CO = (W.dim(n) for n in ("B", "CI", "CO"))
    R = W.choice("R", [1, 2])
    case = CASES[W.choice("case", range(len(CASES)))]
    s, ll, keep = mstub(W, "ll", case, B, CI, R)
    m = Sum(s, out_channels=CO, num_repetitions=R)
    set_params(W, m)
    _compare(W, "sum", m, case[1], W.choice("prune", [True, False]), keep, B, W.tensor("x", (B, 10)))


@harness(H, funcs=["WeightedSum.marginalize", "WeightedSum.log_likelihood"], seeds=60, sym_time=200)
def weighted_sum_marg(W):
    from spflow.zoo.pic.weighted_sum import WeightedSum
    B, CI, CO = (W.dim(n) for n in ("B", "CI", "CO"))
    R = W.choice("R", [1, 2])
    case = CASES[W.choice("case", range(len(CASES)))]
    s, _, keep = mstub(W, "ll", case, B, CI, R)
    m = WeightedSum(s, W.tensor("w", (len(case[0]), CI, CO, R), "pos"))
    _compare(W, "weighted_sum", m, case[1], W.choice("prune", [True, False]), keep, B, W.tensor("x", (B, 10)))


@harness(H, funcs=["ElementwiseSum.marginalize"], seeds=60, sym_time=200)
def esum_marg(W):
    from spflow.modules.sums import ElementwiseSum
    B, C, CO, R = (W.dim(n) for n in ("B", "C", "CO", "R"))
    if W.sym:
        R = W.choice("R", [1, 2])
    case = CASES[W.choice("case", range(len(CASES)))]
    a, _, keep = mstub(W, "a", case, B, C, R)
    b, _, _ = mstub(W, "b", case, B, C, R)
    m = ElementwiseSum([a, b], out_channels=CO, num_repetitions=R)
    set_params(W, m)
    _compare(W, "esum", m, case[1], True, keep, B, W.tensor("x", (B, 10)))


@harness(H, funcs=["RepetitionMixingLayer.marginalize"], seeds=60, sym_time=200)
def repmix_marg(W):
    from spflow.modules.sums.repetition_mixing_layer import RepetitionMixingLayer
    B, C = (W.dim(n) for n in ("B", "C"))
    R = W.choice("R", [1, 3])
    case = CASES[W.choice("case", range(len(CASES)))]
    s, _, keep = mstub(W, "ll", case, B, C, R)
    m = RepetitionMixingLayer(s, out_channels=C, num_repetitions=R)
    set_params(W, m)
    _compare(W, "repmix", m, case[1], True, keep, B, W.tensor("x", (B, 10)))


@harness(H, funcs=["Product.marginalize", "Cat.marginalize"], seeds=60, sym_time=200)
def product_marg(W):
    from spflow.modules.products import Product
    B, C = (W.dim(n) for n in ("B", "C"))
    R = W.choice("R", [1, 2])
    case = CASES[W.choice("case", range(len(CASES)))]
    two = W.choice("two", [False, True])
    s, _, keep = mstub(W, "ll", case, B, C, R)
    if two:
        c2 = ([[11], [12, 13]], case[1])
        t, _, k2 = mstub(W, "l2", c2, B, C, R)
        m = Product([s, t])
        kept = True
    else:
        m = Product(s)
        kept = bool(keep)
    _compare(W, "product", m, case[1], W.choice("prune", [True, False]), [0] if kept else [], B, W.tensor("x", (B, 10)))


@harness(H, funcs=["JointLogLikelihood.marginalize", "JointLogLikelihood.log_likelihood"], seeds=60, sym_time=200)
def joint_marg(W):
    from spflow.zoo.cms.joint import JointLogLikelihood
    B, C = (W.dim(n) for n in ("B", "C"))
    R = W.choice("R", [1, 2])
    case = CASES[W.choice("case", range(len(CASES)))]
    s, _, keep = mstub(W, "ll", case, B, C, R)
    _compare(W, "joint", JointLogLikelihood(s), case[1], W.choice("prune", [True, False]), [0] if keep else [], B, W.tensor("x", (B, 10)))


@harness(H, funcs=["Cat.marginalize"], seeds=60, sym_time=200)
def cat_marg(W):
    from spflow.modules.ops import Cat
    B = W.dim("B")
    C, D = W.dim("C"), W.dim("D")
    R = W.choice("R", [1, 2])
    dim = W.choice("dim", [1, 2])
    case = CASES[W.choice("case", range(len(CASES)))]
    s, _, keep = mstub(W, "ll", case, B, C, R)
    if dim == 1:
        rm = case[1] + ([12] if W.choice("second", [False, True]) else [])
        fs2 = [[11], [12]]
        t, _, k2 = mstub(W, "l2", (fs2, rm), B, C, R)
        s, _, keep = mstub(W, "ll3", (case[0], rm), B, C, R)
        m = Cat([s, t], dim=1)
        keep = keep + [len(case[0]) + k for k in k2]
        case = (case[0], rm)
    else:
        t, _, _ = mstub(W, "l2", case, B, D, R)
        m = Cat([s, t], dim=2)
    _compare(W, "cat", m, case[1], W.choice("prune", [True, False]), keep, B, W.tensor("x", (B, 10)))


# ------------------------------------------------------------------ leaves
def _leaf(fam):
    def run(W):
        B, C, R = (W.dim(n) for n in ("B", "C", "R"))
        q, rm = W.choice("qr", [([0], [0]), ([3, 1], [3]), ([1, 3, 2], [2, 0]), ([1, 3, 2], [3, 1]), ([2, 0], [1])])
        leaf, _ = L7.mkleaf(W, fam, q, C, R, odds=True, **({"validate_args": False} if fam == "uniform" else {}))
        x, _, _ = L7.leaf_data(W, fam, B, 4, nan=False)
        ref = leaf.log_likelihood(x)
        mm = leaf.marginalize(rm)
        keep = [i for i, v in enumerate(q) if v not in rm]
        if not keep:
            W.check("nothing_left", mm is None)
            return
        out = mm.log_likelihood(x)
        W.check_eq("leaf", out, (B, len(keep), C, R), lambda b, f, c, r: W.pick(f, len(keep), lambda k: W.at(ref, b, keep[k], c, r)))
        W.check("scope", list(mm.scope.query) == [q[i] for i in keep])
        W.check_eq("original_unchanged", leaf.log_likelihood(x), (B, len(q), C, R), lambda *i: W.at(ref, *i))
    run.__name__ = f"leaf_{fam}"
    return run


for _f in L7.FAM:
    harness(H, funcs=["LeafModule.marginalize", "LeafModule.marginalized_params"], seeds=40)(_leaf(_f))


@harness(H, funcs=["Histogram.marginalize", "Hypergeometric.marginalize", "CLTree.marginalize", "PiecewiseLinear.marginalize"], sym=False, seeds=40)
def leaf_special(W):
    from spflow.modules import leaves as L
    r = W.rng
    C, R = W.dim("C"), W.dim("R")
    k = W.choice("kind", ["hist", "hyper", "cltree_all"])
    if k == "hist":
        K = W.dim("K", 2, 5)
        edges = torch.cumsum(W.tensor("w", (K + 1,), "pos"), 0)
        leaf = L.Histogram(Scope([1]), bin_edges=edges, logits=W.tensor("l", (1, C, R, K)))
        x = torch.tensor([[0.0, r.uniform(float(edges[0]) - 1, float(edges[-1]) + 1)] for _ in range(5)])
        rm = r.choice([[0], [1], []])
    elif k == "hyper":
        F = W.dim("F", 1, 3)
        leaf = L.Hypergeometric(Scope(list(range(F))), out_channels=C, num_repetitions=R, N=torch.full((F, C, R), 10.0),
                                K=torch.full((F, C, R), 4.0), n=torch.full((F, C, R), 3.0))
        x = torch.tensor([[float(r.randrange(4)) for _ in range(F)] for _ in range(4)])
        rm = r.sample(range(F), r.randint(0, F))
    else:
        F, K = W.dim("F", 2, 4), 2
        leaf = L.CLTree(Scope(list(range(F))), out_channels=C, num_repetitions=R, K=K,
                        parents=torch.tensor([-1] + [r.randrange(i) for i in range(1, F)]),
                        log_cpt=_cpt(W, F, C, R, K))
        x = torch.tensor([[float(r.randrange(K)) for _ in range(F)] for _ in range(4)])
        rm = list(range(F))
    y = x.clone()
    for v in rm:
        if v < y.shape[1]:
            y[:, v] = math.nan
    ref = leaf.log_likelihood(y)
    mm = leaf.marginalize(rm)
    q = list(leaf.scope.query)
    keep = [i for i, v in enumerate(q) if v not in rm]
    if not keep:
        W.check("nothing_left", mm is None)
        return
    out = mm.log_likelihood(x)
    W.check_eq("leaf", out, (x.shape[0], len(keep), C, R), lambda b, f, c, r: W.at(ref, b, keep[int(f)], c, r))


@harness(H, funcs=["CLTree.marginalize"], sym=False, seeds=10)
def cltree_partial(W):
    """recorded finding: a tree leaf cannot be marginalised structurally (constructor call fails)"""
    from spflow.modules import leaves as L
    F, K, C, R = W.dim("F", 2, 4), 2, W.dim("C"), W.dim("R")
    leaf = L.CLTree(Scope(list(range(F))), out_channels=C, num_repetitions=R, K=K,
                    parents=torch.tensor([-1] + list(range(F - 1))), log_cpt=_cpt(W, F, C, R, K))
    x = torch.zeros(2, F)
    y = x.clone()
    y[:, F - 1] = math.nan
    ref = leaf.log_likelihood(y)
    try:
        mm = leaf.marginalize([F - 1])
    except Exception as e:
        W.check("cltree_partial_supported", False, f"{type(e).__name__}: {str(e)[:100]}")
    W.check_val("cltree_partial_value", mm.log_likelihood(x).sum().item(), ref.sum().item())


FUSED = [  # feature scopes left, right, removed variables: every feature keeps a variable
    ([[0, 1]], [[2, 3]], [0]), ([[0, 1]], [[2, 3]], [1, 2]), ([[4, 0], [1, 2]], [[3], [5, 6]], [4, 6]), ([[1, 0], [2]], [[3], [4, 7]], [9, 0]),
]


@harness(H, funcs=["EinsumLayer.marginalize", "LinsumLayer.marginalize"], seeds=60, sym_time=200)
def fused_kept(W):
    """a fused layer over two inputs, of which no feature disappears entirely"""
    from spflow.modules.einsum import EinsumLayer, LinsumLayer
    lin = W.choice("lin", [False, True])
    B, CI, CJ, CO = (W.dim(n) for n in ("B", "CI", "CJ", "CO"))
    CJ = CI if lin else CJ
    R = W.choice("R", [1, 2])
    fl, fr, rm = FUSED[W.choice("case", range(len(FUSED)))]
    a, _, _ = mstub(W, "a", (fl, rm), B, CI, R)
    b, _, keep = mstub(W, "b", (fr, rm), B, CJ, R)
    m = (LinsumLayer if lin else EinsumLayer)([a, b], out_channels=CO)
    set_params(W, m)
    _compare(W, "fused", m, rm, W.choice("prune", [True, False]), keep, B, W.tensor("x", (B, 10)))


@harness(H, funcs=["EinsumLayer.marginalize", "LinsumLayer.marginalize"], sym=False, seeds=30)
def einsum_partial(W):
    """recorded finding: learned weights are dropped when a feature disappears or the inputs come from a split"""
    from spflow.modules.einsum import EinsumLayer, LinsumLayer
    K = W.choice("kind", [EinsumLayer, LinsumLayer])
    B, C, CO, R = W.dim("B"), W.dim("C", 2, 4), W.dim("CO"), W.dim("R")
    x = W.tensor("x", (B, 4))
    case = W.choice("case", ["both", "left", "split"])
    if case == "split":
        rm = [[0], [3], [1, 2]][W.rng.randrange(3)]
        s, _, keep = mstub(W, "a", ([[0, 1], [2, 3]], rm), B, C, R)
        m = K(s, out_channels=CO)
    else:
        rm = [0, 2] if case == "both" else [0]
        a, _, _ = mstub(W, "a", ([[0], [1]], rm), B, C, R)
        b, _, _ = mstub(W, "b", ([[2], [3]], rm), B, C, R)
        m = K([a, b], out_channels=CO)
    set_params(W, m)
    ref = m.log_likelihood(x)
    if case == "both":
        ref = ref[:, 1:]
    try:
        out = m.marginalize(rm).log_likelihood(x)
    except ValueError:
        W.check("fused_partial", False)
        return
    W.check_eq("fused_partial", out, tuple(ref.shape), lambda *i: W.at(ref, *i))


@harness(H, funcs=["EinsumLayer.marginalize", "LinsumLayer.marginalize"], sym=False, seeds=30)
def einsum_trivial(W):
    """nothing or everything removed"""
    from spflow.modules.einsum import EinsumLayer, LinsumLayer
    K = W.choice("kind", [EinsumLayer, LinsumLayer])
    B, C, CO, R = W.dim("B"), W.dim("C"), W.dim("CO"), W.dim("R")
    a = MStub(W.tensor("a", (B, 2, C, R)), (2, C, R), [[0, 1], [4]])
    b = MStub(W.tensor("b", (B, 2, C, R)), (2, C, R), [[2, 3], [6]])
    m = K([a, b], out_channels=CO)
    set_params(W, m)
    x = W.tensor("x", (B, 4))
    ref = m.log_likelihood(x)
    out = m.marginalize([9]).log_likelihood(x)
    W.check_eq("no_overlap", out, tuple(ref.shape), lambda *i: W.at(ref, *i))
    W.check("all_removed", m.marginalize([6, 0, 1, 2, 4, 3]) is None)


@harness(H, funcs=["Factorize.marginalize"], sym=False, seeds=30)
def factorize_partial(W):
    """recorded finding: the partition is redrawn when a random factorisation is partially marginalised"""
    from spflow.modules.rat import Factorize
    from spflow.modules.sums import Sum
    torch.manual_seed(W.rng.randrange(10 ** 6))
    B, C = 2, W.dim("C")
    ll = W.tensor("a", (B, 7, C, 1))
    rm = W.choice("rm", [[0], [5, 1]])
    for v in rm:
        ll[:, v] = 0
    a = MStub(ll, (7, C, 1), [[i] for i in range(7)])
    m = Factorize([a], depth=1, num_repetitions=1)
    x = W.tensor("x", (B, 7))
    ref = m.log_likelihood(x)
    out = m.marginalize(rm).log_likelihood(x)
    W.check_eq("factorize_partial", out, tuple(ref.shape), lambda *i: W.at(ref, *i))


@harness(H, funcs=["SumConv.marginalize", "ProdConv.marginalize"], sym=False, seeds=20)
def conv_partial(W):
    """recorded finding: partially marginalised convolutional layers are rebuilt with fresh weights on a broken grid"""
    from spflow.modules.conv import SumConv, ProdConv
    from spflow.modules.leaves import Bernoulli
    kind = W.choice("kind", ["sum", "prod"])
    leaf = Bernoulli(Scope(list(range(16))), out_channels=2)
    m = SumConv(leaf, out_channels=2, kernel_size=2) if kind == "sum" else ProdConv(leaf, kernel_size_h=2, kernel_size_w=2)
    set_params(W, m)
    x = torch.zeros(2, 16)
    y = x.clone()
    rm = W.choice("rm", [[0], [3, 4, 5, 6], [0, 1, 2, 3, 4, 5, 6]])
    y[:, rm] = math.nan
    ref = m.log_likelihood(y)
    try:
        mm = m.marginalize(rm)
        out = mm.log_likelihood(x).sum().item()
    except Exception as e:
        out = math.nan
    keep = [f for f in range(ref.shape[1]) if not set(m.feature_to_scope[f, 0].query) <= set(rm)]
    W.check_val("conv_partial", out, ref[:, keep].sum().item())


def _cpt(W, F, C, R, K):
    lc = W.tensor("cpt", (F, C, R, K, K)).log_softmax(-2)
    lc[0] = lc[0, :, :, :, :1].expand(C, R, K, K)
    return lc


# ------------------------------------------------------------------ whole circuits
UNSUP = ("NotImplementedError", "UnsupportedOperationError")


def _supports(m):
    """layers whose structural marginalisation is a recorded finding or explicitly unsupported"""
    bad = ("EinsumLayer", "LinsumLayer", "Factorize", "SumConv", "ProdConv", "SplitConsecutive", "SplitInterleaved", "SplitByIndex")
    return not any(type(k).__name__ in bad for k in m.modules())


@harness(H, funcs=["*.marginalize (composed)"], sym=False, seeds=250, conc_time=90)
def circuit_marg(W):
    from ..gen import rand_circuit, domain, NoCircuit
    from ..world import Skip
    try:
        m, N = rand_circuit(W, ops=("sum", "esum", "cat1", "cat2", "product", "product_list", "rep", "eprod"), gaps=W.rng.random() < 0.3)
    except NoCircuit:
        raise Skip()
    if not _supports(m):
        raise Skip()
    r = W.rng
    dom = m._dom
    vs = sorted(set(m.scope.query))
    rm = r.sample(vs, r.randint(0, len(vs)))
    if r.random() < 0.2:
        rm = rm + [N + 3]
    x = torch.tensor([[r.choice(domain(dom[v])) if v in dom and r.random() < 0.8 else math.nan for v in range(N)] for _ in range(4)])
    y = x.clone()
    for v in rm:
        if v < N:
            y[:, v] = math.nan
    ref = m.log_likelihood(y)
    params = [p.clone() for p in m.parameters()]
    try:
        mm = m.marginalize(list(rm), prune=r.random() < 0.5)
    except Exception as e:
        if type(e).__name__ in UNSUP:
            raise Skip()
        raise
    fs = m.feature_to_scope
    keep = [f for f in range(ref.shape[1]) if not set(fs[f, 0].query) <= set(rm)]
    if not set(vs) - set(rm):
        W.check("nothing_left", mm is None)
        return
    out = mm.log_likelihood(x)
    W.check_eq("circuit", out, (4, len(keep)) + tuple(ref.shape[2:]), lambda b, f, c, k: W.at(ref, b, keep[int(f)], c, k))
    W.check("scope", set(mm.scope.query) == set(vs) - set(rm))
    out = mm.log_likelihood(y)
    W.check_eq("independent_of_removed", out, (4, len(keep)) + tuple(ref.shape[2:]), lambda b, f, c, k: W.at(ref, b, keep[int(f)], c, k))
    ref2 = m.log_likelihood(y)
    W.check_eq("original_unchanged", ref2, tuple(ref.shape), lambda *i: W.at(ref, *i))
    W.check("parameters_unchanged", all(bool(torch.equal(p, q)) for p, q in zip(params, m.parameters())))


@harness(H, funcs=["NaiveBayes.marginalize", "JointLogLikelihood.marginalize", "RatSPN.marginalize", "Einet.marginalize"], sym=False, seeds=60)
def model_marg(W):
    """ready-made architectures: removing variables from the model integrates them out of its density (cases without recorded findings)"""
    from spflow.modules.leaves import Categorical
    from spflow.zoo.naive_bayes import NaiveBayes
    from spflow.zoo.cms.joint import JointLogLikelihood
    from spflow.modules.sums import Sum
    from spflow.zoo.rat import RatSPN
    from spflow.zoo.einet import Einet
    r = W.rng
    torch.manual_seed(r.randrange(10 ** 6))
    kind = W.choice("kind", ["nb", "joint", "joint_sum", "rat", "einet"])
    n = r.randint(2, 5)
    vs = list(range(n)) if kind in ("rat", "einet") else sorted(r.sample(range(n + 2), n))
    C = r.choice([1, 2, 3])
    if kind == "nb":
        cut = r.randint(1, n - 1)
        m = NaiveBayes([Categorical(Scope(vs[:cut]), out_channels=C, K=3), Categorical(Scope(vs[cut:]), out_channels=C, K=3)], num_classes=C,
                       **({"class_prior": [r.uniform(0.1, 1) for _ in range(C)]} if C > 1 else {}))
    elif kind == "joint":
        m = JointLogLikelihood(Categorical(Scope(vs), out_channels=C, num_repetitions=r.choice([1, 2]), K=3))
    elif kind == "joint_sum":
        m = JointLogLikelihood(Sum(Categorical(Scope(vs), out_channels=2, K=3), out_channels=C))
    elif kind == "rat":
        m = RatSPN([Categorical(Scope(vs), out_channels=2, num_repetitions=2, K=3)], n_root_nodes=1, n_region_nodes=2, num_repetitions=2, depth=1)
    else:
        m = Einet([Categorical(Scope(vs), out_channels=2, num_repetitions=1, K=3)], num_classes=1, num_sums=2, num_leaves=2, depth=1, num_repetitions=1)
    for p in m.parameters():
        if p.requires_grad:
            p.data = torch.randn_like(p)
    x = torch.tensor([[float(r.randrange(3)) for _ in range(n + 2)] for _ in range(4)])
    rm = r.sample(vs, r.randint(0, n)) if kind not in ("rat", "einet") else r.choice([[], vs, [n + 3]])
    if r.random() < 0.2:
        rm = rm + [n + 4]
    y = x.clone()
    y[:, [v for v in rm if v < n + 2]] = math.nan
    before = m.log_likelihood(x)
    ref = m.log_likelihood(y)
    mm = m.marginalize(list(rm), prune=r.random() < 0.5)
    if set(vs) <= set(rm):
        W.check("nothing_left", mm is None)
        return
    W.check("something_left", mm is not None)
    out = mm.log_likelihood(x)
    W.check("scope", set(mm.scope.query) == set(vs) - set(rm))
    joint = {tuple(mm.feature_to_scope.shape), tuple(m.feature_to_scope.shape)}
    W.check("tables", joint == {(1, int(m.out_shape.repetitions))})
    W.check("query", set(mm.feature_to_scope[0, 0].query) == set(vs) - set(rm))
    W.check_eq("density", out, tuple(ref.shape), lambda *i: W.at(ref, *i))
    W.check_eq("original", m.log_likelihood(x), tuple(before.shape), lambda *i: W.at(before, *i))
