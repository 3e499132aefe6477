"""C21 -- architecture builders: every accepted configuration is smooth, decomposable, covers exactly the
variables of its leaves and is normalised; invalid configurations are rejected.

The deciding contract of a builder: with leaves whose log-likelihood is an arbitrary s[b, v], the same for every
channel and repetition, and with arbitrary circuit parameters, the root equals sum_v s[b, v].  That identity over
all s and all parameters says that every induced tree contains every leaf feature exactly once (decomposable,
smooth, full cover) and that all mixture weights sum to one (normalised)."""
from __future__ import annotations
import itertools
import math
import numpy as np
import torch
from ..runner import harness
from ..lib import *
from ..gen import states
from .c18_sos import cl
from .c20_structure import audit

H = []


class constant_draws:
    """the random structure choices (permutations of the features, of the group sizes): arbitrary in the
    concrete lane, literal in the symbolic one."""

    def __init__(self, W):
        self.W = W

    def __enter__(self):
        import spflow.modules.rat.factorize as fm
        self.n = 0
        if self.W.sym:
            self.old = torch.randperm
            torch.randperm = self._perm
        return self

    def _perm(self, n, **kw):
        self.n += 1
        p = self.W.perm(f"perm{self.n}", int(n))
        k = self.n % len(p)
        return torch.tensor(p[k:] + p[:k])

    def __exit__(self, *a):
        if self.W.sym:
            torch.randperm = self.old


def leaves(W, F, C, R, B, parts=1):
    """leaf modules over F variables in `parts` modules; s[b, v] is the log-likelihood of variable v"""
    s = W.tensor("s", (B, F))
    cuts = [0] + [(F * i) // parts for i in range(1, parts)] + [F]
    out = []
    for a, b in zip(cuts, cuts[1:]):
        ll = s[:, a:b].unsqueeze(2).unsqueeze(3).expand(B, b - a, C, R)
        out.append(Stub(ll, (b - a, C, R), Scope(list(range(a, b)))))
    return out, s


def spec(W, s, F):
    return lambda b, *_: sum((W.at(s, b, v) for v in range(F)), 0)


def covered(W, m, F):
    W.check("scope", sorted(m.scope.query) == list(range(F)))
    f2s = m.feature_to_scope
    W.check("feature_to_scope", f2s.shape[0] == 1 and all(sorted(x.query) == list(range(F)) for x in f2s.flatten()))


def config(W, fixed, **axes):
    """a builder configuration: the listed ones in the symbolic lane, the full cross product in the concrete one"""
    if W.sym:
        return W.choice("config", fixed)
    return tuple(W.choice(n, o) for n, o in axes.items())


RAT = [((1, 2, 2, 1), 1, "default", 1, False), ((1, 2, 3, 2), 2, "interleaved", 3, True), ((2, 2, 4, 1), 1, "default", 3, True),
       ((2, 2, 5, 2), 2, "interleaved", 1, False), ((2, 2, 5, 2), 1, "default", 1, True), ((3, 2, 9, 1), 2, "default", 1, False),
       ((3, 2, 8, 1), 2, "interleaved", 1, True), ((1, 3, 4, 2), 2, "default", 3, False), ((1, 3, 4, 2), 1, "interleaved", 1, True),
       ((2, 3, 9, 1), 1, "default", 1, False)]


@harness(H, funcs=["RatSPN.__init__", "RatSPN.create_spn", "RatSPN.log_likelihood", "Factorize._factorize", "Factorize.log_likelihood"],
         seeds=80, literal=("depth", "F", "R"), sym_time=100, maxdim=3, sym_configs=[{"config": c} for c in RAT])
def ratspn(W):
    """RAT-SPNs: any region width, leaf width and parameters; depth 1..3, 2 or 3 parts per region, both product
    kinds and split modes, one or several roots."""
    from spflow.zoo.rat import RatSPN
    from spflow.modules.ops.split import SplitMode
    (depth, k, F, R), parts, mode, roots, outer = config(
        W, RAT, structure=[(1, 2, 2, 1), (1, 2, 3, 2), (2, 2, 4, 1), (2, 2, 5, 2), (3, 2, 9, 1), (1, 3, 4, 2), (2, 3, 9, 1), (1, 4, 4, 3)],
        leaf_modules=[1, 2], split=["default", "interleaved"], roots=[1, 3], outer=[False, True])
    B, C = W.dim("B"), W.dim("C")
    lf, s = leaves(W, F, C, R, B, parts)
    with constant_draws(W):
        m = RatSPN(lf, n_root_nodes=roots, n_region_nodes=W.dim("S"), num_repetitions=R, depth=depth, outer_product=outer,
                   num_splits=k, split_mode=SplitMode.interleaved(k) if mode == "interleaved" else None)
    covered(W, m, F)
    set_params(W, m, own_only=False)
    W.check_eq("root", m.log_likelihood(W.tensor("x", (B, F))), (B, 1, 1, 1), spec(W, s, F))


EINET = [((0, 1, 1), 1, "linsum", "top-down"), ((0, 3, 2), 3, "linsum", "top-down"), ((0, 3, 2), 1, "linsum", "bottom-up"),
         ((1, 2, 1), 3, "einsum", "top-down"), ((1, 5, 2), 1, "linsum", "top-down"), ((1, 5, 2), 3, "einsum", "bottom-up"),
         ((2, 4, 2), 1, "einsum", "top-down"), ((2, 4, 2), 3, "linsum", "bottom-up"), ((2, 7, 1), 1, "linsum", "top-down"),
         ((2, 7, 1), 1, "einsum", "bottom-up"), ((3, 8, 1), 1, "einsum", "top-down"), ((3, 8, 1), 1, "linsum", "bottom-up")]


@harness(H, funcs=["Einet.__init__", "Einet._build_structure_top_down", "Einet._build_structure_bottom_up", "Einet._finalize_root",
                   "Einet.log_likelihood"], seeds=80, literal=("depth", "F", "R", "classes"), sym_time=100, maxdim=3,
         sym_configs=[{"config": c} for c in EINET])
def einet(W):
    """Einsum networks: any sum and leaf width and parameters; both layer types and structures."""
    from spflow.zoo.einet import Einet
    (depth, F, R), classes, layer, structure = config(
        W, EINET, structure=[(0, 1, 1), (0, 3, 2), (1, 2, 1), (1, 5, 2), (2, 4, 2), (2, 7, 1), (3, 8, 1)],
        classes=[1, 3], layer=["linsum", "einsum"], direction=["top-down", "bottom-up"])
    B, C = W.dim("B"), W.dim("C")
    lf, s = leaves(W, F, C, R, B, 2 if F > 2 else 1)
    with constant_draws(W):
        m = Einet(lf, num_classes=classes, num_sums=W.dim("S"), num_leaves=C, depth=depth, num_repetitions=R,
                  layer_type=layer, structure=structure)
    covered(W, m, F)
    set_params(W, m, own_only=False)
    W.check_eq("root", m.log_likelihood(W.tensor("x", (B, F))), (B, 1, 1, 1), spec(W, s, F))


@harness(H, funcs=["ConvPc.__init__", "compute_non_overlapping_kernel_and_padding", "ConvPc.log_likelihood"], seeds=60,
         literal=("size", "depth", "kernel"), sym_time=100, maxdim=3)
def convpc(W):
    """convolutional circuits: any image size (also not a multiple of the kernel), any width and parameters."""
    from spflow.zoo.conv import ConvPc
    h, w, depth, kernel = W.choice("structure", [(2, 2, 1, 2), (4, 4, 2, 2), (4, 4, 1, 2), (3, 3, 1, 3), (3, 3, 1, 2), (5, 5, 1, 2), (6, 6, 2, 2), (2, 2, 2, 2), (3, 3, 2, 2), (5, 5, 1, 3)])
    B, C = W.dim("B"), W.dim("C")
    F = h * w
    lf, s = leaves(W, F, C, 1, B)
    conv = W.choice("sum_conv", [False, True])
    m = ConvPc(lf[0], input_height=h, input_width=w, channels=W.dim("S"), depth=depth, kernel_size=kernel, use_sum_conv=conv)
    covered(W, m, F)
    set_params(W, m, own_only=False)
    W.check_eq("root", m.log_likelihood(W.tensor("x", (B, F))), (B, 1, 1, 1), spec(W, s, F))


def real_leaf(W, s, cols, C, R, lo=0):
    """a real leaf module whose log-likelihood is replaced by the arbitrary s"""
    from spflow.modules.leaves import Normal
    n = len(cols)
    B = s.shape[0]
    lf = Normal(Scope(list(cols)), loc=W.tensor(f"loc{lo}", (n, C, R)), scale=W.tensor(f"scale{lo}", (n, C, R), "pos"))
    v = s[:, lo:lo + n].unsqueeze(2).unsqueeze(3).expand(B, n, C, R)
    lf.log_likelihood = lambda data, cache=None: v
    return lf


ENC = [("einet", 2, 2, 1, False), ("einet", 3, 2, 2, True), ("conv", 2, 4, 1, False), ("conv", 2, 2, 1, True), ("conv", 3, 4, 0, True),
       ("conv", 4, 4, 2, False), ("conv", 4, 8, 1, True), ("conv", 3, 1, 0, True), ("conv", 4, 16, 0, False)]


@harness(H, funcs=["EinetJointEncoder.__init__", "ConvPcJointEncoder.__init__", "ConvPcJointEncoder._build_joint_convpc_reference",
                   "ConvPcJointEncoder._build_reference_latent_stream", "_PairwiseLatentProduct.log_likelihood", "_LatentFeaturePacking.log_likelihood",
                   "JointPcEncoderBase.joint_log_likelihood", "JointPcEncoderBase._build_evidence", "JointPcEncoderBase._flatten_ll"],
         seeds=60, literal=("size", "latent_dim", "depth"), sym_time=100, maxdim=3)
def autoencoding_encoders(W):
    """the joint circuits over inputs and latents of the autoencoding models: every pixel and every latent once"""
    from spflow.zoo.apc.encoders.einet_joint_encoder import EinetJointEncoder
    from spflow.zoo.apc.encoders.convpc_joint_encoder import ConvPcJointEncoder
    kind, n, L, k, flag = W.choice("config", ENC)
    B = W.dim("B")
    X = n if kind == "einet" else n * n
    F = X + L
    s = W.tensor("s", (B, F))
    xl = lambda cols, C, R: real_leaf(W, s, cols, C, R)
    zl = lambda cols, C, R: real_leaf(W, s, cols, C, R, X)
    with constant_draws(W):
        if kind == "einet":
            m = EinetJointEncoder(num_x_features=X, latent_dim=L, num_sums=W.dim("S"), num_leaves=W.dim("C"), depth=k, num_repetitions=2 if flag else 1,
                                  x_leaf_factory=xl, z_leaf_factory=zl, layer_type="einsum" if flag else "linsum")
        else:
            # k is the latent depth
            C = W.dim("C")
            m = ConvPcJointEncoder(input_height=n, input_width=n, latent_dim=L, channels=C, depth=k + 2 if n < 4 else 3, kernel_size=2,
                                   latent_depth=k, perm_latents=flag, x_leaf_factory=xl, z_leaf_factory=zl,
                                   x_leaf_channels=C)
    covered(W, m.pc, F)
    for _, p in m.pc.named_parameters():
        p.data = W.tensor("par." + _, tuple(p.shape))
    out = m.joint_log_likelihood(W.tensor("x", (B, X)), W.tensor("z", (B, L)))
    W.check_eq("root", out, (B,), spec(W, s, F))


# ---------------------------------------------------------------- quadrature circuits of probabilistic integral circuits
def random_region_graph(W, n, equal_heights=False, once=False):
    """a region graph over n variables: every region split once or twice, into two or three parts, sub-regions shared"""
    from spflow.meta.region_graph import Region, RegionGraph
    seen = {}

    def region(vs):
        vs = tuple(sorted(vs))
        if vs in seen:
            return seen[vs]
        r = seen[vs] = Region(Scope(list(vs)))
        if len(vs) > 1:
            for _ in range(W.rng.choice([1, 1, 2, 3]) if len(vs) > 2 and (len(vs) == n or not once) else 1):
                k = min(len(vs), W.rng.choice([2, 2, 3]))
                p = W.rng.sample(vs, len(vs))
                cuts = [0] + sorted(W.rng.sample(range(1, len(p)), k - 1)) + [len(p)]
                part = tuple(region(p[a:b]) for a, b in zip(cuts, cuts[1:]))
                r.add_partition(part)
        return r
    return RegionGraph(region(range(n)))


def binary_graph(W, n):
    """one partition into two halves each"""
    from spflow.meta.region_graph import Region, RegionGraph

    def region(vs):
        r = Region(Scope(sorted(vs)))
        if len(vs) > 1:
            k = W.rng.randint(1, len(vs) - 1)
            r.add_partition((region(vs[:k]), region(vs[k:])))
        return r
    return RegionGraph(region(W.rng.sample(range(n), n)))


def rule(W, K):
    from spflow.zoo.pic import QuadratureRule
    w = torch.tensor([W.rng.uniform(.2, 2) for _ in range(K)])
    return QuadratureRule(points=torch.tensor(sorted(W.rng.uniform(-1, 1) for _ in range(K))), weights=w)


@harness(H, funcs=["TensorizedQPC.__init__", "TensorizedQPC.log_likelihood", "TensorizedQPC._leaf_log_likelihood", "InnerNet.forward", "InputNet.forward",
                   "_build_folded_layers", "eval_tucker", "eval_collapsed_cp", "eval_mixing"], sym=False, seeds=60)
def tensorized_quadrature_circuits(W):
    """for any region graph (several partitions per region, uneven arities, shared regions): the sum of arbitrary leaf
    values at the root, and a distribution with the provided leaves; missing values are summed out."""
    from spflow.zoo.pic.tensorized.qpc import TensorizedQPC, TensorizedQPCConfig
    n = W.rng.choice([2, 3, 4, 5, 6, 7])
    rg = random_region_graph(W, n)
    kind = W.rng.choice(["bernoulli", "categorical"])
    m = TensorizedQPC.from_region_graph(rg, quadrature_rule=rule(W, W.rng.randint(1, 3)), config=TensorizedQPCConfig(
        leaf_type=kind, num_categories=3, net_dim=4, n_chunks=W.rng.choice([1, 2]), bias=W.rng.random() < .5,
        input_sharing=W.rng.choice(["none", "f", "c"]), inner_sharing=W.rng.choice(["none", "f", "c"]), layer_cls=W.rng.choice(["auto", "cp", "tucker"])))
    for p in m.parameters():
        p.data = torch.randn_like(p)
    audit(W, m, range(n), {v: 2 if kind == "bernoulli" else 3 for v in range(n)}, n)
    B = 4
    s = torch.randn(B, n) * 5 - W.rng.choice([0, 2000])
    m._leaf_log_likelihood = lambda data, lp: s.unsqueeze(2).expand(B, n, m.num_units)
    W.check("root", cl(m.log_likelihood(torch.zeros(B, n)).flatten(), s.sum(1), 1e-4))


@harness(H, funcs=["TensorizedQPC._observed_leaf_log_likelihood", "TensorizedQPC.log_likelihood", "pic2qpc", "rg2pic", "InputNet.forward"], sym=False, seeds=20)
def tensorized_normal_leaves(W):
    """continuous leaves: every conditional slice integrates to the marginal, the marginals to one; both ways to build agree"""
    from spflow.zoo.pic import rg2pic, pic2qpc
    from spflow.zoo.pic.tensorized.qpc import TensorizedQPC, TensorizedQPCConfig
    n = W.rng.choice([2, 3, 4])
    rg = random_region_graph(W, n) if W.rng.random() < .6 else binary_graph(W, n)
    cfg = TensorizedQPCConfig(leaf_type="normal", net_dim=4, n_chunks=W.rng.choice([1, 2]), input_sharing=W.rng.choice(["none", "f", "c"]),
                              inner_sharing=W.rng.choice(["none", "f", "c"]), layer_cls=W.rng.choice(["auto", "cp", "tucker"]))
    q = rule(W, W.rng.randint(1, 3))
    m = TensorizedQPC.from_region_graph(rg, quadrature_rule=q, config=cfg)
    g = torch.linspace(-25, 25, 10001)
    v = W.rng.randrange(n)
    x = torch.full((len(g), n), math.nan)
    x[:, v] = g
    W.check("marginal", cl(torch.trapezoid(m.log_likelihood(x).flatten().exp(), g), 1., 1e-3))
    u = W.rng.choice([w for w in range(n) if w != v])
    x[:, u] = W.rng.uniform(-1, 1)
    y = x[:1].clone()
    y[:, v] = math.nan
    W.check("slice", cl(torch.trapezoid(m.log_likelihood(x).flatten().exp(), g).log(), m.log_likelihood(y).flatten()[0], 1e-3))
    if all(len(p) == 2 for r in _regions(rg.root) for p in r.children):
        try:
            pic = rg2pic(rg, leaf_factory=lambda x, z: Stub(torch.zeros(1), (len(x.query), 1, 1), x))
        except Exception as e:
            if type(e).__name__ in ("StructureError", "InvalidParameterError"):
                return
            raise
        t = pic2qpc(pic, q, mode="tensorized", tensorized_config=cfg)
        t.load_state_dict(m.state_dict())
        W.check("same_circuit", cl(t.log_likelihood(x[::500]), m.log_likelihood(x[::500]), 1e-5))


def _regions(r, seen=None):
    seen = {} if seen is None else seen
    if id(r) not in seen:
        seen[id(r)] = r
        for p in r.children:
            for c in p:
                _regions(c, seen)
    return list(seen.values())


@harness(H, funcs=["rg2pic", "pic2qpc", "WeightedSum.__init__", "WeightedSum.log_likelihood", "_merge_units"], sym=False, seeds=60)
def expanded_quadrature_circuits(W):
    """with integral functions that are normalised over the quadrature rule: the sum of arbitrary leaf values"""
    from spflow.zoo.pic import rg2pic, pic2qpc, MergeStrategy
    n = W.rng.randint(2, 5)
    rg = binary_graph(W, n)
    K, B = W.rng.randint(1, 3), 4
    qr = rule(W, K)
    s = torch.randn(B, n) * 5

    class Leaf(Stub):
        def __init__(self, x, z):
            super().__init__(torch.zeros(1), (len(x.query), 1, 1), x)
            self.latent_scope = z

        def materialize(self, q):
            C = K ** len(self.latent_scope.query)
            v = s[:, list(self.scope.query)].unsqueeze(2).unsqueeze(3).expand(B, len(self.scope.query), C, 1)
            return Stub(v, (len(self.scope.query), C, 1), self.scope)

    def factory(zd, yd):
        ny = K ** yd

        def f(z, y):                       # positive, sum_y w(y) f(z, y) = 1
            t = torch.rand(z.shape[:-1]) + .1
            w = torch.ones(1)
            for _ in range(yd):
                w = torch.kron(w, qr.weights)
            return t / (t * w).sum(-1, keepdim=True)
        return f
    m = pic2qpc(rg2pic(rg, merge_strategy=W.rng.choice([MergeStrategy.AUTO, MergeStrategy.TUCKER]), leaf_factory=Leaf, function_factory=factory), qr)
    W.check("scope", sorted(m.scope.query) == list(range(n)))
    out = m.log_likelihood(torch.zeros(B, n))
    W.check("shape", tuple(out.shape) == (B, 1, 1, 1))
    W.check("root", cl(out.flatten(), s.sum(1), 1e-4))


# ---------------------------------------------------------------- symbolic circuits against nested quadrature
def _pic_case(W, q, groups):
    """a random circuit of leaves, sums, products (equal or disjoint latent variables) and integrals"""
    from spflow.zoo.pic import Integral
    from spflow.zoo.pic.pipeline import PICSum, PICProduct
    K = len(q.points)
    B = 3
    ids = itertools.count(50)

    class Leaf(Stub):
        def __init__(self, var, z):
            super().__init__(torch.zeros(1), (1, 1, 1), Scope([var]))
            self.latent_scope = z
            self.vals = torch.rand(B, K ** len(z.query)) + .05

        def materialize(self, _q):
            return Stub(self.vals.log()[:, None, :, None], (1, self.vals.shape[1], 1), self.scope)

    class Fn(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.a = torch.randn(4)

        def forward(self, z, y):
            t = torch.cat([z, y], -1)
            return torch.exp(torch.sin((t * self.a[:t.shape[-1]]).sum(-1) + self.a[3]) + t.pow(3).cumsum(-1).sum(-1) * .3)

    def build(vs, z, d):
        """a circuit over the variables vs with latent variables z"""
        r = W.rng.random()
        if len(vs) > 1 and (r < .45 or d == 0):
            k = W.rng.randint(1, len(vs) - 1)
            if len(z.query) == 2 and W.rng.random() < .7:
                a, b = Scope([z.query[0]]), Scope([z.query[1]])
                if W.rng.random() < .5:
                    a, b = b, a
            else:
                a = b = z
            return PICProduct(build(vs[:k], a, max(d - 1, 0)), build(vs[k:], b, max(d - 1, 0)))
        if d > 0 and r < .6:
            n = W.rng.randint(2, 3)
            w = torch.rand(n) + .1
            return PICSum([build(vs, z, d - 1) for _ in range(n)], w / w.sum(), z)
        if d > 0 and r < .95 or len(vs) > 1:
            y = Scope(sorted(next(ids) for _ in range(W.rng.choice([1, 1, 2]))))
            child = build(vs, y, max(d - 1, 0))
            i = Integral(child, z, y, Fn())
            if groups is not None and len(z.query) and W.rng.random() < .7:
                g = groups.setdefault((len(z.query), len(y.query), W.rng.randint(0, 1)), None)
                if g is None:
                    g = _group(W, len(z.query) + len(y.query))
                    groups[[k for k, v in groups.items() if v is None][0]] = g
                i.function, i.function_head_idx = g, g.add_unit(i)
            return i
        return Leaf(vs[0], z)
    n = W.rng.randint(1, 3)
    vs = W.rng.sample(range(n), n)
    z = Scope([next(ids)]) if W.rng.random() < .3 else Scope([])
    return build(vs, z, 3) if len(z.query) or n == 1 else Integral(build(vs, Scope([40]), 3), z, Scope([40]), Fn()), B


def _group(W, dim):
    from spflow.zoo.pic.functional_sharing import FunctionGroup
    return FunctionGroup(sharing_type=W.rng.choice(["c", "f"]), input_dim=dim, hidden_dim=4)


def _pic_value(u, q):
    """nested quadrature, one grid point after the other"""
    from spflow.zoo.pic import Integral
    from spflow.zoo.pic.pipeline import PICSum, PICProduct
    P, Wt = q.points.tolist(), q.weights.tolist()
    grid = lambda d: list(itertools.product(range(len(P)), repeat=d))
    if isinstance(u, PICSum):
        return sum(w * _pic_value(c, q) for w, c in zip(u.weights, u.inputs))
    if isinstance(u, PICProduct):
        a, b = _pic_value(u.left, q), _pic_value(u.right, q)
        if u.left.latent_scope == u.right.latent_scope:
            return a * b
        return torch.stack([a[:, i] * b[:, j] for i in range(a.shape[1]) for j in range(b.shape[1])], 1)
    if isinstance(u, Integral):
        c = _pic_value(u.inputs, q)
        fn = u.function
        if u.function_head_idx is not None:
            def fn(z, y, g=u.function):
                head = g._f_head if g.sharing_type == "f" else g._multi_headed.heads[u.function_head_idx]
                return torch.nn.functional.softplus(head(g.mlp(torch.cat([z, y], -1)))).squeeze(-1)
        out = []
        for z in grid(len(u.latent_scope.query)):
            t = 0
            for k, y in enumerate(grid(len(u.integrated_latent_scope.query))):
                f = fn(torch.tensor([P[i] for i in z]), torch.tensor([P[i] for i in y]))
                t = t + f.detach() * math.prod(Wt[i] for i in y) * c[:, k]
            out.append(t)
        return torch.stack(out, 1)
    return u.vals


@harness(H, funcs=["pic2qpc", "materialize_integral_group", "PICSum.__init__", "PICProduct.__init__", "Integral.__init__", "WeightedSum.log_likelihood",
                   "FunctionGroup.evaluate_batched", "FunctionGroup.finalize", "FunctionGroup.add_unit"], sym=False, seeds=60)
def symbolic_circuits_materialised(W):
    """the quadrature circuit of any symbolic circuit computes the nested quadrature sums, with and without shared functions"""
    from spflow.zoo.pic import pic2qpc
    q = rule(W, W.rng.randint(1, 3))
    u, B = _pic_case(W, q, {} if W.rng.random() < .6 else None)
    m = pic2qpc(u, q)
    want = _pic_value(u, q)
    out = m.log_likelihood(torch.zeros(B, 4))
    W.check("shape", tuple(out.shape) == (B, 1, want.shape[1], 1))
    W.check("value", cl(out[:, 0, :, 0], want.log(), 1e-3))


@harness(H, funcs=["rg2pic", "_merge_units", "_maybe_attach_function_group", "pic2qpc", "materialize_integral_group"], sym=False, seeds=40)
def shared_functions(W):
    """circuits of region graphs whose integrals share functions by depth: one head per unit, one function for all, or none"""
    from spflow.zoo.pic import rg2pic, pic2qpc, MergeStrategy, Integral
    from spflow.zoo.pic.functional_sharing import FunctionGroup
    n = W.rng.randint(2, 5)
    rg = random_region_graph(W, n, once=True)
    q = rule(W, W.rng.randint(1, 3))
    K, B = len(q.points), 3
    how = W.rng.choice(["c", "f"])

    class Leaf(Stub):
        def __init__(self, x, z):
            super().__init__(torch.zeros(1), (1, 1, 1), x)
            self.latent_scope = z
            self.vals = torch.rand(B, K ** len(z.query)) + .05

        def materialize(self, _q):
            return Stub(self.vals.log()[:, None, :, None], (1, self.vals.shape[1], 1), self.scope)

    def factory(zd, yd):
        a = torch.randn(4)
        return lambda z, y: torch.exp(torch.sin((torch.cat([z, y], -1) * a[:zd + yd]).sum(-1)))
    made = []

    def group(depth, zd, yd):
        made.append((depth, zd, yd))
        return FunctionGroup(sharing_type=how, input_dim=zd + yd, hidden_dim=4)
    u = rg2pic(rg, merge_strategy=W.rng.choice([MergeStrategy.AUTO, MergeStrategy.TUCKER]), leaf_factory=Leaf, function_factory=factory, integral_group_factory=group)
    W.check("one group per depth and dimensions", len(made) == len(set(made)))
    m = pic2qpc(u, q)
    out = m.log_likelihood(torch.zeros(B, n))
    want = _pic_value(u, q)
    W.check("shape", tuple(out.shape) == (B, 1, 1, 1))
    W.check("value", cl(out.flatten(), want.log().flatten(), 1e-3))
    W.check("scope", sorted(m.scope.query) == list(range(n)))


@harness(H, funcs=["CollapsedCPLayer.forward", "UncollapsedCPLayer.forward", "SharedCPLayer.forward", "CPLayer", "TuckerLayer.forward", "MixingSumLayer.forward",
                   "eval_collapsed_cp", "eval_tucker", "eval_mixing", "log_func_exp"], maxdim=3, seeds=60)
def tensorized_layers(W):
    """folded layers are the logarithms of the sums of products they denote, whatever the fold mask, also for impossible inputs"""
    from spflow.zoo.pic.tensorized import CPLayer, TuckerLayer, MixingSumLayer
    F, K, O, B = (W.dim(n) for n in ("F", "K", "O", "B"))
    kind = W.choice("kind", ["collapsed", "uncollapsed", "shared", "tucker", "mixing"])
    H_ = 2 if kind == "tucker" else W.choice("arity", [1, 2, 3])
    masked = kind in ("collapsed", "uncollapsed", "mixing") and W.choice("masked", [False, True])
    mask = W.tensor("mask", (F, H_), "int", lo=0, hi=2) if masked else None
    kw = dict(num_input_units=K, num_output_units=K if kind == "mixing" else O, num_folds=F)
    if masked:
        kw["fold_mask"] = mask == 1
    if kind == "tucker":
        m = TuckerLayer(**kw)
    elif kind == "mixing":
        m = MixingSumLayer(arity=H_, **kw)
    else:
        m = CPLayer(arity=H_, rank=(R := W.dim("R")), collapsed=kind != "uncollapsed", shared=kind == "shared", **kw)
    P = {n: W.tensor("p." + n, tuple(t.shape), "pos") for n, t in m.named_parameters()}
    for n, t in P.items():
        getattr(m, n).data = t
    x = W.tensor("x", (F, H_, K, B), "ll")
    out = m.forward(x)
    E = lambda *i: W.exp(W.at(x, *i))
    on = lambda f, h: W.eq(W.at(mask, f, h), 1) if masked else True
    pick = lambda f, h, a, b: W.ite(on(f, h), a, b) if masked else a
    if kind == "collapsed":
        w = P["_params"]
        spec = lambda f, o, b: sum((pick(f, h, W.log(W.sum(K, lambda k: W.at(w, f, h, k, o) * E(f, h, k, b))), 0) for h in range(H_)), 0)
    elif kind == "shared":
        w = P["_params"]
        spec = lambda f, o, b: sum((W.log(W.sum(K, lambda k: W.at(w, h, k, o) * E(f, h, k, b))) for h in range(H_)), 0)
    elif kind == "uncollapsed":
        w, v = P["_params_in"], P["_params_out"]

        def spec(f, o, b):
            def inner(r):
                p = 1
                for h in range(H_):
                    p = p * pick(f, h, W.sum(K, lambda k: W.at(w, f, h, k, r) * E(f, h, k, b)), 1)
                return p
            return W.log(W.sum(R, lambda r: W.at(v, f, r, o) * inner(r)))
    elif kind == "tucker":
        w = P["_params"]
        spec = lambda f, o, b: W.log(W.sum(K, lambda i: W.sum(K, lambda j: W.at(w, f, i, j, o) * E(f, 0, i, b) * E(f, 1, j, b))))
    else:
        w = P["_params"]
        spec = lambda f, o, b: W.log(sum((pick(f, h, W.at(w, f, h, o) * E(f, h, o, b), 0) for h in range(H_)), 0))
    W.check_eq("value", out, (F, K if kind == "mixing" else O, B), spec)


# ---------------------------------------------------------------- built with the provided leaves
def leaf_modules(W, F, C, R, kind, parts):
    from spflow.modules.leaves import Bernoulli, Categorical
    cuts = [0] + sorted(W.rng.sample(range(1, F), parts - 1)) + [F]
    out = []
    for a, b in zip(cuts, cuts[1:]):
        q = list(range(a, b))
        if kind == "categorical":
            m = Categorical(Scope(q), out_channels=C, num_repetitions=R, K=3)
        else:
            m = Bernoulli(Scope(q), out_channels=C, num_repetitions=R)
        out.append(m)
    return out


def scramble(W, m):
    for p in m.parameters():
        p.data = torch.randn_like(p) * W.rng.choice([.3, 1, 2])


def samples_agree(W, m, F, card):
    """samples take every state only where it has positive probability and fill every variable; a variable whose
    value is given keeps it, the drawn ones follow the circuit's conditional (checked in total variation)"""
    if not W.conc_sampling:
        return
    st = states({v: "Categorical3" if card == 3 else "Bernoulli" for v in range(F)}, F)
    N = 3000
    x = m.sample(num_samples=N)
    W.check("sample shape", tuple(x.shape) == (N, F))
    idx = (x[:, None, :] == st[None]).all(2)
    W.check("sample values", bool((idx.sum(1) == 1).all()))
    p = m.log_likelihood(st).double().exp().flatten()
    q = idx.double().mean(0)
    W.check("sample law", bool(((p - q).abs() <= 6 * (p * (1 - p) / N).sqrt() + 2e-3).all()))


@harness(H, funcs=["RatSPN.__init__", "RatSPN._sample", "Einet.__init__", "Einet._sample", "ConvPc.__init__", "ConvPc._sample", "NaiveBayes.__init__",
                   "NaiveBayes._sample", "NaiveBayes.log_likelihood"], sym=False, seeds=120)
def builders_over_the_provided_leaves(W):
    """every architecture over Bernoulli and Categorical leaves with arbitrary parameters: likelihoods of all states sum to one,
    missing variables are summed out, samples follow the likelihood (bounded: at most 9 binary or 5 ternary variables)"""
    from spflow.zoo.rat import RatSPN
    from spflow.zoo.einet import Einet
    from spflow.zoo.conv import ConvPc
    from spflow.zoo.naive_bayes import NaiveBayes
    from spflow.modules.ops.split import SplitMode
    what = W.choice("what", ["rat", "einet", "conv", "bayes"])
    kind = W.choice("leaf", ["bernoulli", "categorical"])
    card = 3 if kind == "categorical" else 2
    C, S = W.choice("C", [1, 2, 3]), W.choice("S", [1, 2, 3])
    if what == "rat":
        depth, k, F, R = W.choice("rat", [c[0] for c in RAT if c[0][2] <= (5 if card == 3 else 9)])
        inter = W.rng.random() < .5
        m = RatSPN(leaf_modules(W, F, C, R, kind, W.rng.choice([1, 2])), n_root_nodes=W.choice("roots", [1, 3]), n_region_nodes=S, num_repetitions=R,
                   depth=depth, outer_product=W.choice("outer", [False, True]), num_splits=k, split_mode=SplitMode.interleaved(k) if inter else None)
    elif what == "einet":
        depth, F, R = W.choice("einet", [c[0] for c in EINET if c[0][1] <= (5 if card == 3 else 8)])
        m = Einet(leaf_modules(W, F, C, R, kind, W.rng.choice([1, 2]) if F > 1 else 1), num_classes=W.choice("classes", [1, 3]), num_sums=S, num_leaves=C,
                  depth=depth, num_repetitions=R, layer_type=W.choice("layer", ["linsum", "einsum"]), structure=W.choice("direction", ["top-down", "bottom-up"]))
    elif what == "conv":
        n, depth, kernel = W.choice("conv", [(2, 1, 2), (2, 2, 2)] + ([(3, 1, 3), (3, 1, 2), (3, 2, 2)] if card == 2 else []))
        F = n * n
        m = ConvPc(leaf_modules(W, F, C, 1, kind, 1)[0], input_height=n, input_width=n, channels=S, depth=depth, kernel_size=kernel)
    else:
        F, classes = W.rng.randint(1, 4), W.choice("classes", [1, 2, 3])
        kw = {}
        if classes > 1:
            kw = dict(class_prior=W.rng.choice([None, [W.rng.uniform(.1, 3) for _ in range(classes)]]), learnable_prior=W.rng.random() < .5)
        m = NaiveBayes(leaf_modules(W, F, classes, 1, kind, W.rng.randint(1, F)), num_classes=classes, **kw)
        if kw and kw["class_prior"] is not None:
            pr = torch.tensor(kw["class_prior"])
            W.check("prior", cl(m.root_node.weights.flatten(), pr / pr.sum(), 1e-5))
    scramble(W, m)
    covered(W, m, F)
    audit(W, m, range(F), {v: card for v in range(F)}, F)
    W.conc_sampling = what == "bayes" or W.rng.random() < .4
    if len(list(m.out_shape)) and F <= 5:
        samples_agree(W, m, F, card)


@harness(H, funcs=["RatSPN.__init__", "Einet.__init__", "ConvPc.__init__", "EinetJointEncoder.__init__", "ConvPcJointEncoder.__init__", "NaiveBayes.__init__",
                   "NaiveBayes._build_prior_weights", "NaiveBayes._validate_leaves", "Region.add_partition", "PICSum.__init__", "PICProduct.__init__",
                   "Factorize.__init__", "rg2pic"], sym=False, seeds=80)
def invalid_configurations(W):
    """configurations for which no such circuit exists are rejected"""
    from spflow.zoo.rat import RatSPN
    from spflow.zoo.einet import Einet
    from spflow.zoo.conv import ConvPc
    from spflow.zoo.naive_bayes import NaiveBayes
    from spflow.zoo.pic.pipeline import PICSum, PICProduct
    from spflow.meta.region_graph import Region
    from spflow.modules.leaves import Normal
    r = W.rng

    def lf(F, C=2, R=1, lo=0):
        return Normal(Scope(list(range(lo, lo + F))), out_channels=C, num_repetitions=R)

    def expect(name, f):
        W.raises(name, Exception, f)
    what = W.choice("what", ["rat", "einet", "conv", "bayes", "regions", "pic", "overlap"])
    F = r.randint(2, 6)
    bad = r.choice([0, -1, -3])
    if what == "rat":
        ok = dict(n_root_nodes=1, n_region_nodes=2, num_repetitions=1, depth=1)
        k = r.choice(["n_root_nodes", "n_region_nodes", "num_repetitions", "depth", "num_splits", "too deep"])
        if k == "too deep":
            expect("more parts than variables", lambda: RatSPN([lf(F)], **{**ok, "depth": F}))
        else:
            expect(k, lambda: RatSPN([lf(F)], **{**ok, k: bad if k != "num_splits" else r.choice([1, 0])}))
        RatSPN([lf(F)], **ok)
    elif what == "einet":
        ok = dict(num_classes=1, num_sums=2, num_leaves=2, depth=1, num_repetitions=1)
        k = r.choice(["num_classes", "num_sums", "num_leaves", "num_repetitions", "depth", "too deep", "layer_type", "structure"])
        v = {"too deep": None, "layer_type": "sum", "structure": "sideways", "depth": -1}.get(k, bad)
        expect(k, lambda: Einet([lf(F)], **({**ok, "depth": F.bit_length()} if k == "too deep" else {**ok, k: v})))
        Einet([lf(F)], **ok)
    elif what == "conv":
        n = r.choice([2, 3, 4])
        ok = dict(input_height=n, input_width=n, channels=2, depth=1)
        k = r.choice(["depth", "channels", "leaf", "shape"])
        if k == "leaf":
            expect(k, lambda: ConvPc(lf(n * n + r.choice([-1, 1])), **ok))
        elif k == "shape":
            expect(k, lambda: ConvPc(lf(n * (n + 1)), **{**ok, "input_width": n + 1}))
        else:
            expect(k, lambda: ConvPc(lf(n * n), **{**ok, k: bad}))
        ConvPc(lf(n * n), **ok)
    elif what == "bayes":
        k = r.choice(["classes", "channels", "reps", "prior size", "prior value", "prior unused", "overlap", "empty"])
        n = r.randint(2, 4)
        f = {"classes": lambda: NaiveBayes(lf(F, 1), num_classes=bad), "channels": lambda: NaiveBayes(lf(F, n + 1), num_classes=n),
             "reps": lambda: NaiveBayes(lf(F, n, 2), num_classes=n), "prior size": lambda: NaiveBayes(lf(F, n), num_classes=n, class_prior=[1.] * (n + r.choice([-1, 1]))),
             "prior value": lambda: NaiveBayes(lf(F, n), num_classes=n, class_prior=[r.choice([0., -1., float("nan"), float("inf")])] + [1.] * (n - 1)),
             "prior unused": lambda: NaiveBayes(lf(F, 1), num_classes=1, class_prior=[1.]), "overlap": lambda: NaiveBayes([lf(F, n), lf(1, n, lo=F - 1)], num_classes=n),
             "empty": lambda: NaiveBayes([], num_classes=n)}[k]
        expect(k, f)
        NaiveBayes(lf(F, n), num_classes=n)
    elif what == "regions":
        reg = Region(Scope(list(range(F))))
        a, b = list(range(F // 2 + 1)), list(range(F // 2, F))
        expect("overlap", lambda: reg.add_partition((Region(Scope(a)), Region(Scope(b)))))
        expect("gap", lambda: reg.add_partition((Region(Scope(a)), Region(Scope(b[2:])))) if len(b) > 2 else reg.add_partition((Region(Scope(a)),)) if len(a) < F else _raise())
        expect("excess", lambda: reg.add_partition((Region(Scope(a)), Region(Scope(b[1:] + [F])))))
        W.check("nothing kept", reg.children == [])
        reg.add_partition((Region(Scope(a)), Region(Scope(b[1:])))) if b[1:] else None
    elif what == "pic":
        two = lambda: [lf(F), lf(F)]
        z = Scope([F + 1])
        expect("weights size", lambda: PICSum(two(), torch.tensor([1.]), z))
        expect("weights total", lambda: PICSum(two(), torch.tensor([.5, .4]), z))
        expect("weights sign", lambda: PICSum(two(), torch.tensor([1.5, -.5]), z))
        expect("scopes", lambda: PICSum([lf(F), lf(F + 1)], torch.tensor([.5, .5]), z))
        expect("none", lambda: PICSum([], torch.tensor([]), z))
        expect("overlap", lambda: PICProduct(lf(F), lf(2, lo=F - 1)))
        PICSum(two(), torch.tensor([.25, .75]), z)
        PICProduct(lf(F), lf(2, lo=F))
    else:
        from spflow.modules.products import Product, ElementwiseProduct, OuterProduct
        cls = r.choice([Product, ElementwiseProduct, OuterProduct])
        mk = lambda lo: [lf(F), lf(F, lo=lo)]
        expect("overlap", lambda: cls(inputs=mk(r.randrange(F))))
        cls(inputs=mk(F))


def _raise():
    raise ValueError


# ---------------------------------------------------------------- continuous mixtures
@harness(H, funcs=["_compile_factorized", "_factorized_component_ll", "_mixture_log_likelihood_from_component_ll", "_compile_cltree", "JointLogLikelihood.log_likelihood",
                   "JointLogLikelihood._sample", "rqmc_sobol_normal"], sym=False, seeds=80)
def continuous_mixtures(W):
    """the compiled circuit is the mixture whose likelihood the training scores: sum_i w_i p(x | z_i); it is normalised, missing
    variables are summed out and samples follow it (bounded: at most 4 variables and 4 integration points)"""
    import spflow.zoo.cms.continuous_mixtures as cm
    from spflow.zoo.cms.rqmc import rqmc_sobol_normal
    F, L = W.rng.randint(1, 4), W.rng.randint(1, 3)
    pts = rqmc_sobol_normal(num_points=W.rng.randint(1, 4), latent_dim=L, seed=W.rng.randrange(100))
    I = pts.z.shape[0]
    W.check("rule", cl(pts.weights.sum(), 1.0, 1e-6) and bool(torch.isfinite(pts.z).all()) and tuple(pts.z.shape) == (I, L))
    w = torch.tensor([W.rng.uniform(.1, 2) for _ in range(I)])
    w = w / w.sum()
    what = W.choice("what", ["bernoulli", "categorical", "normal", "cltree"])
    K = 2 if what == "bernoulli" else W.rng.choice([2, 3])
    st = states({v: "Categorical3" if K == 3 else "Bernoulli" for v in range(F)}, F)
    if what == "cltree":
        F = max(F, 2)
        st = states({v: "Categorical3" if K == 3 else "Bernoulli" for v in range(F)}, F)
        par = torch.tensor([-1] + [W.rng.randrange(i) for i in range(1, F)])
        cpt = torch.log_softmax(torch.randn(I, F, K, K) * 3, 2)
        cpt[:, 0] = cpt[:, 0, :, :1]
        m = cm._compile_cltree(decoder=torch.nn.Identity(), decode_log_cpt=lambda z: cpt, parents=par, root=0, K=K, z=pts.z, weights=w, alpha=.01)
        q = st.long()
        ll = torch.stack([sum(cpt[i, v, q[:, v], q[:, par[v]] if v else 0] for v in range(F)) for i in range(I)])
    else:
        out = F * (2 if what == "normal" else K if what == "categorical" else 1)
        dec = torch.nn.Linear(L, out)
        m = cm._compile_factorized(decoder=dec, leaf=what, z=pts.z, weights=w, num_features=F, num_cats=K, normal_eps=1e-2, device=torch.device("cpu"), dtype=torch.get_default_dtype())
        x = st if what != "normal" else torch.randn(12, F) * 2
        x = x.clone()
        if what == "normal":
            x[torch.rand(x.shape) < .2] = float("nan")
        ll = cm._factorized_component_ll(data=x, leaf=what, decoder_out=dec(pts.z), num_cats=K, normal_eps=1e-2)
        sc = cm._mixture_log_likelihood_from_component_ll(ll, w)
        W.check("objective", cl(m.log_likelihood(x).flatten(), sc, 1e-4))
        o = dec(pts.z).detach().double()
        for i in range(I):
            for b in range(len(x)):
                t = 0.0
                for v in range(F):
                    a = x[b, v].double()
                    if torch.isnan(a):
                        continue
                    if what == "bernoulli":
                        t += float(torch.nn.functional.logsigmoid(o[i, v] if a else -o[i, v]))
                    elif what == "categorical":
                        t += float(torch.log_softmax(o[i, v * K:v * K + K], 0)[int(a)])
                    else:
                        sd = torch.nn.functional.softplus(o[i, F + v]) + 1e-2
                        t += float(-((a - o[i, v]) / sd) ** 2 / 2 - sd.log() - .5 * np.log(2 * np.pi))
                W.check("component", abs(float(ll[i, b]) - t) <= 1e-4 * (1 + abs(t)))
        if what == "normal":
            return
    W.check("mixture", cl(m.log_likelihood(st).flatten(), torch.logsumexp(w.log()[:, None] + ll, 0), 1e-4))
    audit(W, m, range(F), {v: K for v in range(F)}, F) if what != "cltree" else None
    W.conc_sampling = W.rng.random() < .5
    samples_agree(W, m, F, K)


@harness(H, funcs=["RegionGraph.regions", "RegionGraph.post_order", "Region.add_partition"], sym=False, seeds=80)
def region_graphs(W):
    """every reachable region is listed exactly once, sub-regions before the regions they partition; a partition that overlaps or does
    not cover its region is rejected and leaves it as it was"""
    from spflow.meta.region_graph import Region, RegionGraph
    r = W.rng
    n = r.randint(1, 7)
    g = random_region_graph(W, n)
    seen, todo = [], [g.root]
    while todo:
        x = todo.pop()
        if not any(x is y for y in seen):
            seen.append(x)
            todo += [c for p in x.children for c in p]
    order = g.post_order()
    at = {id(x): i for i, x in enumerate(order)}
    W.check("once", len(order) == len(seen) and set(at) == {id(x) for x in seen} and len(at) == len(order))
    W.check("sub-regions first", all(at[id(c)] < at[id(x)] for x in order for p in x.children for c in p) and order[-1] is g.root)
    W.check("regions", len(g.regions) == len(seen) and {id(x) for x in g.regions} == {id(x) for x in seen})
    W.check("partitions", all(sorted(v for c in p for v in c.scope.query) == sorted(x.scope.query) for x in seen for p in x.children))
    top = r.choice(seen)
    before = list(top.children)
    vs = list(top.scope.query)
    kind = W.choice("kind", ["overlap", "missing", "extra", "good"])
    k = r.randint(1, len(vs) - 1) if len(vs) > 1 else 1
    a, b = vs[:k], vs[k:]
    W.require(len(b) > 0)
    r.shuffle(vs)
    parts = {"overlap": (a + [b[0]], b), "missing": (a, b[1:] or [99]), "extra": (a, b + [77]), "good": (a, b)}[kind]
    parts = tuple(Region(Scope(list(p))) for p in parts)
    if kind == "good":
        top.add_partition(parts)
        W.check("added", top.children[:-1] == before and all(x is y for x, y in zip(top.children[-1], parts)))
    else:
        W.raises(kind, ValueError, lambda: top.add_partition(parts))
        W.check("unchanged", len(top.children) == len(before) and all(x is y for x, y in zip(top.children, before)))
