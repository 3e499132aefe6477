"""Random circuits over the provided layers (concrete lane).  A circuit is built for a list of parts:
output feature i must have scope parts[i].  Every parameter is randomised."""
from __future__ import annotations
import itertools
import torch
from spflow.meta.data.scope import Scope


class NoCircuit(Exception):
    pass


LEAVES = ("Bernoulli", "Categorical2", "Categorical3")
OPS = ("sum", "esum", "cat1", "cat2", "eprod", "oprod", "einsum", "linsum", "eprod_split", "oprod_split", "einsum_split",
       "linsum_split", "product", "product_list", "factorize", "rep")
SPLITS = ("consecutive", "interleaved", "by_index")


class G:
    def __init__(self, W, leaves, ops, splits, maxc=3, N=None, shuffle=True, reps=(1, 1, 2)):
        self.W, self.r, self.leaves, self.ops, self.splits, self.maxc = W, W.rng, leaves, set(ops), splits, maxc
        self.dom = {}
        self.desc = []

    def leafkind(self, v):
        return self.dom[v]

    # ------------------------------------------------------------- leaves
    def leaf(self, vs, C, R):
        k = self.dom[vs[0]]
        from spflow.modules import leaves as L
        if k == "Bernoulli":
            m = L.Bernoulli(Scope(list(vs)), out_channels=C, num_repetitions=R)
        elif k.startswith("Categorical"):
            m = L.Categorical(Scope(list(vs)), out_channels=C, num_repetitions=R, K=int(k[-1]))
        elif k == "Normal":
            m = L.Normal(Scope(list(vs)), out_channels=C, num_repetitions=R)
        else:
            raise KeyError(k)
        for p in m.parameters():
            p.data = torch.randn_like(p) * self.r.choice([0.5, 1.5])
        return m

    def wild(self, m):
        for p in m.parameters(recurse=False):
            p.data = torch.randn_like(p) * self.r.choice([0.3, 1.0, 2.5])
        return m

    def part(self, xs, k):
        """random ordered partition of xs into k non-empty parts"""
        xs = self.r.sample(list(xs), len(xs))
        cuts = sorted(self.r.sample(range(1, len(xs)), k - 1)) if k > 1 else []
        return [xs[a:b] for a, b in zip([0] + cuts, cuts + [len(xs)])]

    def fitc(self, m, C):
        from spflow.modules.sums import Sum
        if C is None or int(m.out_shape.channels) == C:
            return m
        return self.wild(Sum(m, out_channels=C, num_repetitions=int(m.out_shape.repetitions)))

    def gen(self, parts, C, R, depth):
        from spflow.modules.sums import Sum, ElementwiseSum
        from spflow.modules.products import Product, ElementwiseProduct, OuterProduct
        from spflow.modules.einsum import EinsumLayer, LinsumLayer
        from spflow.modules.ops import Cat
        from spflow.modules.rat import Factorize
        r = self.r
        nf = len(parts)
        single = all(len(p) == 1 for p in parts)
        kinds = {self.dom[v] for p in parts for v in p}
        can_leaf = single and len(kinds) == 1
        ops = []
        if depth > 0:
            ops += [o for o in ("sum", "esum", "cat2") if o in self.ops]
            if nf > 1 and "cat1" in self.ops:
                ops += ["cat1"]
        if nf > 1 and len(kinds) > 1 and single:
            ops += ["cat1"]
        if all(len(p) > 1 for p in parts):
            ops += [o for o in ("eprod", "oprod", "einsum", "linsum", "eprod_split", "oprod_split", "einsum_split", "linsum_split")
                    if o in self.ops] * 2
        if nf > 1:      # known finding: scopes of an outer product of multi-feature inputs
            ops = [o for o in ops if o != "oprod"]
        if nf == 1 and len(parts[0]) > 1:
            ops += [o for o in ("product", "product_list", "factorize") if o in self.ops]
            if "factorize" in ops and len({self.dom[v] for v in parts[0]}) > 1:
                ops.remove("factorize")
        if not single and nf > 1:
            ops += ["cat1"]
        if can_leaf and (not ops or r.random() < (0.35 if depth > 0 else 1)):
            return self.leaf([p[0] for p in parts], C or r.randint(1, self.maxc), R)
        if not ops:
            raise NoCircuit("no op")
        op = r.choice(ops)
        self.desc.append(op)
        d = depth - 1
        g = self.gen
        if op == "sum":
            return self.wild(Sum(g(parts, None, R, d), out_channels=C or r.randint(1, self.maxc), num_repetitions=R))
        if op == "esum":
            c = r.randint(1, self.maxc)
            return self.fitc(self.wild(ElementwiseSum([g(parts, c, R, d) for _ in range(r.randint(2, 3))],
                                                      out_channels=r.randint(1, 2), num_repetitions=R)), C)
        if op == "cat2":
            if C is None:
                return Cat([g(parts, None, R, d), g(parts, None, R, d)], dim=2)
            if C == 1:
                return g(parts, C, R, d)
            k = r.randint(1, C - 1)
            return Cat([g(parts, k, R, d), g(parts, C - k, R, d)], dim=2)
        if op == "cat1":
            c = C or r.randint(1, self.maxc)
            k = r.randint(1, nf - 1)
            return Cat([g(parts[:k], c, R, d), g(parts[k:], c, R, d)], dim=1)
        if op == "product":
            k = r.randint(1, min(4, len(parts[0])))
            return Product(g(self.part(parts[0], k), C, R, d))
        if op == "product_list":
            k = r.randint(2, min(3, len(parts[0])))
            c = C or r.randint(1, self.maxc)
            return Product([g([p], c, R, d) for p in self.part(parts[0], k)])
        if op == "factorize":
            vs = r.sample(parts[0], len(parts[0]))
            dmax = 1 if len(vs) < 4 else 2
            dd = r.randint(0, dmax)
            c = g([[v] for v in vs], C, R, d) if r.random() < 0.5 else self.leaf(vs, C or r.randint(1, self.maxc), R)
            x = Factorize([c], depth=dd, num_repetitions=R)
            if r.random() < 0.6:
                x = self.wild(Sum(x, out_channels=C or r.randint(1, self.maxc), num_repetitions=R))
            return Product(x)
        # two-way
        A, B = [], []
        for p in parts:
            a, b = self.part(p, 2)
            A.append(a)
            B.append(b)
        if op in ("eprod", "oprod", "einsum", "linsum"):
            c = C if op == "eprod" and C else r.randint(1, self.maxc)
            c2 = c
            if op in ("oprod", "einsum"):
                c2 = r.randint(1, self.maxc)
            elif op == "eprod" and r.random() < 0.3:
                c2 = 1
            xs = [g(A, c, R, d), g(B, c2, R, d)]
            if op == "eprod":
                return ElementwiseProduct(xs)
            if op == "oprod":
                return self.fitc(OuterProduct(xs), C)
            K = EinsumLayer if op == "einsum" else LinsumLayer
            return self.wild(K(xs, out_channels=C or r.randint(1, self.maxc)))
        kind = r.choice(self.splits)
        if nf > 1 and op in ("einsum_split", "linsum_split"):
            kind = "interleaved"    # known finding: scopes of single-input einsum over other splits
        if kind == "consecutive":
            ch = A + B
        elif kind == "interleaved":
            ch = [x for ab in zip(A, B) for x in ab]
        else:
            order = r.sample(range(2 * nf), 2 * nf)
            ch = [None] * (2 * nf)
            for pos, o in enumerate(order):
                ch[o] = (A + B)[pos]
            idx = [order[:nf], order[nf:]]
        from spflow.modules.ops.split import SplitMode
        sm = SplitMode.by_index(idx) if kind == "by_index" else getattr(SplitMode, kind)(2)
        self.desc.append(kind)
        c = C if op == "eprod_split" and C else r.randint(1, self.maxc)
        x = g(ch, c, R, d)
        if op in ("eprod_split", "oprod_split"):
            arg = sm.create(x) if r.random() < 0.5 else None
            K = ElementwiseProduct if op == "eprod_split" else OuterProduct
            m = K(arg, num_splits=2) if arg is not None else K(x, num_splits=2, split_mode=sm)
            return self.fitc(m, C)
        K = EinsumLayer if op == "einsum_split" else LinsumLayer
        return self.wild(K(x, out_channels=C or r.randint(1, self.maxc), split_mode=sm))


def rand_circuit(W, leaves=LEAVES, ops=OPS, splits=SPLITS, N=None, depth=None, C=None, reps=(1, 1, 2), single_root=None, gaps=False):
    """-> module, number of data columns.  W.note gets a description; module._dom maps variable -> leaf kind"""
    r = W.rng
    N = N or r.randint(2, 5)
    g = G(W, leaves, ops, splits)
    cols = list(range(N)) if not gaps else sorted(r.sample(range(N + 2), N))
    one = r.choice(leaves)
    for v in cols:
        g.dom[v] = one if r.random() < 0.75 else r.choice(leaves)
    if r.random() < 0.5:
        for v in cols:
            g.dom[v] = one
    R = r.choice(reps) if "rep" in g.ops else 1
    vs = r.sample(cols, N)
    nf = 1 if single_root or r.random() < 0.7 else r.randint(1, N)
    m = g.gen(g.part(vs, nf), C, R, depth if depth is not None else r.randint(1, 4))
    if R > 1 and nf == 1 and (single_root or r.random() < 0.7):
        from spflow.modules.sums.repetition_mixing_layer import RepetitionMixingLayer
        m = g.wild(RepetitionMixingLayer(m, out_channels=int(m.out_shape.channels), num_repetitions=R))
        g.desc.append("repmix")
    W.note(" ".join(g.desc[:40]))
    W.used["circuit"] = " ".join(g.desc[:30])
    m._dom = dict(g.dom)
    return m, (max(cols) + 1)


def domain(kind):
    return [0.0, 1.0] if kind in ("Bernoulli", "Categorical2") else [0.0, 1.0, 2.0]


def states(dom, N, fixed=None):
    """all joint states (tensor S x N); columns outside dom are 0"""
    cols = sorted(dom)
    ax = [domain(dom[v]) if fixed is None or v not in fixed else [fixed[v]] for v in cols]
    rows = list(itertools.product(*ax))
    x = torch.zeros(len(rows), N)
    x[:, cols] = torch.tensor(rows)
    return x
