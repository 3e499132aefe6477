"""C20: structure learners return valid, normalised circuits whose weights and partitions come from the data."""
import itertools
import math
import random
import numpy as np
import torch
from ..runner import harness
from ..lib import *
from .. import gen
from .c18_sos import cl
H = []


# ---------------------------------------------------------------- learners against the recursion they document
def arb_leaf(W):
    """a leaf class whose fitted density is an arbitrary function of (variable, rows it was fitted on, channel, value)"""
    class ArbLeaf(Stub):
        def __init__(self, scope, out_channels=1, **kw):
            q = list(scope.query)
            f2s = np.empty((len(q), 1), dtype=object)
            for i, v in enumerate(q):
                f2s[i, 0] = Scope([v])
            super().__init__(None, (len(q), out_channels, 1), scope, f2s)
            self.rows = None

        def maximum_likelihood_estimation(self, data, *a, **kw):
            self.rows = [int(r) for r in data[:, -1].tolist()]

        def log_likelihood(self, data, cache=None):
            F, C = int(self.out_shape.features), int(self.out_shape.channels)
            q, key = list(self.scope.query), row_key(self.rows)
            if W.sym:
                return W.st.sym_tensor(lambda b, f, c, r: W.pick(f, F, lambda i: leaf_value(W, q[i], key, c, W.at(data, b, q[i]))),
                                       (data.shape[0], F, C, 1))
            out = torch.empty(len(data), F, C, 1)
            for b, i, c in itertools.product(range(len(data)), range(F), range(C)):
                out[b, i, c, 0] = leaf_value(W, q[i], key, c, data[b, q[i]].item())
            return out
    return ArbLeaf


def row_key(rows):
    return sum(1 << r for r in rows)


def leaf_value(W, v, key, c, x):
    if W.sym:
        return W.fn("?leaf", v, key, c, x)
    h = math.sin(v * 12.9898 + (key % 9973) * 0.37 + c * 4.1 + x * 3.3) * 43758.5453
    return -3 * (h - math.floor(h))


def table(n, D):
    """data whose cells identify their row and column"""
    x = torch.zeros(n, D + 1)
    for j in range(D):
        x[:, j] = torch.arange(n) + 1000 * j
    x[:, D] = torch.arange(n)
    return x


def ids_of(x):
    c = x.reshape(len(x), -1)[:, -1]
    return tuple(int(v) % 1000 for v in c.tolist())


def vars_of(x):
    return tuple(int(v) // 1000 for v in x[0].tolist())


def clusters(seed, ids, single=False):
    """some clustering of the rows: a label per row, at least two different labels (if single: sometimes one cluster)"""
    r = random.Random(f"c{seed}{ids}")
    if single and r.random() < .3:
        return [r.choice([0, 1, 5])] * len(ids)
    names = r.sample([0, 1, 2, 5, 9], min(len(ids), r.choice([2, 2, 3])))
    lab = names + [r.choice(names) for _ in range(len(ids) - len(names))]
    r.shuffle(lab)
    return lab


def parts(seed, vs, ids):
    """some partition of the variables: an id per variable"""
    r = random.Random(f"p{seed}{vs}{ids}")
    k = r.choice([1, 2, 2, 3])
    return [r.choice([1, 4, 7][:k]) for _ in vs]


def groups(lab):
    return [[i for i, l in enumerate(lab) if l == g] for g in sorted(set(lab))]


def spn_oracle(W, seed, vs, ids, minf, mini, x):
    """the documented recursion: split variables, else mix over row clusters with their shares, else leaves"""
    leaf = lambda: math_prod(W, [W.exp(leaf_value(W, v, row_key(ids), 0, x(v))) for v in vs])
    if len(vs) < minf:
        return leaf()
    if len(ids) != 1:
        ps = groups(parts(seed, vs, ids))
        if len(ps) > 1:
            return math_prod(W, [spn_oracle(W, seed, tuple(vs[i] for i in p), ids, minf, mini, x) for p in ps])
    if len(ids) < mini:
        return leaf()
    t, gs = 0, groups(clusters(seed, ids, True))
    if len(gs) == 1:                  # rows which the clustering does not split end in leaves
        return leaf()
    for g in gs:
        t = t + W.frac(len(g), len(ids)) * spn_oracle(W, seed, vs, tuple(ids[i] for i in g), minf, mini, x)
    return t


def math_prod(W, xs):
    t = 1
    for x in xs:
        t = t * x
    return t


def data_for(W, D):
    N = W.dim("N", hi=3)
    x = W.tensor("x", (N, D + 1), "real")
    return N, x


@harness(H, funcs=["learn_spn", "adapt_product_inputs"], literal=("rows", "variables", "clusterings"))
def learn_spn_follows_the_data(W):
    """for every leaf density: the learnt circuit is the recursion over the partitions and clusters the methods returned, sums
    weighted with the clusters' shares of the rows, leaves fitted on exactly their rows and variables"""
    from spflow.learn.learn_spn import learn_spn
    L = arb_leaf(W)
    seed = W.choice("seed", list(range(8))) if W.sym else W.rng.randrange(10**6)
    D, n = W.choice("size", [(2, 4), (3, 6)] if W.sym else [(1, 3), (2, 4), (3, 7), (4, 9), (5, 12)])
    minf, mini = W.choice("min", [(2, 2), (3, 4)])
    two = W.choice("two leaf modules", [False, True])
    q = list(range(D))
    leaves = L(Scope(q)) if not two or D == 1 else [L(Scope(q[:1])), L(Scope(q[1:]))]
    m = learn_spn(table(n, D), leaves, min_features_slice=minf, min_instances_slice=mini,
                  clustering_method=lambda d: torch.tensor(clusters(seed, ids_of(d), True)),
                  partitioning_method=lambda d: torch.tensor(parts(seed, vars_of(d), ids_of(d))))
    W.check("variables", sorted(m.scope.query) == q)
    W.check("shape", (int(m.out_shape.channels), int(m.out_shape.repetitions)) == (1, 1))
    N, x = data_for(W, D)
    ll = m.log_likelihood(x)
    W.check_all("likelihood", (N,), lambda b: W.same(W.prod(int(m.out_shape.features), lambda f: W.exp(W.at(ll, b, f, 0, 0))),
                spn_oracle(W, seed, tuple(q), tuple(range(n)), minf, mini, lambda v: W.at(x, b, v))))


# ---------------------------------------------------------------- prometheus
def affinity(seed, vs, ids):
    """some symmetric affinity with distinct positive entries"""
    r = random.Random(f"a{seed}{vs}{ids}")
    d = len(vs)
    pairs = list(itertools.combinations(range(d), 2))
    w = r.sample(range(1, 1000), len(pairs))
    a = [[1.0 if i == j else 0.0 for j in range(d)] for i in range(d)]
    for (i, j), v in zip(pairs, w):
        a[i][j] = a[j][i] = v / 1000
    return a


def mst_chain(a):
    """component sets left when the edges of the maximum spanning tree go one by one, weakest first"""
    d = len(a)
    edges = sorted(((a[i][j], i, j) for i, j in itertools.combinations(range(d), 2)), reverse=True)

    def comps(es):
        c = [{i} for i in range(d)]
        for _, i, j in es:
            ci, cj = next(s for s in c if i in s), next(s for s in c if j in s)
            if ci is not cj:
                c.remove(cj)
                ci |= cj
        return [sorted(s) for s in c]
    tree = []
    for e in edges:
        if len(comps(tree + [e])) < len(comps(tree)):
            tree.append(e)
    return [comps(tree[:k]) for k in range(len(tree) - 1, -1, -1)]


def prom_oracle(W, seed, vs, ids, minf, mini, x):
    leaf = lambda: math_prod(W, [W.exp(leaf_value(W, v, row_key(ids), 0, x(v))) for v in vs])
    if len(vs) < minf or len(ids) < mini:
        return leaf()
    kept = [g for g in groups(clusters(seed, ids)) if len(g) >= 2 and len(vs) > 1]
    if not kept:
        return leaf()
    t, tot = 0, sum(len(g) for g in kept)
    for g in kept:
        sub = tuple(ids[i] for i in g)
        chain = mst_chain(affinity(seed, vs, sub))
        for comps in chain:
            t = t + W.frac(len(g), tot * len(chain)) * math_prod(W, [
                prom_oracle(W, seed, tuple(vs[i] for i in c), sub, minf, mini, x) for c in comps])
    return t


@harness(H, funcs=["learn_prometheus", "_learn_prometheus_single_channel", "_mst_partitions_from_affinity"],
         literal=("rows", "variables", "clusterings"))
def prometheus_follows_the_data(W):
    """for every leaf density: the learnt circuit mixes, per row cluster, the products given by removing the edges of the maximum
    spanning tree of the affinities weakest first; a cluster's share of the rows is split evenly over its products"""
    from spflow.learn.prometheus import learn_prometheus
    L = arb_leaf(W)
    seed = W.choice("seed", list(range(5))) if W.sym else W.rng.randrange(10**6)
    D, n = W.choice("size", [(2, 5), (3, 5)] if W.sym else [(1, 3), (2, 4), (3, 7), (4, 9)])
    minf, mini = W.choice("min", [(1, 2), (2, 4)])
    q = list(range(D))
    leaves = L(Scope(q)) if D == 1 or not W.choice("two leaf modules", [False, True]) else [L(Scope(q[:1])), L(Scope(q[1:]))]
    if not isinstance(leaves, list):
        leaves = [leaves]
    m = learn_prometheus(table(n, D), leaves, min_features_slice=minf, min_instances_slice=mini,
                         clustering_method=lambda d, n_clusters=2: torch.tensor(clusters(seed, ids_of(d))),
                         similarity=lambda d: torch.tensor(affinity(seed, vars_of(d), ids_of(d))))
    W.check("variables", sorted(m.scope.query) == q)
    W.check("shape", (int(m.out_shape.channels), int(m.out_shape.repetitions)) == (1, 1))
    N, x = data_for(W, D)
    ll = m.log_likelihood(x)
    W.check_all("likelihood", (N,), lambda b: W.same(W.prod(int(m.out_shape.features), lambda f: W.exp(W.at(ll, b, f, 0, 0))),
                prom_oracle(W, seed, tuple(q), tuple(range(n)), minf, mini, lambda v: W.at(x, b, v))))


@harness(H, funcs=["_affinity_corr", "_affinity_rdc", "_sampled_edges_corr", "_sampled_edges_rdc", "_mst_partitions_from_sampled_edges", "_default_samples_per_var", "rdc"],
         sym=False, seeds=80)
def affinities_and_sampled_edges(W):
    """affinities are absolute correlations (dependence coefficients in [0, 1], also for dependent columns); sampled edges give every
    variable its partners with the weights of the full affinities; the partitions cut the maximum spanning forest weakest edge first"""
    from spflow.learn import prometheus as P
    d, n = W.rng.randint(2, 6), W.rng.randint(5, 30)
    x = torch.randn(n, d)
    if W.rng.random() < .4:
        x[:, W.rng.randrange(d)] = 2 * x[:, W.rng.randrange(d)] + 1
    if W.rng.random() < .2:
        x = x.round()
    ref = torch.tensor([[1.0 if i == j else abs(float(np.corrcoef(x[:, i], x[:, j])[0, 1])) if x[:, i].std() > 0 and x[:, j].std() > 0 else 0.0
                         for j in range(d)] for i in range(d)])
    a = P._affinity_corr(x)
    W.check("correlation", cl(a, ref, 1e-4))
    r = P._affinity_rdc(x[:, :3])
    W.check("coefficient", bool((r == r.T).all() and (r.diagonal() == 1).all() and (r >= 0).all() and (r <= 1 + 1e-6).all()))
    k = W.rng.randint(1, d)
    seed = W.rng.randrange(99)
    e = P._sampled_edges_corr(x, k, seed)
    W.check("distinct pairs", len({(u, v) for u, v, _ in e}) == len(e) and all(0 <= u < v < d for u, v, _ in e))
    W.check("partners", all(sum(i in (u, v) for u, v, _ in e) >= min(k, d - 1) for i in range(d)))
    W.check("weights", all(abs(w - float(ref[u, v])) < 1e-4 for u, v, w in e))
    W.check("reproducible", P._sampled_edges_corr(x, k, seed) == e)
    f = P._sampled_edges_rdc(x, k, seed)
    W.check("same pairs", [(u, v) for u, v, _ in f] == [(u, v) for u, v, _ in e] and all(0 <= w <= 1 + 1e-6 for _, _, w in f))
    W.check("default", P._default_samples_per_var(d) == max(1, min(d - 1, d.bit_length() - 1)))
    pairs = W.rng.sample(list(itertools.combinations(range(d), 2)), W.rng.randint(0, d * (d - 1) // 2))
    g = [(u, v, w / 100) for (u, v), w in zip(pairs, W.rng.sample(range(1, 100), len(pairs)))]
    ps = P._mst_partitions_from_sampled_edges(d, g)
    W.check("chain", [len(p) for p in ps] == list(range(2, d + 1)) and all(sorted(sum(p, [])) == list(range(d)) for p in ps))
    W.check("refining", all(any(set(c) <= set(b) for b in p) for p, q in zip(ps, ps[1:]) for c in q))
    m = [[0.0] * d for _ in range(d)]
    for u, v, w in g:
        m[u][v] = m[v][u] = w
    forest = []
    for w, u, v in sorted(((w, u, v) for u, v, w in g), reverse=True):
        if len(_comps(d, forest + [(u, v)])) < len(_comps(d, forest)):
            forest.append((u, v))
    base = len(_comps(d, forest))
    for p in ps:
        if len(p) >= base:
            W.check("weakest first", sorted(p) == sorted(_comps(d, forest[:d - len(p)])))
        else:
            W.check("components kept", all(any(set(c) <= set(b) for b in p) for c in _comps(d, forest)))


def _comps(d, edges):
    c = [{i} for i in range(d)]
    for i, j in edges:
        ci, cj = next(s for s in c if i in s), next(s for s in c if j in s)
        if ci is not cj:
            c.remove(cj)
            ci |= cj
    return [sorted(s) for s in c]


# ---------------------------------------------------------------- pairwise statistics
def floor_log(W, t, eps=1e-12):
    return W.log(W.ite(W.lt(t, eps), eps, t))


def joint_freq(W, x, w, N, i, a, j, b, pc, K, total, code=False):
    """weighted share of the rows with x_i = a and x_j = b, pseudocount pc spread evenly over the K*K cells"""
    def hit(n):
        u, v = W.at(x, n, i), W.at(x, n, j)
        both = W.and_(W.eq(u, a), W.eq(v, b))
        if W.sym and code and i != j:     # for categories below K the pair (u, v) is (a, b) exactly if the codes agree
            both = W.eq(K * u + v, K * a + b) if i < j else W.eq(K * v + u, K * b + a)
        return w(n) * W.ite(both, 1, 0)
    add = (pc / K if a == b else 0) if i == j else pc / (K * K)
    return (W.sum(N, hit) + add) / (total + pc)


def binary_case(W):
    N, F = W.dim("N", hi=6), W.choice("F", [2, 3])
    x = W.tensor("x", (N, F), "int", 0, 2)
    wt = W.choice("weighted", [False, True])
    wx = W.tensor("w", (N,), "pos") if wt else None
    w = (lambda n: W.at(wx, n)) if wt else (lambda n: W.frac(1, 1))
    pc = W.choice("pseudocount", [0.0, 1.0, 0.5])
    tot = W.sum(N, w)
    return F, x, wx, pc, lambda i, a, j, b: joint_freq(W, x, w, N, i, a, j, b, pc, 2, tot)


@harness(H, funcs=["pairwise_marginal_binary"], literal=("features",))
def pairwise_binary(W):
    """pairwise marginals are the weighted joint shares with the pseudocount spread over the four cells (the cell (0, 0), computed
    as what the others leave, is checked for concrete data only)"""
    from spflow.zoo.hclt.mi import pairwise_marginal_binary
    F, x, wx, pc, f = binary_case(W)
    p = pairwise_marginal_binary(x, weights=wx, pseudocount=pc)
    for i, j, a, b in itertools.product(range(F), range(F), (0, 1), (0, 1)):
        if not (W.sym and a == b == 0):
            W.check(f"p{i == j}", W.same(W.at(p, i, j, 2 * a + b), f(i, a, j, b)))


@harness(H, funcs=["pairwise_mi_binary"], sym=False)
def pairwise_mi_binary_cases(W):
    """the mutual information of binary pairs is the definition's on those marginals (logs floored at 1e-12)"""
    from spflow.zoo.hclt.mi import pairwise_mi_binary
    F, x, wx, pc, f = binary_case(W)
    mi = pairwise_mi_binary(x, weights=wx, pseudocount=pc)
    for i, j in itertools.product(range(F), range(F)):
        ref = 0
        for a, b in itertools.product((0, 1), (0, 1)):
            q = f(i, a, j, b)
            ref = ref + (0 if q < 1e-13 else q * (floor_log(W, q) - floor_log(W, f(i, a, i, a) * f(j, b, j, b))))
        W.check("mi", cl(W.at(mi, i, j), ref))


@harness(H, funcs=["pairwise_mi_categorical"], literal=("features", "categories"))
def pairwise_categorical(W):
    """the mutual information of every pair of categorical variables is the definition's on their weighted joint shares with
    pseudocount (logs floored at 1e-12); the diagonal holds the entropies"""
    from spflow.zoo.hclt.mi import pairwise_mi_categorical
    N, F = W.dim("N", hi=6), W.choice("F", [2, 3])
    K = W.choice("K", [2, 3])
    x = W.tensor("x", (N, F), "int", 0, K)
    wt = W.choice("weighted", [False, True])
    wx = W.tensor("w", (N,), "pos") if wt else None
    w = (lambda n: W.at(wx, n)) if wt else (lambda n: W.frac(1, 1))
    pc = W.choice("pseudocount", [0.0, 1.0, 0.5])
    tot = W.sum(N, w)
    chunk = W.choice("chunk", [1, 2, 4096])
    mi = pairwise_mi_categorical(x, num_cats=K, weights=wx, pseudocount=pc, chunk_size_pairs=chunk)
    if wt:
        pc = pc * tot / N       # a pseudocount is worth that many average rows
    f = lambda i, a, j, b: joint_freq(W, x, w, N, i, a, j, b, pc, K, tot, code=True)
    for i, j in itertools.product(range(F), range(F)):
        ref = 0
        for a, b in itertools.product(range(K), range(K)):
            q = f(i, a, j, b)
            ref = ref + q * (floor_log(W, q) - floor_log(W, f(i, a, i, a)) - floor_log(W, f(j, b, j, b)))
        if i == j:
            ref = 0
            for a in range(K):
                q = f(i, a, i, a)
                ref = ref - q * floor_log(W, q)
        W.check(f"mi{i == j}", W.same(W.at(mi, i, j), ref))


# ---------------------------------------------------------------- spanning trees
def trees_of(n):
    edges = list(itertools.combinations(range(n), 2))
    for es in itertools.combinations(edges, n - 1):
        c = list(range(n))
        for a, b in es:
            if c[a] == c[b]:
                break
            c = [c[a] if z == c[b] else z for z in c]
        else:
            yield es


def sym_weights(W, n, ties):
    a = np.zeros((n, n))
    for i, j in itertools.combinations(range(n), 2):
        a[i, j] = a[j, i] = W.rng.choice([0., 1., 2., -1.]) if ties else W.rng.uniform(-2, 2)
    return a


@harness(H, funcs=["kruskal_mst_complete", "mst_with_constraints", "topk_mst"], sym=False, seeds=400)
def spanning_trees(W):
    """the spanning tree is of extremal weight, and the k trees are distinct spanning trees with the k extremal weights in order"""
    from spflow.zoo.hclt.topk_mst import kruskal_mst_complete, mst_with_constraints, topk_mst
    n = W.choice("n", [2, 3, 4, 4, 5])
    w = sym_weights(W, n, W.choice("ties", [True, False]))
    mini = W.choice("minimize", [True, False])
    sgn = 1 if mini else -1
    key = lambda t: sum(w[a, b] for a, b in t)
    ok = lambda t: tuple(sorted(t)) in allt
    allt = {tuple(sorted(t)) for t in trees_of(n)}
    tots = sorted((sgn * key(t) for t in allt))
    t = kruskal_mst_complete(w, minimize=mini)
    W.check("spanning", ok(t))
    W.check("extremal", abs(sgn * key(t) - tots[0]) < 1e-9)
    k = W.choice("k", [1, 2, 3, 5, 200])
    w0 = w.copy()
    ts = topk_mst(w, num_trees=k, minimize=mini)
    W.check("number", len(ts) == min(k, len(allt)))
    W.check("k spanning", all(ok(t) for t in ts) and len({tuple(sorted(t)) for t in ts}) == len(ts))
    W.check("k extremal", all(abs(sgn * key(t) - tots[i]) < 1e-9 for i, t in enumerate(ts)))
    W.check("weights untouched", (w == w0).all())
    es = list(itertools.combinations(range(n), 2))
    W.rng.shuffle(es)
    inc, exc = es[:W.rng.randrange(2)], es[2:2 + W.rng.randrange(3)]
    good = [t for t in allt if set(inc) <= set(t) and not set(exc) & set(t)]
    got, tot = mst_with_constraints(w, inc, exc, reuse=np.empty_like(w), minimize=mini)
    if not good:
        W.check("no tree", got is None)
    else:
        W.check("constrained", got is not None and ok(got) and set(inc) <= set(got) and not set(exc) & set(got))
        W.check("constrained extremal", abs(sgn * key(got) - min(sgn * key(t) for t in good)) < 1e-9 and abs(tot - key(got)) < 1e-9)


def discrete_data(W, N, cards):
    """rows with dependent columns"""
    x = torch.zeros(N, len(cards))
    for r in range(N):
        for j, k in enumerate(cards):
            p = W.rng.randrange(j) if j else 0
            x[r, j] = int(x[r, p]) % k if j and W.rng.random() < .5 else W.rng.randrange(k)
    return x


@harness(H, funcs=["learn_chow_liu_tree_binary", "learn_chow_liu_trees_binary", "learn_chow_liu_tree_categorical",
                   "learn_chow_liu_trees_categorical", "pairwise_mi_binary", "pairwise_mi_categorical"], sym=False, seeds=80)
def chow_liu_trees(W):
    """learnt trees are the spanning trees of largest total mutual information of the (weighted) data"""
    from spflow.zoo.hclt import chow_liu as c
    F, K = W.choice("F", [2, 3, 4]), W.choice("K", [2, 3])
    N = W.choice("N", [3, 8, 40])
    x = discrete_data(W, N, [K] * F)
    wx = torch.tensor([W.rng.uniform(.1, 2) for _ in range(N)]) if W.choice("weighted", [True, False]) else None
    w = wx.double() if wx is not None else torch.ones(N, dtype=torch.float64)
    pc = W.choice("pseudocount", [1.0, 0.5])
    binary = K == 2 and W.choice("binary", [True, False])
    tot = float(w.sum())
    p_c = pc if wx is None or binary else pc * tot / N

    def mi(i, j):
        f = lambda i, a, j, b: (float(w[(x[:, i] == a) & (x[:, j] == b)].sum()) + ((p_c / K if a == b else 0) if i == j else p_c / K**2)) / (tot + p_c)
        return sum(f(i, a, j, b) * math.log(f(i, a, j, b) / f(i, a, i, a) / f(j, b, j, b)) for a in range(K) for b in range(K))
    key = lambda t: sum(mi(a, b) for a, b in t)
    allt = {tuple(sorted(t)) for t in trees_of(F)}
    best = sorted((key(t) for t in allt), reverse=True)
    kw = {} if binary else {"num_cats": K, "chunk_size_pairs": W.choice("chunk", [1, 2, 4096])}
    one = (c.learn_chow_liu_tree_binary if binary else c.learn_chow_liu_tree_categorical)(x, weights=wx, pseudocount=pc, **kw)
    W.check("tree", tuple(sorted(one)) in allt and abs(key(one) - best[0]) < 1e-6)
    k = W.choice("k", [1, 2, 4])
    many = (c.learn_chow_liu_trees_binary if binary else c.learn_chow_liu_trees_categorical)(x, num_trees=k, weights=wx, pseudocount=pc, **kw)
    W.check("trees", len(many) == min(k, len(allt)) and len({tuple(sorted(t)) for t in many}) == len(many))
    W.check("k best", all(tuple(sorted(t)) in allt and abs(key(t) - best[i]) < 1e-6 for i, t in enumerate(many)))


# ---------------------------------------------------------------- hidden Chow-Liu trees
@harness(H, funcs=["_build_hclt_from_tree", "_edges_to_adjacency"], literal=("tree",))
def hclt_is_its_tree(W):
    """for every emission density, every number of hidden states and all weights: the circuit sums over all hidden states along the
    tree, each edge with its own transition weights from the hidden states of the child to those of the parent"""
    from spflow.zoo.hclt.learn import _build_hclt_from_tree
    from spflow.modules.sums import Sum
    trees = [[], [(0, 1)], [(0, 1), (1, 2)], [(0, 2), (1, 2)], [(0, 1), (0, 2), (2, 3)], [(0, 1), (1, 2), (1, 3)], [(0, 3), (1, 3), (2, 3)]]
    edges = W.choice("tree", trees)
    n, B, K = len(edges) + 1, W.dim("B"), W.dim("K")
    init = W.choice("init", ["uniform", "random"])
    em = {}

    def emission(v):
        em[v] = stub(W, f"e{v}", 1, K, 1, B, scope=Scope([v]))
        return em[v][0]
    m = _build_hclt_from_tree(num_features=n, edges=edges, num_hidden_cats=K, emission_factory=emission, init=init, device=None, dtype=None)
    W.check("variables", sorted(m.scope.query) == list(range(n)) and sorted(em) == list(range(n)))
    sums = {tuple(sorted(s.scope.query)): s for s in m.modules() if isinstance(s, Sum)}
    adj = {v: [a + b - v for a, b in edges if v in (a, b)] for v in range(n)}

    def under(v, parent):
        return sorted([v] + [u for c in adj[v] if c != parent for u in under(c, v)])
    if init == "uniform":
        for s, z in sums.items():
            O = 1 if len(s) == n else K
            W.check_eq("uniform", z.weights, (1, K, O, 1), lambda f, i, o, r: 1 / (W.frac(1, 1) * W.sum(K, lambda k: W.frac(1, 1))))
    if init == "random" or not W.sym:
        set_params(W, m, own_only=False)

    def msg(v, parent, b, k):
        t = W.exp(W.at(em[v][1], b, 0, k, 0))
        for c in adj[v]:
            if c != parent:
                w = sums[tuple(under(c, v))].weights
                t = t * W.sum(K, lambda q, c=c, w=w: W.at(w, 0, q, k, 0) * msg(c, v, b, q))
        return t
    w = sums[tuple(range(n))].weights
    ll = m.log_likelihood(W.tensor("x", (B, n)))
    W.check_all("likelihood", (B,), lambda b: W.same(W.exp(W.at(ll, b, 0, 0, 0)), W.sum(K, lambda k: W.at(w, 0, k, 0, 0) * msg(0, -1, b, k))))


# ---------------------------------------------------------------- cutset networks
def cnet_leaf(x, vs, cards, alpha, oc):
    from spflow.modules.leaves import Categorical
    from spflow.modules.leaves.cltree import CLTree
    if len(vs) > 1:
        m = CLTree(scope=Scope(vs), out_channels=oc, K=max(cards[v] for v in vs), alpha=alpha)
    else:
        m = Categorical(scope=Scope(vs), out_channels=oc, K=cards[vs[0]])
    m.maximum_likelihood_estimation(x)
    return m


def entropy(col):
    c = [int((col == v).sum()) for v in col.unique()]
    return -sum(k / len(col) * math.log(k / len(col)) for k in c)


def cnet_prob(W, x, vs, order, cards, mi, mf, alpha, oc, q):
    """the documented conditional tree: branch on the next variable, weights are the branches' shares of the rows"""
    if len(vs) <= mf or len(x) < mi:
        if len(x) == 1 and len(vs) > 1:
            return math_prod(W, [cnet_prob(W, x, [v], order, cards, mi, 1, alpha, oc, q) for v in vs])
        m = cnet_leaf(x, vs, cards, alpha, oc)
        ll = m.log_likelihood(q).double().exp().prod(1)[:, :, 0]
        return ll.mean(1) if oc > 1 else ll[:, 0]
    v = next(o for o in order if o in vs)
    t = torch.zeros(len(q), dtype=torch.float64)
    for k in range(cards[v]):
        s = x[x[:, v] == k]
        if len(s):
            hit = (q[:, v] == k).double()
            t = t + len(s) / len(x) * hit * cnet_prob(W, s, [u for u in vs if u != v], order, cards, mi, mf, alpha, oc, q)
    return t


def all_states(cards):
    return torch.tensor(list(itertools.product(*[range(k) for k in cards])), dtype=torch.get_default_dtype())


def audit(W, m, vs, cards, D):
    """a normalised circuit over exactly these variables that marginalises missing values by summing"""
    W.check("variables", sorted(m.scope.query) == list(vs))
    F, C, R = (int(v) for v in (m.out_shape.features, m.out_shape.channels, m.out_shape.repetitions))
    st = all_states([cards[v] for v in vs])
    q = torch.full((len(st), D), float("nan"))
    q[:, list(vs)] = st
    p = m.log_likelihood(q).double().exp().prod(1)
    W.check("non-negative", bool((p >= 0).all()) and bool(torch.isfinite(p).all()))
    W.check("normalised", cl(p.sum(0), torch.ones_like(p[0]), 1e-4) and p.shape[1] == C)
    for _ in range(2):
        keep = [v for v in vs if W.rng.random() < .5]
        i = W.rng.randrange(len(st))
        row = torch.full((1, D), float("nan"))
        row[0, keep] = q[i, keep]
        hit = (q[:, keep] == q[i, keep]).all(1)
        W.check("marginal", cl(m.log_likelihood(row).double().exp().prod(1)[0], p[hit].sum(0), 1e-4))


@harness(H, funcs=["learn_cnet", "_create_leaf", "_compute_entropy", "_validate_discrete_data"], sym=False, seeds=100)
def cnet_follows_the_data(W):
    """the learnt cutset network conditions on the variables in order of entropy, weights its branches with their shares of the rows and
    fits its leaves on exactly the rows that reach them"""
    from spflow.learn.cnet import learn_cnet
    D = W.choice("D", [1, 2, 3, 4])
    mixed = W.choice("mixed cardinalities", [False, False, True])
    cards = [W.rng.choice([2, 3, 4]) for _ in range(D)] if mixed else [W.choice("K", [2, 3])] * D
    N = W.choice("N", [6, 15, 40])
    x = discrete_data(W, N, cards)
    vs = sorted(W.rng.sample(range(D), W.rng.randrange(1, D + 1))) if W.choice("subset", [False, True]) else list(range(D))
    mi, mf, alpha = W.choice("min rows", [2, 5, 10]), W.choice("min vars", [1, 1, 2]), W.choice("alpha", [.01, .5])
    cond, oc = W.choice("cond", ["naive_mle", "naive_mle", "random"]), 1
    kw = {} if len(vs) == D and W.choice("no scope", [True, False]) else {"scope": Scope(vs)}
    ent = {v: entropy(x[:, v]) for v in vs}
    es = sorted(ent.values())
    m = learn_cnet(x, cardinalities=cards, cond=cond, min_instances_slice=mi, min_features_slice=mf, alpha=alpha,
                   seed=W.choice("seed", [None, 3]), **kw)
    W.check("shape", int(m.out_shape.channels) == 1)
    if cond == "random" or mixed:
        return audit(W, m, vs, cards, D)
    W.require(all(b - a > 1e-4 for a, b in zip(es, es[1:])))
    q = all_states(cards)
    p = m.log_likelihood(q).double().exp().prod(1)[:, 0, 0]
    order = sorted(vs, key=lambda v: -ent[v])
    W.check("likelihood", cl(p, cnet_prob(W, x, vs, order, cards, mi, mf, alpha, oc, q), 1e-4))
    audit(W, m, vs, cards, D)


# ---------------------------------------------------------------- every learner returns a distribution
def det(f):
    """a clustering or partitioning that depends on the rows it is given"""
    return lambda d, **kw: torch.tensor(f(hash(tuple(d.flatten().tolist())) % 10007, d))


@harness(H, funcs=["learn_spn", "learn_prometheus", "learn_cnet", "learn_hclt_binary", "learn_hclt_categorical", "prune_sums",
                   "partition_by_rdc", "cluster_by_kmeans", "adapt_product_inputs"], sym=False, seeds=150, conc_time=25)
def learners_return_distributions(W):
    """whatever learner, data and parameters: the circuit covers exactly the given variables, sums to one over all states, and
    answers every marginal query by the sum over the missing variables"""
    import contextlib
    import io
    from spflow.learn.cnet import learn_cnet
    from spflow.learn.learn_spn import learn_spn, prune_sums
    from spflow.learn.prometheus import learn_prometheus
    from spflow.modules.leaves import Bernoulli
    from spflow.zoo.hclt.learn import learn_hclt_binary, learn_hclt_categorical
    torch.manual_seed(W.rng.randrange(10**6))
    kind = W.choice("learner", ["spn", "spn", "prometheus", "cnet", "cnet", "hclt2", "hcltK"])
    D = W.choice("D", [2, 3, 4])
    N = W.choice("N", [8, 20, 40])
    with contextlib.redirect_stdout(io.StringIO()):
        if kind in ("spn", "prometheus"):
            cards = [2] * D
            x = discrete_data(W, N, cards)
            if W.choice("copied columns", [False, False, True]):
                x[:, W.rng.randrange(D)] = x[:, W.rng.randrange(D)]
            if W.choice("equal rows", [False, False, False, True]):
                x[:] = x[0]
            vs = list(range(D))
            if kind == "spn" and W.choice("subset", [False, True]):
                vs = sorted(W.rng.sample(vs, max(1, D - 1)))
            lc = W.choice("leaf channels", [1, 2])
            leaves = Bernoulli(scope=Scope(vs), out_channels=lc)
            if len(vs) > 1 and W.choice("two leaf modules", [False, True]):
                leaves = [Bernoulli(scope=Scope(vs[:1]), out_channels=lc), Bernoulli(scope=Scope(vs[1:]), out_channels=lc)]
            oc = W.choice("out_channels", [1, 2])
            kw = {}
            sd = W.rng.randrange(1000)
            if W.choice("own methods", [True, True, False]):
                kw["clustering_method"] = det(lambda h, d: clusters(sd, (h, len(d)) + tuple(range(len(d) - 2)), True))
                if kind == "spn":
                    kw["partitioning_method"] = det(lambda h, d: parts(sd, tuple(range(d.shape[1])), h))
                else:
                    kw["similarity"] = det(lambda h, d: affinity(sd, tuple(range(d.shape[1])), h))
                f = learn_spn if kind == "spn" else learn_prometheus
                m = f(x, leaves, out_channels=oc, min_instances_slice=W.choice("min", [2, 5]), **kw)
            elif kind == "spn":
                m = learn_spn(x, leaves, out_channels=oc, min_instances_slice=W.choice("min", [5, N // 2 + 2]),
                              partitioning_args={"threshold": W.choice("threshold", [.1, .3, .7])})
            else:
                kw = {"similarity": W.choice("similarity", ["corr", "rdc"])}
                if W.choice("sampled", [False, True]):
                    kw.update(affinity_mode="sampled", sampling_per_var=W.choice("per variable", [None, 1, 2]), sampling_seed=sd)
                m = learn_prometheus(x, leaves, out_channels=oc, min_instances_slice=W.choice("min", [5, 30]), **kw)
        elif kind == "cnet":
            cards = [W.rng.choice([2, 3, 4]) for _ in range(D)]
            x = discrete_data(W, N, cards)
            vs = list(range(D))
            lst = W.choice("list", [True, False])
            m = learn_cnet(x, cardinalities=cards if lst else 4, cond=W.choice("cond", ["naive_mle", "random"]),
                           min_instances_slice=W.choice("min", [2, 6, 100]), out_channels=W.choice("out", [1, 2]), alpha=W.choice("alpha", [.01, 1.]))
            cards = cards if lst else [4] * D
        else:
            K = 2 if kind == "hclt2" else W.choice("K", [2, 3])
            cards = [K] * D
            x = discrete_data(W, N, cards)
            vs = list(range(D))
            x[0] = K - 1
            kw = dict(num_hidden_cats=W.choice("hidden", [1, 2, 3]), num_trees=W.choice("trees", [1, 2, 3]), init=W.choice("init", ["uniform", "random"]))
            m = learn_hclt_binary(x, **kw) if kind == "hclt2" else learn_hclt_categorical(x, num_cats=K if W.choice("given", [True, False]) else None, **kw)
    audit(W, m, vs, cards, D)
    if kind == "spn":
        q = all_states(cards)
        a = m.log_likelihood(q)
        prune_sums(m)
        W.check("pruning keeps the likelihood", cl(m.log_likelihood(q).exp(), a.exp(), 1e-5))


@harness(H, funcs=["learn_spn", "learn_prometheus", "learn_cnet", "learn_hclt_binary", "learn_hclt_categorical", "kruskal_mst_complete"], sym=False, seeds=1)
def invalid_requests(W):
    """incomplete data, unknown categories, uncovered variables and senseless counts are rejected"""
    from spflow.learn.cnet import learn_cnet
    from spflow.learn.learn_spn import learn_spn
    from spflow.learn.prometheus import learn_prometheus
    from spflow.modules.leaves import Bernoulli
    from spflow.zoo.hclt.learn import learn_hclt_binary, learn_hclt_categorical
    from spflow.zoo.hclt.topk_mst import kruskal_mst_complete, topk_mst
    nan = float("nan")
    x = torch.tensor([[0., 1., 1.], [1., 0., 1.], [0., 0., 0.], [1., 1., 0.]])
    xn = x.clone()
    xn[1, 1] = nan
    b = Bernoulli(scope=Scope([0, 1]))
    for name, f in {
        "cnet nan": lambda: learn_cnet(xn, cardinalities=2), "cnet range": lambda: learn_cnet(x + 1, cardinalities=2),
        "cnet negative": lambda: learn_cnet(x - 1, cardinalities=2), "cnet fraction": lambda: learn_cnet(x + .5, cardinalities=3),
        "cnet cards": lambda: learn_cnet(x, cardinalities=[2, 2]), "cnet dims": lambda: learn_cnet(x[0], cardinalities=2),
        "cnet cond": lambda: learn_cnet(x, cardinalities=2, cond="x"),
        "hclt nan": lambda: learn_hclt_binary(xn, num_hidden_cats=2), "hclt dims": lambda: learn_hclt_binary(x[0], num_hidden_cats=2),
        "hclt hidden": lambda: learn_hclt_binary(x, num_hidden_cats=0), "hclt trees": lambda: learn_hclt_binary(x, num_hidden_cats=2, num_trees=0),
        "hclt init": lambda: learn_hclt_binary(x, num_hidden_cats=2, init="x"),
        "hclt K nan": lambda: learn_hclt_categorical(xn, num_hidden_cats=2), "hclt K range": lambda: learn_hclt_categorical(x * 2, num_hidden_cats=2, num_cats=2),
        "hclt K negative": lambda: learn_hclt_categorical(x - 1, num_hidden_cats=2, num_cats=2),
        "spn uncovered": lambda: learn_spn(x, b, scope=Scope([0, 1, 2]), min_instances_slice=10, partitioning_method=lambda d: torch.zeros(d.shape[1])),
        "spn overlap": lambda: learn_spn(x, [b, Bernoulli(scope=Scope([1, 2]))]),
        "spn min": lambda: learn_spn(x, b, min_instances_slice=1), "spn min features": lambda: learn_spn(x, b, min_features_slice=1),
        "spn method": lambda: learn_spn(x, b, clustering_method="x"), "spn partitioning": lambda: learn_spn(x, b, partitioning_method="x"),
        "prom overlap": lambda: learn_prometheus(x, [b, Bernoulli(scope=Scope([1, 2]))]),
        "mst nan": lambda: kruskal_mst_complete(np.full((3, 3), nan)), "mst shape": lambda: kruskal_mst_complete(np.zeros((2, 3))),
        "topk": lambda: topk_mst(np.zeros((3, 3)), num_trees=0),
    }.items():
        W.raises(name, Exception, f)


@harness(H, funcs=["partition_by_rdc"], sym=False, seeds=40)
def rdc_partitions(W):
    """the partition groups exactly the variables connected through pairs whose dependence reaches the threshold"""
    import importlib
    ls = importlib.import_module("spflow.learn.learn_spn")
    D, N = W.choice("D", [2, 3, 4, 5]), 12
    x = table(N, D)[:, :D]
    a = affinity(W.rng.randrange(10**6), tuple(range(D)), 0)
    thr = W.choice("threshold", [.2, .5, .8])
    old, dt = ls.rdc, torch.get_default_dtype()
    ls.rdc = lambda u, v: torch.tensor(a[int(u[0]) // 1000][int(v[0]) // 1000])
    try:
        ids = ls.partition_by_rdc(x, threshold=thr, preprocessing=None).tolist()
    finally:
        ls.rdc = old
    W.check("default type restored", torch.get_default_dtype() == dt)
    c = [{i} for i in range(D)]
    for i, j in itertools.combinations(range(D), 2):
        if a[i][j] >= thr:
            ci, cj = next(s for s in c if i in s), next(s for s in c if j in s)
            if ci is not cj:
                c.remove(cj)
                ci |= cj
    W.check("partition", len(ids) == D and all((ids[i] == ids[j]) == any(i in s and j in s for s in c) for i in range(D) for j in range(D)))
