"""C03: scope algebra = finite sets; reported feature scopes bound the dependence of each output feature."""
import itertools
import numpy as np
import torch
from ..runner import harness
from ..lib import *
from ..gen import rand_circuit, NoCircuit
H = []


def _isin(W, x, xs):
    return W.or_(*[W.eq(x, y) for y in xs]) if len(xs) else W.eq(0, 1)


def _distinct(W, xs):
    for a, b in itertools.combinations(xs, 2):
        W.require(W.not_(W.eq(a, b)))


def mkscope(W, name, nq, ne):
    q = [W.dim(f"{name}q{i}", lo=0) for i in range(nq)]
    e = [W.dim(f"{name}e{i}", lo=0) for i in range(ne)]
    _distinct(W, q + e)
    return Scope(list(q), list(e)), q, e


@harness(H, funcs=["Scope.__init__", "Scope.join", "Scope.isdisjoint", "Scope.equal_query", "Scope.equal_evidence"],
         max_paths=4000, sym_time=200,
         maxdim=5, seeds=150)
def scope_binary_ops(W):
    """join / disjointness / equality mean union / empty intersection / set equality, for arbitrary variables."""
    nq1, nq2 = W.choice("nq1", [1, 2]), W.choice("nq2", [1, 2])
    ne = W.choice("ne", [0, 1])
    a, qa, ea = mkscope(W, "a", nq1, ne)
    b, qb, eb = mkscope(W, "b", nq2, 0)
    v = W.dim("v", lo=0)
    j = a.join(b)
    W.check("join_query", W.eq_bool(_isin(W, v, j.query), W.or_(_isin(W, v, qa), _isin(W, v, qb))))
    W.check("join_evidence", W.eq_bool(_isin(W, v, j.evidence), W.and_(_isin(W, v, ea), W.not_(_isin(W, v, qb)))))
    j = Scope.join_all([b, a])
    W.check("join_all_query", W.eq_bool(_isin(W, v, j.query), W.or_(_isin(W, v, qa), _isin(W, v, qb))))
    W.check("join_all_evidence", W.eq_bool(_isin(W, v, j.evidence), W.and_(_isin(W, v, ea), W.not_(_isin(W, v, qb)))))
    W.check("disjoint", W.eq_bool(bool(a.isdisjoint(b)), W.and_(*[W.not_(_isin(W, x, qb)) for x in qa])))
    same = W.and_(*[_isin(W, x, qb) for x in qa], *[_isin(W, x, qa) for x in qb])
    W.check("equal_query", W.eq_bool(bool(a.equal_query(b)), same))
    W.check("eq", W.eq_bool(bool(a == b), W.and_(same, len(ea) == 0)))


@harness(H, funcs=["Scope.*"], sym=False, seeds=400)
def scope_algebra(W):
    r = W.rng
    U = range(r.randint(1, 6))

    def sc():
        q = r.sample(list(U), r.randint(0, len(U)))
        e = [x for x in U if x not in q and r.random() < 0.3] if q else []
        r.shuffle(e)
        return q, e
    (qa, ea), (qb, eb) = sc(), sc()
    mode = r.choice([list, tuple])
    a, b = Scope(mode(qa), mode(ea)), Scope(mode(qb), mode(eb))
    W.note(f"{qa}|{ea} {qb}|{eb}")
    p = lambda x: r.sample(list(x), len(x))
    W.check("eq_is_set_eq", (a == b) == (set(qa) == set(qb) and set(ea) == set(eb)))
    W.check("eq_order", a == Scope(p(qa), p(ea)))
    W.check("hash", hash(a) == hash(Scope(p(qa), p(ea))) and len({a, Scope(p(qa), p(ea))}) == 1)
    W.check("len", len(a) == len(qa) and a.empty() == (not qa) and a.is_conditional() == bool(ea))
    W.check("disjoint", a.isdisjoint(b) == (not set(qa) & set(qb)))
    j = a.join(b)
    W.check("join", set(j.query) == set(qa) | set(qb) and set(j.evidence) == (set(ea) | set(eb)) - set(qa) - set(qb))
    W.check("join_comm", j == b.join(a))
    W.check("copy", a.copy() == a and a.copy() is not a)
    if qa:
        v = r.choice(qa)
        if len(qa) > 1 or not ea:
            c = a.remove_from_query(v)
            W.check("remove", set(c.query) == set(qa) - {v} and set(c.evidence) == set(ea) and set(a.query) == set(qa))
    qs = [r.sample(list(U), r.randint(0, 3) if len(U) >= 3 else 1) for _ in range(r.randint(1, 4))]
    S = [Scope(q) for q in qs]
    W.check("pairwise_disjoint", Scope.all_pairwise_disjoint(S) == all(
        not set(x) & set(y) for x, y in itertools.combinations(qs, 2)))
    W.check("all_equal", Scope.all_equal(S) == all(set(x) == set(qs[0]) for x in qs))
    W.check("join_all", set(Scope.join_all(S).query) == set().union(*map(set, qs)))
    T = [a, b] + [Scope(*sc()) for _ in range(r.randint(0, 2))]
    allq, alle = set().union(*(set(s.query) for s in T)), set().union(*(set(s.evidence) for s in T))
    for s in (T, list(reversed(T)), tuple(T)):
        k = Scope.join_all(s)
        W.check("join_all_evidence", set(k.query) == allq and set(k.evidence) == alle - allq, f"{s} -> {k}")
    W.check("as_scope", Scope.as_scope(a) is a and Scope.as_scope(qa) == Scope(qa))
    from spflow.exceptions import InvalidParameterError
    E = (InvalidParameterError, ValueError)
    if qa:
        W.raises("dup_query", E, lambda: Scope(qa + [qa[0]]))
        W.raises("overlap_evidence", E, lambda: Scope(qa, [qa[-1]]))
        W.raises("negative", E, lambda: Scope(qa + [-1]))
        W.raises("negative_ev", E, lambda: Scope(qa, [-2]))
        W.raises("dup_evidence", E, lambda: Scope(qa, [50, 50]))
    W.raises("evidence_only", E, lambda: Scope([], [1]))


def _check_truthful(W, m, N, known=None):
    """set of variables each output feature actually depends on is inside its reported scope."""
    f2s = m.feature_to_scope
    F, R = int(m.out_shape.features), int(m.out_shape.repetitions)
    name = type(m).__name__
    W.check(f"shape:{name}", tuple(f2s.shape) == (F, R), lambda: f"{name}: feature_to_scope has shape {f2s.shape}, module has ({F}, {R})")
    r = W.rng
    sc = set(int(v) for v in m.scope.query)
    base = torch.tensor([[float(r.randrange(2)) for _ in range(N)] for _ in range(6)])
    x = torch.cat([base] * (N + 1))
    for v in range(N):
        k = (v + 1) * 6
        x[k:k + 6, v] = 1 - x[k:k + 6, v]
    ll = m.log_likelihood(x)
    dep = {}
    for v in range(N):
        k = (v + 1) * 6
        d = (torch.exp(ll[k:k + 6]) - torch.exp(ll[:6])).abs().amax(dim=(0, 2))     # F, R
        for f in range(F):
            for rr in range(R):
                if float(d[f, min(rr, d.shape[1] - 1)]) > 1e-12:
                    dep.setdefault((f, rr), set()).add(v)
    union = set()
    for f in range(F):
        for rr in range(R):
            q = set(int(v) for v in f2s[f, rr].query)
            union |= q
            bad = dep.get((f, rr), set()) - q
            W.check(f"depends_only_on_scope:{name}", not bad,
                    lambda: f"{name} feature {f} repetition {rr}: depends on {sorted(dep[(f, rr)])}, reported scope {sorted(q)}")
    W.check(f"union:{name}", union == sc, lambda: f"{name}: union of feature scopes {sorted(union)} but module scope {sorted(sc)}")


@harness(H, funcs=["feature_to_scope of every layer"], sym=False, seeds=160, conc_time=90, thorough_seeds=6)
def truthful_scopes(W):
    """dependence of every output feature of every node of a random circuit lies inside its reported scope."""
    try:
        m, N = rand_circuit(W, leaves=("Bernoulli", "Categorical2"))
    except NoCircuit:
        W.require(False)
    from spflow.modules.ops.split import Split
    for x in list(m.modules()):
        if hasattr(x, "feature_to_scope") and hasattr(x, "log_likelihood") and not isinstance(x, Split):
            _check_truthful(W, x, N)


@harness(H, funcs=["OuterProduct.feature_to_scope", "EinsumLayer.feature_to_scope", "LinsumLayer.feature_to_scope",
                   "SplitConsecutive.feature_to_scope", "SplitInterleaved.feature_to_scope", "SplitByIndex.feature_to_scope"],
         sym=False, seeds=80)
def multi_feature_scopes(W):
    """layers with several output features over leaves: exact feature scopes."""
    from spflow.modules.products import OuterProduct, ElementwiseProduct
    from spflow.modules.einsum import EinsumLayer, LinsumLayer
    from spflow.modules.ops.split import SplitMode
    from spflow.modules import leaves as L
    r = W.rng
    n, k = r.randint(1, 3), r.choice([2, 2, 3])
    what = W.choice("layer", ["outer_list", "elementwise_list", "outer_split", "elementwise_split", "einsum_split", "linsum_split", "split_parts"])
    kind = W.choice("split", ["consecutive", "interleaved", "by_index"])
    R = r.choice([1, 2])
    if "einsum" in what or "linsum" in what:
        k = 2
    vs = r.sample(range(n * k + 2), n * k)
    mk = lambda q: L.Bernoulli(Scope(list(q)), out_channels=r.choice([1, 2]), num_repetitions=R)
    if what.endswith("list"):
        ch = [mk(vs[i * n:(i + 1) * n]) for i in range(k)]
        if what == "elementwise_list":
            ch = [L.Bernoulli(c.scope, out_channels=2, num_repetitions=R) for c in ch]
        m = OuterProduct(ch) if what == "outer_list" else ElementwiseProduct(ch)
        want = [{vs[i * n + f] for i in range(k)} for f in range(n)]
    else:
        x = mk(vs)
        if kind == "consecutive":
            grp = [[i * n + f for i in range(k)] for f in range(n)]
        elif kind == "interleaved":
            grp = [[f * k + i for i in range(k)] for f in range(n)]
        else:
            o = r.sample(range(n * k), n * k)
            grp = [[o[i * n + f] for i in range(k)] for f in range(n)]
        sm = SplitMode.by_index([[g[i] for g in grp] for i in range(k)]) if kind == "by_index" else getattr(SplitMode, kind)(k)
        want = [{vs[i] for i in g} for g in grp]
        if what == "outer_split":
            m = OuterProduct(sm.create(x), num_splits=k)
        elif what == "elementwise_split":
            m = ElementwiseProduct(sm.create(x))
        elif what == "einsum_split":
            m = EinsumLayer(x, out_channels=2, split_mode=sm)
        elif what == "linsum_split":
            m = LinsumLayer(x, out_channels=2, split_mode=sm)
        else:
            f = sm.create(x).feature_to_scope
            W.check("split_shape", tuple(f.shape) == (n, k, R))
            for i in range(k):
                for j in range(n):
                    for q in range(R):
                        W.check(f"split:{kind}", set(f[j, i, q].query) == {vs[grp[j][i]]},
                                lambda: f"part {i} feature {j}: reported {f[j, i, q]}, emits variable {vs[grp[j][i]]}")
            return
    f = m.feature_to_scope
    tag = f"{what}:{kind}" if not what.endswith("list") else what
    W.check(f"rows:{tag}", tuple(f.shape) == (n, R), lambda: f"{f.shape[0]} feature scopes for {n} output features")
    for j in range(n):
        for q in range(R):
            W.check(f"scope:{tag}", set(f[j, q].query) == want[j], lambda: f"feature {j}: reported {f[j, q]}, depends on {want[j]}")
