"""C14: caching never changes results; every node is evaluated once per cache."""
import gc
import threading
import torch
from ..runner import harness
from ..lib import *
from ..gen import rand_circuit, states
from ..layers import LIKE as LAYERS, LIKE_FUNCS as FUNCS
H = []


def cstub():
    from spflow.utils.cache import cached

    class CStub(Stub):
        """a child whose log-likelihood depends on the data it is given and that counts its evaluations"""

        def __init__(self, pairs, *a):
            super().__init__(None, *a)
            self.pairs, self.n = pairs, 0

        @cached
        def log_likelihood(self, data, cache=None):
            self.n += 1
            return next(l for d, l in self.pairs if d is data)
    return CStub


def layer_cache(name):
    def h(W):
        from spflow.utils.cache import Cache
        B = W.dim("B")
        x1, x2 = W.tensor("x1", (B, 64)), W.tensor("x2", (B, 64))
        K = cstub()
        kids = []

        def mk(n, F, C, R, sc):
            s = K([(x, W.tensor(f"{n}{i}", (B, F, C, R))) for i, x in enumerate((x1, x2))], (F, C, R), sc)
            kids.append(s)
            return s
        m, sh = LAYERS[name](W, mk)
        set_params(W, m)
        sh = (B, *sh)
        c = Cache()
        plain = m.log_likelihood(x1)
        n0 = [k.n for k in kids]
        W.check("once_plain", all(n == 1 for n in n0))
        one = m.log_likelihood(x1, cache=c)
        W.check("once", all(k.n == 2 for k in kids))
        two = m.log_likelihood(x1, cache=c)
        W.check("hit", two is one and all(k.n == 2 for k in kids))
        W.check("entries", c.get("log_likelihood", m) is one and all(c.get("log_likelihood", k) is k.pairs[0][1] for k in kids))
        other = m.log_likelihood(x2, cache=Cache())
        other2 = m.log_likelihood(x2)
        again = m.log_likelihood(x1, cache=Cache())
        at = lambda t: lambda *i: W.at(t, *i)
        W.check_eq("cached", one, sh, at(plain))
        W.check_eq("fresh_caches", again, sh, at(plain))
        W.check_eq("other_data", other, sh, at(other2))
        W.check("evaluations", all(k.n == 5 for k in kids))
    h.__name__ = "layer_" + name
    h.__doc__ = "with a cache: same values as without, each child evaluated once; other data and other caches do not interfere"
    return h


for _n in LAYERS:
    harness(H, funcs=[FUNCS[_n] + ".log_likelihood", "utils.cache.cached"], seeds=25)(layer_cache(_n))


@harness(H, funcs=["utils.cache.cached"])
def decorator(W):
    """one evaluation per (method, object, cache), whatever the arguments; without a cache every call evaluates"""
    from spflow.utils.cache import cached, Cache
    log = []
    falsy = W.choice("value", ["tensor", "zero", "false", "empty"])

    class A(torch.nn.Module):
        @cached
        def f(self, x, cache=None):
            log.append(("f", self, x, cache))
            return {"tensor": torch.ones(2), "zero": 0, "false": False, "empty": torch.zeros(0)}[falsy]

        @cached
        def g(self, x, cache=None):
            log.append(("g", self, x, cache))
            return "g"

        @cached
        def rec(self, other, cache=None):
            log.append(("rec", self, other, cache))
            return (other.rec(None, cache=cache) if other is not None else 0) + 1
    a, b, c, d = A(), A(), Cache(), Cache()
    r = a.f(1, cache=c)
    W.check("first", len(log) == 1 and log[0][1] is a and log[0][2] == 1 and log[0][3] is c)
    W.check("hit", a.f(1, cache=c) is r and len(log) == 1)
    W.check("method", a.g(1, cache=c) == "g" and len(log) == 2)
    b.f(1, cache=c)
    W.check("object", len(log) == 3 and log[2][1] is b)
    a.f(1, cache=d)
    W.check("cache", len(log) == 4)
    a.f(1)
    a.f(1)
    W.check("no_cache", len(log) == 6 and log[4][3] is not None and log[5][3] is not log[4][3])
    W.check("nested", a.rec(b, cache=c) == 2 and b.rec(None, cache=c) == 1 and [l[0] for l in log].count("rec") == 2)
    W.check("name", A.f.__name__ == "f")


@harness(H, funcs=["Cache.get", "Cache.set", "Cache.__getitem__", "Cache.__contains__"], seeds=150, sym=False)
def cache_map(W):
    """a cache is a map from (method, object) to the value last stored, under every history of operations"""
    from spflow.utils.cache import Cache
    r = W.rng
    cs = [Cache(), Cache()]
    ref = [{}, {}]
    ms = [torch.nn.Linear(1, 1, bias=False) for _ in range(4)]
    names = ["log_likelihood", "f", ""]
    for step in range(r.randint(5, 60)):
        i, n, k = r.randrange(2), r.choice(names), r.randrange(4)
        op = r.choice(["set", "set", "item_set", "get", "item_get", "contains", "gc"])
        if op in ("set", "item_set"):
            v = r.choice([torch.ones(1), 0, False, "v", step])
            cs[i].set(n, ms[k], v) if op == "set" else cs[i][n].__setitem__(ms[k], v)
            ref[i][n, k] = v
        elif op == "get":
            W.check("get", cs[i].get(n, ms[k]) is ref[i].get((n, k)))
        elif op == "item_get":
            W.check("item", cs[i][n].get(ms[k]) is ref[i].get((n, k)))
        elif op == "contains":
            W.check("contains", (n in cs[i]) == any(a == n for a, _ in ref[i]))
        else:       # an object that goes away leaves nothing behind for later objects
            for j in range(2):
                for key in [q for q in ref[j] if q[1] == k]:
                    del ref[j][key]
            ms[k] = None
            gc.collect(0)
            ms[k] = torch.nn.Linear(1, 1, bias=False)
    for i in range(2):
        for n in names:
            for k in range(4):
                W.check("final", cs[i].get(n, ms[k]) is ref[i].get((n, k)))
    cs[0].extras["a"] = 1
    W.check("extras", cs[1].extras == {})


class Counting:
    """how often values are stored per (method, module)"""

    def __init__(self):
        from spflow.utils.cache import Cache
        me = self
        self.n = {}

        class C(Cache):
            def set(self, method_name, module, value):
                me.n[method_name, id(module)] = me.n.get((method_name, id(module)), 0) + 1
                super().set(method_name, module, value)
        self.cache = C()


def shared_circuit(W):
    """a circuit in which sub-circuits have several parents (directly, through sums, products and concatenations)"""
    from spflow.modules.sums import Sum, ElementwiseSum
    from spflow.modules.products import ElementwiseProduct, OuterProduct, Product
    from spflow.modules.ops import Cat
    from spflow.modules.leaves import Bernoulli
    r = W.rng
    N = r.randint(2, 4)
    pool = {}
    kinds = ["Bernoulli"]
    half = r.randint(1, N - 1)
    parts = (tuple(range(half)), tuple(range(half, N)), tuple(range(N)))
    C = r.choice([2, 3])
    for p in parts:
        pool[p] = []
    for p in parts[:2]:
        for _ in range(r.randint(1, 2)):
            l = Bernoulli(Scope(list(p)), out_channels=C)
            l.logits.data = torch.randn_like(l.logits)
            pool[p].append(Product(l))
    for _ in range(r.randint(3, 8)):
        p = r.choice(parts)
        ks = pool[p]
        if p == parts[2] and (not ks or r.random() < 0.4):
            a, b = r.choice(pool[parts[0]]), r.choice(pool[parts[1]])
            m = r.choice([ElementwiseProduct, OuterProduct])([a, b])
            m = m if int(m.out_shape.channels) == C else Sum(m, out_channels=C)
        else:
            k = r.choice(["sum", "esum", "cat"])
            two = [r.choice(ks), r.choice(ks)]
            if k == "sum" or (k != "cat" and two[0] is two[1] and r.random() < 0.5):
                m = Sum(two[0], out_channels=C)
            elif k == "esum":
                m = ElementwiseSum(two, out_channels=1)
            else:
                m = Sum(Cat(two, dim=2), out_channels=C)
        ks.append(m)
    roots = pool[parts[2]]
    if not roots:
        a, b = pool[parts[0]][-1], pool[parts[1]][-1]
        roots = [ElementwiseProduct([a, b])]
    root = Sum(roots[-1], out_channels=1) if len(roots) == 1 else Sum(Cat([roots[-1], r.choice(roots)], dim=2), out_channels=1)
    for q in root.modules():
        for pr in q.parameters(recurse=False):
            pr.data = torch.randn_like(pr)
    return root, N


@harness(H, funcs=["utils.cache.cached", "Module.log_likelihood"], seeds=120, sym=False)
def shared(W):
    """shared sub-circuits: same value with and without a cache, one evaluation each, no interference between calls"""
    m, N = shared_circuit(W)
    x = (torch.rand(5, N) < 0.5).float()
    x[torch.rand(5, N) < 0.3] = float("nan")
    y = (torch.rand(3, N) < 0.5).float()
    y0 = m.log_likelihood(y)
    a = m.log_likelihood(x)
    c = Counting()
    b = m.log_likelihood(x, cache=c.cache)
    W.check("equal", torch.equal(a, b) or torch.allclose(a, b, rtol=1e-6))
    W.check("once", all(v == 1 for v in c.n.values()), str(sorted(c.n.values())))
    W.check("hit", m.log_likelihood(x, cache=c.cache) is b and all(v == 1 for v in c.n.values()))
    W.check("history", torch.equal(m.log_likelihood(y), y0))
    with torch.no_grad():
        W.check("no_grad", torch.allclose(m.log_likelihood(x), a))
    p = next(iter(m.parameters()))
    old = p.data.clone()
    p.data = torch.randn_like(p)
    f1 = m.log_likelihood(x)
    p.data = old
    W.check("parameters", torch.allclose(m.log_likelihood(x), a) and f1.shape == a.shape)
    # each sub-circuit entry is that sub-circuit's own log-likelihood
    for q, v in list(c.cache["log_likelihood"].items()):
        W.check("entries", close(v, q.log_likelihood(x)), type(q).__name__)


def close(a, b):
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(close(p, q) for p, q in zip(a, b))
    return torch.allclose(a, b, rtol=1e-5, atol=1e-6)


@harness(H, funcs=["Module.log_likelihood"], seeds=60, sym=False)
def circuits(W):
    m, N = rand_circuit(W, gaps=True)
    x = states(m._dom, N)[:40]
    x[torch.rand(x.shape) < 0.2] = float("nan")
    a = m.log_likelihood(x)
    c = Counting()
    b = m.log_likelihood(x, cache=c.cache)
    W.check("equal", torch.allclose(a, b, rtol=1e-6))
    W.check("once", all(v == 1 for v in c.n.values()))
    for q, v in list(c.cache["log_likelihood"].items()):
        W.check("entries", close(v, q.log_likelihood(x)), type(q).__name__)


@harness(H, funcs=["Cache.get", "Cache.set"], seeds=15, sym=False)
def threads(W):
    """several threads on one cache get the values a single thread gets"""
    from spflow.utils.cache import Cache
    m, N = shared_circuit(W)
    x = (torch.rand(4, N) < 0.5).float()
    want = m.log_likelihood(x)
    c = Cache()
    out, err = [], []
    bar = threading.Barrier(4)

    def go():
        try:
            bar.wait()
            out.append(m.log_likelihood(x, cache=c))
        except Exception as e:
            err.append(e)
    ts = [threading.Thread(target=go) for _ in range(4)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    W.check("no_error", not err, str(err[:1]))
    W.check("equal", all(torch.allclose(o, want, rtol=1e-6) for o in out))


def layer_entry(name):
    def h(W):
        from spflow.utils.cache import Cache
        B = W.dim("B")
        x = W.tensor("x", (B, 64))
        K = cstub()
        mk = lambda n, F, C, R, sc: K([(x, W.tensor(n, (B, F, C, R)))], (F, C, R), sc)
        m, sh = LAYERS[name](W, mk)
        set_params(W, m)
        sh = (B, *sh)
        plain = m.log_likelihood(x)
        W.check_eq("forward", m(x), sh, lambda *i: W.at(plain, *i))
        p = m.probability(x)
        W.check_eq("probability", p, sh, lambda *i: W.exp(W.at(plain, *i)))
        c = Cache()
        one = m(x, cache=c)
        W.check("forward_cached", c.get("log_likelihood", m) is one and m.log_likelihood(x, cache=c) is one)
        q = m.probability(x, cache=c)
        W.check_eq("probability_cached", q, sh, lambda *i: W.exp(W.at(plain, *i)))
        W.check("unchanged", m.log_likelihood(x, cache=c) is one)
        W.check_eq("unchanged", one, sh, lambda *i: W.at(plain, *i))
    h.__name__ = "entry_" + name
    h.__doc__ = "calling the module and its probability agree with its log-likelihood, with and without a cache"
    return h


for _n in LAYERS:
    harness(H, funcs=["Module.forward", "Module.probability", FUNCS[_n] + ".log_likelihood"], seeds=8)(layer_entry(_n))
