"""Stub children and helpers shared by harnesses.  A stub is a real Module subclass
whose log-likelihood is an arbitrary tensor: its contract is only the shape."""
from __future__ import annotations
import numpy as np
import math
import torch
from spflow.modules.module import Module
from spflow.modules.module_shape import ModuleShape
from spflow.meta.data.scope import Scope


class AbstractMap:
    """feature_to_scope of a stub with a symbolic number of features: opaque, equal to
    another such map iff the scopes agree.  Any other use is outside the verifier's reach."""

    def __init__(self, scope):
        self._s = scope

    def __getitem__(self, k):
        return self

    def flatten(self):
        return [self._s]            # some list of scopes whose union is the scope of the stub

    def __eq__(self, o):
        return isinstance(o, AbstractMap) and self._s == o._s

    def __hash__(self):
        return hash(self._s)


class Stub(Module):
    def __init__(self, ll, shape, scope=None, f2s=None, name="stub"):
        super().__init__()
        f, c, r = shape
        self._fr = (f, r)
        self.scope = scope if scope is not None else Scope([0])
        self.in_shape = ModuleShape(f, c, r)
        self.out_shape = ModuleShape(f, c, r)
        self._ll = ll
        self._f2s = f2s
        self.calls = []
        self.on_sample = None

    @property
    def feature_to_scope(self):
        if self._f2s is not None:
            return self._f2s
        if any(isinstance(x, torch.SymInt) for x in self._fr):
            return AbstractMap(self.scope)
        f, r = int(self.out_shape.features), int(self.out_shape.repetitions)
        q = list(self.scope.query)
        out = np.empty((f, r), dtype=object)
        for i in range(f):
            for j in range(r):
                out[i, j] = Scope([q[i % len(q)]]) if len(q) >= f else self.scope
        return out

    def log_likelihood(self, data, cache=None):
        self.calls.append(("ll", data))
        if cache is not None:
            cache["log_likelihood"][self] = self._ll
        return self._ll

    def _sample(self, data, sampling_ctx, cache):
        c = sampling_ctx
        self.calls.append(("sample", c.channel_index.clone(), c.mask.clone(),
                           None if c.repetition_index is None else c.repetition_index.clone(), c))
        if self.on_sample is not None:
            self.on_sample(data, c)
        return data

    def sample(self, *a, **k):
        raise NotImplementedError

    def _expectation_maximization_step(self, data, *, cache, bias_correction=True):
        self.calls.append(("em", data))

    def maximum_likelihood_estimation(self, data, weights=None, cache=None):
        pass

    def marginalize(self, marg_rvs, prune=True, cache=None):
        self.calls.append(("marg", list(marg_rvs)))
        return self


def stub(W, name, F, Cc, R, B, scope=None, f2s=None, kind="real"):
    ll = W.tensor(name, (B, F, Cc, R), kind)
    return Stub(ll, (F, Cc, R), scope, f2s), ll


def set_params(W, module, own_only=True, kind="real"):
    """replace every parameter of `module` itself by arbitrary values."""
    out = []
    for n, p in list(module.named_parameters(recurse=not own_only)):
        p.data = W.tensor("par." + n, tuple(p.shape), kind)
        out.append((n, p))
    return out


def mkctx(W, B, width, C, R, mpe=False, name=""):
    """an arbitrary valid integer sampling context; returns (ctx, ch, mask, rep)"""
    from spflow.utils.sampling_context import SamplingContext
    ch = W.tensor(name + "ch", (B, width), "int", lo=0, hi=C)
    mask = W.tensor(name + "mask", (B, width), "bool")
    rep = W.tensor(name + "rep", (B,), "int", lo=0, hi=R)
    ctx = SamplingContext(channel_index=ch.clone(), mask=mask.clone(), repetition_index=rep.clone(), is_mpe=mpe)
    return ctx, ch, mask, rep


def sample_calls(s):
    return [c for c in s.calls if c[0] == "sample"]


def far(W, *shape):
    """offsets further apart than the range of a floating-point exponential"""
    r = W.rng
    hi = r.choice([50., 1000., 20000.])
    n = math.prod(int(v) for v in shape)
    return torch.tensor([r.choice([0., r.uniform(-hi, hi), r.uniform(-hi, 0)]) for _ in range(n)], dtype=torch.get_default_dtype()).reshape([int(v) for v in shape])


def shifts(W, name, m, stubs, offsets, x, want):
    """multiplying the inputs by positive constants multiplies the output by the constants `want`, however far they are apart"""
    base = m.log_likelihood(x)
    old = [s._ll for s in stubs]
    for s, o in zip(stubs, offsets):
        s._ll = s._ll + o
    out = m.log_likelihood(x)
    for s, o in zip(stubs, old):
        s._ll = o
    want = (base + want).detach()
    ok = torch.isclose(out.detach(), want, rtol=1e-9, atol=1e-6, equal_nan=False) | (out == want)
    W.check(name, tuple(out.shape) == tuple(want.shape) and bool(ok.all()))
