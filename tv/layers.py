"""One builder per layer: symbolic or concrete sizes, children made by a callback mk(name, F, C, R, scope)."""
from __future__ import annotations
from .lib import *

BIG = Scope(list(range(64)))
SA, SB = Scope(list(range(32))), Scope(list(range(32, 64)))


def b_sum(W, mk):
    from spflow.modules.sums import Sum
    F, CI, CO, R = (W.dim(n) for n in ("F", "CI", "CO", "R"))
    return Sum(mk("a", F, CI, R, BIG), out_channels=CO, num_repetitions=R), (F, CO, R)


def b_esum(W, mk):
    from spflow.modules.sums import ElementwiseSum
    F, C, CO, R = (W.dim(n) for n in ("F", "C", "CO", "R"))
    return ElementwiseSum([mk("a", F, C, R, BIG), mk("b", F, C, R, BIG)], out_channels=CO, num_repetitions=R), (F, C * CO, R)


def b_rep(W, mk):
    from spflow.modules.sums import RepetitionMixingLayer
    F, C, R = (W.dim(n) for n in ("F", "C", "R"))
    return RepetitionMixingLayer(mk("a", F, C, R, BIG), out_channels=C, num_repetitions=R), (F, C, 1)


def b_product(W, mk):
    from spflow.modules.products import Product
    F, C, R = (W.dim(n) for n in ("F", "C", "R"))
    return Product(mk("a", F, C, R, BIG)), (1, C, R)


def b_eprod(W, mk):
    from spflow.modules.products import ElementwiseProduct
    F, C, R = (W.dim(n) for n in ("F", "C", "R"))
    return ElementwiseProduct([mk("a", F, C, R, SA), mk("b", F, C, R, SB)]), (F, C, R)


def b_oprod(W, mk):
    from spflow.modules.products import OuterProduct
    F, C, D, R = (W.dim(n) for n in ("F", "C", "D", "R"))
    return OuterProduct([mk("a", F, C, R, SA), mk("b", F, D, R, SB)]), (F, C * D, R)


def b_einsum(W, mk):
    from spflow.modules.einsum import EinsumLayer
    F, C, D, CO, R = (W.dim(n) for n in ("F", "C", "D", "CO", "R"))
    return EinsumLayer([mk("a", F, C, R, SA), mk("b", F, D, R, SB)], out_channels=CO), (F, CO, R)


def b_linsum(W, mk):
    from spflow.modules.einsum import LinsumLayer
    F, C, CO, R = (W.dim(n) for n in ("F", "C", "CO", "R"))
    return LinsumLayer([mk("a", F, C, R, SA), mk("b", F, C, R, SB)], out_channels=CO), (F, CO, R)


def b_einsum_split(W, mk):
    from spflow.modules.einsum import EinsumLayer
    from spflow.modules.ops.split import SplitMode
    Q, C, CO, R = (W.dim(n) for n in ("Q", "C", "CO", "R"))
    return EinsumLayer(mk("a", Q * 2, C, R, BIG), out_channels=CO, split_mode=SplitMode.interleaved(num_splits=2)), (Q, CO, R)


def b_cat1(W, mk):
    from spflow.modules.ops import Cat
    F, G, C, R = (W.dim(n) for n in ("F", "G", "C", "R"))
    return Cat([mk("a", F, C, R, SA), mk("b", G, C, R, SB)], dim=1), (F + G, C, R)


def b_cat2(W, mk):
    from spflow.modules.ops import Cat
    F, C, D, R = (W.dim(n) for n in ("F", "C", "D", "R"))
    return Cat([mk("a", F, C, R, BIG), mk("b", F, D, R, BIG)], dim=2), (F, C + D, R)


def b_eprod_split(W, mk):
    from spflow.modules.products import ElementwiseProduct
    from spflow.modules.ops import SplitConsecutive, SplitInterleaved
    Q, C, R = (W.dim(n) for n in ("Q", "C", "R"))
    k = W.choice("k", [2, 3])
    K = W.choice("split", [SplitConsecutive, SplitInterleaved])
    return ElementwiseProduct(K(mk("a", Q * k, C, R, BIG), num_splits=k), num_splits=k), (Q, C, R)


def b_sumconv(W, mk):
    from spflow.modules.conv import SumConv
    K, P, CI, CO, R = (W.dim(n) for n in ("K", "P", "CI", "CO", "R"))
    G = K * P
    return SumConv(mk("a", G * G, CI, R, BIG), out_channels=CO, kernel_size=K, num_repetitions=R), (G * G, CO, R)


def b_prodconv(W, mk):
    from spflow.modules.conv import ProdConv
    K, P, C, R = (W.dim(n) for n in ("K", "P", "C", "R"))
    G = K * P
    return ProdConv(mk("a", G * G, C, R, BIG), kernel_size_h=K, kernel_size_w=K, padding_h=0, padding_w=0), (P * P, C, R)


def b_factorize(W, mk):
    from spflow.modules.rat import Factorize
    depth = W.choice("depth", [0, 1, 2])
    F = W.dim("F", 2 ** depth, 2 ** depth + 4)
    C, R = W.dim("C"), W.dim("R", hi=4)
    return Factorize([mk("a", F, C, R, Scope(list(range(int(F)))))], depth=depth, num_repetitions=R), (2 ** depth, C, R)


LAYERS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("b_")}
FUNCS = {"sum": "Sum", "esum": "ElementwiseSum", "rep": "RepetitionMixingLayer", "product": "Product", "eprod": "ElementwiseProduct",
         "oprod": "OuterProduct", "einsum": "EinsumLayer", "linsum": "LinsumLayer", "einsum_split": "EinsumLayer", "cat1": "Cat", "cat2": "Cat",
         "eprod_split": "ElementwiseProduct", "sumconv": "SumConv", "prodconv": "ProdConv", "factorize": "Factorize"}


# ---- further configurations, for contracts on the likelihood only
INDEX = [[[0, 1], [2, 3]], [[3, 0], [1, 2]], [[0, 2], [1, 3]], [[2], [0], [3], [1]]]


def _index(W, mk):
    from spflow.modules.ops import SplitByIndex
    C, R = W.dim("C"), W.dim("R")
    idx = W.choice("indices", INDEX)
    return SplitByIndex(mk("a", 4, C, R, Scope(list(range(4)))), indices=idx), len(idx), C, R


def l_eprod_index(W, mk):
    from spflow.modules.products import ElementwiseProduct
    s, k, C, R = _index(W, mk)
    return ElementwiseProduct(s), (4 // k, C, R)


def l_oprod_index(W, mk):
    from spflow.modules.products import OuterProduct
    s, k, C, R = _index(W, mk)
    return OuterProduct(s, num_splits=k), (4 // k, C ** k, R)


def l_oprod_split(W, mk):
    from spflow.modules.products import OuterProduct
    from spflow.modules.ops import SplitConsecutive, SplitInterleaved
    Q, C, R = (W.dim(n) for n in ("Q", "C", "R"))
    K = W.choice("split", [SplitConsecutive, SplitInterleaved])
    return OuterProduct(K(mk("a", Q * 2, C, R, BIG), num_splits=2), num_splits=2), (Q, C * C, R)


def l_linsum_split(W, mk):
    from spflow.modules.einsum import LinsumLayer
    from spflow.modules.ops.split import SplitMode
    Q, C, CO, R = (W.dim(n) for n in ("Q", "C", "CO", "R"))
    mode = W.choice("mode", ["consecutive", "interleaved"])
    return LinsumLayer(mk("a", Q * 2, C, R, BIG), out_channels=CO, split_mode=getattr(SplitMode, mode)(num_splits=2)), (Q, CO, R)


def l_einsum_consecutive(W, mk):
    from spflow.modules.einsum import EinsumLayer
    from spflow.modules.ops.split import SplitMode
    Q, C, CO, R = (W.dim(n) for n in ("Q", "C", "CO", "R"))
    return EinsumLayer(mk("a", Q * 2, C, R, BIG), out_channels=CO, split_mode=SplitMode.consecutive(num_splits=2)), (Q, CO, R)


def l_sumconv_small(W, mk):
    """the kernel is larger than the grid"""
    from spflow.modules.conv import SumConv
    G, E, CI, CO, R = (W.dim(n) for n in ("G", "E", "CI", "CO", "R"))
    return SumConv(mk("a", G * G, CI, R, BIG), out_channels=CO, kernel_size=G + E, num_repetitions=R), (G * G, CO, R)


LIKE = {**LAYERS, **{k[2:]: v for k, v in list(globals().items()) if k.startswith("l_")}}
LIKE_FUNCS = {**FUNCS, "eprod_index": "ElementwiseProduct", "oprod_index": "OuterProduct", "oprod_split": "OuterProduct", "linsum_split": "LinsumLayer",
              "einsum_consecutive": "EinsumLayer", "sumconv_small": "SumConv"}
