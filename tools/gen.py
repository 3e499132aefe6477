"""Generates properties.jsonl and MANIFEST.json from the table below (run by hand: python3 tools/gen.py)."""
import json, pathlib
R = pathlib.Path(__file__).resolve().parent.parent
I, C, Hh = "inputs", "configurations", "histories"
P = []


def p(id, title, st, over, q, why, files, mech, note=None, level="proof", obs=None):
    P.append(dict(id=id, title=title, st=st, over=over, q=q, why=why, files=files, mech=mech, note=note, level=level, obs=obs))


M = "spflow/modules/"
p("C01", "Sum layers compute the log of a convex mixture of their inputs",
  "The log-likelihood of every sum layer equals the log of the weighted mixture of its inputs' likelihoods, element by element, for every batch size, number of features, channels and repetitions. "
  "Its mixture weights are non-negative and sum to one over the mixed axis whatever values the underlying parameters take, and weights assigned through the public interface are read back unchanged.",
  [I, C], "all layer sizes, all parameter values, all input log-likelihoods including minus infinity",
  "Tests evaluate a handful of fixed sizes with sampled weights and compare mostly shapes; the statement is over every size, every parameter value and every log-likelihood, including impossible inputs.",
  [M + "sums/sum.py", M + "sums/elementwise_sum.py", M + "sums/repetition_mixing_layer.py", "spflow/utils/projections.py"],
  [("softmax-parameterised weights and logsumexp over the mixed axis", M + "sums/sum.py"), ("projection between weights and unconstrained parameters", "spflow/utils/projections.py")])
p("C02", "Product layers factorise over disjoint scopes",
  "The log-likelihood of every product is the sum of the log-likelihoods of its factors: elementwise per channel, over the full channel cross product, over all features, or over the blocks of a partition. "
  "Factors always have pairwise disjoint scopes (overlapping inputs are rejected when the layer is built), and mixtures are only built over inputs with equal scope.",
  [I, C], "all sizes, broadcasts, numbers of inputs and splits, all input log-likelihoods, all scope assignments",
  "Tests check shapes and a few instances; broadcasting, channel order of the cross product and split index arithmetic must be right for every size, and scope rejection for every overlap pattern.",
  [M + "products/product.py", M + "products/elementwise_product.py", M + "products/outer_product.py", M + "products/base_product.py", M + "rat/factorize.py"],
  [("sum over factor axis", M + "products/elementwise_product.py"), ("broadcast cross product", M + "products/outer_product.py"), ("scope checks in constructors", M + "products/base_product.py")])
p("C03", "Scope algebra is sound and reported feature scopes are truthful",
  "Scope operations behave as operations on finite sets of variables with evidence, independent of the order in which variables are listed, and equal scopes hash equally. "
  "The scope a module reports for an output feature contains every variable that can influence that feature's log-likelihood, and the scopes of all its features together make up the module's scope.",
  [I, C], "all scopes and all circuits built from the provided layers, all inputs",
  "Tests compare scopes for single layer examples; truthfulness is a claim about dependence of the output on each variable for every composition of layers.",
  ["spflow/meta/data/scope.py", M + "module.py", M + "sums", M + "products", M + "ops"],
  [("scope algebra", "spflow/meta/data/scope.py"), ("feature_to_scope of every layer", M)])
p("C04", "Split and concatenation operators only rearrange features",
  "Splitting a layer's features yields parts which are disjoint, together contain every feature exactly once, and merging the parts gives back the original arrangement; concatenation places each input's features or channels contiguously and in order. "
  "Routing masks, channel choices and evidence pass through these operators by exactly the same rearrangement.",
  [I, C], "all feature counts, numbers of splits, index lists, concatenation axes and sizes",
  "Tests use two or three small layouts; the index arithmetic must be a bijection for every size and number of parts.",
  [M + "ops/split.py", M + "ops/split_consecutive.py", M + "ops/split_interleaved.py", M + "ops/split_by_index.py", M + "ops/cat.py"],
  [("split/merge index maps", M + "ops"), ("concatenation and routing", M + "ops/cat.py")])
p("C05", "Einsum and linsum layers equal the explicit mixture of products",
  "A fused sum-product layer returns the log of the weighted sum, over pairs of left and right input channels, of the product of the paired likelihoods, for single inputs split in two and for two separate inputs, including inputs with zero likelihood. "
  "Their weights are non-negative and normalised per output for every parameter value.",
  [I, C], "all sizes, all weights, all input log-likelihoods including minus infinity, single and paired inputs",
  "Tests compare one or two small sizes against nested loops; numerical shortcuts and index pairing must be right for every size and for degenerate inputs.",
  [M + "einsum/einsum_layer.py", M + "einsum/linsum_layer.py"],
  [("log-einsum-exp with maximum shift", M + "einsum/einsum_layer.py"), ("pairwise sum and logsumexp", M + "einsum/linsum_layer.py")])
p("C06", "Convolutional sum and product layers compute the tiled circuit they denote",
  "A convolutional sum mixes channels at every pixel with the weights of that pixel's position within its patch, and a convolutional product adds the log-likelihoods of exactly the pixels in its patch, with padding contributing nothing. "
  "Weights are non-negative and normalised over input channels.",
  [I, C], "all grid sizes, kernel sizes, channels, paddings, repetitions and values",
  "Tests check shapes and a few grids; patch/position index arithmetic and padding must be right for all grid and kernel sizes.",
  [M + "conv/sum_conv.py", M + "conv/prod_conv.py", M + "conv/utils.py"],
  [("patch-wise weights", M + "conv/sum_conv.py"), ("windowed sum with padding", M + "conv/prod_conv.py")])
p("C07", "Leaf densities are the documented densities with parameters in their domain",
  "For every in-support value, every leaf's log-likelihood equals the logarithm of the documented density or mass function at its current parameters, and parameter values always lie in their domain whatever values the underlying unconstrained parameters take. "
  "Parameters given at construction are reproduced.",
  [I, C], "all leaf families, all parameter values, all data values, all sizes",
  "Tests compare sampled parameters with the torch distribution the leaf itself wraps; parameterisation domain and broadcasting over channels and repetitions must hold for every parameter and data value.",
  [M + "leaves", "spflow/utils/projections.py", "spflow/utils/leaves.py"],
  [("log-likelihood through distribution objects", M + "leaves/leaf.py"), ("projections to constrained domains", "spflow/utils/projections.py")])
p("C08", "Missing values marginalise exactly",
  "A missing value in the data contributes a factor of one at the leaf that models it, so the log-likelihood of partially observed data equals the logarithm of the sum (or integral) of the joint likelihood over all completions. "
  "Observed entries are unaffected by which other entries are missing.",
  [I, C], "all data matrices with arbitrary missingness patterns, all circuits over the provided layers",
  "Tests check all-missing rows and one pattern; exactness is over every missingness pattern and every circuit structure.",
  [M + "leaves/leaf.py", M + "sums", M + "products", M + "leaves/cltree.py"],
  [("masking of missing entries in leaves", M + "leaves/leaf.py")])
p("C09", "Structural marginalisation agrees with marginalising by missing values",
  "Removing a set of variables from a circuit gives a circuit over the remaining variables whose log-likelihood on every input equals that of the original circuit with those variables missing; removing all variables gives nothing. "
  "The original circuit is left unchanged.",
  [I, C], "all circuits, all subsets of variables, with and without pruning, all inputs",
  "Tests check shapes and scopes of the marginalised module, rarely its values.",
  [M + "module.py", M + "sums", M + "products", M + "ops", M + "leaves/leaf.py", M + "einsum", M + "conv"],
  [("recursive marginalisation", M)])
p("C10", "Sampling keeps evidence, fills every missing value and routes validly",
  "Sampling or most-probable completion from a circuit never alters an observed value and replaces every missing value of a variable in its scope by a value in that variable's support. "
  "Routing hands every child a valid channel and repetition for exactly the features that are to be sampled, each once.",
  [I, C, Hh], "all circuits, evidence patterns, sampling contexts and random draws",
  "Tests check shapes and finiteness for a few circuits; every random outcome and evidence pattern matters.",
  [M + "module.py", "spflow/utils/sampling_context.py", M + "sums", M + "products", M + "leaves/leaf.py"],
  [("sampling context (channel, mask, repetition)", "spflow/utils/sampling_context.py"), ("per-layer routing", M)])
p("C11", "Sampling follows the circuit's conditional distribution",
  "Each random choice made when sampling is drawn with exactly the conditional probability the circuit assigns to it given the evidence, so samples are distributed according to the circuit conditioned on the evidence. "
  "Most-probable completion takes the choice with the largest such probability.",
  [I, C, Hh], "all circuits, parameters, evidence patterns and routing states",
  "Tests compare empirical frequencies for one or two models; the law must be exact for every parameter and evidence pattern.",
  [M + "sums/sum.py", M + "sums/elementwise_sum.py", M + "sums/repetition_mixing_layer.py", M + "leaves/leaf.py", M + "module.py", M + "einsum", M + "conv"],
  [("posterior channel choice", M + "sums/sum.py")])
p("C12", "EM steps use exact posteriors and never lower the likelihood",
  "One step sets every sum weight to the normalised expected count of its branch under the posterior given the data, and every leaf to the maximum-likelihood estimate under its posterior weights. "
  "The data log-likelihood never decreases, and parameters stay valid.",
  [I, C, Hh], "all circuits, data sets (missing values where all leaves are fixed), parameters, numbers of steps; without bias correction",
  "Tests assert that some parameter changed or the likelihood rose on one example.",
  ["spflow/learn/expectation_maximization.py", M + "sums", M + "einsum", M + "leaves/leaf.py"],
  [("expected counts from gradients of the log-likelihood", M + "sums/sum.py")])
p("C13", "Leaf estimation maximises the weighted likelihood of the observed data",
  "Fitting a leaf sets its parameters to the closed-form weighted maximum-likelihood estimate (for Gamma its documented closed-form estimate) on the rows without missing entries in its own variables, per output channel and repetition; data with missing entries is rejected when no strategy for them is given. "
  "Resulting parameters are in their domain for every data set, including degenerate ones, and fixed parameters stay as they are.",
  [I, C], "all leaf families, data sets, missingness patterns, positive weights",
  "Tests compare against one data set per family; the estimate is a formula over all data sets and weights.",
  [M + "leaves"], [("weighted estimates", M + "leaves"), ("missing value strategy", M + "leaves/leaf.py")])
p("C14", "Caching never changes results",
  "A computation through a cache returns what the computation without a cache returns, and each node is evaluated once per cache. "
  "Reusing a module across calls with different data and fresh caches is free of interference.",
  [I, Hh], "all circuits incl. shared sub-circuits, all call histories",
  "Tests check that a cache entry exists; equality of results with and without the cache over every structure and history is not covered.",
  ["spflow/utils/cache.py", M + "module.py"], [("memoising decorator", "spflow/utils/cache.py")])
p("C15", "Interval evidence gives the probability of the interval",
  "The log-likelihood under interval evidence equals the logarithm of the probability mass the circuit assigns to the box, with open ends meaning unbounded. "
  "It is monotone in the interval, degenerates correctly, and inconsistent intervals are rejected.",
  [I, C], "all intervals incl. unbounded ones, all leaf families that support it, all circuits",
  "Tests evaluate a few intervals on single leaves.",
  ["spflow/meta/data/interval_evidence.py", M + "leaves/leaf.py", M + "leaves"], [("CDF differences", M + "leaves/leaf.py")])
p("C16", "Histogram, piecewise-linear and tree leaves are normalised densities",
  "Histogram, piecewise-linear and tree-structured leaves define normalised distributions for every valid parameterisation and every data set they are fitted to, and evaluate zero outside their support. "
  "The tree-structured leaf's likelihood is the product of its conditional tables along its tree.",
  [I, C], "all bin layouts, weights, data sets, trees",
  "Tests integrate one or two instances numerically.",
  [M + "leaves/histogram.py", M + "leaves/piecewise_linear.py", M + "leaves/cltree.py", "spflow/utils/histogram.py"],
  [("density tables", M + "leaves/histogram.py")])
p("C17", "Classifier outputs are exact class posteriors",
  "Class probabilities returned by a classifier equal the normalised product of class prior and class-conditional likelihood, lie in [0,1] and sum to one for every input, including inputs with missing values. "
  "Predicted labels are the class with largest posterior.",
  [I, C], "all classifiers, priors and inputs",
  "Tests check shapes and sums for random models.",
  ["spflow/interfaces", "spflow/zoo/naive_bayes.py", "spflow/zoo/einet/einet.py", "spflow/zoo/rat/rat_spn.py"],
  [("posterior from class-channel log-likelihoods", "spflow/interfaces/classifier.py")])
p("C18", "Squared and signed circuits are evaluated exactly and stay normalised",
  "The inner product of two compatible circuits equals the sum (or integral) of the product of their likelihoods over all states, including signed ones. "
  "A sum-of-squares circuit's log-likelihood is the log of its squared output divided by that normaliser, so it is a normalised non-negative density even with negative weights.",
  [I, C], "all compatible circuit pairs, signed weights, inputs",
  "Tests enumerate one or two tiny circuits.",
  [M + "sos", "spflow/utils/inner_product.py", "spflow/utils/inner_product_core.py", "spflow/utils/signed_semiring.py", M + "sums/signed_sum.py"],
  [("inner product recursion", "spflow/utils/inner_product_core.py"), ("signed log-sum-exp", "spflow/utils/signed_semiring.py")])
p("C19", "Information measures are what their definitions say",
  "Exact entropy, mutual information, conditional mutual information and weight of evidence of a circuit equal their definitions evaluated on the circuit's distribution, for every choice of variables. "
  "Entropy and mutual information are non-negative for discrete circuits.",
  [I, C], "all discrete circuits, all variable subsets, evidence",
  "Tests evaluate independent or fully dependent pairs.",
  ["spflow/measures"], [("enumeration over states", "spflow/measures/information_theory.py"), ("log odds differences", "spflow/measures/weight_of_evidence.py")])
p("C20", "Structure learning returns valid, normalised circuits over all variables",
  "Every structure learner returns a smooth and decomposable circuit over exactly the given variables whose distribution is normalised, for every data set it accepts. "
  "Row and column partitions used during learning are genuine partitions, mixture weights equal the partition fractions, and spanning trees used are spanning trees of maximal weight.",
  [I, C], "all data sets, thresholds and clustering outcomes",
  "Tests run a few random data sets and check shapes.",
  ["spflow/learn/learn_spn.py", "spflow/learn/cnet.py", "spflow/learn/prometheus.py", "spflow/zoo/hclt"],
  [("recursive row/column splitting", "spflow/learn/learn_spn.py"), ("spanning trees", "spflow/zoo/hclt")], level="proof")
p("C21", "Architecture builders produce smooth, decomposable, normalised circuits",
  "Every provided circuit architecture, for every accepted configuration, is smooth and decomposable, covers exactly the variables of its leaves and defines a normalised distribution. "
  "Invalid configurations are rejected rather than built.",
  [C], "all builder configurations: depths, widths, repetitions, splits, numbers of features",
  "Tests build a few configurations and check output shapes.",
  ["spflow/zoo", "spflow/meta/region_graph.py", "spflow/dsl.py"], [("layer-wise construction", "spflow/zoo/rat/rat_spn.py")])
p("C22", "Conversions and editing utilities preserve the distribution",
  "Building with the expression language, wrapping images, replacing substructures and converting between equivalent layer types leave the represented distribution unchanged, and structural statistics agree with a direct count. "
  "Scikit-learn style wrappers return exactly the model's quantities.",
  [I, C], "all expressions, circuits and inputs",
  "Tests compare a few examples.",
  ["spflow/dsl.py", "spflow/interfaces/sklearn.py", "spflow/utils/replace.py", "spflow/utils/structure_stats.py", M + "wrapper"],
  [("expression compilation", "spflow/dsl.py"), ("in-place layer substitution", "spflow/utils/replace.py")])
p("C23", "Every circuit is a normalised distribution",
  "The likelihood of any smooth and decomposable circuit built from the provided layers sums (integrates) to one over all states of its variables, for every channel and repetition. "
  "Its all-missing log-likelihood is zero, and states of probability zero have log-likelihood -inf, never NaN.",
  [I, C], "all circuits, all parameters",
  "Tests check single examples; the guarantee is over every structure and parameter value.",
  [M], [("normalised layers composed over disjoint scopes", M)])
p("C24", "Differentiable sampling selects the same branches as exact sampling",
  "Sampling with one-hot routing (differentiable sampling) is the same sampling as with integer routing: from the one-hot encoding of any routing state every layer hands each input the one-hot encoding of the channel, repetition and mask it hands over in integer mode, and its choices follow the same conditional probabilities at every temperature. "
  "The one-hot draw takes the value of an exact one-hot vector and differentiates like the softmax at the given temperature; leaves write the same completions, and the leaf parameters reported for a sample are those of the channel and repetition it was routed to.",
  [I, C], "all layers, sizes, routing states, parameters, temperatures and evidence",
  "Tests compare a few one-hot contexts with integer ones on fixed shapes; agreement is needed for every routing state and size, and of whole distributions.",
  ["spflow/utils/sampling_context.py", M + "sums", M + "products", M + "einsum", M + "conv", M + "ops", M + "rat/factorize.py", M + "leaves/leaf.py"],
  [("one-hot indexing and straight-through draws", "spflow/utils/sampling_context.py"), ("differentiable branches of _sample", M), ("leaf parameter records", M + "leaves/leaf.py")])
p("C25", "Training minimises the stated objective; encoders are exact conditionals",
  "Gradient training makes one optimiser step per batch on the mean negative log-likelihood (plus the mean cross-entropy for classifiers), the gradients used are the derivatives of the log-likelihood, validation changes nothing and reported metrics are the averages over rows. "
  "Autoencoding circuits minimise the stated weighted sum of reconstruction error, divergence and negative log-likelihood; their encodings are draws from the posterior of the joint circuit over data and latents, decodings from the conditional given the latents and observed data, and the reported latent moments and divergences are those of the component drawn from.",
  [I, C], "all models, batches, epochs, weights, latent layouts and permutations, latent families and evidence",
  "Tests check shapes, finiteness and that a loss decreases on a few runs; wrong conditionals or objectives also decrease.",
  ["spflow/learn/gradient_descent.py", "spflow/zoo/apc"],
  [("training loop", "spflow/learn/gradient_descent.py"), ("loss components", "spflow/zoo/apc/model.py"), ("joint encoders", "spflow/zoo/apc/encoders"), ("latent statistics", "spflow/zoo/apc/encoders/latent_stats.py")])
NOTES = {}
NA = {}
exec((R / "tools" / "claims.py").read_text())
(R / "properties.jsonl").write_text("".join(json.dumps({
    "id": x["id"], "title": x["title"], "statement": x["st"],
    "quantifier": {"over": x["over"], "text": x["q"]}, "why_tests_cant": x["why"],
    "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]],
                "observe_at": ["public API results of the modules in the listed files"], "hook_needed": None}}) + "\n" for x in P))
have = {f.stem.split("_")[0].upper() for f in (R / "tv" / "props").glob("c*.py")}
checks, na = [], []
for x in P:
    assert len(x["title"]) <= 80, x["title"]
    i = x["id"]
    if i in have and i not in NA:
        n = NOTES.get(i, {})
        checks.append({"property": i, "quick_cmd": f"./run.sh check {i} --tier quick", "thorough_cmd": f"./run.sh check {i} --tier thorough",
                       "technique": n.get("technique", "contract-based deductive verification: contracts on the real functions, VCs from symbolic execution of /repo's source, algebraic prover + z3"),
                       "level": n.get("level", "proof"),
                       "level_note": n.get("note", "Contracts discharged for all values and (where the evidence says so) all sizes; contracts the prover cannot reach are checked on concrete instances only and labelled bounded in the evidence. Trusts: the verifier in tv/, ATen operator contracts, exact real arithmetic for floats, z3.")})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
(R / "MANIFEST.json").write_text(json.dumps({"version": 1, "setup_cmd": "./run.sh setup", "checks": checks, "not_applicable": na}, indent=1) + "\n")
