"""Per-property notes rendered by gen_design.py: (oracle, bounds and what is left out)."""
N = {
"C01": ("Twin run: identical data, identical seeds, identical generator state; the only difference is the label of "
        "target rows (true / permuted / other class / mask). Predictions, transforms, weights of both runs are compared "
        "value for value. A second, stronger monitor puts a recording step inside the pipeline and looks for any target "
        "label in any `fit` argument it receives.",
        "Components documented to read target labels are outside (SelectTarget around an estimator, pipelines with "
        "mask_target_labels=False, OT mapping adapters and DAGradual handed partially labelled targets directly)."),
"C02": ("SHA-1 digests (bytes, dtype, flags, list/dict contents) of every argument before and after every public call, "
        "also when the call raises.", "Calls on 0-length inputs are not digested; networks' own parameters are C28."),
"C03": ("Twin run under a joint permutation of rows; outputs un-permuted and compared. For the estimators that solve a "
        "linear program or an eigenproblem only permutations that leave the solution unique are compared (otherwise "
        "objective values are).", "KLIEP picks its centres by row position (its own seeded randomness), circular "
        "validation and mini-batch training draw per position; those are compared up to that randomness or skipped."),
"C04": ("Every row carries its identity in a feature column; recording estimators log which identities, labels, domains "
        "and metadata every inner `fit`/`predict`/`transform` received. An offline checker applies the selector's rule "
        "and decides exactly-once delivery, role purity, and that outputs return to the rows they came from.",
        "PerDomain/SelectSourceTarget.score and PerDomain.predict without domain labels are refused by skada (documented "
        "here as unsupported, not judged)."),
"C05": ("Provenance tracking: a producing step (recording adapter, or the real ones) attaches a value derived from the "
        "row's identity; each later step's log must hold that value for that identity, with masked rows dropped together "
        "with their value. Undeclared consumers must raise UnsetMetadataPassedError.",
        "Producers followed by a Subsampler need set_transform_request(sample_weight=True); without it skada raises."),
"C06": ("A ~150-line interpreter in the harness fits the same steps by hand (mask, select rows, fit, transform, merge) and "
        "every output of the pipeline must coincide. Names and parameters are compared with the documented naming rule. "
        "Cached pipelines are driven through histories that share one cache folder.",
        "Known finding: a *named* nested DA pipeline cannot be fitted (an existing test fixes its step names)."),
"C07": ("Twin histories: construct / clone / set_params / pickle-free copy / refit in random orders must be "
        "indistinguishable from a fresh object configured the same way; constructor arguments are digested before and "
        "after fit; inner objects shared by two owners must stay unfitted.",
        "Deep nets given a *module instance* continue training on refit (skorch's convention): not judged."),
"C08": ("Twin runs of every seeded component after scrambling numpy's and torch's global generators differently; global "
        "generator states are digested around each call.", "Components whose default inner estimator is an unseeded SVC "
        "or LogisticRegression are given seeded ones."),
"C09": ("A row-by-row reference (a list of (domain,row) records) plus conservation counts.", "Merging when only one role "
        "produces labels or weights in a *container* fills zeros for the other: not claimed."),
"C10": ("A decision table written from the documentation; all 2^7 permission combinations are enumerated against small "
        "domain mixtures, and random large ones on top.", "—"),
"C11": ("A list-of-domains model replayed in step with the real dataset over random operation histories.",
        "Known finding: string target labels are not masked (no mask exists for them in skada)."),
"C12": ("The generator's own definition, recomputed: blobs from scikit-learn with the same seed, the shift (covariate, "
        "target, concept drift, subspace) checked by its defining invariant, moons by their parametric curve, "
        "frequencies by spectrum.", "Subspace shift yields 4n rather than 8n points; pos=1.0 of moons raises: not claimed."),
"C13": ("Every produced fold is checked index by index; group proportions are bounded by the rounding that "
        "scikit-learn's own stratification allows.", "Domain label 0 in LeaveOneDomainOut is not claimed."),
"C14": ("Row identities are followed through the step; over many seeds each row must be kept and dropped at least once.",
        "—"),
"C15": ("The folds are carried out by hand with clones and compared with cross_validate / search results; recording "
        "estimators log each fold's rows.", "—"),
"C16": ("Each score recomputed from the estimator's own outputs in float64, from the definition in the cited paper; "
        "arbitrary probability tables (exact zeros, ones, ties) come from a stub estimator.",
        "Eight recorded findings: entropy mean divides by the number of classes, DEV needs labels numbered from 0, "
        "`scoring=` as name/scorer is documented but unusable (six variants)."),
"C17": ("Twin runs: other target labels / other row order; estimator state digested (attributes, parameters, buffers) "
        "before and after.", "—"),
"C18": ("Weights recomputed per method (KernelDensity, Gaussian log-densities, discriminator probabilities, neighbour "
        "counts; KMM/target shift by the optimality of their own quadratic program; KLIEP by its likelihood).",
        "Findings: KLIEP's update is not a maximiser and fails on disjoint supports; KMM's frank-wolfe option ignores B. "
        "DensityReweight's all-zero fall-back and Gaussian underflow are out of scope."),
"C19": ("Plans recomputed by scipy's LP (HiGHS) and a log-domain Sinkhorn; Gaussian maps by matrix square roots in "
        "float64; targets compared bitwise.", "EntropicOTMapping far from the training sources underflows in POT: skipped."),
"C20": ("PCA / TCA / TJM / TSL equations recomputed; reprojection of training data compared with fit's own output.",
        "TSL's kernel conventions (unsquared distances) are taken from the code, not the paper."),
"C21": ("Every alternation of JDOT recomputed from recorded base estimators by LP; marginals and objective monotonicity "
        "monitored; propagation compared with the plan's label mass.",
        "A class losing all of its (zero) weight in JDOTClassifier, and zero-weight targets in JDOTRegressor, raise: not claimed."),
"C22": ("Recording base estimators produce a trace of training sets; an offline checker decides the schedule "
        "(what joins, what leaves, inside the margin, order of steps).", "DASVM is binary only."),
"C23": ("Active-set enumeration gives the exact optimum of small QPs; the gradient minimiser is checked against its start "
        "and its reported value; non-convergence must warn.", "Findings: Frank-Wolfe treats one inequality as an equality "
        "and ignores bounds (recorded)."),
"C24": ("A list-of-records model over random operation histories.", "Negative strides, big-endian arrays, float class "
        "labels and 0-d inputs are refused by torch: not claimed."),
"C25": ("Batches drawn from the real loaders, each row identified; pass-level accounting of use before reuse.", "—"),
"C26": ("Recording criterion, adaptation loss and module log what each received in each training step; twin training "
        "with other target labels must give bitwise identical parameters.", "Weights multiply the adaptation loss too: not claimed."),
"C27": ("References in float64 numpy written from the documented formulas; finite differences for gradients; values also "
        "intercepted inside real training steps.", "mcc_loss underflow, nap_loss's column mask and the gradient conventions of "
        "detached weights are outside."),
"C28": ("Direct forward pass of the trained torch module, row by row.", "predict without sample_domain treats rows as sources."),
"C29": ("One fitted object asked the same question alone / chunked / duplicated / reordered / with strangers / as the exact "
        "training matrix; state digests between calls.", "Reweighters have no value for new rows other than zero/one conventions."),
"C30": ("Callbacks and losses observed step by step; a shadow memory and shadow centroids are maintained by the monitor.",
        "Finding: the memory bank is indexed per-domain, so two target domains share slots."),
"C31": ("Twin run: same content in another container (list, DataFrame/Series with shuffled or duplicate index, Fortran, strided, "
        "read-only, other integer width).", "Transformers emitting pandas or sparse output inside DA pipelines are unsupported."),
"C32": ("A loop-back stand-in for the network serves generated archives; faults are injected at each stage (connect, checksum, "
        "unpack, interrupt); loaders compared with what was stored.", "A SIGKILL during download is not modelled."),
"C33": ("The answers of the object before the journey are the oracle for the copy, for the copy refitted, and for the original after its "
        "copy was refitted on other data. Worker processes receive the object by pickle and send their answers back.",
        "Skorch checkpoints beyond parameters and joblib memory-mapping of huge arrays are not driven."),
"C34": ("Sequential twin: each thread's job is run alone first, then all at once with the interpreter's switch interval at 10 µs and "
        "delays injected (by a profile hook) at entries of skada functions; results must coincide, the sequence of threads entering "
        "functions is recorded and its distinct values counted.",
        "Finding: a plain thread lacks metadata routing until it switches it on (scikit-learn settings are per thread). "
        "`predict_features` of one *shared* deep net keeps features in the module's hook state and is not claimed; nor is concurrent "
        "training, which draws from torch's global generator."),
}
