"""Writes /verif/properties.jsonl (kept in step by hand with MANIFEST.json)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Target labels never influence what unsupervised adaptation learns",
 "Fitting any domain-adaptation pipeline, adapter or domain-aware estimator twice on the same data, once with the target samples carrying their true labels, once with arbitrary other labels or with the documented mask, yields identical predictions, transformed samples and weights. The only components that may read target labels are the ones that say so (selectors that fit on target samples, pipelines built with target masking switched off, optimal-transport mapping adapters and the gradual estimator when handed partially labelled targets directly, whose method is semi-supervised).",
 ["inputs", "configurations", "programs"],
 "every estimator/adapter shipped, every pipeline built from them, every labelling of the target samples, every arrangement of the domains",
 "Tests fit each method once on one toy dataset whose labels are often already masked; leakage through a label that is read but rarely matters is invisible to a score check.",
 ["skada/base.py", "skada/_pipeline.py", "skada/_utils.py", "skada/_ot.py", "skada/_mapping.py", "skada/_reweight.py", "skada/_subspace.py", "skada/_self_labeling.py", "skada/_gradual_da.py"],
 [("selectors mask target labels before fitting", "skada/base.py BaseSelector"), ("masked samples are dropped before plain estimators", "skada/_utils.py"), ("adapters split source and target and use source labels only", "skada/_*.py fit methods")],
 ["predict / predict_proba / transform outputs of twin fits that differ only in target labels", "labels received by a recording base estimator"])

prop("C02", "No public operation modifies the caller's arrays",
 "Samples, labels, domain labels, weights, label masks and domain collections handed to any public operation (fit, transform, predict, score, splitting, merging, packing, scoring, resampling, loss computation) are bitwise unchanged after the call returns or raises. In particular, fitting a pipeline does not overwrite the target labels of the array that was passed in.",
 ["inputs", "programs", "histories"],
 "every public operation, every array argument, every dtype and memory layout, including sequences of operations sharing the same arrays",
 "Tests pass fresh copies and look only at results; an in-place write goes unseen unless every argument is compared before and after.",
 ["skada/base.py", "skada/utils.py", "skada/_mapping.py", "skada/_reweight.py", "skada/metrics.py", "skada/datasets/_base.py", "skada/transformers.py", "skada/model_selection.py", "skada/deep/base.py"],
 [("operations copy before masking or moving samples", "skada/base.py, skada/_mapping.py, skada/datasets/_base.py")],
 ["content digests of every argument before and after each call", "the same calls on read-only arrays"])

prop("C03", "Row i of every output belongs to row i of the input",
 "Whatever the order in which source and target samples (of any number of domains) are interleaved, row i of a transformed, reweighted, relabelled or predicted output corresponds to row i of the input. Consequently jointly permuting the rows of samples, labels and domain labels permutes the outputs in the same way and changes nothing else (beyond randomness that is drawn per row position, and ties of a non-unique exact transport plan).",
 ["inputs", "configurations"],
 "all interleavings of source and target rows, any number of source and target domains, fit-time and predict-time data, for every adapter, estimator, selector and scorer",
 "Tests use data where all source rows precede all target rows, the one arrangement in which misaligned reassembly is invisible.",
 ["skada/utils.py", "skada/_subspace.py", "skada/_mapping.py", "skada/_reweight.py", "skada/_ot.py", "skada/_utils.py", "skada/base.py"],
 [("split into source/target and merge back by domain labels", "skada/utils.py source_target_split/source_target_merge"), ("per-domain outputs scattered back by index", "skada/_utils.py, skada/base.py")],
 ["outputs of twin runs on permuted input", "sorted (sources first) versus interleaved runs"])

prop("C04", "Selectors route every sample exactly once to the right estimator",
 "A selector hands to its inner estimator exactly the samples its rule names (all unmasked samples, only source, only target, one estimator per domain, or one per role), each once, with its own label, domain label and metadata; and outputs of the inner estimators are put back at the rows they came from. Samples whose label is masked never reach a plain (not domain-aware) estimator's fit, and an inner estimator is never fitted on, or asked about, another role's samples.",
 ["inputs", "configurations", "programs"],
 "all selectors, transformer/classifier/regressor/domain-aware inner estimators, all domain arrangements, label types, masks and metadata",
 "Tests check only final scores or shapes on one source/target arrangement; they never observe what the inner estimator received.",
 ["skada/base.py", "skada/_utils.py"],
 [("routing and masking in selectors", "skada/base.py Shared, PerDomain, SelectSource, SelectTarget, SelectSourceTarget"), ("removal of masked samples", "skada/_utils.py")],
 ["event log of a recording estimator: sample ids, labels, weights and domain labels per call"],
 [("sample identity column", "a unique id embedded in each sample so that received rows can be attributed", "harness")])

prop("C05", "Values an adapter produces reach later steps attached to their own samples",
 "Sample weights, relabelled targets or moved samples produced by an adaptation step arrive at every later step of the pipeline attached to the samples they were computed for, with samples dropped by masking dropped together with their weight. When a downstream estimator that accepts a produced value has not declared whether it wants it, fitting fails with an explicit error instead of silently ignoring it. Weights the caller gives to the fit of a pipeline reach every step that asked for them, and no other.",
 ["inputs", "configurations", "programs"],
 "all adapters producing weights, labels or samples, all downstream step kinds and routing declarations, any interleaving of domains",
 "Tests check that the pipeline fits; none records the weights and labels the final estimator actually received.",
 ["skada/base.py", "skada/_pipeline.py", "skada/_utils.py", "skada/_reweight.py", "skada/_ot.py"],
 [("container carrying samples, labels and metadata between steps", "skada/base.py"), ("metadata routing check", "skada/base.py selectors")],
 ["event log of recording intermediate and final estimators compared with the adapter run stand-alone"])

prop("C06", "A domain-adaptation pipeline equals the composition of its steps",
 "A pipeline assembled from adapters, transformers and an estimator produces the same results as applying those components one after another by hand, whatever mixture of bare estimators, named steps, selectors and nested pipelines it was assembled from. Step names are unique and predictable, user-given names are kept, parameters are reachable through them, and invalid specifications (unknown selectors, duplicate names) are rejected with a clear error.",
 ["programs", "configurations", "inputs"],
 "all step lists built from bare estimators, (name, estimator) pairs, selectors, selector names and nested pipelines",
 "Tests cover a handful of step lists; composition depends on every combination of naming, nesting and selector choice.",
 ["skada/_pipeline.py", "skada/base.py"],
 [("step wrapping, naming and flattening", "skada/_pipeline.py make_da_pipeline")],
 ["step names and parameters", "outputs of pipeline versus hand-composed reference"])

prop("C07", "Parameters, cloning and refitting follow the estimator contract",
 "Every estimator, adapter, selector and pipeline exposes its constructor parameters, a clone configured with them behaves identically when fitted on the same data, and changing a parameter afterwards has the effect of constructing with it. Fitting never alters the parameters an object was constructed with nor objects shared with other instances, and fitting an already fitted object on new data gives the same result as fitting a fresh one.",
 ["histories", "configurations", "programs"],
 "all estimators/adapters/selectors/pipelines, all parameter values, all sequences of clone, set-parameter, fit and refit operations",
 "Tests fit each instance once with one parameter set; history effects need sequences of operations on the same object.",
 ["skada/base.py", "skada/_pipeline.py", "skada/_reweight.py", "skada/_mapping.py", "skada/_ot.py", "skada/_gradual_da.py", "skada/_self_labeling.py"],
 [("get_params/set_params delegation", "skada/base.py BaseSelector"), ("learned state kept apart from parameters", "fit methods"), ("cloning of wrapped estimators before fit", "skada/base.py, skada/_reweight.py")],
 ["outputs of original, clone, refitted and reconfigured objects", "parameter snapshots before and after fit"])

prop("C08", "Seeded components are reproducible and leave global randomness alone",
 "Any component given a fixed integer seed returns the same result every time it is used, independently of the state of the process-wide random generators and of what ran before. Using a seeded component does not change the process-wide random generators.",
 ["histories", "inputs"],
 "all splitters, resamplers, generators, estimators, scorers and network modules taking a seed; all prior generator states",
 "Tests run each seeded component once or twice in a fresh process and never look at the global generator state.",
 ["skada/model_selection.py", "skada/transformers.py", "skada/datasets/_samples_generator.py", "skada/metrics.py", "skada/_reweight.py", "skada/deep/_adversarial.py", "skada/deep/utils.py"],
 [("local random generators derived from the seed", "check_random_state / check_generator uses")],
 ["results under perturbed global generator state", "digest of global generator state before and after"])

prop("C09", "Splitting by domain and merging back loses and invents nothing",
 "Splitting arrays by role or by domain partitions the rows (each row in exactly one part, original order and values kept) and merging the parts with the same domain labels restores the original arrays exactly. Merging keeps values and types (no truncation or rounding), places absent target labels as the documented mask, and refuses inconsistent parts.",
 ["inputs"],
 "all domain labellings, array dimensions, dtypes, numbers of arrays and domains, empty parts",
 "Tests use one float dataset with sources first; dtype mixes, interleavings, n-d arrays and empty parts are not covered.",
 ["skada/utils.py"],
 [("source_target_split, per_domain_split, source_target_merge, extract_* helpers", "skada/utils.py")],
 ["returned arrays compared with an independent reference"])

prop("C10", "Domain labels are validated as declared",
 "The validators accept a combination of samples, labels and domain labels exactly when the stated permissions (source allowed, several sources, several targets, automatic domain labels) allow it, otherwise they raise an error; missing domain labels are derived as documented. Domain-aware estimators refuse to be fitted with domain labels whose length differs from the samples; adapters, and pipelines containing one, refuse mis-sized labels and refuse to transform or predict source samples unless the caller allows sources.",
 ["inputs", "configurations"],
 "all permission combinations, all mixtures of source and target domains, masked and unmasked labels, missing or mis-sized domain labels, list or array inputs",
 "Tests exercise a few flag values on fixed data; correctness is about the whole product of flags and domain configurations.",
 ["skada/utils.py", "skada/base.py"],
 [("check_X_y_domain, check_X_domain", "skada/utils.py"), ("calls to validators from estimators", "skada/_*.py")],
 ["accept/reject outcome versus a decision table", "returned domain labels"])

prop("C11", "Packing a multi-domain dataset conserves samples, labels and domain signs",
 "Packing selected domains as sources and targets returns every sample of each selected domain exactly once per requested role with its own label, positive domain labels for sources, negative for targets and a stable name-to-label table; target labels are hidden whenever masking is requested, for every numeric or boolean label type. Selecting, merging, adding or leave-one-out packing of domains keeps samples, labels and names attached to each other and never silently replaces an existing domain.",
 ["inputs", "histories", "configurations"],
 "all collections of domains (named, unnamed, labelled, unlabelled, any dtype), all choices of sources/targets, masking options, and sequences of add/merge/select/pack operations",
 "Tests pack one or two small float datasets; name collisions, label dtypes, unlabelled domains and operation sequences are not explored.",
 ["skada/datasets/_base.py"],
 [("DomainAwareDataset add_domain/merge/select_domain/pack/pack_train/pack_test/pack_lodo", "skada/datasets/_base.py")],
 ["packed arrays versus a dictionary model of the collection"],
 [("domain_names_", "name to integer identifier", "skada/datasets/_base.py")])

prop("C12", "Synthetic datasets have the requested size and the requested kind of shift",
 "The generators return the documented number of samples, features, channels and classes per domain for every valid parameter choice, with target domains related to source domains by the requested shift and nothing else. All return forms (arrays, bundle, dataset object) of the same call with the same seed contain the same data, and every documented form of seed is accepted.",
 ["inputs", "configurations"],
 "all generator functions, all shift kinds, label kinds, sizes, noise and seed forms",
 "Tests check array shapes for default parameters only.",
 ["skada/datasets/_samples_generator.py", "skada/datasets/_base.py"],
 [("make_shifted_blobs, make_shifted_datasets, make_dataset_from_moons_distribution, make_variable_frequency_dataset", "skada/datasets/_samples_generator.py")],
 ["returned data versus invariants of each shift"])

prop("C13", "Domain-aware splitters produce valid, disjoint, domain-correct folds",
 "Every split of every domain-aware splitter consists of in-range, duplicate-free train and test indices that do not overlap; requested sizes are honoured, stratified variants keep the proportion of every domain and label, source/target variants never put a target sample in training or a source sample in testing when they promise not to, and leave-one-domain-out tests each eligible domain alone. The number of splits announced equals the number produced.",
 ["inputs", "configurations"],
 "all splitters, all domain labellings (including several sources, several targets, rare domains), sizes, seeds and numbers of splits",
 "Tests check a couple of layouts with balanced domains.",
 ["skada/model_selection.py"],
 [("SourceTargetShuffleSplit, StratifiedDomainShuffleSplit, DomainShuffleSplit, LeaveOneDomainOut", "skada/model_selection.py")],
 ["index arrays of every split checked by an independent set-based oracle"])

prop("C14", "Subsampling steps keep sample, label, domain and weights together",
 "A subsampling step returns a subset of the rows it was given, each row with its own label, domain label and metadata, of the requested size and (for domain-restricted or stratified variants) only touching or proportionally covering the intended domains. It only acts while fitting: predictions and transforms on new data keep every row.",
 ["inputs", "configurations", "programs"],
 "all subsamplers, absolute and fractional sizes, all domain mixtures, with and without weights and masked labels, alone or inside pipelines",
 "Tests check output lengths on one dataset.",
 ["skada/transformers.py", "skada/base.py"],
 [("Subsampler, DomainSubsampler, StratifiedDomainSubsampler", "skada/transformers.py")],
 ["row identity of outputs", "recording estimator downstream"])

prop("C15", "Cross-validation and search evaluate each fold on exactly its own rows",
 "When a domain-adaptation pipeline is cross-validated or tuned, each fit sees exactly the training rows of the fold with their own domain labels and masked targets, each score is computed on exactly the test rows, and the whole data set is unchanged afterwards. The scores equal those obtained by performing the folds by hand, and settings of the pipeline such as target-label masking survive the copies made for each fold.",
 ["programs", "histories", "configurations"],
 "all splitters, scorers, pipelines and search grids combined; any number of folds",
 "Tests only check that the number of scores is right and that none is NaN.",
 ["skada/model_selection.py", "skada/metrics.py", "skada/base.py", "skada/_pipeline.py"],
 [("metadata routing of domain labels through cross_validate/GridSearchCV", "skada/metrics.py, skada/base.py"), ("cloning of selectors", "skada/base.py")],
 ["event log of recording estimators across folds", "scores versus hand-run folds"])

prop("C16", "Adaptation scorers return the value their definition gives",
 "Each domain-adaptation scorer returns the value of its published definition computed from the estimator's own predictions on the rows it names (supervised, importance weighted, prediction entropy, neighbourhood density, embedded validation, circular validation, mixed-sample consistency, matrix-norm), with the documented shape and with its sign flipped exactly when declared a loss. The value is finite whenever the definition is.",
 ["inputs", "configurations"],
 "all scorers and options, all estimators with the needed methods, all arrangements of domains, extreme probabilities",
 "Tests only assert that cross-validated scores are not NaN; wrong formulas that yield finite numbers pass.",
 ["skada/metrics.py"],
 [("scorer implementations", "skada/metrics.py")],
 ["scorer result versus an independent reference fed with recorded predictions"])

prop("C17", "Unsupervised scorers ignore target labels and leave the estimator intact",
 "The value of a scorer that is meant for the unlabelled setting does not change when the labels of the target samples change (or are masked), nor when rows are reordered, beyond its own seeded randomness. Scoring never refits or otherwise alters the estimator being scored, nor the data.",
 ["inputs", "histories"],
 "all unsupervised scorers, all target labellings, all row orders, repeated scoring of the same estimator",
 "No test compares scores across target labellings, nor the estimator before and after scoring.",
 ["skada/metrics.py"],
 [("source/target split inside scorers", "skada/metrics.py"), ("copy of the estimator for circular validation", "skada/metrics.py")],
 ["scores of twin calls", "predictions and state digest of the estimator before and after"])

prop("C18", "Reweighting gives source samples valid importance weights as defined",
 "Every reweighting adapter attaches to each source sample a finite non-negative weight and to each target sample a weight of exactly zero, for any interleaving of samples, without touching the samples themselves. The weights are the target-to-source density ratio of the method's own model (density estimate, Gaussian, discriminator, nearest neighbours, kernel mean matching, likelihood fit, target-shift matching), so source regions where the target is more present never weigh less.",
 ["inputs", "configurations"],
 "all reweighting adapters and their options, all source/target distributions including duplicated, distant and tiny domains",
 "Tests check shapes and that the pipeline scores; inverted or misassigned weights pass.",
 ["skada/_reweight.py", "skada/utils.py"],
 [("compute_weights of each adapter", "skada/_reweight.py")],
 ["weights versus independent reference models", "optimality residuals of the method's own optimisation problem"])

prop("C19", "Mapping moves only source samples, by the map of the method",
 "Mapping adapters leave target samples exactly as they are (except for the own-domain map a method defines: centring in covariance alignment of non-centred data, the barycentre map in multi-domain linear alignment) and move source samples by the map their method defines (covariance alignment, linear or barycentric optimal transport, multi-domain linear alignment, conditional kernel matching): the statistics the method promises to match do match, couplings have the sample weights as marginals, and new source samples are moved consistently with the training ones. Input precision and scale are respected whatever the input number type.",
 ["inputs", "configurations"],
 "all mapping adapters and options, any numbers of samples, features and domains, integer or floating inputs",
 "Tests check output shapes, that sources moved and that accuracy improves on one toy problem.",
 ["skada/_mapping.py"],
 [("fit/transform of mapping adapters", "skada/_mapping.py")],
 ["moved samples versus reference computations and moment checks"])

prop("C20", "Subspace methods project every sample with the learned subspace of its role",
 "Subspace adapters project source and target samples into a common space of the requested dimension with the bases their method defines: aligned principal axes, transfer components, joint-matching components or an orthonormal discriminative basis. Transforming the training data reproduces what fitting returned, new samples are projected with the same map, and the learned basis satisfies the defining equation or constraint of the method.",
 ["inputs", "configurations"],
 "all subspace adapters, kernels, dimensions and domain arrangements",
 "Tests check dimensions and a score; the defining equations are never evaluated.",
 ["skada/_subspace.py"],
 [("fit/transform of subspace adapters", "skada/_subspace.py")],
 ["projected samples versus references", "constraint residuals"])

prop("C21", "Joint optimal-transport estimators respect their couplings and objectives",
 "Estimators based on joint or label-propagating optimal transport use couplings whose marginals are the sample weights, give each target sample the label mass transported to it from source labels only, train the final predictor on exactly those labels, and never end with a worse joint objective than they started with. Class names of any numbering and any number of target domains are handled, and prediction methods agree with each other.",
 ["inputs", "configurations"],
 "joint distribution regressors/classifiers, label propagation adapters; all metrics, class labels, weights, domain arrangements",
 "Tests fit once on two-class 0/1 data with one target domain and look at the score.",
 ["skada/_ot.py"],
 [("joint transport solvers and estimators", "skada/_ot.py"), ("label propagation adapters", "skada/_ot.py")],
 ["couplings, propagated labels and training sets recorded by a recording base estimator"])

prop("C22", "Self-training methods follow their step-by-step schedule",
 "Self-training methods evolve by their documented schedule: in the domain-adaptation SVM source samples only ever leave the training set, and target samples join it only from inside the margin and leave it again only when the next model changes their label, and gradual adaptation trains on each intermediate step in order, ending at the target, with the documented number of steps and labels produced by the previous model. The finished model predicts through all its prediction methods and does so consistently.",
 ["inputs", "histories", "configurations"],
 "all parameter settings (step sizes, iteration limits, base estimators), all binary/multiclass datasets supported, repeated fits",
 "Tests fit once with defaults and check the score or attribute lengths.",
 ["skada/_self_labeling.py", "skada/_gradual_da.py"],
 [("DASVM index updates", "skada/_self_labeling.py"), ("gradual steps and intermediate domains", "skada/_gradual_da.py")],
 ["history of index sets and intermediate training sets seen by a recording base estimator"])

prop("C23", "Numerical solvers return feasible and optimal points or say they did not",
 "The quadratic-program solver returns a point that satisfies every constraint and bound it was given and whose objective is optimal up to the tolerance, with both of its algorithms, and the gradient minimiser returns a point at which the objective is no larger than at the start with its value reported correctly. When the general-purpose solver or the gradient minimiser stops before convergence it warns; the Frank-Wolfe algorithm runs a fixed number of iterations and respects its convergence bound. The arrays describing the problem are left as they were.",
 ["inputs", "configurations"],
 "all convex problems with equality, inequality and bound constraints in the supported form, both solvers, all starting points",
 "Tests solve two small problems with one solver each.",
 ["skada/utils.py"],
 [("qp_solve, frank_wolfe, torch_minimize", "skada/utils.py")],
 ["returned point checked for feasibility and a duality/projected-gradient gap"])

prop("C24", "The deep-learning dataset keeps samples, labels, domains and weights together",
 "A deep dataset built from any supported representation contains every sample once with its own label, domain, weight and per-domain index; selecting, merging, splitting per domain, adding domains or weights, and converting back never reorder, drop, duplicate or mix these fields (weights are kept by merging and adding only when that is asked for). Missing labels and domains become the documented defaults (label -1 means no label) and invalid combinations are rejected.",
 ["inputs", "histories"],
 "all input representations, all sequences of container operations",
 "Tests perform a few operations on one example.",
 ["skada/deep/base.py"],
 [("DeepDADataset operations", "skada/deep/base.py")],
 ["container contents versus a list-of-records model"])

prop("C25", "Domain-aware batching balances domains and uses every sample fairly",
 "Balanced loading yields batches with exactly as many source as target samples, and domain-restricted loading only samples of that domain; the number of batches announced is the number produced. Within one pass over the data no sample is repeated before every sample of its role has been used once, and each sample arrives with its own label, domain, index and weight.",
 ["schedules", "inputs", "configurations"],
 "all dataset sizes, imbalances, batch sizes, sampling modes and random orders",
 "Tests count samples for one dataset size.",
 ["skada/deep/base.py"],
 [("balanced and domain-only samplers and loaders", "skada/deep/base.py")],
 ["event log of sample ids per batch checked by a conservation monitor"])

prop("C26", "Deep training uses source labels and unlabelled target samples only",
 "When a deep unsupervised adaptation network is trained, the supervised loss is computed on exactly the source predictions with their own labels (and weights), the adaptation loss receives source and target parts of the same batch, correctly separated, and the learned parameters do not depend on the labels of the target samples. Any non-negative domain label counts as source and any negative one as target, everywhere in training.",
 ["inputs", "schedules", "configurations"],
 "all deep methods, all target labellings, domain labels, batch compositions and weights",
 "Tests train for a few epochs and look at a score.",
 ["skada/deep/base.py", "skada/deep/_adversarial.py", "skada/deep/_divergence.py", "skada/deep/_optimal_transport.py", "skada/deep/_class_confusion.py", "skada/deep/_graph_alignment.py", "skada/deep/_baseline.py"],
 [("criterion separating source from target", "skada/deep/base.py DomainAwareCriterion"), ("loss weighting", "skada/deep/base.py DomainAwareNet"), ("feature collection by forward hooks", "skada/deep/base.py, skada/deep/utils.py")],
 ["recorded criterion inputs per batch", "parameters after twin trainings"])

prop("C27", "Deep adaptation losses equal their definitions",
 "Every adaptation loss (as the code documents it: correlation alignment, kernel mean discrepancy with kernels exp(-distance/sigma), joint optimal transport, contrastive class discrepancy, class confusion, adversarial, conditional adversarial, margin disparity, graph alignment, neighbour propagation) equals its definition, is finite as long as no class probability underflows to zero for every sample, and does not depend on the order of samples in the batch; the correlation, kernel mean and graph discrepancies vanish for identical domains. Gradients flow to the features, and the adversarial layer reverses and scales them.",
 ["inputs", "configurations"],
 "all losses, batch contents, sizes, numbers of classes, kernel and regularisation options",
 "Tests check that training runs, or compare a loss with itself.",
 ["skada/deep/losses.py", "skada/deep/_adversarial.py", "skada/deep/_graph_alignment.py", "skada/deep/modules.py"],
 [("loss functions", "skada/deep/losses.py"), ("gradient reversal and domain classifier", "skada/deep/modules.py")],
 ["loss values and gradients versus independent double-precision references and metamorphic relations"])

prop("C28", "Deep networks predict consistently, per sample and in order",
 "Prediction methods of a trained deep network agree with each other: class probabilities are valid, predicted classes are their arg-max, features and predictions come back in input order for exactly the rows requested (targets only unless sources are allowed), independently of batch size and of the container used for input. The score is the accuracy of those predictions on those rows, and predicting never changes the network.",
 ["inputs", "configurations", "histories"],
 "all input containers, domain mixtures, batch sizes, base criteria and call sequences",
 "Tests call each method once on a pure target set with one container.",
 ["skada/deep/base.py", "skada/deep/utils.py"],
 [("predict/predict_proba/predict_features/score", "skada/deep/base.py")],
 ["outputs of equivalent calls, network state digest before and after"])

prop("C29", "A sample's transform or prediction does not depend on its companions",
 "Once fitted, the transform or prediction of a sample depends only on the sample, its domain label and the fitted state: submitting rows one at a time, in chunks, duplicated or together with other rows (including exactly the training rows) gives the same result for each row. Calling prediction methods repeatedly or in any order gives the same answers and does not alter the fitted object.",
 ["inputs", "histories"],
 "all adapters, estimators and pipelines with out-of-sample prediction; all batch compositions and call orders",
 "Tests predict the training set or one test set once, in one batch.",
 ["skada/_subspace.py", "skada/_mapping.py", "skada/_ot.py", "skada/base.py", "skada/_self_labeling.py", "skada/_gradual_da.py"],
 [("out-of-sample transform paths versus training-set shortcuts", "skada/_subspace.py, skada/_mapping.py")],
 ["row-wise comparison of differently batched calls"])

prop("C30", "Training-time memories and centroids follow the data they summarise",
 "State that deep methods maintain during training stays faithful: the per-sample memory of a target sample is refreshed from that sample's own features and prediction with the documented momentum, class centroids are those of the source features of each class, clustering assigns each feature to its nearest centre, schedules advance once per epoch up to one. Caller-supplied callback lists are not altered.",
 ["histories", "schedules", "configurations"],
 "all training lengths, batch orders, momenta, datasets; clustering inputs and seeds",
 "Tests only run the training loop for a couple of epochs.",
 ["skada/deep/callbacks.py", "skada/deep/utils.py", "skada/deep/_graph_alignment.py", "skada/deep/_divergence.py"],
 [("memory bank, centroid and epoch callbacks", "skada/deep/callbacks.py"), ("spherical clustering", "skada/deep/utils.py")],
 ["state before and after every batch/epoch versus a reference update"],
 [("memory features/outputs", "momentum averages per target sample", "skada/deep/callbacks.py")])

prop("C31", "Results depend on what the arguments hold, not on their container",
 "Samples, labels, domain labels, target labels and weights may be given as arrays of any memory layout, read-only arrays, nested lists or pandas objects with any index: every row is identified by its position, and the same content gives the same learned model, outputs, splits and scores as plain arrays do; labels of any number type (boolean, unsigned, small or floating) stand for the same classes. This holds for adapters, pipelines, selectors, domain-aware estimators, splitting and merging helpers, resampling steps, splitters and scorers.",
 ["inputs", "configurations"],
 "every public operation on tabular data, every combination of containers for its arguments, every index of the pandas objects",
 "Tests pass plain arrays only; a row picked by index label instead of position is right whenever the index happens to be 0..n-1.",
 ["skada/utils.py", "skada/base.py", "skada/_utils.py", "skada/transformers.py", "skada/_mapping.py", "skada/_ot.py", "skada/_reweight.py", "skada/_subspace.py", "skada/metrics.py", "skada/model_selection.py"],
 [("validation and splitting of array-likes", "skada/utils.py"), ("row selection in selectors and resamplers", "skada/base.py, skada/_utils.py, skada/transformers.py")],
 ["outputs of twin runs on plain arrays and on other containers", "rows received by recording inner estimators"])

prop("C32", "Benchmark loaders return what is stored, and survive failed downloads",
 "The loaders of the benchmark datasets return every stored sample of the requested domain, part and categories exactly once, with its own features and label, in every return form; shuffling and subsampling only permute or drop samples and are reproducible from a seed. The data folder is the one asked for, data that is present is not downloaded again and data that is absent is downloaded or reported as asked. A download that fails with an exception at any stage (connection, integrity check, unpacking, interruption) raises, and leaves nothing behind that a later call would take for the data.",
 ["inputs", "faults", "histories"],
 "all contents of the archives, all options, a failure at every stage of a download followed by any later call",
 "The repository's own tests need the network and load one fixed archive; none makes a download fail.",
 ["skada/datasets/_office.py", "skada/datasets/_amazon_review.py", "skada/datasets/_office_home.py", "skada/datasets/_mnist_usps.py", "skada/datasets/_base.py"],
 [("loaders of the Office-31, Office-Home and Amazon-review features", "skada/datasets/_office.py, _office_home.py, _amazon_review.py"), ("digits loader", "skada/datasets/_mnist_usps.py"), ("data folder", "skada/datasets/_base.py")],
 ["rows and labels returned versus the generated archive", "downloads requested and folders left behind after an injected failure"])

prop("C33", "Copies, pickles and worker processes preserve configured and fitted objects",
 "A configured or fitted component, splitter, scorer, data set or trained network that is pickled, deep-copied, dumped to a file or sent to a worker process is configured alike, gives the same answers, can be cloned and refitted with the same outcome, and shares nothing with the original: whatever is done with the copy leaves the original as it was. Cross-validation with several workers gives the scores that one worker gives.",
 ["histories", "configurations"],
 "every shipped component in every state (configured, fitted, refitted), every way of copying it, any use of copy and original afterwards",
 "Tests fit and use objects in the process and the place where they were built; state that does not travel (closures, hooks, caches, shared defaults) goes unnoticed.",
 ["skada/base.py", "skada/_pipeline.py", "skada/metrics.py", "skada/model_selection.py", "skada/transformers.py", "skada/datasets/_base.py", "skada/deep/base.py"],
 [("fitted state kept in plain attributes", "skada/base.py and every adapter"), ("hooks of deep modules set up again for a copy", "skada/deep/base.py"), ("cloning of selectors", "skada/base.py")],
 ["answers of the original, of its copies and of the original again after its copy was used", "scores of one and of several workers"])

prop("C34", "Threads working at the same time do not disturb each other",
 "Components, splitters, scorers, resampling steps and data sets used by several threads at once (each thread with its own object, with copies of one template, or all asking one fitted object; feature extraction from one shared deep network excepted) give every thread exactly the result it would get alone. Arrays and templates shared by the threads stay as they were.",
 ["schedules", "configurations"],
 "every schedule of threads fitting, transforming, predicting, scoring, splitting or packing with separate or shared objects",
 "Tests are sequential; a value parked on a shared object between two statements is right in every sequential run.",
 ["skada/__init__.py", "skada/base.py", "skada/_pipeline.py", "skada/metrics.py", "skada/_mapping.py", "skada/_reweight.py", "skada/_subspace.py", "skada/_ot.py", "skada/model_selection.py", "skada/datasets/_base.py", "skada/deep/base.py"],
 [("intermediate results held in local variables, fitted attributes written by fit only", "every adapter, selector and scorer"), ("metadata routing switched on per thread", "skada/__init__.py")],
 ["results of each thread versus its sequential result under perturbed schedules", "sequence of threads entering the library's functions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
