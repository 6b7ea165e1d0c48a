"""C16: the value of every scorer against its definition, computed again from the estimator's own predictions."""
import numpy as np
from scipy.special import log_softmax
from sklearn.base import BaseEstimator, ClassifierMixin, clone
from sklearn.decomposition import PCA
from sklearn.linear_model import LinearRegression, LogisticRegression, Ridge
from sklearn.metrics import accuracy_score, balanced_accuracy_score, f1_score, r2_score
from sklearn.mixture import GaussianMixture
from sklearn.model_selection import cross_val_score, train_test_split
from sklearn.naive_bayes import GaussianNB
from sklearn.neighbors import KernelDensity, KNeighborsClassifier
from sklearn.preprocessing import LabelEncoder, StandardScaler
from sklearn.svm import SVC
from sklearn.tree import DecisionTreeClassifier

from skada import (CORALAdapter, DensityReweightAdapter, OTMappingAdapter, PerDomain, SelectSource, Shared, SubspaceAlignmentAdapter,
                   make_da_pipeline)
from skada.metrics import (CircularValidation, DeepEmbeddedValidation, ImportanceWeightedScorer, MaNoScorer, MixValScorer,
                           PredictionEntropyScorer, SoftNeighborhoodDensity, SupervisedScorer)

from .. import gen, zoo
from ..core import Skip, case

RT = dict(rtol=1e-7, atol=1e-10)


class Table(ClassifierMixin, BaseEstimator):
    """Probabilities read from a table: the row is named by the first column."""

    def __init__(self, table=None, classes=None):
        self.table, self.classes = table, classes

    def fit(self, X, y):
        self.classes_ = np.asarray(self.classes)
        return self

    def predict_proba(self, X):
        return self.table[np.rint(X[:, 0]).astype(int)]

    def predict(self, X):
        return self.classes_[self.predict_proba(X).argmax(1)]

    def score(self, X, y, sample_weight=None):
        return float(np.average(self.predict(X) == y, weights=sample_weight))


class TableLog(Table):
    def predict_log_proba(self, X):
        with np.errstate(divide="ignore"):
            return np.log(self.predict_proba(X))


# ------------------------------------------------------------------ definitions
def entropy_rows(P, L=None):
    """-sum p log p per row, 0 log 0 = 0."""
    P = np.asarray(P, float)
    with np.errstate(divide="ignore", invalid="ignore"):
        t = -P * (np.log(P) if L is None else L)
    return np.where((P == 0), 0., t).sum(1)


def snd(P, T):
    P = np.asarray(P, float)
    Z = P / np.maximum(np.sqrt((P ** 2).sum(1, keepdims=True)), 1e-300)
    S = Z @ Z.T / T
    i = np.arange(len(S))
    S[i, i] = -S[i, i]
    S = S - S.max(1, keepdims=True)
    Q = np.exp(S)
    Q /= Q.sum(1, keepdims=True)
    with np.errstate(divide="ignore", invalid="ignore"):
        return np.where(Q > 0, -Q * np.log(Q), 0).sum(1).mean()


def mano(P, p):
    P = np.asarray(P, float)
    return (P ** p).mean() ** (1 / p)


def iw_weights(We, Xs, Xt):
    a, b = clone(We).fit(Xs), clone(We).fit(Xt)
    w = np.exp(b.score_samples(Xs) - a.score_samples(Xs))
    return w / w.sum() if w.sum() > 0 else np.full(len(w), 1 / len(w))


def dev_value(ftr, fva, ft, err, D):
    c = clone(D).fit(np.concatenate([ftr, ft]), np.r_[np.ones(len(ftr), int), np.zeros(len(ft), int)])
    q = c.predict_proba(fva)
    w = len(ftr) / len(ft) * q[:, 0] / q[:, 1]
    wl = w * err
    v = np.var(w, ddof=1)
    eta = 0. if v == 0 else -(np.sum((wl - wl.mean()) * (w - w.mean())) / (len(w) - 1)) / v
    return wl.mean() + eta * w.mean() - eta


def ce(y, P):
    return -np.log(np.clip(P[np.arange(len(y)), y.astype(int)], 1e-15, 1 - 1e-15))


def signed(v, better):
    return v if better else -np.asarray(v)


# ------------------------------------------------------------------ workloads
@case("C16", quick=900, thorough=15000, requires=["values", "finite"])
def tables(rec, rng):
    """Scorers on arbitrary probability tables, with exact zeros, ones and ties."""
    k = int(rng.integers(2, 5))
    labels = list(range(k)) if rng.random() < .6 else sorted(rng.choice(20, k, replace=False).tolist())
    d = gen.da(rng, "clf", n_per=(6, 15), labels=labels)
    n = len(d.X)
    d.X[:, 0] = np.arange(n)
    style = zoo.pick(rng, ["dirichlet", "onehot", "mixed", "uniform", "tiny"])
    P = rng.dirichlet(np.full(k, zoo.pick(rng, [.2, 1., 5.])), n)
    H = np.eye(k)[rng.integers(0, k, n)]
    if style == "onehot":
        P = H
    elif style == "mixed":
        P = np.where(rng.random((n, 1)) < .5, H, P)
    elif style == "uniform":
        P = np.full((n, k), 1 / k)
    elif style == "tiny":
        P = (1 - 1e-12) * H + 1e-12 * P
        P /= P.sum(1, keepdims=True)
    logs = bool(rng.random() < .6)
    clf = (TableLog if logs else Table)(P, labels).set_score_request(sample_weight=True)
    pipe = make_da_pipeline(clf).fit(d.X, d.y, sample_domain=d.sd)
    t = ~d.src
    y = d.mask() if rng.random() < .5 else d.y
    better = bool(rng.random() < .5)
    with rec.context(style=style, log_proba=logs, sd=d.sd, better=better, labels=labels):
        def run(s, key, **kw):
            with rec.call(key):
                v = s(pipe, d.X, y, sample_domain=d.sd, **kw)
            rec.expect(np.isfinite(v).all(), key + ":finite", "the value is not finite although its definition is", got=v)
            rec.event("finite")
            rec.event("values")
            return v
        # entropy
        H1 = entropy_rows(P[t], None if logs else np.log(P[t] + 1e-7))
        v = run(PredictionEntropyScorer(greater_is_better=better, reduction="none"), "entropy-none")
        if rec.expect(np.shape(v) == (int(t.sum()),), "entropy:shape", "one value per target sample is documented", got=np.shape(v)):
            rec.close(v, signed(H1, better), "entropy:none", "not the entropy of each target sample", rtol=1e-6, atol=1e-6)
        v = run(PredictionEntropyScorer(greater_is_better=better, reduction="sum"), "entropy-sum")
        rec.close(v, signed(H1.sum(), better), "entropy:sum", "not the summed entropy", rtol=1e-6, atol=1e-5)
        v = run(PredictionEntropyScorer(greater_is_better=better, reduction="mean"), "entropy-mean")
        m = signed(H1.mean(), better)
        if not np.isclose(v, m, rtol=1e-6, atol=1e-6):
            if np.isclose(v * k, m, rtol=1e-6, atol=1e-6):
                rec.violate("entropy-mean-divided-by-classes", "the mean entropy is divided by the number of classes too", got=v, want=m)
            else:
                rec.violate("entropy:mean", "not the mean entropy", got=v, want=m)
        # neighbourhood density
        T = float(zoo.pick(rng, [.05, .02, .2, 1.]))
        s = SoftNeighborhoodDensity(T=T, greater_is_better=better)
        if rng.random() < .3 and better:
            s, T = SoftNeighborhoodDensity(), .05
        rec.close(run(s, "snd"), signed(snd(P[t], T), better), "snd", "not the entropy of the neighbourhood similarities", rtol=1e-6, atol=1e-8)
        # matrix norm
        p = int(zoo.pick(rng, [4, 1, 2, 3, 7]))
        rec.close(run(MaNoScorer(p=p, greater_is_better=better), "mano"), signed(mano(P[t], p), better), "mano",
                  "not the normalised p-norm of the target probabilities", **RT)
        # supervised
        pred = np.asarray(labels)[P.argmax(1)]
        rec.close(run(SupervisedScorer(greater_is_better=better), "supervised", target_labels=d.y), signed(np.mean(pred[t] == d.y[t]), better),
                  "supervised", "not the accuracy on the target samples with their true labels", **RT)
        # importance weighting
        We = zoo.pick(rng, [KernelDensity(), KernelDensity(bandwidth=.4), KernelDensity(bandwidth=40.), GaussianMixture(1, random_state=0)])
        s = ImportanceWeightedScorer(weight_estimator=We, greater_is_better=better)
        if isinstance(We, KernelDensity) and We.bandwidth == 1.0:
            s = ImportanceWeightedScorer(greater_is_better=better)
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            v = run(s, "iw")
        w = iw_weights(We, d.X[d.src], d.X[t])
        rec.close(v, signed(np.average(pred[d.src] == d.y[d.src], weights=w), better), "iw",
                  "not the source accuracy weighted by the density ratio", rtol=1e-6, atol=1e-9)
        # embedded validation on the raw features (no transformer)
        seed = int(rng.integers(1000))
        loss = zoo.pick(rng, ["ce", "sq", "col"] if labels == list(range(k)) else ["sq", "col"])
        hot = lambda yy, q: (np.eye(k)[np.searchsorted(labels, yy)] - q)
        fn = {"ce": None, "sq": lambda yy, q: (hot(yy, q) ** 2).sum(1), "col": lambda yy, q: np.abs(hot(yy, q)).sum(1, keepdims=True)}[loss]
        D = zoo.pick(rng, [LogisticRegression(), LogisticRegression(C=.01), GaussianNB(var_smoothing=.5)])
        s = DeepEmbeddedValidation(domain_classifier=None if rng.random() < .3 else D, loss_func=fn, random_state=seed, greater_is_better=better)
        if s.domain_classifier is None:
            D = LogisticRegression()
        i = np.flatnonzero(d.src)
        itr, iva = train_test_split(i, test_size=.33, random_state=np.random.RandomState(seed))
        err = ce(d.y[iva], P[iva]) if fn is None else np.ravel(fn(d.y[iva], P[iva]))
        want = dev_value(d.X[itr], d.X[iva], d.X[t], err, D)
        if np.isfinite(want) and abs(want) < 1e8:
            rec.close(run(s, "dev"), signed(want, better), "dev", "not the embedded validation risk", rtol=1e-5, atol=1e-7, loss=loss)
    rec.seen("table", style, k, P)
    rec.sample(style=style, classes=k, snd=float(snd(P[t], T)), iw_weights=w[:5])


def models(rng, d):
    final = {"lr": LogisticRegression(), "nb": GaussianNB(), "tree": DecisionTreeClassifier(max_depth=2, random_state=0),
             "knn": KNeighborsClassifier(3), "svc": SVC(probability=True, random_state=0)}[
        zoo.pick(rng, ["lr", "lr", "nb", "tree", "knn"])]
    pre = {"none": [], "scaler": [StandardScaler()], "pca": [StandardScaler(), PCA(2, random_state=0)],
           "coral": [CORALAdapter(reg=.1)], "ot": [OTMappingAdapter()], "sa": [SubspaceAlignmentAdapter(n_components=2, random_state=0)],
           "perdomain": [PerDomain(StandardScaler())], "dens": [DensityReweightAdapter()]}
    name = zoo.pick(rng, list(pre))
    return name, pre[name], final


@case("C16", quick=500, thorough=8000, requires=["values"])
def fitted_models(rec, rng):
    """Every scorer on fitted pipelines, against the pipeline's own predictions."""
    k = int(rng.integers(2, 4))
    d = gen.da(rng, "clf", n_per=(12, 24), p=3, labels=list(range(k)) if rng.random() < .7 else [2, 5, 7][:k], sep=float(zoo.pick(rng, [.7, 2.])))
    y = d.mask() if rng.random() < .6 else d.y.copy()
    name, pre, final = models(rng, d)
    wants_w = name == "dens"
    if wants_w:
        final = LogisticRegression().set_fit_request(sample_weight=True)
    if hasattr(final, "set_score_request"):
        final = final.set_score_request(sample_weight=True)
    pipe = make_da_pipeline(*pre, final).fit(d.X, y, sample_domain=d.sd)
    s, t = d.src, ~d.src
    better = bool(rng.random() < .5)
    with rec.context(pre=name, final=type(final).__name__, sd=d.sd, better=better, masked=bool((y != d.y).any())):
        with rec.call("predict"):
            Pt = pipe.predict_proba(d.X[t], sample_domain=d.sd[t])
            yt = pipe.predict(d.X[t], sample_domain=d.sd[t])
            Ps = pipe.predict_proba(d.X[s], sample_domain=d.sd[s], allow_source=True)
            ys = pipe.predict(d.X[s], sample_domain=d.sd[s], allow_source=True)

        def run(sc, key, **kw):
            with rec.call(key):
                v = sc(pipe, d.X, y, sample_domain=d.sd, **kw)
            rec.event("values")
            return v
        rec.close(run(SupervisedScorer(greater_is_better=better), "supervised", target_labels=d.y), signed(np.mean(yt == d.y[t]), better),
                  "supervised", "not the target accuracy", **RT)
        metric = zoo.pick(rng, [accuracy_score, balanced_accuracy_score, lambda a, b: f1_score(a, b, average="macro")])
        fn = lambda est, X, yy, sample_domain=None, **kw: metric(yy, est.predict(X, sample_domain=sample_domain, **{a: b for a, b in kw.items() if a == "allow_source"}))
        rec.close(run(SupervisedScorer(scoring=fn, greater_is_better=better), "supervised-callable", target_labels=d.y),
                  signed(metric(d.y[t], yt), better), "supervised-callable", "not the given metric on target samples", **RT)
        rec.close(run(PredictionEntropyScorer(greater_is_better=better, reduction="sum"), "entropy"), signed(entropy_rows(Pt).sum(), better),
                  "entropy:sum", "not the summed entropy", rtol=1e-5, atol=1e-4)
        rec.close(run(SoftNeighborhoodDensity(greater_is_better=better), "snd"), signed(snd(Pt, .05), better), "snd",
                  "not the neighbourhood entropy", rtol=1e-6, atol=1e-8)
        rec.close(run(MaNoScorer(greater_is_better=better), "mano"), signed(mano(Pt, 4), better), "mano", "not the matrix norm", **RT)
        # importance weighting
        if not isinstance(final, KNeighborsClassifier):
            w = iw_weights(KernelDensity(), d.X[s], d.X[t])
            rec.close(run(ImportanceWeightedScorer(greater_is_better=better), "iw"), signed(np.average(ys == d.y[s], weights=w), better), "iw",
                      "not the density-ratio weighted source accuracy", rtol=1e-6, atol=1e-9)
            fw = lambda est, X, yy, sample_domain=None, sample_weight=None, allow_source=False: np.sum(
                sample_weight * (est.predict(X, sample_domain=sample_domain, allow_source=allow_source) == yy))
            rec.close(run(ImportanceWeightedScorer(scoring=fw, greater_is_better=better), "iw-callable"),
                      signed(np.sum(w * (ys == d.y[s])), better), "iw-callable", "the weights handed to the metric do not sum to one", rtol=1e-6, atol=1e-9)
        # mixed samples
        if name != "perdomain":
            alpha = float(zoo.pick(rng, [.55, .7, .5, .3, .95]))
            ice = zoo.pick(rng, ["both", "intra", "inter"])
            seed = int(rng.integers(1000))
            perm = np.random.RandomState(seed).permutation(int(t.sum()))
            Xt = d.X[t]
            M = alpha * Xt + (1 - alpha) * Xt[perm]
            lab = yt if alpha >= .5 else yt[perm]
            same = yt == yt[perm]
            ok = pipe.predict(M, sample_domain=np.full(len(M), -1)) == lab
            parts = [ok[m].mean() if m.any() else np.nan for m in (same, ~same)]
            want = {"both": np.nanmean(parts), "intra": parts[0], "inter": parts[1]}[ice]
            if np.isfinite(want):
                rec.close(run(MixValScorer(alpha=alpha, ice_type=ice, random_state=seed, greater_is_better=better), "mixval"), signed(want, better),
                          "mixval", "not the interpolation consistency", **RT, alpha=alpha, ice=ice)
        # embedded validation: last transformer before the estimator, when it does not depend on the domain
        if name in ("none", "scaler", "pca", "dens") and list(d.labels) == list(range(k)):
            seed = int(rng.integers(1000))
            i = np.flatnonzero(s)
            itr, iva = train_test_split(i, test_size=.33, random_state=np.random.RandomState(seed))
            f = d.X
            for (_, st), raw in zip(pipe.steps[:-1], pre):
                if name != "dens":
                    f = st.get_estimator().transform(f)
            want = dev_value(f[itr], f[iva], f[t], ce(d.y[iva], pipe.predict_proba(d.X[iva], sample_domain=d.sd[iva], allow_source=True)),
                             LogisticRegression())
            if np.isfinite(want) and abs(want) < 1e7:
                rec.close(run(DeepEmbeddedValidation(random_state=seed, greater_is_better=better), "dev"), signed(want, better), "dev",
                          "not the embedded validation risk", rtol=1e-4, atol=1e-6)
    rec.seen("model", name, type(final).__name__, d.X)


@case("C16", quick=300, thorough=5000, requires=["circular", "constant-predictions"])
def circular(rec, rng):
    """Circular validation: the backward problem solved by hand."""
    task = zoo.pick(rng, ["clf", "clf", "reg"])
    k = int(rng.integers(2, 4))
    d = gen.da(rng, task, n_per=(12, 20), p=3, labels=[0, 1, 2][:k] if rng.random() < .5 else [3, 5, 9][:k], sep=1.5)
    y = d.mask()
    if task == "reg" and rng.random() < .2:
        d.y[:] = rng.normal(size=len(d.y))
        y = d.mask()
    dt = zoo.pick(rng, [None, "i4", "f8"]) if task == "clf" else None
    if dt:
        y = y.astype(dt)
    final = zoo.pick(rng, [LogisticRegression(), GaussianNB(), KNeighborsClassifier(3)]) if task == "clf" else zoo.pick(rng, [Ridge(), LinearRegression()])
    name, pre, _ = models(rng, d)
    if name == "dens":
        pre = []
    constant = task == "clf" and rng.random() < .25
    make = lambda: make_da_pipeline(*[clone(p) for p in pre], clone(final))
    yfit = y.copy()
    if constant:
        # a table answering a single class
        tab = np.tile(np.eye(k)[int(rng.integers(k))], (len(d.X), 1))
        d.X[:, 0] = np.arange(len(d.X))
        make = lambda: make_da_pipeline(TableLog(tab, d.labels))
    pipe = make().fit(d.X, yfit, sample_domain=d.sd)
    better = bool(rng.random() < .5)
    metric = zoo.pick(rng, [None, accuracy_score] if task == "clf" else [r2_score, lambda a, b: -np.mean(np.abs(a - b))])
    sc = CircularValidation(greater_is_better=better) if metric is None else CircularValidation(source_scorer=metric, greater_is_better=better)
    metric = metric or balanced_accuracy_score
    s, t = d.src, ~d.src
    with rec.context(pre=name, final=type(final).__name__, sd=d.sd, dtype=str(y.dtype)):
        yt = pipe.predict(d.X[t], sample_domain=d.sd[t])
        if len(set(yt.tolist())) == 1:
            want = metric(y[s], np.full(int(s.sum()), yt[0], dtype=y.dtype))
            rec.event("constant-predictions")
        else:
            back = make()
            le = LabelEncoder().fit(yt) if task == "clf" else None
            by = np.full(len(y), -1 if task == "clf" else np.nan, float)
            by[t] = le.transform(yt) if le else yt
            if task == "clf":
                by = by.astype(int)
            with rec.call("by-hand"):
                back.fit(d.X, by, sample_domain=-d.sd)
                ys = back.predict(d.X[s], sample_domain=-d.sd[s])
            want = metric(y[s], le.inverse_transform(ys) if le else ys)
        with rec.call("circular"):
            v = sc(pipe, d.X, y, sample_domain=d.sd)
        rec.close(v, signed(want, better), "circular", "not the score of the backward problem", rtol=1e-6, atol=1e-8)
        rec.event("circular")
    rec.seen("circular", name, d.X)


@case("C16", quick=110, thorough=1500, requires=["values"])
def regression(rec, rng):
    """Scorers that accept regression."""
    d = gen.da(rng, "reg", n_per=(10, 20))
    y = d.mask() if rng.random() < .5 else d.y.copy()
    pipe = make_da_pipeline(StandardScaler(), Ridge().set_score_request(sample_weight=True)).fit(d.X, y, sample_domain=d.sd)
    s, t = d.src, ~d.src
    better = bool(rng.random() < .5)
    with rec.call("supervised"):
        v = SupervisedScorer(greater_is_better=better)(pipe, d.X, y, sample_domain=d.sd, target_labels=d.y)
    rec.close(v, signed(r2_score(d.y[t], pipe.predict(d.X[t], sample_domain=d.sd[t])), better), "supervised", "not the target R2", **RT)
    if not np.isnan(y).any() or True:
        with rec.call("iw"):
            v = ImportanceWeightedScorer(greater_is_better=better)(pipe, d.X, y, sample_domain=d.sd)
        w = iw_weights(KernelDensity(), d.X[s], d.X[t])
        rec.close(v, signed(r2_score(d.y[s], pipe.predict(d.X[s], sample_domain=d.sd[s], allow_source=True), sample_weight=w), better), "iw",
                  "not the weighted source R2", rtol=1e-6, atol=1e-8)
    rec.event("values", 2)
    for name, sc in {"mano": MaNoScorer(), "mixval": MixValScorer()}.items():
        rec.rejects(f"regression:{name}", lambda: sc(pipe, d.X, y, sample_domain=d.sd), (ValueError, AttributeError), "a regression problem is scored")
    rec.seen("reg", d.X)


@case("C16", quick=60, thorough=500, requires=["rejections"])
def refusals(rec, rng):
    """What the documentation excludes is refused."""
    d = gen.da(rng, "clf", n_per=(10, 16), labels=[0, 1])
    fit = lambda e: make_da_pipeline(e).fit(d.X, d.y, sample_domain=d.sd)
    lr, svc = fit(LogisticRegression()), fit(SVC())
    V, A = ValueError, AttributeError
    rec.rejects("refuse:reduction", lambda: PredictionEntropyScorer(reduction="average"), V, "an unknown reduction is accepted")
    rec.rejects("refuse:ice", lambda: MixValScorer(ice_type="x"), V, "an unknown ice_type is accepted")
    rec.rejects("refuse:p", lambda: MaNoScorer(p=int(-rng.integers(0, 3))), V, "a non-positive order is accepted")
    rec.rejects("refuse:source_scorer", lambda: CircularValidation(source_scorer="accuracy"), V, "a non-callable source_scorer is accepted")
    for n, s in {"entropy": PredictionEntropyScorer(), "snd": SoftNeighborhoodDensity(), "dev": DeepEmbeddedValidation(), "mano": MaNoScorer()}.items():
        rec.rejects(f"refuse:proba:{n}", lambda: s(svc, d.X, d.y, sample_domain=d.sd), A, "an estimator without probabilities is scored")
    rec.rejects("refuse:circular-unmasked", lambda: CircularValidation()(lr, d.X, d.y, sample_domain=d.sd), V, "unmasked labels are accepted")
    rec.rejects("refuse:iw", lambda: ImportanceWeightedScorer()(lr, d.X, d.y, sample_domain=d.sd), V,
                "an estimator whose score takes no weights is accepted")
    rec.seen("refuse", d.X)


@case("C16", quick=10, thorough=20, requires=["documented-forms"])
def documented_forms(rec, rng):
    """`scoring` given as the documentation describes it: a name or a scikit-learn scorer."""
    from sklearn.metrics import make_scorer
    d = gen.da(rng, "clf", n_per=(12, 16), labels=[0, 1], ns=1, nt=1)
    pipe = make_da_pipeline(StandardScaler(), LogisticRegression().set_score_request(sample_weight=True)).fit(d.X, d.y, sample_domain=d.sd)
    t = ~d.src
    y = d.y
    for form, sc in (("string", "accuracy"), ("scorer", make_scorer(accuracy_score))):
        for name, S in (("supervised", SupervisedScorer), ("iw", ImportanceWeightedScorer), ("mixval", MixValScorer)):
            kw = {"target_labels": d.y} if name == "supervised" else {}
            rec.event("documented-forms")
            try:
                v = S(scoring=sc)(pipe, d.X, y, sample_domain=d.sd, **kw)
            except TypeError as e:
                rec.violate(f"scoring-{form}-unusable:{name}", f"scoring given as a {form} is documented but raises: {e}"[:200], scorer=name)
                continue
            w = S()(pipe, d.X, y, sample_domain=d.sd, **kw) if name != "mixval" else v
            rec.close(v, w, f"scoring-{form}:{name}", "accuracy given by name is not the accuracy", **RT)
    # labels numbered otherwise than 0..k-1
    d2 = gen.da(rng, "clf", n_per=(12, 16), labels=[1, 2], ns=1, nt=1)
    p2 = make_da_pipeline(StandardScaler(), LogisticRegression()).fit(d2.X, d2.y, sample_domain=d2.sd)
    p1 = make_da_pipeline(StandardScaler(), LogisticRegression()).fit(d2.X, d2.y - 1, sample_domain=d2.sd)
    a = DeepEmbeddedValidation(random_state=0)(p1, d2.X, d2.y - 1, sample_domain=d2.sd)
    try:
        b = DeepEmbeddedValidation(random_state=0)(p2, d2.X, d2.y, sample_domain=d2.sd)
        ok = np.isclose(a, b, rtol=1e-6)
    except IndexError:
        ok = False
    if not ok:
        rec.violate("dev-needs-consecutive-labels", "the default loss reads class labels as column numbers of the probabilities")
    rec.event("documented-forms")
    rec.seen("forms", rec.idx)


def softmax(z):
    e = np.exp(z - z.max(1, keepdims=True))
    return e / e.sum(1, keepdims=True)


@case("C16", quick=66, thorough=900, requires=["deep-values", "taylor", "softmax"])
def deep(rec, rng):
    """Scorers on deep networks: freshly fitted (still in training mode) and after predictions."""
    import torch
    from skada.deep import DAN, CAN, CDAN, DANN, DeepCoral, SourceOnly
    from skada.deep.modules import ToyModule2D
    torch.manual_seed(int(rng.integers(1000)))
    k = int(rng.integers(2, 5))
    d = gen.da(rng, "clf", ns=1, nt=int(rng.integers(1, 3)), n_per=(16, 24), p=2, labels=list(range(k)), sep=2., y_dtype=np.int64)
    X = d.X.astype(np.float32)
    y = d.mask()
    kw = dict(layer_name="dropout", batch_size=8, max_epochs=int(rng.integers(1, 4)), train_split=None, verbose=0, lr=.1)
    m = ToyModule2D(n_classes=k, num_features=6)
    net = {"coral": lambda: DeepCoral(m, reg=.1, **kw), "dan": lambda: DAN(m, reg=.1, **kw), "source": lambda: SourceOnly(m, **kw),
           "dann": lambda: DANN(m, num_features=6, **kw)}[zoo.pick(rng, ["coral", "dan", "source", "dann"])]()
    net.fit(X, y, sample_domain=d.sd)
    if rng.random() < .5:
        scale = float(zoo.pick(rng, [60, 60, 15]))
        with torch.no_grad():       # confident logits: the other normalisation
            for prm in net.module_.base_module_.dense1.parameters():
                prm.mul_(scale)
    s, t = d.src, ~d.src
    order = rng.permutation(6)
    better = bool(rng.random() < .5)
    thr = float(zoo.pick(rng, [5, 5, 0, 1.2, -1, .3, .6, 50]))
    p = int(zoo.pick(rng, [4, 2]))
    seed = int(rng.integers(1000))
    scorers = {"mano": MaNoScorer(p=p, threshold=thr, greater_is_better=better), "entropy": PredictionEntropyScorer(reduction="sum", greater_is_better=better),
               "snd": SoftNeighborhoodDensity(greater_is_better=better), "dev": DeepEmbeddedValidation(random_state=seed, greater_is_better=better),
               "supervised": SupervisedScorer(greater_is_better=better), "iw": ImportanceWeightedScorer(greater_is_better=better)}
    with rec.context(net=type(net).__name__, sd=d.sd, k=k, threshold=thr, order=order):
        got = {}
        for i in order:
            n = list(scorers)[i]
            with rec.call(f"deep:{n}"):
                got[n] = scorers[n](net, X, y, sample_domain=d.sd, **({"target_labels": d.y} if n == "supervised" else {}))
        with rec.call("deep:forward"), torch.no_grad():
            mod = net.module_.eval()
            logits = mod(torch.tensor(X), sample_domain=torch.tensor(d.sd)).numpy().astype(float)
            P = net.predict_proba(X, sample_domain=d.sd, allow_source=True)
            F = net.predict_features(X)
        z = logits[t]
        phi = -np.mean(log_softmax(z, axis=1))
        if abs(phi - thr) > 1e-3:
            if phi > thr:
                q = softmax(z)
                rec.event("softmax")
            else:
                q = 1 + z + z ** 2 / 2
                q = q - q.min(1, keepdims=True)
                q /= q.sum(1, keepdims=True)
                rec.event("taylor")
            rec.close(got["mano"], signed(mano(q, p), better), "deep:mano", "not the matrix norm of the normalised logits", rtol=1e-4, atol=1e-5, phi=phi)
        H = entropy_rows(P[t], np.log(P[t].astype(np.float64) + 1e-7)).sum()
        rec.close(got["entropy"], signed(H, better), "deep:entropy", "not the summed entropy", rtol=1e-3, atol=1e-3)
        rec.close(got["snd"], signed(snd(P[t], .05), better), "deep:snd", "not the neighbourhood entropy", rtol=1e-3, atol=1e-4)
        pred = P.argmax(1)
        rec.close(got["supervised"], signed(np.mean(pred[t] == d.y[t]), better), "deep:supervised", "not the target accuracy", **RT)
        w = iw_weights(KernelDensity(), X[s], X[t])
        rec.close(got["iw"], signed(np.average(pred[s] == d.y[s], weights=w), better), "deep:iw", "not the weighted source accuracy", rtol=1e-5, atol=1e-6)
        i = np.flatnonzero(s)
        itr, iva = train_test_split(i, test_size=.33, random_state=np.random.RandomState(seed))
        want = dev_value(F[itr], F[iva], F[t], ce(d.y[iva], P[iva]), LogisticRegression())
        if np.isfinite(want) and abs(want) < 1e3:
            rec.close(got["dev"], signed(want, better), "deep:dev", "not the embedded validation risk", rtol=2e-2, atol=2e-2)
        rec.event("deep-values", len(got))
    rec.seen("deep", type(net).__name__, X)
