"""C21: joint optimal transport estimators and label propagation."""
import copy
import warnings

import numpy as np
import ot
from scipy.spatial.distance import cdist
from sklearn.linear_model import LinearRegression, LogisticRegression, Ridge
from sklearn.metrics import accuracy_score, r2_score
from sklearn.svm import SVC

import skada
from skada import make_da_pipeline

from .. import gen, spies, zoo
from ..core import Skip, case
from .c19 import emd as uniform_emd, sinkhorn as uniform_sinkhorn

S = skada
LOG = []


def recording(cls):
    """The estimator class, writing down every fit with a copy of the fitted estimator."""
    class Rec(cls):
        def fit(self, X, y, sample_weight=None):
            if sample_weight is None:
                super().fit(X, y)
            else:
                super().fit(X, y, sample_weight=sample_weight)
            LOG.append((np.array(X), np.array(y), None if sample_weight is None else np.array(sample_weight), copy.deepcopy(self)))
            return self
    Rec.__name__ = Rec.__qualname__ = "Rec" + cls.__name__
    return Rec


class ProbaLogistic(LogisticRegression):
    """A classifier giving probabilities but not their logarithms."""
    predict_log_proba = property()


RecProba, RecLinear, RecRidge, RecLogistic, RecSVC = map(recording, (ProbaLogistic, LinearRegression, Ridge, LogisticRegression, SVC))


def plan(M, a, b):
    """Exact transport plan, and whether it is the only optimal one (perturbing the cost does not change it)."""
    from scipy.optimize import linprog
    n, m = M.shape
    A = np.zeros((n + m, n * m))
    for i in range(n):
        A[i, i * m:(i + 1) * m] = 1
    for j in range(m):
        A[n + j, j::m] = 1
    r = linprog(M.ravel(), A_eq=A, b_eq=np.r_[a, b], method="highs", options=dict(primal_feasibility_tolerance=1e-10, dual_feasibility_tolerance=1e-10))
    if r.status != 0:
        raise Skip("linear program failed")
    red = M.ravel() - A.T @ r.eqlin.marginals
    return r.x.reshape(n, m), bool((red[r.x < 1e-12] > 1e-6 * np.abs(M).max()).all()), r.fun


def weights(rng, d, zero_targets=False):
    """None, random positive weights, weights over several magnitudes, or some samples without weight."""
    k = rng.random()
    if k < .5:
        return None
    w = rng.uniform(.2, 2., len(d.X)) if k < .75 else 10. ** rng.uniform(-3, 1, len(d.X))
    if k > .9:
        z = rng.random(len(w)) < .25
        for side in ((d.src, ~d.src) if zero_targets else (d.src,)):
            if (~z & side).sum() >= 3:
                w[z & side] = 0
    return w


def ab(d, w):
    s = d.src
    if w is None:
        return np.full(s.sum(), 1 / s.sum()), np.full((~s).sum(), 1 / (~s).sum())
    return w[s] / w[s].sum(), w[~s] / w[~s].sum()


def marginals(rec, T, a, b, key, tol=1e-7):
    rec.must(T.shape == (len(a), len(b)), key + ":plan-shape", got=T.shape)
    rec.close(T.sum(1), a, key + ":marginals", "the coupling does not carry the weights of the sources", rtol=1e-5, atol=tol)
    rec.close(T.sum(0), b, key + ":marginals", "the coupling does not carry the weights of the targets", rtol=1e-5, atol=tol)
    rec.expect((T >= -1e-12).all(), key + ":negative", "negative transported mass")
    rec.event("couplings")


def agree(rec, a, d, key, last, clf):
    """All prediction methods answer with the last fitted estimator."""
    X, sd = gen.new_rows(rec_rng(rec), d, n=15, targets_only=True)
    for kw in (dict(), dict(sample_domain=sd)):
        with rec.call(key + ":predict"):
            p = np.asarray(a.predict(X, **kw))
        rec.equal(p, last.predict(X), key + ":predict", "predictions are not those of the last fitted estimator")
        if clf and hasattr(last, "predict_proba"):
            with rec.call(key + ":proba"):
                q = np.asarray(a.predict_proba(X, **kw))
            rec.close(q, last.predict_proba(X), key + ":proba", "probabilities are not those of the last fitted estimator", rtol=1e-9)
            rec.equal(np.asarray(last.classes_)[q.argmax(1)], p, key + ":agree", "predicted class and most likely class differ") if not isinstance(last, SVC) else None
        y = p if rec.idx % 2 else (rec_rng(rec).permutation(p))
        with rec.call(key + ":score"):
            sc = a.score(X, y, **kw)
        want = accuracy_score(y, p) if clf else r2_score(y, p)
        rec.close(sc, want, key + ":score", "score of the predictions", rtol=1e-9)
    rec.event("predictions", 2 * len(X))


def rec_rng(rec):
    return np.random.default_rng(rec.idx)


@case("C21", quick=250, thorough=4000, requires=["couplings", "transported-labels", "descents", "predictions"])
def joint_regression(rec, rng):
    """Every alternation recomputed by linear programming from the recorded estimators."""
    d = gen.da(rng, "reg", n_per=(5, 12), ns=int(rng.integers(1, 3)), nt=int(rng.integers(1, 3)), shift=float(zoo.pick(rng, [.3, 1.5])))
    s = d.src
    w = weights(rng, d)
    alpha = float(zoo.pick(rng, [.5, .1, .9, 0., 1.]))
    nit, tol = int(zoo.pick(rng, [1, 2, 5, 30])), float(zoo.pick(rng, [1e-5, 1e-12, .05]))
    base = zoo.pick(rng, [RecLinear(), RecLinear(), RecRidge(alpha=2.)])
    a = S.JDOTRegressor(base, alpha=alpha, n_iter_max=nit, tol=tol)
    LOG.clear()
    with rec.call("jdot-reg"), warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        kw = {} if w is None else dict(sample_weight=w)
        a.fit(d.X, d.mask() if rng.random() < .7 else d.y, sample_domain=d.sd, **kw)
    fits = list(LOG)
    pa, pb = ab(d, w)
    Xs, Xt, ys = d.X[s], d.X[~s], d.y[s]
    Mf = cdist(Xs, Xt, "sqeuclidean")
    Mf = Mf / Mf.mean()
    with rec.context(alpha=alpha, n_iter_max=nit, weighted=w is not None, sd=d.sd):
        rec.must(1 <= len(fits) <= nit, "jdot-reg:fits", "number of alternations", got=len(fits), limit=nit)
        rec.expect(len(a.lst_loss_ot_) == len(a.lst_loss_tgt_labels_) == len(fits), "jdot-reg:lists", "one recorded loss per alternation")
        if len(fits) < nit:
            o, t = a.lst_loss_ot_, a.lst_loss_tgt_labels_
            rec.expect(len(fits) > 1 and (abs(o[-1] - o[-2]) < tol or abs(t[-1] - t[-2]) < tol), "jdot-reg:stop", "stopped before the losses settled")
        elif not any("aximum" in str(x.message) for x in ws):
            o, t = a.lst_loss_ot_, a.lst_loss_tgt_labels_
            rec.expect(len(fits) > 1 and (abs(o[-1] - o[-2]) < tol or abs(t[-1] - t[-2]) < tol), "jdot-reg:warn", "the iteration limit was reached silently")
        marginals(rec, np.asarray(a.sol_.plan), pa, pb, "jdot-reg")
        Ml, last = cdist(ys[:, None], np.zeros((len(Xt), 1)), "sqeuclidean"), None
        chain = []
        for i, (X, y, sw, est) in enumerate(fits):
            rec.equal(X, Xt, "jdot-reg:rows", "the estimator was not trained on the target samples")
            if w is None:
                rec.expect(sw is None, "jdot-reg:weights", "unexpected sample weights")
            else:
                rec.close(sw / sw.sum(), pb, "jdot-reg:weights", "the target samples lost their weights", rtol=1e-9)
            M = (1 - alpha) * Mf + (alpha * Ml if i else 0)
            if i or alpha < 1:
                T, unique, val = plan(M, pa, pb)
                if unique:
                    rec.close(y, ys @ T / pb, "jdot-reg:labels", "the training labels are not those transported by the optimal coupling", rtol=1e-5,
                              atol=1e-6 * np.abs(ys).max(), iteration=i)
                    rec.event("transported-labels", len(y))
                    want = (((1 - alpha) * Mf + alpha * Ml) * T).sum()
                    rec.close(a.lst_loss_ot_[i], want, "jdot-reg:loss", "recorded joint loss", rtol=1e-5, atol=1e-8, iteration=i)
                elif i:
                    rec.close(a.lst_loss_ot_[i], val, "jdot-reg:loss", "recorded joint loss", rtol=1e-5, atol=1e-8, iteration=i)
            rec.close(a.lst_loss_tgt_labels_[i], np.mean((y - est.predict(Xt)) ** 2), "jdot-reg:label-loss", "recorded label loss", rtol=1e-7)
            rec.close(y @ pb, ys @ pa, "jdot-reg:mass", "transported labels do not have the weighted mean of the source labels", rtol=1e-6, atol=1e-7 * np.abs(ys).max())
            Ml = cdist(ys[:, None], est.predict(Xt)[:, None], "sqeuclidean")
            last = est
        if isinstance(base, LinearRegression):
            L = np.array(a.lst_loss_ot_)
            rec.expect((np.diff(L) <= 1e-8 * (1 + np.abs(L[:-1]))).all(), "jdot-reg:descent", "the joint objective grew", losses=L)
            rec.event("descents")
        agree(rec, a, d, "jdot-reg", last, False)
        rec.close(np.asarray(a.estimator_.predict(Xt)), last.predict(Xt), "jdot-reg:final", "the model is not the last fitted one")
    rec.seen("jdot-reg", alpha, nit, w is None, d.X)
    rec.sample(kind="jdot-reg", alternations=len(fits), losses=a.lst_loss_ot_[:4])


def class_cost(est, Y, Xt, metric):
    if metric == "multinomial":
        lp = np.maximum(est.predict_log_proba(Xt), np.log(1e-16)) if hasattr(est, "predict_log_proba") else np.log(est.predict_proba(Xt) + 1e-16)
        return -Y @ lp.T
    D = est.decision_function(Xt)
    D = np.stack([-D, D], 1) if D.ndim == 1 else D
    return np.maximum(0, 1 - (2 * Y - 1)[:, None] * D[None]).sum(2)


@case("C21", quick=250, thorough=4000, requires=["couplings", "transported-labels", "descents", "predictions"])
def joint_classification(rec, rng):
    labels = zoo.pick(rng, [[0, 1], [1, 2], [0, 1, 2], [3, 7], [2, 5, 11], [-5, 4, 9], [1, 0][::-1]])
    d = gen.da(rng, "clf", n_per=(5, 12), ns=int(rng.integers(1, 3)), nt=int(rng.integers(1, 3)), shift=float(zoo.pick(rng, [.3, 1.5])), labels=labels, sep=2.)
    s = d.src
    w = weights(rng, d, True)
    alpha = float(zoo.pick(rng, [.5, .1, .9, 0.]))
    nit, tol = int(zoo.pick(rng, [1, 2, 5, 20])), float(zoo.pick(rng, [1e-5, 1e-12, .05]))
    metric = zoo.pick(rng, ["multinomial", "multinomial", "hinge"])
    base = RecSVC(kernel="linear", decision_function_shape="ovr") if metric == "hinge" else zoo.pick(rng, [RecLogistic(), RecProba(C=2.), RecLogistic(C=1e4, max_iter=3000, tol=1e-9)])
    thr = float(zoo.pick(rng, [1e-6, 1e-6, .05]))
    a = S.JDOTClassifier(base, alpha=alpha, n_iter_max=nit, tol=tol, metric=metric, thr_weights=thr)
    y = d.y if labels[0] < 0 or rng.random() < .3 else d.mask()
    LOG.clear()
    with rec.call("jdot-clf"), warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        kw = {} if w is None else dict(sample_weight=w)
        try:
            a.fit(d.X, y, sample_domain=d.sd, **kw)
        except ValueError as e:
            if w is not None and ("class" in str(e) or "broadcast" in str(e)):
                raise Skip("a class holds no weight")
            raise
    fits = list(LOG)
    pa, pb = ab(d, w)
    Xs, Xt, ys = d.X[s], d.X[~s], d.y[s]
    nt = len(Xt)
    cl = np.unique(ys)
    Y = (ys[:, None] == cl[None]).astype(float)
    Mf = cdist(Xs, Xt, "sqeuclidean")
    Mf = Mf / Mf.mean()
    key = "jdot-" + metric
    with rec.context(alpha=alpha, metric=metric, n_iter_max=nit, weighted=w is not None, labels=labels, sd=d.sd):
        rec.must(1 <= len(fits) <= nit, key + ":fits", "number of alternations", got=len(fits), limit=nit)
        rec.expect(len(a.lst_loss_ot_) == len(a.lst_loss_tgt_labels_) == len(fits), key + ":lists", "one recorded loss per alternation")
        marginals(rec, np.asarray(a.sol_.plan), pa, pb, key)
        Ml, last = np.full((len(ys), nt), 10.), None
        for i, (X, yy, sw, est) in enumerate(fits):
            rec.must(sw is not None, key + ":weights", "the label masses were not handed to the estimator")
            mass = np.zeros((nt, len(cl)))
            for x, c, v in zip(X, yy, sw):
                j = np.flatnonzero((Xt == x).all(1))
                rec.must(len(j) == 1 and c in cl, key + ":rows", "trained on something else than a target sample with a source label", label=c)
                mass[j[0], np.searchsorted(cl, c)] += v
            M = (1 - alpha) * Mf + (alpha * Ml if i else 0)
            T, unique, val = plan(M, pa, pb)
            if unique:
                want = T.T @ Y * nt
                top = want.max()
                rec.close(np.where(want > 2 * thr * top, mass, 0), np.where(want > 2 * thr * top, want, 0), key + ":labels",
                          "the label masses are not those transported by the optimal coupling", rtol=1e-5, atol=1e-6, iteration=i)
                rec.expect((mass[want < .5 * thr * top - 1e-9] == 0).all(), key + ":threshold", "label masses below the threshold were kept")
                rec.event("transported-labels", nt)
                joint = (((1 - alpha) * Mf + alpha * Ml) * T).sum()
                rec.close(a.lst_loss_ot_[i], joint, key + ":loss", "recorded joint loss", rtol=1e-5, atol=1e-8, iteration=i)
            elif i:
                rec.close(a.lst_loss_ot_[i], val, key + ":loss", "recorded joint loss", rtol=1e-5, atol=1e-8, iteration=i)
            if list(est.classes_) != list(cl):
                raise Skip("a class vanished")
            Ml = class_cost(est, Y, Xt, metric)
            Lt = class_cost(est, np.eye(len(cl)), Xt, metric).T
            rec.close(a.lst_loss_tgt_labels_[i], (mass * Lt).sum() / nt, key + ":label-loss", "recorded label loss", rtol=1e-6, atol=1e-10)
            last = est
        if metric == "multinomial" and base.C > 1 and thr < 1e-3 and len(fits) > 1 and not any("onverge" in str(x.message) for x in ws):
            L = np.array(a.lst_loss_ot_)
            rec.expect(L[-1] <= L[0] + 1e-3, key + ":descent", "the joint objective ended larger than it began", losses=L)
            rec.expect((np.diff(L) <= 2e-2 * (1 + np.abs(L[:-1]))).all(), key + ":descent", "the joint objective grew", losses=L)
            rec.event("descents")
        rec.equal(np.asarray(a.classes_) if hasattr(a, "classes_") else np.asarray(last.classes_), cl, key + ":classes", "class labels")
        agree(rec, a, d, key, last, True)
    rec.seen(key, alpha, nit, tuple(labels), d.X)


class Mute:
    """Something that is no estimator."""


class Labels(LogisticRegression):
    """Predicts labels only."""
    predict_proba = property()
    predict_log_proba = property()
    decision_function = property()

    def predict(self, X):
        return self.classes_[(np.asarray(X) @ self.coef_.T + self.intercept_ > 0)[:, 0].astype(int)]


@case("C21", quick=60, thorough=600, requires=["rejections", "warnings", "defaults", "silent"])
def joint_contract(rec, rng):
    """Unusable bases and metrics are refused; the model warns about source rows; the default base is the documented one; printing changes nothing."""
    task = ("clf", "reg")[rec.idx % 2]
    d = gen.da(rng, task, n_per=(6, 12), labels=[0, 1])
    alpha = float(zoo.pick(rng, [.5, .2, .8]))
    make = (lambda b, **k: S.JDOTClassifier(b, alpha=alpha, n_iter_max=3, tol=1e-9, **k)) if task == "clf" else (lambda b, **k: S.JDOTRegressor(b, alpha=alpha, n_iter_max=3, tol=1e-9, **k))
    key = "jdot-contract:" + task
    fit = lambda o: o.fit(d.X, d.y, sample_domain=d.sd)
    with rec.context(task=task, alpha=alpha), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rec.rejects(key + ":no-estimator", lambda: make(Mute()), ValueError, "a base that cannot be fitted")
        if task == "clf":
            rec.rejects(key + ":metric", lambda: fit(make(LogisticRegression(), metric=zoo.pick(rng, ["mse", "Hinge", ""]))), ValueError, "unknown metric")
            rec.rejects(key + ":no-probabilities", lambda: fit(make(Labels())), ValueError, "cross-entropy cost from a base without probabilities")
            rec.rejects(key + ":no-decision", lambda: fit(make(Labels(), metric="hinge")), ValueError, "hinge cost from a base without decision function")
            rec.expect(not hasattr(make(SVC()), "predict_proba"), key + ":proba", "probabilities offered by a base that has none")
        with rec.call(key):
            default, given = fit(make(None)), fit(make(LogisticRegression() if task == "clf" else LinearRegression()))
            rec.close(np.asarray(default.predict(d.X), float), np.asarray(given.predict(d.X), float), key + ":default", "default base estimator", rtol=1e-9)
            rec.event("defaults")
            import contextlib, io
            with contextlib.redirect_stdout(io.StringIO()):
                loud = fit(make(None, verbose=True))
            rec.close(np.asarray(loud.predict(d.X), float), np.asarray(default.predict(d.X), float), key + ":verbose", "printing the losses changes the model", rtol=1e-9)
            rec.close(loud.lst_loss_ot_, default.lst_loss_ot_, key + ":verbose", "printing the losses changes them", rtol=1e-9)
            methods = {"predict": lambda **k: default.predict(d.X, **k), "score": lambda **k: default.score(d.X, d.y, **k)}
            if task == "clf":
                methods["predict_proba"] = lambda **k: default.predict_proba(d.X, **k)
            tg = np.where(d.sd >= 0, -3, d.sd)
            for n, f in methods.items():
                for sd, told in ((d.sd, True), (tg, False), (None, False)):
                    with warnings.catch_warnings(record=True) as ws:
                        warnings.simplefilter("always")
                        out = f(**({} if sd is None else dict(sample_domain=sd)))
                    rec.expect(any("ource domain" in str(x.message) for x in ws) == told, f"{key}:warning:{n}", "warning about source rows", source_rows=told)
                    ref = f() if sd is not None else out
                    rec.equal(np.asarray(out), np.asarray(ref), f"{key}:domains:{n}", "the domain column changes the answer")
                    rec.event("warnings" if told else "silent")
            if task == "clf":
                w = rng.uniform(.1, 3, len(d.y))
                rec.close(default.score(d.X, d.y, sample_weight=w), accuracy_score(d.y, default.predict(d.X), sample_weight=w), key + ":weighted-score", "weighted score", rtol=1e-9)
            else:
                w = rng.uniform(.1, 3, len(d.y))
                rec.close(default.score(d.X, d.y, sample_weight=w), r2_score(d.y, default.predict(d.X), sample_weight=w), key + ":weighted-score", "weighted score", rtol=1e-9)
    rec.seen("jdot-contract", task, alpha, d.X)


@case("C21", quick=330, thorough=5000, requires=["couplings", "propagated-labels", "pipelines"])
def label_propagation(rec, rng):
    task = zoo.pick(rng, ["clf", "clf", "reg"])
    labels = zoo.pick(rng, [[0, 1], [1, 2], [0, 1, 2], [3, 7], [2, 5, 11]])
    d = gen.da(rng, task, n_per=(5, 12), ns=int(rng.integers(1, 4)), nt=int(rng.integers(1, 3)), shift=float(zoo.pick(rng, [.3, 1.5])), labels=labels, sep=2.)
    s = d.src
    w = weights(rng, d)
    metric = zoo.pick(rng, ["sqeuclidean", "sqeuclidean", "euclidean", "cityblock"])
    Xs, Xt, ys = d.X[s], d.X[~s], d.y[s]
    M = cdist(Xs, Xt, metric)
    reg = zoo.pick(rng, [None, 0, .3, 1.])
    reg = reg * float(np.median(M)) if reg else reg
    a = S.OTLabelPropAdapter(metric=metric, reg=reg, n_iter_max=100000)
    y = d.mask() if rng.random() < .7 else d.y
    X0, y0 = d.X.copy(), y.copy()
    with rec.call("labelprop"), warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        kw = {} if w is None else dict(sample_weight=w)
        X, yo, p = a.fit_transform(d.X, y, sample_domain=d.sd, **kw)
    pa, pb = ab(d, w)
    with rec.context(task=task, metric=metric, reg=reg, weighted=w is not None, sd=d.sd):
        rec.equal(np.asarray(X), X0, "labelprop:X", "propagating labels changed the samples")
        rec.equal(y, y0, "labelprop:y", "the input labels were changed")
        if w is None:
            rec.expect(not p or p.get("sample_weight") is None, "labelprop:weights", "weights were invented")
        else:
            rec.equal(np.asarray(p["sample_weight"]), w, "labelprop:weights", "the sample weights are not passed on")
        yo = np.asarray(yo)
        rec.must(yo.shape == y.shape, "labelprop:shape", got=yo.shape)
        conv = not any("onverge" in str(x.message) for x in ws)
        marginals(rec, np.asarray(a.G_), pa, pb, "labelprop", 1e-5 if conv else 1e-2) if hasattr(a, "G_") and conv else None
        if not reg:
            T, unique, _ = plan(M, pa, pb)
        else:
            f, g, K = np.zeros(len(pa)), np.zeros(len(pb)), -M / reg
            from scipy.special import logsumexp
            for _ in range(5000):
                f0 = f
                f = np.log(pa) - logsumexp(K + g[None], axis=1)
                g = np.log(pb) - logsumexp(K + f[:, None], axis=0)
                if np.abs(f - f0).max() < 1e-12:
                    break
            T, unique = np.exp(K + f[:, None] + g[None]), conv
        tol = 1e-6 if not reg else 1e-3
        if task == "clf":
            rec.expect((yo[s] == -1).all(), "labelprop:sources", "source labels are not masked in the output")
            cl = np.unique(ys)
            mass = T.T @ (ys[:, None] == cl[None])
            o = np.sort(mass, 1)
            clear = (o[:, -1] - o[:, -2]) > 10 * tol * o[:, -1]
            rec.expect(np.isin(yo[~s], cl).all(), "labelprop:classes", "a propagated label is not a source label", got=np.unique(yo[~s]))
            if unique:
                rec.equal(yo[~s][clear], cl[mass.argmax(1)][clear], "labelprop:labels", "a target sample does not get the label with most transported mass")
                rec.event("propagated-labels", int(clear.sum()))
        else:
            rec.expect(np.isnan(yo[s]).all(), "labelprop:sources", "source labels are not masked in the output")
            if unique:
                rec.close(yo[~s], ys @ T / pb, "labelprop:values", "propagated values are not the transported means", rtol=10 * tol, atol=tol * np.abs(ys).max())
                rec.event("propagated-labels", int((~s).sum()))
        # the final estimator trains on exactly those labels
        if rec.idx % 3 == 0:
            spy = spies.SpyClassifier() if task == "clf" else spies.SpyRegressor()
            spies.take()
            with rec.call("labelprop:pipeline"), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                make_da_pipeline(S.OTLabelPropAdapter(metric=metric, reg=reg, n_iter_max=100000), spy).fit(d.X, y, sample_domain=d.sd)
                ref = S.OTLabelPropAdapter(metric=metric, reg=reg, n_iter_max=100000).fit_transform(d.X, y, sample_domain=d.sd)[1]
            ev = [x for x in spies.take() if x.call == "fit"]
            rec.must(len(ev) == 1, "labelprop:pipeline", "number of fits", got=len(ev))
            rec.equal(ev[0].X, Xt, "labelprop:pipeline", "the predictor was not trained on the target samples")
            rec.equal(ev[0].y, np.asarray(ref)[~s], "labelprop:pipeline", "the predictor was not trained on the propagated labels")
            rec.event("pipelines")
    rec.seen("labelprop", task, metric, reg is None, d.X)


@case("C21", quick=150, thorough=2500, requires=["propagated-labels", "pipelines"])
def multi_source_propagation(rec, rng):
    """JCPOT: POT's own solver on renumbered classes."""
    labels = zoo.pick(rng, [[0, 1], [1, 2], [0, 1, 2], [3, 7], [2, 5, 11]])
    d = gen.da(rng, "clf", n_per=(6, 12), ns=int(rng.integers(1, 4)), nt=int(rng.integers(1, 3)), shift=float(zoo.pick(rng, [.3, 1.])), labels=labels, sep=2.)
    s = d.src
    metric, reg, mi = zoo.pick(rng, ["sqeuclidean", "euclidean"]), float(zoo.pick(rng, [1., 5.])), int(zoo.pick(rng, [10, 50, 3]))
    y = d.mask() if rng.random() < .7 else d.y
    mk = lambda: S.JCPOTLabelPropAdapter(metric=metric, reg=reg, max_iter=mi)
    with rec.call("jcpot"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        X, yo, p = mk().fit_transform(d.X, y, sample_domain=d.sd)
    cl = np.unique(d.y[s])
    dom = [k for k in sorted(d.sids)]
    dom = dom * 2 if len(dom) == 1 else dom
    with rec.context(labels=labels, reg=reg, sd=d.sd):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            t = ot.da.JCPOTTransport(reg_e=reg, metric=metric, max_iter=mi, tol=1e-9, log=True)
            ys = [np.searchsorted(cl, d.y[d.sd == k]) for k in dom]
            t.fit(Xs=[d.X[d.sd == k] for k in dom], ys=ys, Xt=d.X[~s])
            mass = t.transform_labels(ys)
        if not np.isfinite(mass).all():
            raise Skip("solver diverged")
        o = np.sort(mass, 1)
        clear = (o[:, -1] - o[:, -2]) > 1e-6 * np.abs(o).max()
        yo = np.asarray(yo)
        rec.equal(np.asarray(X), d.X, "jcpot:X", "propagating labels changed the samples")
        rec.expect((yo[s] == -1).all(), "jcpot:sources", "source labels are not masked in the output")
        rec.expect(np.isin(yo[~s], cl).all(), "jcpot:classes", "a propagated label is not a source label", got=np.unique(yo[~s]))
        rec.equal(yo[~s][clear], cl[mass.argmax(1)][clear], "jcpot:labels", "a target sample does not get the label with most transported mass")
        rec.event("propagated-labels", int(clear.sum()))
        spies.take()
        with rec.call("jcpot:pipeline"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            make_da_pipeline(mk(), spies.SpyClassifier()).fit(d.X, y, sample_domain=d.sd)
        ev = [x for x in spies.take() if x.call == "fit"]
        rec.must(len(ev) == 1, "jcpot:pipeline", "number of fits", got=len(ev))
        i = np.isin(ev[0].y, cl)
        rec.equal(ev[0].X[i], d.X[~s], "jcpot:pipeline", "the predictor was not trained on the target samples")
        rec.equal(ev[0].y[i], yo[~s], "jcpot:pipeline", "the predictor was not trained on the propagated labels")
        rec.expect(i.all(), "jcpot:pipeline-masked", "the predictor was also trained on masked rows", labels=np.unique(ev[0].y))
        rec.event("pipelines")
    rec.seen("jcpot", reg, metric, d.X)
