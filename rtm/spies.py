"""Recording estimators: every call they receive becomes an event in LOG."""
import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin, TransformerMixin

from skada.base import BaseAdapter, DAEstimator

LOG = []


class Ev(dict):
    __getattr__ = dict.__getitem__


def log(obj, call, **kw):
    kw = {k: (np.array(v, copy=True) if isinstance(v, (np.ndarray, list)) or hasattr(v, "iloc") else v) for k, v in kw.items()}
    LOG.append(Ev(tag=getattr(obj, "tag", None), call=call, obj=obj, n=len(LOG), **kw))


def take():
    out = LOG[:]
    LOG.clear()
    return out


def ident(X):
    """Row ids: column 0 carries a unique id unless a transform moved it."""
    return np.rint(np.asarray(X)[:, 0]).astype(int)


class SpyClassifier(ClassifierMixin, BaseEstimator):
    """Nearest class mean on all columns but 0; predictions are pure functions of the row and the fit."""

    def __init__(self, tag="clf", alpha=1.0):
        self.tag, self.alpha = tag, alpha

    def fit(self, X, y, sample_weight=None):
        log(self, "fit", X=X, y=y, sample_weight=sample_weight)
        self.classes_ = np.unique(y)
        w = np.ones(len(X)) if sample_weight is None else np.asarray(sample_weight, float)
        X, y = np.asarray(X), np.asarray(y)
        self.means_ = np.array([np.average(X[y == c], axis=0, weights=np.maximum(w[y == c], 1e-12))
                                for c in self.classes_])
        return self

    def decision_function(self, X):
        log(self, "decision_function", X=X)
        return self._d(X)

    def _d(self, X):
        return -((np.asarray(X, float)[:, None, 1:] - self.means_[None, :, 1:]) ** 2).sum(-1) * self.alpha

    def predict(self, X):
        log(self, "predict", X=X)
        return self.classes_[self._d(X).argmax(1)]

    def predict_proba(self, X):
        log(self, "predict_proba", X=X)
        d = self._d(X)
        e = np.exp(d - d.max(1, keepdims=True))
        return e / e.sum(1, keepdims=True)

    def predict_log_proba(self, X):
        log(self, "predict_log_proba", X=X)
        d = self._d(X)
        return d - d.max(1, keepdims=True) - np.log(np.exp(d - d.max(1, keepdims=True)).sum(1, keepdims=True))

    def score(self, X, y, sample_weight=None):
        log(self, "score", X=X, y=y, sample_weight=sample_weight)
        return float(np.mean(self.classes_[self._d(X).argmax(1)] == y))


class SpyRegressor(RegressorMixin, BaseEstimator):
    def __init__(self, tag="reg", alpha=1.0):
        self.tag, self.alpha = tag, alpha

    def fit(self, X, y, sample_weight=None):
        log(self, "fit", X=X, y=y, sample_weight=sample_weight)
        w = np.ones(len(X)) if sample_weight is None else np.asarray(sample_weight, float)
        A = np.c_[np.asarray(X, float)[:, 1:], np.ones(len(X))] * np.sqrt(w)[:, None]
        self.coef_ = np.linalg.lstsq(A, np.asarray(y, float) * np.sqrt(w), rcond=None)[0]
        return self

    def predict(self, X):
        log(self, "predict", X=X)
        return np.asarray(X, float)[:, 1:] @ self.coef_[:-1] + self.coef_[-1]


class SpyDomainClassifier(SpyClassifier, DAEstimator):
    """Asks for domain labels: selectors must keep every row, masked or not."""

    def fit(self, X, y=None, sample_domain=None, *, sample_weight=None):
        log(self, "fit", X=X, y=y, sample_domain=sample_domain, sample_weight=sample_weight)
        m = np.asarray(sample_domain) >= 0
        m = m if m.any() else np.ones(len(X), bool)
        yy = np.asarray(y)
        self.classes_ = np.unique(yy[m])
        self.means_ = np.array([X[m][yy[m] == c].mean(0) for c in self.classes_])
        return self

    def predict(self, X, sample_domain=None, allow_source=False):
        log(self, "predict", X=X, sample_domain=sample_domain, allow_source=allow_source)
        return self.classes_[self._d(X).argmax(1)]

    def score(self, X, y, sample_domain=None, allow_source=False, sample_weight=None):
        log(self, "score", X=X, y=y, sample_domain=sample_domain)
        return float(np.mean(self.classes_[self._d(X).argmax(1)] == y))

    def predict_log_proba(self, X, sample_domain=None, allow_source=False):
        return np.log(self.predict_proba(X, sample_domain, allow_source) + 1e-300)

    def decision_function(self, X, sample_domain=None, allow_source=False):
        log(self, "decision_function", X=X, sample_domain=sample_domain, allow_source=allow_source)
        return self._d(X)

    def predict_proba(self, X, sample_domain=None, allow_source=False):
        log(self, "predict_proba", X=X, sample_domain=sample_domain, allow_source=allow_source)
        d = self._d(X)
        e = np.exp(d - d.max(1, keepdims=True))
        return e / e.sum(1, keepdims=True)


class SpyTransformer(TransformerMixin, BaseEstimator):
    """x -> x + mean of what it was fitted on (columns but 0), so that outputs reveal the fit."""

    def __init__(self, tag="tr", alpha=1.0):
        self.tag, self.alpha = tag, alpha

    def fit(self, X, y=None):
        log(self, "fit", X=X, y=y)
        self.shift_ = np.asarray(X, float).mean(0)
        self.shift_[0] = 0
        return self

    def transform(self, X):
        log(self, "transform", X=X)
        return np.asarray(X, float) + self.alpha * self.shift_


class SpyTransformerNoFT(BaseEstimator):
    """A transformer without fit_transform."""

    def __init__(self, tag="trn", alpha=1.0):
        self.tag, self.alpha = tag, alpha

    fit = SpyTransformer.fit
    transform = SpyTransformer.transform


class SpyReshaper(TransformerMixin, BaseEstimator):
    """Changes the number of columns (drops the last, or repeats it)."""

    def __init__(self, tag="rs", grow=False):
        self.tag, self.grow = tag, grow

    def fit(self, X, y=None):
        log(self, "fit", X=X, y=y)
        self.fitted_ = True
        return self

    def transform(self, X):
        log(self, "transform", X=X)
        X = np.asarray(X)
        return np.c_[X, X[:, -1]] if self.grow else X[:, :-1].copy()


class SpyTyped(TransformerMixin, BaseEstimator):
    """Returns its input in another dtype."""

    def __init__(self, tag="ty", dtype="int64"):
        self.tag, self.dtype = tag, dtype

    def fit(self, X, y=None):
        self.fitted_ = True
        return self

    def transform(self, X):
        X = np.asarray(X, float)
        return (np.rint(X) if self.dtype.startswith("int") else X).astype(self.dtype)


class SpyDomainAdapter(BaseAdapter):
    """An adapter that produces weights (and optionally labels) as a function of each row's id."""

    def __init__(self, tag="ad", weights=True, labels=False, move=False, key="sample_weight", dtype=None, drop=False):
        self.tag, self.weights, self.labels, self.move, self.key, self.dtype, self.drop = tag, weights, labels, move, key, dtype, drop

    def fit_transform(self, X, y=None, *, sample_domain=None, **params):
        log(self, "fit_transform", X=X, y=y, sample_domain=sample_domain, params=sorted(params))
        self.fitted_ = True
        w = wfun(ident(X))
        if self.dtype is not None:
            w = np.rint(w * 10).astype(self.dtype)
        out = {self.key: w} if self.weights else {}
        X2 = np.array(X, float)
        if self.move:
            X2[:, 1:] += 1000.0 * (np.asarray(sample_domain) >= 0)[:, None]
        if self.drop:
            X2 = X2[:, :-1]
        if self.labels:
            return X2, lfun(ident(X)), out
        return X2, out

    def transform(self, X, y=None, *, sample_domain=None, allow_source=False, **params):
        log(self, "transform", X=X, y=y, sample_domain=sample_domain, allow_source=allow_source)
        return X[:, :-1] if self.drop else X


def wfun(i):
    """The weight this adapter gives to sample i."""
    return 0.5 + (np.asarray(i) * 7919 % 97) / 97.0


def lfun(i):
    """The label this adapter gives to sample i."""
    return (np.asarray(i) * 31 % 3).astype(int)


class SpyWeighted(TransformerMixin, BaseEstimator):
    """Fits with weights, leaves the samples as they are."""

    def __init__(self, tag="w"):
        self.tag = tag

    def fit(self, X, y=None, sample_weight=None):
        log(self, "fit", X=X, y=y, sample_weight=sample_weight)
        self.n_features_in_ = np.asarray(X).shape[1]
        return self

    def transform(self, X):
        return np.asarray(X)


class SpyWeightedNoFT(BaseEstimator):
    """The same without fit_transform."""

    def __init__(self, tag="w"):
        self.tag = tag

    fit = SpyWeighted.fit
    transform = SpyWeighted.transform
