"""C17: scorers for the unlabelled setting, run again with other target labels and other row orders; estimator watched."""
import threading
from copy import deepcopy

import joblib
import numpy as np
import torch
from sklearn.base import BaseEstimator, clone
from sklearn.decomposition import PCA
from sklearn.linear_model import LinearRegression, LogisticRegression, Ridge
from sklearn.naive_bayes import GaussianNB
from sklearn.neighbors import KernelDensity, KNeighborsClassifier
from sklearn.preprocessing import StandardScaler
from sklearn.tree import DecisionTreeClassifier

from skada import PerDomain, SelectSourceTarget, Shared, make_da_pipeline
from skada.metrics import (CircularValidation, DeepEmbeddedValidation, ImportanceWeightedScorer, MaNoScorer, MixValScorer,
                           PredictionEntropyScorer, SoftNeighborhoodDensity, SupervisedScorer)

from .. import gen, spies, watch, zoo
from ..core import Skip, case
from ..watch import unchanged

class Net(torch.nn.Module):
    def __init__(self, k=2):
        super().__init__()
        self.body = torch.nn.Sequential(torch.nn.Linear(2, 6), torch.nn.BatchNorm1d(6), torch.nn.ReLU())
        self.drop = torch.nn.Dropout(.5)
        self.head = torch.nn.Linear(6, k)

    def forward(self, X, sample_weight=None):
        return self.head(self.drop(self.body(X)))


# scorer, order of rows it may depend on ("no", "roles": only the order inside each role matters)
UNSUP = {
    "entropy": (lambda: PredictionEntropyScorer(), "no"),
    "entropy-sum": (lambda: PredictionEntropyScorer(reduction="sum"), "no"),
    "entropy-none": (lambda: PredictionEntropyScorer(reduction="none"), "rows"),
    "snd": (lambda: SoftNeighborhoodDensity(), "no"),
    "snd-hot": (lambda: SoftNeighborhoodDensity(T=1.), "no"),
    "mano": (lambda: MaNoScorer(), "no"),
    "mixval": (lambda: MixValScorer(random_state=4), "roles"),
    "mixval-low": (lambda: MixValScorer(alpha=.3, ice_type="inter", random_state=4), "roles"),
    "dev": (lambda: DeepEmbeddedValidation(random_state=2), "roles"),
    "iw": (lambda: ImportanceWeightedScorer(), "no"),
    "iw-bw": (lambda: ImportanceWeightedScorer(KernelDensity(bandwidth=.5)), "no"),
    "circular": (lambda: CircularValidation(), "no"),
}


def estimators(rng, d):
    """A fitted pipeline with probabilities."""
    kind = zoo.pick(rng, ["plain", "plain", "adapter", "adapter", "perdomain", "spy", "select"])
    final = zoo.pick(rng, [LogisticRegression(), GaussianNB(), DecisionTreeClassifier(max_depth=3, random_state=0)]).set_score_request(sample_weight=True)
    if kind == "plain":
        return kind, lambda: make_da_pipeline(StandardScaler(), clone(final))
    if kind == "adapter":
        es = [e for e in zoo.adapters() if "TransferJoint" not in e.name and e.rows_independent and e.name not in ("ClassRegularizerOTMapping",)
              and "OT" not in e.name and "KLIEP" not in e.name]
        e = zoo.pick(rng, es)
        b = LogisticRegression().set_score_request(sample_weight=True)
        if e.produces == "sample_weight":
            b = b.set_fit_request(sample_weight=True)
        return e.name, lambda: make_da_pipeline(e.make(), clone(b))
    if kind == "perdomain":
        return kind, lambda: make_da_pipeline(PerDomain(StandardScaler()), clone(final))
    if kind == "spy":
        return kind, lambda: make_da_pipeline(spies.SpyTransformer(), spies.SpyClassifier().set_score_request(sample_weight=True))
    return kind, lambda: make_da_pipeline(PCA(2, random_state=0), Shared(clone(final)))


def state(pipe):
    """Digest of everything the estimator holds."""
    return joblib.hash([(n, type(s).__name__, watchable(s)) for n, s in pipe.steps])


def watchable(o, depth=0):
    if isinstance(o, (str, bytes, int, float, bool, type(None), np.ndarray, np.generic)):
        return o
    if isinstance(o, dict):
        return {str(k): watchable(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [watchable(v, depth + 1) for v in o]
    if hasattr(o, "__dict__") and depth < 8 and not callable(o):
        return (type(o).__name__, {k: watchable(v, depth + 1) for k, v in sorted(vars(o).items()) if "rout" not in k and "request" not in k})
    if hasattr(o, "tree_") or type(o).__module__.startswith("sklearn"):
        try:
            return joblib.hash(o)
        except Exception:
            return None
    return None


def outputs(pipe, d):
    t = ~d.src
    return [np.asarray(getattr(pipe, m)(d.X[t], sample_domain=d.sd[t])) for m in ("predict", "predict_proba")] + [
        np.asarray(pipe.predict_proba(d.X[d.src], sample_domain=d.sd[d.src], allow_source=True))]


@case("C17", quick=600, thorough=9000, requires=["label-variants", "row-orders", "estimators-watched"])
def pipelines(rec, rng):
    k = int(rng.integers(2, 4))
    d = gen.da(rng, "clf", n_per=(10, 20), p=3, labels=list(range(k)), sep=float(zoo.pick(rng, [.7, 2.])))
    d.X[:, 0] = np.arange(len(d.X)) / 10
    name, make = estimators(rng, d)
    if "hinge" in name:
        raise Skip("no probabilities")
    y0 = d.mask() if rng.random() < .6 else d.y.copy()
    pipe = make().fit(d.X, y0, sample_domain=d.sd)
    n = zoo.pick(rng, list(UNSUP))
    if n.startswith(("mixval", "dev")) and (name == "perdomain" or "Monge" in name):
        n = "entropy"       # these scorers present rows without (or with another) domain label
    mk, order = UNSUP[n]
    ref_y = d.mask()
    with rec.context(scorer=n, estimator=name, sd=d.sd):
        before, out0 = state(pipe), outputs(pipe, d)
        rec.expect(state(pipe) == before, "watch", "the digest is not stable")
        spies.take()
        sc = mk()
        par = joblib.hash({a: b for a, b in vars(sc).items() if isinstance(b, (int, float, str, type(None)))})
        with rec.call(f"score:{n}"), unchanged(rec, f"score:{n}", X=d.X, y=ref_y, sd=d.sd):
            v = sc(pipe, d.X, ref_y, sample_domain=d.sd)
        ev = spies.take()
        if n != "circular":
            rec.expect(not [e for e in ev if e.call.startswith("fit")], "refits", "scoring fits the estimator", fits=len([e for e in ev if e.call == "fit"]))
        rec.expect(state(pipe) == before, f"alters:{n}", "scoring altered the estimator")
        for a, b in zip(outputs(pipe, d), out0):
            rec.equal(a, b, f"alters:{n}", "the estimator predicts differently after it was scored")
        rec.event("estimators-watched")
        with rec.call(f"score:{n}"):
            again = sc(pipe, d.X, ref_y, sample_domain=d.sd)
            other = deepcopy(mk())(pipe, d.X, ref_y, sample_domain=d.sd)
        rec.equal(again, v, f"repeat:{n}", "scoring twice gives two values")
        rec.equal(other, v, f"repeat:{n}", "a copy of the scorer gives another value")
        # a scorer that has scored other data (of the same size) and another estimator before
        used = mk()
        X2 = d.X + rng.normal(size=d.X.shape)
        with rec.call(f"score:{n}"):
            p2 = make().fit(X2, y0, sample_domain=d.sd)
            used(p2, X2, ref_y, sample_domain=d.sd)
            after = used(pipe, d.X, ref_y, sample_domain=d.sd)
        spies.take()
        rec.equal(after, v, f"history:{n}", "the value depends on what the scorer scored before")
        rec.event("scorers-reused")
        del par
        # other labels for the targets
        hows = ["mask"] if n == "circular" else ["random", "constant", "rotate", "true"]
        for how in hows:
            y = d.y if how == "true" else gen.relabel_targets(rng, d, how)
            if n == "circular":
                y = y.astype(zoo.pick(rng, [np.int32, float]))
            with rec.call(f"labels:{n}"):
                w = mk()(pipe, d.X, y, sample_domain=d.sd)
            rec.equal(w, v, f"labels:{n}", "the value depends on the labels of the target samples", how=how)
            rec.event("label-variants")
        # other orders of the rows
        for _ in range(2):
            o = rng.permutation(len(d.X))
            if order == "roles":
                r = np.empty(len(o), int)
                m = d.src[o]
                r[m] = np.flatnonzero(d.src)
                r[~m] = np.flatnonzero(~d.src)
                o = r
            with rec.call(f"order:{n}"):
                w = mk()(pipe, d.X[o], ref_y[o], sample_domain=d.sd[o])
            if order == "rows":
                want = v[np.argsort(np.flatnonzero(~d.src))[np.searchsorted(np.flatnonzero(~d.src), o[~d.src[o]])]]
            else:
                want = v
            if n == "circular":
                # the value is a score of hard predictions of a model refitted on rows in another order
                p2 = make().fit(d.X[o], ref_y[o], sample_domain=d.sd[o])
                t = ~d.src
                if not _same_backward(make, pipe, d, o):
                    continue
            rec.close(w, want, f"order:{n}", "the value depends on the order of the rows", rtol=1e-6, atol=1e-9)
            rec.event("row-orders")
    rec.seen("unsup", n, name, d.X)
    rec.sample(scorer=n, estimator=name, value=np.ravel(v)[:3])


def _same_backward(make, pipe, d, o):
    """Whether the backward problem itself is insensitive to the row order (ties of trees, solver tolerance)."""
    t, s = ~d.src, d.src
    yt = pipe.predict(d.X[t], sample_domain=d.sd[t])
    if len(set(yt.tolist())) < 2:
        return True
    cls = np.unique(yt)
    by = np.full(len(d.X), -1)
    by[t] = np.searchsorted(cls, yt)
    a = make().fit(d.X, by, sample_domain=-d.sd).predict(d.X[s], sample_domain=-d.sd[s])
    b = make().fit(d.X[o], by[o], sample_domain=-d.sd[o]).predict(d.X[s], sample_domain=-d.sd[s])
    return np.array_equal(a, b)


@case("C17", quick=120, thorough=2000, requires=["label-variants", "estimators-watched"])
def regression(rec, rng):
    """Scorers that accept regression problems."""
    d = gen.da(rng, "reg", n_per=(10, 18), p=3)
    n = zoo.pick(rng, ["iw", "circular"])
    pipe = make_da_pipeline(StandardScaler(), zoo.pick(rng, [Ridge(), LinearRegression()]).set_score_request(sample_weight=True))
    pipe.fit(d.X, d.mask(), sample_domain=d.sd)
    mk = (lambda: ImportanceWeightedScorer()) if n == "iw" else (lambda: CircularValidation(source_scorer=lambda a, b: -np.mean((a - b) ** 2)))
    before = state(pipe)
    y = d.mask()
    with rec.call(f"score:{n}"), unchanged(rec, f"score:{n}", X=d.X, y=y, sd=d.sd):
        v = mk()(pipe, d.X, y, sample_domain=d.sd)
    rec.expect(state(pipe) == before, f"alters:{n}", "scoring altered the estimator")
    rec.event("estimators-watched")
    if n == "iw":
        for how in ("random", "constant", "rotate"):
            with rec.call("labels:iw"):
                w = mk()(pipe, d.X, gen.relabel_targets(rng, d, how), sample_domain=d.sd)
            rec.equal(w, v, "labels:iw", "the value depends on the labels of the target samples", how=how)
            rec.event("label-variants")
    o = rng.permutation(len(d.X))
    with rec.call(f"order:{n}"):
        w = mk()(pipe, d.X[o], y[o], sample_domain=d.sd[o])
    rec.close(w, v, f"order:{n}", "the value depends on the order of the rows", rtol=1e-6, atol=1e-9)
    rec.seen("reg", n, d.X)


class Locked(BaseEstimator):
    """An estimator holding something that cannot be copied once fitted (a lock, a connection): clone works, deepcopy does not."""

    def fit(self, X, y, sample_domain=None):
        src = np.asarray(sample_domain) >= 0
        self.model_ = LogisticRegression().fit(np.asarray(X)[src], np.asarray(y)[src])
        self.lock_ = threading.Lock()
        return self

    def predict(self, X, sample_domain=None, allow_source=False):
        return self.model_.predict(X)


@case("C17", quick=60, thorough=800, requires=["estimators-watched"])
def uncopyable(rec, rng):
    """Circular validation of a fitted estimator that cannot be copied trains another one."""
    d = gen.da(rng, "clf", n_per=(12, 20), p=3, sep=1.5)
    y = d.mask()
    with rec.call("fit"):
        e = Locked().fit(d.X, y, sample_domain=d.sd)
    model, pred, prob = e.model_, e.predict(d.X), e.model_.predict_proba(d.X)
    with rec.call("score:locked"):
        v = [CircularValidation()(e, d.X, y, sample_domain=d.sd) for _ in range(2)]
    rec.expect(e.model_ is model and np.array_equal(e.predict(d.X), pred) and np.array_equal(e.model_.predict_proba(d.X), prob), "alters:locked",
               "scoring altered the estimator")
    rec.equal(v[1], v[0], "repeat:locked", "scoring twice gives two values")
    rec.event("estimators-watched")
    rec.seen("locked", d.X)


@case("C17", quick=100, thorough=1500, requires=["label-variants"])
def supervised_reads_target_labels_only(rec, rng):
    """The supervised scorer takes the labels from target_labels, never from (masked) y, and ignores those of the sources."""
    d = gen.da(rng, "clf", n_per=(10, 18), p=3, sep=1.)
    pipe = make_da_pipeline(StandardScaler(), LogisticRegression()).fit(d.X, d.y, sample_domain=d.sd)
    before = state(pipe)
    sc = lambda y, tl: SupervisedScorer()(pipe, d.X, y, sample_domain=d.sd, target_labels=tl)
    with rec.call("supervised"):
        v = sc(d.y, d.y)
        a = sc(d.mask(), d.y)
        tl = d.y.copy()
        tl[d.src] = rng.choice(d.labels, int(d.src.sum()))
        b = sc(gen.relabel_targets(rng, d, "rotate"), tl)
    rec.equal(a, v, "supervised:y", "the value depends on y instead of target_labels")
    rec.equal(b, v, "supervised:sources", "the value depends on the labels of source samples")
    rec.expect(state(pipe) == before, "alters:supervised", "scoring altered the estimator")
    rec.event("label-variants", 2)
    rec.seen("sup", d.X)


@case("C17", quick=70, thorough=900, requires=["label-variants", "estimators-watched", "row-orders"])
def deep(rec, rng):
    """Deep networks: parameters, buffers and values."""
    from skada.deep import DAN, DANN, DeepCoral, SourceOnly
    torch.manual_seed(int(rng.integers(1000)))
    k = int(rng.integers(2, 4))
    d = gen.da(rng, "clf", ns=1, nt=int(rng.integers(1, 3)), n_per=(16, 22), p=2, labels=list(range(k)), sep=2., y_dtype=np.int64)
    X = d.X.astype(np.float32)

    kw = dict(layer_name="drop", batch_size=8, max_epochs=1, train_split=None, verbose=0)
    net = {"coral": lambda: DeepCoral(Net(k), reg=.1, **kw), "dan": lambda: DAN(Net(k), reg=.1, **kw),
           "source": lambda: SourceOnly(Net(k), **kw), "dann": lambda: DANN(Net(k), num_features=6, **kw)}[zoo.pick(rng, ["coral", "dan", "source", "dann"])]()
    net.fit(X, d.mask(), sample_domain=d.sd)
    names = list(UNSUP)
    n = names[rec.idx % len(names)]
    mk, order = UNSUP[n]
    dump = lambda: joblib.hash({a: b.numpy().copy() for a, b in net.module_.state_dict().items()})
    y = d.mask()
    with rec.context(scorer=n, net=type(net).__name__, sd=d.sd):
        before = dump()
        if n == "circular":     # trains a copy: only the watched network matters here
            P = net.predict_proba(X, sample_domain=d.sd, allow_source=True)
            with rec.call(f"deep:{n}"), unchanged(rec, f"deep:{n}", X=X, y=y, sd=d.sd):
                try:
                    mk()(net, X, y, sample_domain=d.sd)
                except ValueError as e:      # a network answers classes by position, also those its backward problem lacks
                    if "previously unseen labels" not in str(e):
                        raise
            rec.expect(dump() == before, f"alters-net:{n}", "scoring altered the parameters or buffers of the network")
            rec.equal(net.predict_proba(X, sample_domain=d.sd, allow_source=True), P, f"alters-net:{n}", "the network predicts differently")
            rec.event("estimators-watched")
            return
        with rec.call(f"deep:{n}"), unchanged(rec, f"deep:{n}", X=X, y=y, sd=d.sd):
            v = mk()(net, X, y, sample_domain=d.sd)
            again = mk()(net, X, y, sample_domain=d.sd)
        rec.expect(dump() == before, f"alters-net:{n}", "scoring altered the parameters or buffers of the network")
        rec.event("estimators-watched")
        rec.close(again, v, f"repeat:{n}", "scoring twice gives two values", rtol=1e-6, atol=1e-7)
        for how in ("random", "constant", "true"):
            w = mk()(net, X, d.y if how == "true" else gen.relabel_targets(rng, d, how), sample_domain=d.sd)
            rec.close(w, v, f"labels:{n}", "the value depends on the labels of the target samples", how=how, rtol=1e-6, atol=1e-7)
            rec.event("label-variants")
        if order == "no":
            o = rng.permutation(len(X))
            w = mk()(net, X[o], y[o], sample_domain=d.sd[o])
            rec.close(w, v, f"order:{n}", "the value depends on the order of the rows", rtol=1e-3, atol=1e-4)
        rec.event("row-orders")
    rec.seen("deep", n, type(net).__name__, X)
