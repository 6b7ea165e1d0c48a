"""C22: self-training schedules (DASVM, gradual adaptation)."""
import copy
import math
import warnings

import numpy as np
import ot
from sklearn.ensemble import RandomForestClassifier
from sklearn.linear_model import LogisticRegression
from sklearn.metrics import accuracy_score
from sklearn.naive_bayes import GaussianNB
from sklearn.neural_network import MLPClassifier
from sklearn.preprocessing import StandardScaler
from sklearn.svm import SVC, LinearSVC

import skada
from skada import make_da_pipeline
from skada._gradual_da import GradualEstimator

from .. import gen, zoo
from ..core import Skip, case
from .c21 import LOG, RecLogistic, RecSVC, recording

RecLinearSVC, RecNB, RecForest, RecMLP = map(recording, (LinearSVC, GaussianNB, RandomForestClassifier, MLPClassifier))
EPS = 1e-9


def rows(X, y=None):
    """Sorted list of (row bytes, label)."""
    X = np.ascontiguousarray(X) + 0.
    y = np.zeros(len(X)) if y is None else np.asarray(y)
    return sorted((X[i].tobytes(), float(y[i])) for i in range(len(X)))


def where(rec, X, pool, key, msg):
    """Indices in the pool of the given rows (all distinct)."""
    table = {(pool[i] + 0.).tobytes(): i for i in range(len(pool))}
    idx = [table.get((np.ascontiguousarray(x) + 0.).tobytes(), -1) for x in X]
    rec.must(min(idx, default=0) >= 0, key, msg)
    return np.array(idx, int)


def pick_extremes(f, free, cand, k):
    """Reference: up to k times, take the remaining candidate with the smallest and the one with the largest value.

    Returns the sequence of picks, and the smallest gap between a pick and the runner-up (a tie would make it ambiguous)."""
    left = set(np.flatnonzero(free & cand))
    out, gap = [], np.inf
    for _ in range(min(k, math.ceil(len(left) / 2))):
        order = sorted(left, key=lambda i: f[i])
        take = {order[0], order[-1]}
        if len(order) > 1:
            gap = min(gap, f[order[1]] - f[order[0]], f[order[-1]] - f[order[-2]])
        left -= take
        out += sorted(take)
    return set(out), gap


def margin_pick(f, free, k):
    """Targets strictly inside the margin (and not yet added): those nearest to either margin."""
    cand = (np.abs(f) < 1) & (np.abs(f) > 0)
    got, gap = pick_extremes(f, free, cand, k)
    close = np.min(np.abs(np.abs(f[free]) - 1), initial=np.inf)
    return got, cand & free, min(gap, close)


def unlabelled(d, rng):
    if rng.random() < .5 and min(d.labels) >= 0:
        return d.mask(), True
    y = d.y.copy()
    t = ~d.src
    y[t] = rng.permutation(y[t])
    return y, False


@case("C22", quick=500, thorough=8000, requires=["dasvm-steps", "sources-left", "targets-joined", "targets-expelled", "predictions", "finished-by-margin", "finished-by-limit"])
def dasvm_schedule(rec, rng):
    labels = zoo.pick(rng, [[0, 1], [1, 2], [3, 7], [0, 5], [-4, 6]])
    d = gen.da(rng, "clf", ns=int(rng.integers(1, 3)), nt=int(rng.integers(1, 3)), labels=labels, n_per=(7, 16), every_class=True,
               sep=float(zoo.pick(rng, [1., 2., 3.])), shift=float(zoo.pick(rng, [.3, 1., 2.])))
    s = d.src
    Xs, ys, Xt = d.X[s], d.y[s], d.X[~s]
    n, m = len(Xs), len(Xt)
    k = int(zoo.pick(rng, [1, 1, 2, 3, 5, 50]))
    limit = int(zoo.pick(rng, [1, 2, 3, 5, 1000, 1000]))
    base = zoo.pick(rng, [RecSVC(kernel="linear"), RecSVC(kernel="rbf", gamma=.3), RecLogistic(C=3.), RecSVC(kernel="linear", C=.05)])
    save = rng.random() < .5
    a = skada.DASVMClassifier(base, k=k, max_iter=limit, save_estimators=save, save_indices=save)
    y, masked = unlabelled(d, rng)
    piped = rng.random() < .3
    est = make_da_pipeline(a) if piped else a
    LOG.clear()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            est.fit(d.X, y, sample_domain=d.sd)
    except ValueError as e:
        if "class" in str(e):  # every source of a class was discarded: the base estimator refuses
            raise Skip("single class left")
        rec.violate("dasvm:raises", f"{type(e).__name__}: {e}", labels=labels)
        return
    if piped:
        a = est[-1].get_estimator()
    fits = list(LOG)
    with rec.context(labels=labels, k=k, max_iter=limit, sd=d.sd, base=type(base).__name__, fits=len(fits)):
        rec.must(2 <= len(fits) <= limit + 1, "dasvm:count", "number of fits: the source model, at most max_iter - 1 steps, the final model", got=len(fits))
        rec.expect(rows(*fits[0][:2]) == rows(Xs, ys), "dasvm:start", "the first model is not trained on exactly the sources")
        f_s, f_t = fits[0][3].decision_function(Xs), fits[0][3].decision_function(Xt)
        deleted, added = np.zeros(n, bool), np.zeros(m, bool)
        ambiguous = False
        states = [(deleted.copy(), added.copy())]

        def step(prev_in):
            """One step of the reference schedule on the state."""
            nonlocal ambiguous
            got, gap = pick_extremes(f_s, ~deleted, np.ones(n, bool), k)
            deleted[list(got)] = True
            ambiguous |= gap < EPS
            got, inside, gap = margin_pick(f_t, ~added, k)
            added[list(got)] = True
            ambiguous |= gap < EPS
            states.append((deleted.copy(), added.copy()))
            return inside.any()

        go = step(None)
        prev_del = np.zeros(n, bool)
        for i, (X, lab, sw, model) in enumerate(fits[1:-1], 1):
            prev = fits[i - 1][3]
            # what the training set is made of
            idx = where(rec, X, np.concatenate([Xs, Xt]), "dasvm:foreign", "a training sample is neither a source nor a target")
            rec.expect(len(set(idx.tolist())) == len(idx), "dasvm:repeated", "a sample appears twice in a training set")
            now_del, now_add = np.ones(n, bool), np.zeros(m, bool)
            now_del[idx[idx < n]] = False
            now_add[idx[idx >= n] - n] = True
            rec.expect(not (prev_del & ~now_del).any(), "dasvm:return", "a discarded source came back", step=i)
            rec.equal(lab[idx < n], ys[idx[idx < n]], "dasvm:source-label", "a source lost its label")
            if now_add.any():
                rec.equal(lab[idx >= n], prev.predict(Xt[idx[idx >= n] - n]), "dasvm:target-label", "a target does not carry the label predicted by the previous model")
            rec.expect((now_del & ~prev_del).sum() <= 2 * k, "dasvm:k", "more than k sources per class discarded in a step")
            rec.event("sources-left", int((now_del & ~prev_del).sum()))
            prev_del = now_del
            rec.event("dasvm-steps")
            if ambiguous:
                continue
            rec.must(go, "dasvm:stop", "a further step was made although no unlabelled target was inside the margin", step=i)
            rec.expect((now_del == deleted).all(), "dasvm:sources", "the discarded sources are not the k farthest on each side", step=i,
                       got=np.flatnonzero(now_del), want=np.flatnonzero(deleted))
            rec.expect((now_add == added).all(), "dasvm:targets", "the added targets are not the k nearest to each margin", step=i,
                       got=np.flatnonzero(now_add), want=np.flatnonzero(added))
            rec.event("targets-joined", int(now_add.sum()))
            flip = added & (model.predict(Xt) != prev.predict(Xt))
            added[flip] = False
            rec.event("targets-expelled", int(flip.sum()))
            f_s, f_t = model.decision_function(Xs), model.decision_function(Xt)
            go = step(None)
        if not ambiguous:
            steps = len(fits) - 2
            rec.expect(not go or steps == limit - 1, "dasvm:early", "stopped although targets were still inside the margin", steps=steps)
            rec.event("finished-by-limit" if go else "finished-by-margin")
        X, lab, _, last = fits[-1]
        idx = where(rec, X, Xt, "dasvm:final", "the last model is not trained on the targets only")
        rec.expect(sorted(idx.tolist()) == list(range(m)), "dasvm:final", "the last model is not trained on every target once")
        rec.equal(lab, fits[-2][3].predict(X), "dasvm:final-label", "the final labels are not those of the previous model")
        if save:
            E = a.estimators
            rec.must(len(E) == len(fits), "dasvm:saved", "one saved estimator per fit", got=len(E), want=len(fits))
            for e, fit in zip(E, fits):
                rec.equal(e.decision_function(d.X), fit[3].decision_function(d.X), "dasvm:saved", "a saved estimator is not the one of its step")
            D, A = np.array(a.indices_source_deleted), np.array(a.indices_target_added)
            rec.must(D.shape == (len(fits) + 1, n) and A.shape == (len(fits) + 1, m), "dasvm:indices", "saved indices", got=(D.shape, A.shape))
            rec.expect((D[:-1] <= D[1:]).all(), "dasvm:indices", "a discarded source is recorded as present again")
            if not ambiguous:
                rec.expect(all((D[i] == p).all() and (A[i] == q).all() for i, (p, q) in enumerate(states)), "dasvm:indices", "the saved indices are not those of the training sets")
            rec.expect(D[-1].all() and A[-1].all(), "dasvm:indices", "the last saved state is not the full target set")
        else:
            rec.expect(not len(a.estimators) and not len(a.indices_source_deleted), "dasvm:unsaved", "states kept although not asked for")
        final_methods(rec, rng, est, d, last, "dasvm", piped)
    rec.seen("dasvm", k, limit, labels, d.X)
    rec.sample(kind="dasvm", n=n, m=m, k=k, max_iter=limit, fits=len(fits), ambiguous=ambiguous)


def final_methods(rec, rng, est, d, last, key, piped):
    """Every prediction method answers with the last model."""
    X, sd = gen.new_rows(rng, d, n=12, targets_only=True)
    kw = dict(sample_domain=sd) if piped and rng.random() < .5 else {}
    with rec.call(key + ":predict"):
        p = np.asarray(est.predict(X, **kw))
    rec.equal(p, last.predict(X), key + ":predict", "predictions are not those of the last model")
    if hasattr(last, "predict_proba"):
        with rec.call(key + ":proba"):
            q = np.asarray(est.predict_proba(X, **kw))
        rec.close(q, last.predict_proba(X), key + ":proba", "probabilities are not those of the last model", rtol=1e-9, atol=1e-12)
    elif not piped:
        rec.rejects(key + ":proba", lambda: est.predict_proba(X), (AttributeError, ValueError), "the base estimator has no probabilities")
    if hasattr(last, "predict_log_proba") and hasattr(type(est[-1].base_estimator if piped else est), "predict_log_proba"):
        with rec.call(key + ":log-proba"):
            q = np.asarray(est.predict_log_proba(X, **kw))
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            rec.close(q, last.predict_log_proba(X), key + ":log-proba", "log-probabilities are not those of the last model", rtol=1e-9, atol=1e-12)
    if key == "dasvm":
        with rec.call(key + ":decision"):
            f = est.decision_function(X, **kw)
        rec.close(f, last.decision_function(X), key + ":decision", "decision values are not those of the last model", rtol=1e-9, atol=1e-12)
    yy = rng.permutation(p)
    w = rng.uniform(.1, 2, len(yy)) if not piped and rng.random() < .5 else None
    skw = dict(kw) if w is None else dict(kw, sample_weight=w)
    with rec.call(key + ":score"):
        sc = est.score(X, yy, **skw)
    rec.close(sc, accuracy_score(yy, p, sample_weight=w), key + ":score", "the score is not the accuracy of the predictions", rtol=1e-9)
    rec.event("predictions", len(X))


@case("C22", quick=60, thorough=800, requires=["default-models"])
def dasvm_default(rec, rng):
    """The default base estimator predicts through every method; refitting forgets the past."""
    d = gen.da(rng, "clf", ns=1, nt=1, labels=zoo.pick(rng, [[0, 1], [3, 7]]), n_per=(14, 18), sep=2., shift=.5)
    a = skada.DASVMClassifier(save_estimators=True, save_indices=True, k=int(rng.integers(2, 6)), max_iter=int(zoo.pick(rng, [2, 5])))
    for _ in range(2):
        try:
            a.fit(d.X, d.mask(), sample_domain=d.sd)
        except ValueError as e:
            if "class" in str(e):
                raise Skip("single class left")
            rec.violate("dasvm-default:raises", str(e))
            return
    n_fits = len(a.estimators)
    rec.expect(2 <= n_fits <= a.max_iter + 1 and len(a.indices_source_deleted) == n_fits + 1, "dasvm-default:refit", "saved states of an earlier fit survive", got=n_fits)
    with rec.call("dasvm-default:methods"):
        p, q, f = a.predict(d.X), a.predict_proba(d.X), a.decision_function(d.X)
    rec.equal(p, a.estimators[-1].predict(d.X), "dasvm-default:last", "predictions are not those of the last model")
    rec.expect(q.shape == (len(d.X), 2) and np.allclose(q.sum(1), 1) and (q >= 0).all(), "dasvm-default:proba", "invalid probabilities")
    rec.expect((np.asarray(d.labels)[(f > 0).astype(int)] == p).all(), "dasvm-default:agree", "decision values and predictions disagree")
    rec.event("default-models")


def kept_pairs(rec, G, alpha, advanced):
    """Pairs of the plan that must be kept, pairs that may be kept."""
    n, m = G.shape
    if advanced:
        rmax, cmax = G.max(1, keepdims=True), G.max(0, keepdims=True)
        tol = 1e-9 * G.max()
        r, c = G >= rmax - tol, G >= cmax - tol
        return r & (r.sum(1, keepdims=True) == 1) | c & (c.sum(0, keepdims=True) == 1), r | c
    size = int(min(alpha * (n + m), G.size - 1))
    order = np.sort(G.ravel())[::-1]
    thr = order[size]
    tol = 1e-7 * G.max()
    must = (G > thr + tol) & (G > tol)
    may = (G >= thr - tol) & (G > 0)
    return must, may


@case("C22", quick=300, thorough=5000, requires=["gradual-steps", "intermediate-samples", "predictions", "tied-plans", "advanced-plans"])
def gradual_schedule(rec, rng):
    labels = zoo.pick(rng, [[0, 1], [1, 2], [3, 7], [0, 1, 2], [2, 5, 11]])
    d = gen.da(rng, "clf", ns=int(rng.integers(1, 3)), nt=int(rng.integers(1, 3)), labels=labels, n_per=(6, 12), every_class=True,
               sep=float(zoo.pick(rng, [2., 3.])), shift=float(zoo.pick(rng, [.3, 1., 2.])))
    s = d.src
    Xs, ys, Xt = d.X[s], d.y[s], d.X[~s]
    n, m = len(Xs), len(Xt)
    steps = int(zoo.pick(rng, [1, 2, 3, 5, 10]))
    alpha = float(zoo.pick(rng, [1., 1., .3, .05, 2., 100.]))
    advanced = bool(rng.random() < .35)
    method = zoo.pick(rng, [None, "sinkhorn", "sinkhorn", "emd", "norm"])
    trans = dict(sinkhorn=ot.da.SinkhornTransport(reg_e=2., tol=1e-8), emd=ot.da.EMDTransport(), norm=ot.da.SinkhornTransport(reg_e=.5, norm="median", tol=1e-9)).get(method)
    base = zoo.pick(rng, [RecLogistic(), RecNB(), RecLinearSVC(), RecForest(n_estimators=4, max_depth=3, random_state=0)])
    save = rng.random() < .5
    kw = dict(alpha=alpha, n_steps=steps, base_estimator=base, advanced_ot_plan_sampling=advanced, save_estimators=save, save_intermediate_data=save)
    if trans is not None:
        kw["ot_method"] = trans
    g = GradualEstimator(**kw)
    piped = rng.random() < .3
    est = make_da_pipeline(g) if piped else g
    LOG.clear()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            est.fit(d.X, d.mask(), sample_domain=d.sd)
        except ValueError as e:
            if "class" in str(e):
                raise Skip("single class left")
            rec.violate("gradual:raises", f"{type(e).__name__}: {e}", labels=labels)
            return
        if piped:
            g = est[-1].get_estimator()
        fits = list(LOG)
        ref = copy.deepcopy(trans) if trans is not None else ot.da.SinkhornTransport(reg_e=1., metric="sqeuclidean", norm=None, max_iter=1000, tol=1e-8)
        ref.fit(Xs=Xs, ys=ys, Xt=Xt, yt=np.full(m, -1))
    G = np.asarray(ref.coupling_)
    if not np.isfinite(G).all():
        raise Skip("the plan itself is not finite")
    key = "gradual"
    with rec.context(labels=labels, alpha=alpha, n_steps=steps, advanced=advanced, method=method, sd=d.sd, base=type(base).__name__):
        rec.must(len(fits) == steps + 1, key + ":count", "one fit on the sources and one per step", got=len(fits), want=steps + 1)
        rec.expect(rows(*fits[0][:2]) == rows(Xs, ys), key + ":start", "the first model is not trained on exactly the sources")
        must, may = kept_pairs(rec, G, alpha, advanced)
        if (must != may).any():
            rec.event("tied-plans")
        size = {len(f[0]) for f in fits[1:]}
        rec.must(len(size) == 1, key + ":size", "the steps do not have the same number of samples", sizes=size)
        K = size.pop()
        rec.expect(must.sum() <= K <= may.sum(), key + ":size", "number of generated samples", got=K, at_least=int(must.sum()), at_most=int(may.sum()))
        for t, (X, lab, sw, model) in enumerate(fits[1:], 1):
            w = t / steps
            P = ((1 - w) * Xs[:, None] + w * Xt[None]).reshape(n * m, -1)
            # every generated sample is the interpolation of a kept pair, every pair that must be kept appears
            D = np.abs(P[None] - X[:, None]).max(2)
            tol = 1e-9 * (1 + np.abs(d.X).max())
            hit = D <= tol
            rec.must(hit.any(1).all(), key + ":interpolation", "a generated sample is not the interpolation of a source and a target at this step", step=t,
                     worst=float(D.min(1).max()))
            allowed = hit & may.ravel()[None]
            rec.expect(allowed.any(1).all(), key + ":pairs", "a generated sample comes from a pair outside the plan", step=t)
            rec.expect(hit[:, must.ravel()].any(0).all(), key + ":pairs", "a pair with a large share of the plan is missing", step=t)
            if advanced:
                if t < steps:
                    at = np.argwhere(allowed)
                    src_seen, tgt_seen = set((at[:, 1] // m).tolist()), set((at[:, 1] % m).tolist())
                    rec.expect(len(src_seen) == n and len(tgt_seen) == m, key + ":coverage", "a source or a target has no pair", step=t)
                    rec.event("advanced-plans")
            prev = fits[t - 1][3]
            rec.equal(lab, prev.predict(X), key + ":labels", "labels of a step are not those predicted by the previous model", step=t)
            rec.event("gradual-steps")
            rec.event("intermediate-samples", K)
        tset = {x.tobytes() for x in np.round(Xt, 9) + 0.}
        rec.expect(all(x.tobytes() in tset for x in np.round(fits[-1][0], 9) + 0.), key + ":end", "the last step is not on the target samples")
        if save:
            with rec.call(key + ":intermediate"):
                E, I = g.get_intermediate_estimators(), g.intermediate_data_
            rec.must(len(E) == steps + 1 and len(I) == steps, key + ":saved", "saved states", got=(len(E), len(I)))
            for e, fit in zip(E, fits):
                rec.equal(e.predict(d.X), fit[3].predict(d.X), key + ":saved", "a saved estimator is not the one of its step")
            for (X, lab), fit in zip(I, fits[1:]):
                rec.expect(rows(X, lab) == rows(*fit[:2]), key + ":saved", "saved data are not those of their step")
        else:
            with rec.call(key + ":intermediate"):
                E = g.get_intermediate_estimators()
            rec.expect(len(E) == 0, key + ":unsaved", "states kept although not asked for")
        last = fits[-1][3]
        final_methods(rec, rng, est, d, last, key, piped)
    rec.seen("gradual", alpha, steps, advanced, method, d.X)
    rec.sample(kind="gradual", n=n, m=m, steps=steps, generated=K, alpha=alpha, advanced=advanced)


@case("C22", quick=10, thorough=100, requires=["default-networks"])
def gradual_default(rec, rng):
    d = gen.da(rng, "clf", ns=1, nt=1, labels=zoo.pick(rng, [[0, 1], [3, 7]]), n_per=(8, 10), sep=3., shift=.5)
    g = GradualEstimator(n_steps=2, save_estimators=True, save_intermediate_data=True)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for _ in range(2):
            try:
                g.fit(d.X, d.mask(), sample_domain=d.sd)
            except ValueError as e:
                if "class" in str(e):
                    raise Skip("single class left")
                rec.violate("gradual-default:raises", str(e))
                return
        rec.expect(len(g.get_intermediate_estimators()) == 3 and len(g.intermediate_data_) == 2, "gradual-default:refit", "saved states of an earlier fit survive")
        with rec.call("gradual-default:methods"):
            p, q, lq = g.predict(d.X), g.predict_proba(d.X), g.predict_log_proba(d.X)
    both = len(g.get_intermediate_estimators()[-1].classes_) == 2
    rec.equal(np.unique(d.y)[q.argmax(1)] if both else p, p, "gradual-default:agree", "predicted class and most likely class differ")
    rec.close(np.exp(lq), q, "gradual-default:agree", "log-probabilities are not those of the probabilities", rtol=1e-6, atol=1e-9)
    with rec.call("gradual-default:score"):
        sc = g.score(d.X, d.y)
    rec.close(sc, np.mean(p == d.y), "gradual-default:score", "the score is not the accuracy")
    rec.event("default-networks")
