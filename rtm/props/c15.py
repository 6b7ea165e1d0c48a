"""C15: cross-validation and search, watched row by row with recording estimators and repeated by hand."""
import numpy as np
from sklearn.base import clone, is_classifier
from sklearn.decomposition import PCA
from sklearn.linear_model import LogisticRegression, Ridge
from sklearn.model_selection import (check_cv, GridSearchCV, GroupKFold, KFold, LeaveOneGroupOut, RandomizedSearchCV, ShuffleSplit,
                                     cross_val_predict, cross_val_score, cross_validate)
from sklearn.preprocessing import StandardScaler

import skada
from skada import PerDomain, SelectSource, SelectTarget, Shared, make_da_pipeline
from skada.metrics import (CircularValidation, DeepEmbeddedValidation, ImportanceWeightedScorer, MaNoScorer, MixValScorer,
                           PredictionEntropyScorer, SoftNeighborhoodDensity, SupervisedScorer)
from skada.model_selection import (DomainShuffleSplit, LeaveOneDomainOut, SourceTargetShuffleSplit, StratifiedDomainShuffleSplit)

from .. import gen, spies, zoo
from ..core import Skip, case
from ..watch import unchanged

SCORERS = {
    "supervised": lambda: SupervisedScorer(),
    "supervised-loss": lambda: SupervisedScorer(greater_is_better=False),
    "iw": lambda: ImportanceWeightedScorer(),
    "entropy": lambda: PredictionEntropyScorer(),
    "entropy-sum": lambda: PredictionEntropyScorer(reduction="sum"),
    "snd": lambda: SoftNeighborhoodDensity(),
    "dev": lambda: DeepEmbeddedValidation(random_state=3),
    "circular": lambda: CircularValidation(),
    "mixval": lambda: MixValScorer(random_state=5),
    "mano": lambda: MaNoScorer(),
}


def splitters(rng, n_splits, seed):
    return {
        "source-target": lambda: SourceTargetShuffleSplit(n_splits=n_splits, test_size=.4, random_state=seed),
        "stratified-domain": lambda: StratifiedDomainShuffleSplit(n_splits=n_splits, test_size=.4, random_state=seed),
        "domain-shuffle": lambda: DomainShuffleSplit(n_splits=n_splits, test_size=.4, random_state=seed),
        "kfold": lambda: KFold(n_splits, shuffle=True, random_state=seed),
        "shuffle": lambda: ShuffleSplit(n_splits, test_size=.4, random_state=seed),
        "int": lambda: n_splits,
    }


def data(rng, task="clf", k=None):
    labels = [0, 1] if k is None else list(range(k))
    d = gen.da(rng, task, n_per=(14, 24), p=3, labels=labels, sep=2.0, **({} if task == "reg" else {}))
    d.X[:, 0] = np.arange(len(d.X))
    return d


def folds_of(cv, d, y):
    """The folds the splitter produces on its own."""
    if isinstance(cv, int):
        cv = check_cv(cv, y, classifier=is_classifier(make_da_pipeline(LogisticRegression())))
    try:
        return [(np.asarray(a), np.asarray(b)) for a, b in
                (cv.split(d.X, y, d.sd) if hasattr(cv, "set_split_request") or "Domain" in type(cv).__name__ else cv.split(d.X, y))]
    except ValueError as e:
        raise Skip(f"splitter refuses: {e}")


def usable(d, y, folds):
    """Every fold must be trainable and testable: both roles, all classes in training, several target rows in test."""
    for tr, te in folds:
        for part in (tr, te):
            s = d.sd[part] >= 0
            if s.sum() < 4 or (~s).sum() < 4:
                return False
            if d.task == "clf" and set(d.y[part][s]) != set(d.labels):
                return False
        if set(d.sd[te].tolist()) - set(d.sd[tr].tolist()):
            return False
    return True


def final_fits(ev):
    return [e for e in ev if e.call == "fit" and e.tag in ("clf", "reg")]


@case("C15", quick=500, thorough=8000, requires=["folds", "fit-logs", "score-logs", "scores-compared"])
def cross_validation(rec, rng):
    """Recording final estimators: rows, labels and domains of every fit; rows of every score; values by hand."""
    task = zoo.pick(rng, ["clf", "clf", "reg"])
    d = data(rng, task)
    seed = int(rng.integers(1000))
    k = int(rng.integers(2, 4))
    names = splitters(rng, k, seed)
    cvn = zoo.pick(rng, list(names))
    masked_input = bool(rng.random() < .5)
    y = d.mask() if masked_input else d.y.copy()
    if task == "reg" and masked_input and cvn in ("kfold", "shuffle", "int"):
        cvn = "source-target"       # scikit-learn's own splitters are fine, but its label checks refuse NaN
    if task == "reg" and cvn in ("stratified-domain", "int"):
        cvn = "domain-shuffle"
    cv = names[cvn]()
    folds = folds_of(cv, d, y)
    if not usable(d, y, folds):
        raise Skip("a fold misses a role or a class")
    mask = bool(rng.random() < .7) or masked_input
    aware = task == "clf" and rng.random() < .4
    clf = (spies.SpyDomainClassifier() if aware else spies.SpyClassifier()) if task == "clf" else spies.SpyRegressor()
    which = zoo.pick(rng, ["shared", "shared", "target", "source"]) if not aware else "shared"
    if which == "target" and masked_input:
        which = "shared"
    scn = [zoo.pick(rng, ["supervised", "supervised-loss", "entropy", "snd", "mano", "mixval", "circular", "iw", "dev"] if task == "clf" else
                    ["supervised", "supervised-loss", "iw"])]
    if rng.random() < .4:
        scn.append("supervised" if scn[0] != "supervised" else "supervised-loss")
    if "circular" in scn and (not masked_input or which != "shared" or not mask):
        scn = ["supervised"]
    if "iw" in scn:
        if aware:
            scn = ["supervised"]
        else:
            clf = clf.set_score_request(sample_weight=True)
    if task == "clf" and not masked_input and "mixval" in scn and False:
        scn = ["supervised"]
    pre = zoo.pick(rng, [None, "tr", "pd"])
    steps = [{"tr": spies.SpyTransformer(), "pd": PerDomain(spies.SpyTransformer())}[pre]] if pre else []
    sel = {"shared": Shared, "source": SelectSource, "target": SelectTarget}[which]
    if pre == "pd" and set(scn) & {"mixval", "dev"}:
        steps = []                   # the mixed samples have a domain label of their own
    make = lambda: make_da_pipeline(*[clone(s) for s in steps], sel(clone(clf)) if which != "shared" else clone(clf),
                                    mask_target_labels=mask)
    pipe = make()
    scoring = SCORERS[scn[0]]() if len(scn) == 1 else {n: SCORERS[n]() for n in scn}
    params = {"sample_domain": d.sd}
    if any(n.startswith("supervised") for n in scn):
        params["target_labels"] = d.y
    with rec.context(cv=cvn, scorers=scn, mask=mask, masked_input=masked_input, final=type(clf).__name__, selector=which, pre=pre, sd=d.sd):
        spies.take()
        with rec.call("cross_validate"), unchanged(rec, "cross_validate", X=d.X, y=y, params=params):
            out = cross_validate(pipe, d.X, y, cv=cv, params=params, scoring=scoring, error_score="raise")
        ev = spies.take()
        rec.expect(not hasattr(pipe[-1], "base_estimators_"), "cross_validate:fitted", "the pipeline handed in was fitted")
        # by hand
        want = {n: [] for n in scn}
        for tr, te in folds:
            p = make()
            with rec.call("by-hand"):
                p.fit(d.X[tr], y[tr], sample_domain=d.sd[tr])
                for n in scn:
                    kw = {"target_labels": d.y[te]} if n.startswith("supervised") else {}
                    want[n].append(SCORERS[n]()(p, d.X[te], y[te], sample_domain=d.sd[te], **kw))
        spies.take()
        rec.event("folds", len(folds))
        for n in scn:
            got = out["test_score"] if len(scn) == 1 else out[f"test_{n}"]
            rec.close(got, want[n], f"score:{n}", "cross-validated scores differ from the folds performed by hand", rtol=1e-9, atol=1e-12)
            rec.event("scores-compared", len(got))
        # what the estimators saw
        fits = final_fits(ev)
        per_fold = 1 + ("circular" in scn)
        if "circular" in scn:
            # the backward fit is skipped when the predictions are constant
            fits = [e for e in fits if not (len(e.X) and (d.sd[spies.ident(e.X)] < 0).all())] if not aware else fits[:0]
            if aware:
                return
        if not rec.expect(len(fits) == len(folds), "fit:count", "number of fits", got=len(fits), want=len(folds), per=per_fold):
            return
        for e, (tr, te) in zip(fits, folds):
            idx = spies.ident(e.X)
            s = d.sd[tr] >= 0
            if aware or (not mask and which == "shared" and not masked_input):
                exp = tr
            elif which == "target":
                exp = tr[~s] if not mask else tr[:0]
                if mask:
                    # a selector that fits on target samples is given the true labels it may read
                    exp = tr[~s]
            else:
                exp = tr[s]
            rec.expect(sorted(idx.tolist()) == sorted(exp.tolist()), "fit:rows", "a fold is fitted on other rows than its training rows",
                       got=sorted(idx.tolist()), want=sorted(exp.tolist()))
            src = d.sd[idx] >= 0
            rec.equal(np.asarray(e.y, float)[src], d.y[idx][src].astype(float), "fit:labels", "labels do not follow the rows")
            if aware:
                rec.equal(e.sample_domain, d.sd[idx], "fit:domains", "domain labels do not follow the rows")
                if mask:
                    rec.expect((np.asarray(e.y)[~src] == -1).all(), "fit:masked", "target labels are not masked in a fold", y=e.y)
                else:
                    rec.equal(np.asarray(e.y)[~src], y[idx][~src], "fit:unmasked", "mask_target_labels=False is lost in a fold")
            elif not mask and which == "shared" and not masked_input:
                rec.equal(np.asarray(e.y, float)[~src], d.y[idx][~src].astype(float), "fit:unmasked", "mask_target_labels=False is lost in a fold")
            rec.event("fit-logs")
        if set(scn) & {"circular", "mixval", "dev"}:
            return
        # rows reaching the final estimator between the fit of fold i and that of fold i+1 are test rows of fold i
        pos = [e.n for e in fits] + [float("inf")]
        for i, (tr, te) in enumerate(folds):
            calls = [e for e in ev if e.tag in ("clf", "reg") and e.call != "fit" and pos[i] < e.n < pos[i + 1]]
            rec.must(calls, "score:calls", "a fold was scored without predicting")
            for e in calls:
                idx = spies.ident(e.X).tolist()
                role = te[d.sd[te] >= 0] if scn == ["iw"] else te[d.sd[te] < 0] if "iw" not in scn else None
                if role is not None:
                    rec.expect(idx == role.tolist(), "score:rows", "a fold is scored on other rows than its test rows", got=idx, want=role.tolist())
                else:
                    rec.expect(idx in (te[d.sd[te] >= 0].tolist(), te[d.sd[te] < 0].tolist()), "score:rows", "rows of another fold")
                rec.event("score-logs")
    rec.seen("cv", cvn, scn, which, mask, d.X)
    rec.sample(cv=cvn, scorers=scn, folds=len(folds), selector=which, mask=mask)


@case("C15", quick=222, thorough=3000, requires=["folds", "scores-compared"])
def components(rec, rng):
    """Every adapter and domain-aware estimator: cross-validated scores equal the folds performed by hand."""
    es = [e for e in zoo.adapters() + zoo.da_estimators() if "TransferJointMatching" not in e.name]
    e = es[rec.idx % len(es)]
    task = zoo.pick(rng, e.tasks)
    d = gen.da(rng, task, n_per=(16, 24), p=3, labels=[0, 1, 2] if "hinge" in e.name else [0, 1], sep=4.)
    y = d.mask() if task == "clf" or rng.random() < .3 else d.y.copy()
    if e.reads_target_y or "OT" in e.name:
        y = d.mask()
    seed = int(rng.integers(1000))
    cv = SourceTargetShuffleSplit(n_splits=2, test_size=.4, random_state=seed)
    folds = folds_of(cv, d, y)
    if not usable(d, y, folds) or any(set(d.sd[tr]) != set(d.sd.tolist()) for tr, _ in folds):
        raise Skip("a fold misses a role, a class or a domain")
    if "JCPOT" in e.name and any(set(zip(d.sd[tr][d.sd[tr] >= 0].tolist(), d.y[tr][d.sd[tr] >= 0].tolist())) !=
                                 {(s, l) for s in d.sids for l in d.labels} for tr, _ in folds):
        raise Skip("a source domain misses a class")
    make = (lambda: make_da_pipeline(StandardScaler(), e.make())) if e.kind == "est" else (
        lambda: make_da_pipeline(StandardScaler(), e.make(), zoo.base_for(task, e.produces)))
    with rec.context(component=e.name, sd=d.sd):
        outs = []
        if "DASVM" in e.name or "Gradual" in e.name:
            # these ignore global state only when their base estimator is deterministic (it is)
            pass
        try:
            hand = []
            for tr, te in folds:
                p = make()
                np.random.seed(seed)
                p.fit(d.X[tr], y[tr], sample_domain=d.sd[tr])
                hand.append(SupervisedScorer()(p, d.X[te], y[te], sample_domain=d.sd[te], target_labels=d.y[te]))
        except ValueError as ex:
            from ..probe import collapsed
            if collapsed(ex):
                raise Skip("pseudo-labels collapsed")
            raise
        with rec.call(f"cross_validate:{e.name}"), unchanged(rec, f"cross_validate:{e.name}", X=d.X, y=y, sd=d.sd):
            np.random.seed(seed)
            outs = cross_val_score(make(), d.X, y, cv=cv, params={"sample_domain": d.sd, "target_labels": d.y}, scoring=SupervisedScorer(),
                                   error_score="raise")
        rec.close(outs, hand, f"score:{e.name}", "cross-validated scores differ from the folds performed by hand", rtol=1e-5, atol=1e-7)
        rec.event("folds", len(folds))
        rec.event("scores-compared", len(outs))
    rec.seen("component", e.name, d.X)


@case("C15", quick=160, thorough=2500, requires=["candidates", "refits", "fit-logs"])
def search(rec, rng):
    """Grid and randomised search: split scores per candidate by hand, the winner is the best, the refit sees every row."""
    task = zoo.pick(rng, ["clf", "clf", "reg"])
    d = data(rng, task)
    seed = int(rng.integers(1000))
    y = d.mask() if rng.random() < .5 else d.y.copy()
    mask = bool(rng.random() < .7)
    cv = zoo.pick(rng, [SourceTargetShuffleSplit, DomainShuffleSplit])(n_splits=2, test_size=.4, random_state=seed)
    folds = folds_of(cv, d, y)
    if not usable(d, y, folds):
        raise Skip("a fold misses a role or a class")
    if task == "clf":
        scn = zoo.pick(rng, ["supervised", "supervised-loss", "entropy", "snd", "mano"])
        final, step = spies.SpyClassifier(), "spyclassifier"
        grid = {f"{step}__alpha": [.3, 1., 3.]}
    else:
        scn = zoo.pick(rng, ["supervised", "supervised-loss"])
        final, step = Ridge(), "ridge"
        grid = {f"{step}__alpha": [.1, 1., 30.]}
    if rng.random() < .6:
        grid["pca__n_components"] = [1, 2]
    grid["spytransformer__alpha"] = [0., 1.]
    if rng.random() < .4:
        grid.pop(f"{step}__alpha")
    make = lambda: make_da_pipeline(spies.SpyTransformer(), PCA(n_components=2, random_state=0), clone(final), mask_target_labels=mask) \
        if "pca__n_components" in grid else make_da_pipeline(spies.SpyTransformer(), clone(final), mask_target_labels=mask)
    params = {"sample_domain": d.sd}
    if scn.startswith("supervised"):
        params["target_labels"] = d.y
    kw = dict(cv=cv, scoring=SCORERS[scn](), error_score="raise", refit=True)
    if task == "reg" and y is not d.y and np.isnan(y).any() and not mask:
        mask = True
    with rec.context(grid=grid, scorer=scn, mask=mask, sd=d.sd):
        spies.take()
        gs = GridSearchCV(make(), grid, **kw) if rng.random() < .7 else RandomizedSearchCV(make(), grid, n_iter=3, random_state=seed, **kw)
        with rec.call("search"), unchanged(rec, "search", X=d.X, y=y, params=params):
            gs.fit(d.X, y, **params)
        spies.take()
        res = gs.cv_results_
        means = []
        for i, p in enumerate(res["params"]):
            sc = []
            for j, (tr, te) in enumerate(folds):
                with rec.call("by-hand"):
                    pipe = make().set_params(**p).fit(d.X[tr], y[tr], sample_domain=d.sd[tr])
                    k2 = {"target_labels": d.y[te]} if scn.startswith("supervised") else {}
                    sc.append(SCORERS[scn]()(pipe, d.X[te], y[te], sample_domain=d.sd[te], **k2))
                rec.close(res[f"split{j}_test_score"][i], sc[-1], "search:score", "the score of a candidate differs from the fold performed by hand",
                          rtol=1e-9, atol=1e-12, candidate=p, fold=j)
            means.append(np.mean(sc))
            rec.event("candidates")
        rec.expect(means[gs.best_index_] >= max(means) - 1e-9, "search:best", "the winner is not the best candidate", means=means, best=gs.best_index_)
        with rec.call("by-hand"):
            ref = make().set_params(**gs.best_params_).fit(d.X, y, sample_domain=d.sd)
            t = ~d.src
            a = gs.best_estimator_.predict(d.X[t], sample_domain=d.sd[t])
            b = ref.predict(d.X[t], sample_domain=d.sd[t])
        rec.close(a, b, "search:refit", "the refitted winner is not the winner fitted on all rows", rtol=1e-9, atol=1e-12)
        # what the refit saw
        spies.take()
        gs2 = GridSearchCV(make(), {k: v[:1] for k, v in grid.items()}, **kw)
        with rec.call("search"):
            gs2.fit(d.X, y, **params)
        tr_fits = [e for e in spies.take() if e.call == "fit" and e.tag == "tr"]
        rec.must(len(tr_fits) == len(folds) + 1, "search:fits", "number of fits", got=len(tr_fits))
        for e, rows in zip(tr_fits, [f[0] for f in folds] + [np.arange(len(d.X))]):
            rec.equal(spies.ident(e.X), rows, "search:rows", "a fit of the search sees other rows than its own")
            if e.y is not None:
                s = d.sd[rows] >= 0
                rec.equal(np.asarray(e.y, float)[s], d.y[rows][s].astype(float), "search:labels", "labels do not follow the rows")
                if mask:
                    h = np.asarray(e.y, float)[~s]
                    rec.expect((np.isnan(h) | (h == -1)).all(), "search:masked", "target labels are not masked in a fold of the search")
                else:
                    rec.equal(np.asarray(e.y, float)[~s], y[rows][~s].astype(float), "search:unmasked", "mask_target_labels=False is lost in the search")
            rec.event("fit-logs")
        rec.event("refits")
    rec.seen("search", scn, grid, d.X)


@case("C15", quick=150, thorough=2000, requires=["left-out", "fit-logs"])
def leave_one_out(rec, rng):
    """Leave-one-domain-out on a packed dataset: each fold adapts to exactly one domain and never sees its labels."""
    from skada.datasets import DomainAwareDataset
    k = int(rng.integers(3, 5))
    doms, uid = [], 0
    for i in range(k):
        n = int(rng.integers(14, 22))
        lab = rng.permutation(np.r_[np.repeat([0, 1], 4), rng.integers(0, 2, n - 8)])
        X = rng.normal(size=(n, 3)) + 2 * lab[:, None] + rng.normal(size=3)
        X[:, 0] = np.arange(uid, uid + n)
        uid += n
        doms.append((X, lab, f"d{i}"))
    ds = DomainAwareDataset(doms)
    X, y, sd = ds.pack_lodo()
    ytrue = np.concatenate([d[1] for d in doms])[spies.ident(X)]
    seed = int(rng.integers(1000))
    mx = int(zoo.pick(rng, [10, 2]))
    cv = LeaveOneDomainOut(max_n_splits=mx, test_size=.4, random_state=seed)
    folds = [(a, b) for a, b in cv.split(X, y, sd)]
    if any(len(set(ytrue[tr][sd[tr] >= 0])) < 2 for tr, _ in folds):
        raise Skip("one class")
    make = lambda: make_da_pipeline(spies.SpyDomainClassifier())
    spies.take()
    with rec.call("lodo"), unchanged(rec, "lodo", X=X, y=y, sd=sd):
        out = cross_validate(make(), X, y, cv=cv, params={"sample_domain": sd, "target_labels": ytrue}, scoring=SupervisedScorer(),
                             error_score="raise")
    ev = final_fits(spies.take())
    rec.must(len(ev) == min(mx, k) == len(out["test_score"]), "lodo:folds", got=len(ev), want=min(mx, k))
    left = []
    for e, sc, (tr, te) in zip(ev, out["test_score"], folds):
        t = np.unique(e.sample_domain[e.sample_domain < 0])
        rec.expect(len(t) == 1 and -t[0] not in e.sample_domain, "lodo:alone", "a fold does not adapt to exactly one unseen domain", got=t)
        rec.expect((e.y[e.sample_domain < 0] == -1).all(), "lodo:masked", "labels of the left-out domain reach the fit")
        rec.equal(spies.ident(e.X), spies.ident(X[tr]), "lodo:rows")
        rec.equal(e.sample_domain, sd[tr], "lodo:domains")
        left.append(int(t[0]))
        p = make().fit(X[tr], y[tr], sample_domain=sd[tr])
        m = sd[te] < 0
        rec.close(sc, np.mean(p.predict(X[te][m], sample_domain=sd[te][m]) == ytrue[te][m]), "lodo:score", "score of a fold", rtol=1e-12)
        rec.event("fit-logs")
        rec.event("left-out")
    rec.expect(len(set(left)) == len(left), "lodo:repeat", got=left)
    rec.seen("lodo", X, left)


@case("C15", quick=120, thorough=1500, requires=["predictions"])
def predictions(rec, rng):
    """cross_val_predict: each target row is predicted by the fold that did not train on it, in order."""
    d = data(rng, "clf")
    t = np.flatnonzero(~d.src)
    k = int(rng.integers(2, 4))
    X, y, sd = d.X[t], d.y[t], d.sd[t]
    cv = KFold(k, shuffle=True, random_state=int(rng.integers(1000)))
    folds = list(cv.split(X))
    if any(len(set(y[tr])) < 2 for tr, _ in folds):
        raise Skip("one class")
    make = lambda: make_da_pipeline(spies.SpyTransformer(), SelectTarget(spies.SpyClassifier()), mask_target_labels=False)
    m = "predict"        # selectors have no classes_, which the other methods need
    with rec.call("cross_val_predict"), unchanged(rec, "cross_val_predict", X=X, y=y, sd=sd):
        out = cross_val_predict(make(), X, y, cv=cv, params={"sample_domain": sd}, method=m)
    want = None
    for tr, te in folds:
        p = make().fit(X[tr], y[tr], sample_domain=sd[tr])
        o = getattr(p, m)(X[te], sample_domain=sd[te])
        want = np.zeros((len(X),) + o.shape[1:], o.dtype) if want is None else want
        want[te] = o
    rec.close(out, want, "cross_val_predict", "predictions differ from the folds performed by hand", rtol=1e-12)
    rec.event("predictions", len(out))
    rec.seen("cvp", d.X, m)


@case("C15", quick=60, thorough=800, requires=["folds"])
def groups(rec, rng):
    """Group splitters of scikit-learn with the domain labels as groups."""
    d = data(rng, "clf")
    cv = zoo.pick(rng, [lambda: GroupKFold(2), lambda: LeaveOneGroupOut()])()
    cv.set_split_request(groups="sample_domain")
    folds = list(cv.split(d.X, d.y, d.sd))
    if any((d.sd[tr] >= 0).sum() == 0 or (d.sd[te] < 0).sum() < 2 for tr, te in folds):
        raise Skip("a fold without training sources or test targets")
    make = lambda: make_da_pipeline(spies.SpyTransformer(), spies.SpyClassifier())
    spies.take()
    with rec.call("groups"):
        out = cross_validate(make(), d.X, d.y, cv=cv, params={"sample_domain": d.sd, "target_labels": d.y}, scoring=SupervisedScorer(),
                             error_score="raise")
    ev = final_fits(spies.take())
    rec.must(len(ev) == len(folds), "groups:folds", got=len(ev), want=len(folds))
    for e, (tr, te), sc in zip(ev, folds, out["test_score"]):
        rec.expect(sorted(spies.ident(e.X).tolist()) == sorted(tr[d.sd[tr] >= 0].tolist()), "groups:rows", "other rows than those of the fold")
        p = make().fit(d.X[tr], d.y[tr], sample_domain=d.sd[tr])
        m = d.sd[te] < 0
        rec.close(sc, np.mean(p.predict(d.X[te][m], sample_domain=d.sd[te][m]) == d.y[te][m]), "groups:score", rtol=1e-12)
        rec.event("folds")
    rec.seen("groups", d.X)
