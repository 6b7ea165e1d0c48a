"""C02: digests of every argument around every public operation."""
import numpy as np
import torch
from sklearn.linear_model import LinearRegression, LogisticRegression, Ridge
from sklearn.metrics import accuracy_score
from sklearn.model_selection import cross_validate
from sklearn.preprocessing import StandardScaler
from sklearn.svm import SVC

import skada
import skada.deep as sd_deep
from skada import PerDomain, SelectSource, SelectSourceTarget, SelectTarget, Shared, make_da_pipeline
from skada import metrics as M
from skada import model_selection as MS
from skada import utils as U
from skada.datasets import DomainAwareDataset, select_domain
from skada.deep import losses as L
from skada.deep.base import DeepDADataset
from skada.deep.modules import ToyModule2D

from .. import gen, spies, zoo
from ..core import case
from ..probe import collapsed, methods
from ..watch import unchanged


def layoutize(rng, d):
    """The same data in a hostile memory layout."""
    how = ["c", "f", "view", "f32", "big", "cols"][int(rng.integers(6))]
    X, y, sd = d.X, d.y, d.sd
    if how == "f":
        X = np.asfortranarray(X)
    elif how == "view":
        B = np.zeros((2 * len(X), X.shape[1]))
        B[::2] = X
        X = B[::2]
        yb = np.zeros(2 * len(y), dtype=y.dtype)
        yb[1::2] = y
        y = yb[1::2]
        sb = np.zeros(2 * len(sd), dtype=sd.dtype)
        sb[::2] = sd
        sd = sb[::2]
    elif how == "f32":
        X = X.astype(np.float32)
    elif how == "big":
        B = np.zeros((len(X) + 4, X.shape[1]))
        B[2:-2] = X
        X = B[2:-2]
    elif how == "cols":
        B = np.zeros((len(X), X.shape[1] + 2))
        B[:, 1:-1] = X
        X = B[:, 1:-1]
    if d.task == "clf" and rng.random() < .4:
        y = y.astype([np.int32, np.float64, np.int16][int(rng.integers(3))])
    d["X"], d["y"], d["sd"], d["how"] = X, y, sd, how
    return d


def data(rng, task=None, e=None, **kw):
    task = task or (zoo.pick(rng, e.tasks) if e is not None else zoo.pick(rng, ("clf", "reg")))
    if e is not None and e.binary:
        kw["labels"] = [0, 1]
    d = layoutize(rng, gen.da(rng, task, **kw))
    d["true"] = d.y
    if rng.random() < .3:  # already masked labels
        m = d.mask()
        d["y"] = m.astype(d.y.dtype) if task == "clf" else m
    return d


def op(rec, key, fn, may=(), **objs):
    """One watched call. ``may``: predicate on exceptions that are legitimate here."""
    rec.event("operations")
    with unchanged(rec, key, **objs):
        with rec.call(key):
            try:
                return fn()
            except Exception as e:
                if may and may(e):
                    return None
                raise


def watched_predictions(rec, est, d, key, domain_args=True):
    t = d.sd < 0
    Xt, sdt, yt = d.X[t], d.sd[t], d.y[t]
    for m in methods(est):
        if domain_args:
            op(rec, f"{key}.{m}", lambda: getattr(est, m)(d.X, sample_domain=d.sd, allow_source=True), X=d.X, sample_domain=d.sd)
            op(rec, f"{key}.{m}", lambda: getattr(est, m)(Xt, sample_domain=sdt), X=Xt, sample_domain=sdt)
        else:
            op(rec, f"{key}.{m}", lambda: getattr(est, m)(d.X), X=d.X)


@case("C02", quick=320, thorough=6400, requires=["arguments-watched"])
def adapters(rec, rng):
    es = zoo.adapters()
    e = es[rec.idx % len(es)]
    d = data(rng, e=e)
    X, y, sd = d.X, d.y, d.sd
    a = e.make()
    k = f"adapter:{e.name}"
    w = rng.random(len(X)) + .1
    if e.kind == "labelprop":
        op(rec, k + ".fit_transform", lambda: a.fit_transform(X, y, sample_domain=sd, sample_weight=w), X=X, y=y, sample_domain=sd,
           sample_weight=w)
    else:
        op(rec, k + ".fit_transform", lambda: a.fit_transform(X, y, sample_domain=sd), X=X, y=y, sample_domain=sd)
        watched_predictions(rec, a, d, k)
        b = e.make()
        op(rec, k + ".fit", lambda: b.fit(X, y, sample_domain=sd), X=X, y=y, sample_domain=sd)
        if e.produces == "sample_weight":
            op(rec, k + ".compute_weights", lambda: b.compute_weights(X, y, sample_domain=sd), X=X, y=y, sample_domain=sd)
    # with the returned objects: writing to what was returned for the *training* call may alias X by design
    rec.seen("adapter", e.name, X)
    rec.sample(adapter=e.name, layout=d.how, X=X)


@case("C02", quick=320, thorough=6400, requires=["arguments-watched"])
def pipelines(rec, rng):
    es = zoo.adapters()
    e = es[rec.idx % len(es)]
    d = data(rng, e=e)
    X, y, sd = d.X, d.y, d.sd
    p = make_da_pipeline(zoo.pick(rng, [StandardScaler(), PerDomain(StandardScaler()), Shared(StandardScaler(copy=True))]), e.make(),
                         zoo.base_for(d.task, e.produces), mask_target_labels=True)
    k = f"pipeline:{e.name}"
    op(rec, k + ".fit", lambda: p.fit(X, y, sample_domain=sd), X=X, y=y, sample_domain=sd)
    watched_predictions(rec, p, d, k)
    t = sd < 0
    Xt, sdt, yt = X[t], sd[t], d.true[t]
    op(rec, k + ".score", lambda: p.score(Xt, yt, sample_domain=sdt), X=Xt, y=yt, sample_domain=sdt)
    rec.seen("pipeline", e.name, X)


@case("C02", quick=96, thorough=1920, requires=["arguments-watched"])
def da_estimators(rec, rng):
    es = zoo.da_estimators()
    e = es[rec.idx % len(es)]
    d = data(rng, e=e)
    X, y, sd = d.X, d.y, d.sd
    k = f"estimator:{e.name}"
    may = collapsed if e.name in ("DASVM", "Gradual") else ()
    a = e.make()
    w = rng.random(len(X)) + .1
    kw = {"sample_weight": w} if "JDOT" in e.name else {}
    if e.name in ("DASVM", "Gradual"):
        if d.task == "clf" and (y[sd < 0] == -1).all():
            pass
    r = op(rec, k + ".fit", lambda: a.fit(X, y, sample_domain=sd, **kw), may=may, X=X, y=y, sample_domain=sd, sample_weight=w)
    if r is not None:
        watched_predictions(rec, a, d, k, domain_args=e.domain_args)
    p = make_da_pipeline(StandardScaler(), e.make())
    op(rec, k + ":piped.fit", lambda: p.fit(X, y, sample_domain=sd), may=may, X=X, y=y, sample_domain=sd)
    rec.seen("estimator", e.name, X)


@case("C02", quick=240, thorough=4800, requires=["arguments-watched"])
def selectors(rec, rng):
    d = data(rng)
    X, y, sd = d.X, d.y, d.sd
    clf = d.task == "clf"
    plain = spies.SpyClassifier() if clf else spies.SpyRegressor()
    i = rec.idx % 10
    masked_t = (y[sd < 0] == -1).any() if clf else np.isnan(y).any()
    sel = {
        0: lambda: Shared(plain), 1: lambda: SelectSource(plain),
        2: lambda: Shared(spies.SpyTransformer()), 3: lambda: PerDomain(spies.SpyTransformer()),
        4: lambda: PerDomain(spies.SpyTransformerNoFT()), 5: lambda: SelectSourceTarget(spies.SpyTransformer()),
        6: lambda: Shared(spies.SpyTransformerNoFT()), 7: lambda: SelectSource(spies.SpyTransformer()),
        8: lambda: SelectTarget(spies.SpyTransformer()), 9: lambda: Shared(spies.SpyDomainClassifier()) if clf else Shared(Ridge()),
    }[i]()
    k = f"selector:{i}"
    op(rec, k + ".fit", lambda: sel.fit(X, y, sample_domain=sd), X=X, y=y, sample_domain=sd)
    if hasattr(sel, "fit_transform"):
        op(rec, k + ".fit_transform", lambda: sel.fit_transform(X, y, sample_domain=sd), X=X, y=y, sample_domain=sd)
    for m in methods(sel):
        op(rec, f"{k}.{m}", lambda: getattr(sel, m)(X, sample_domain=sd), X=X, sample_domain=sd)
    # failing calls must leave their arguments alone too
    bad = np.r_[sd, 1]
    with unchanged(rec, k + ".fit-invalid", X=X, y=y, sample_domain=bad):
        try:
            make_da_pipeline(sel, zoo.base_for(d.task, None)).fit(X, y, sample_domain=bad)
        except Exception:
            rec.event("failing-calls")
    spies.take()
    rec.seen("selector", i, X, y)


@case("C02", quick=160, thorough=3200, requires=["arguments-watched"])
def helpers(rec, rng):
    d = data(rng)
    X, y, sd = d.X, d.y, d.sd
    w = rng.random(len(X))
    op(rec, "check_X_domain", lambda: U.check_X_domain(X, sd), X=X, sample_domain=sd)
    op(rec, "check_X_y_domain", lambda: U.check_X_y_domain(X, y, sd), X=X, y=y, sample_domain=sd)
    op(rec, "extract_source_indices", lambda: U.extract_source_indices(sd), sample_domain=sd)
    op(rec, "extract_domains_indices", lambda: U.extract_domains_indices(sd, split_source_target=True), sample_domain=sd)
    parts = op(rec, "source_target_split", lambda: U.source_target_split(X, y, w, sample_domain=sd), X=X, y=y, w=w,
               sample_domain=sd)
    op(rec, "per_domain_split", lambda: U.per_domain_split(X, y, sample_domain=sd), X=X, y=y, sample_domain=sd)
    Xs, Xt, ys, yt = parts[:4]
    op(rec, "source_target_merge", lambda: U.source_target_merge(Xs, Xt, ys, yt, sample_domain=sd), Xs=Xs, Xt=Xt, ys=ys, yt=yt,
       sample_domain=sd)
    op(rec, "source_target_merge-none", lambda: U.source_target_merge(Xs, Xt, ys, None, sample_domain=sd), Xs=Xs, Xt=Xt, ys=ys,
       sample_domain=sd)
    a, b = Xs[:3], Xt[:4]
    op(rec, "source_target_merge-auto", lambda: U.source_target_merge(a, b), a=a, b=b)
    n = 5
    Q = rng.normal(size=(n, n))
    Q = Q @ Q.T + np.eye(n)
    c, A, bb = rng.normal(size=n), rng.random((2, n)), np.array([2., 3.])
    Aeq, beq = np.ones((1, n)), np.array([1.])
    lb, ub, x0 = np.zeros(n), np.ones(n), np.full(n, 1 / n)
    op(rec, "qp_solve", lambda: U.qp_solve(Q, c=c, A=A, b=bb, Aeq=Aeq, beq=beq, lb=lb, ub=ub, x0=x0), Q=Q, c=c, A=A, b=bb, Aeq=Aeq,
       beq=beq, lb=lb, ub=ub, x0=x0)
    op(rec, "qp_solve-nox0", lambda: U.qp_solve(Q, c=c, Aeq=Aeq, beq=beq, lb=lb, ub=ub), Q=Q, c=c, Aeq=Aeq, beq=beq, lb=lb, ub=ub)
    A1, b1 = np.ones((1, n)), np.array([1.])
    op(rec, "qp_solve-fw", lambda: U.qp_solve(Q, c=c, A=A1, b=b1, Aeq=None, beq=None, x0=x0, solver="frank-wolfe", max_iter=20), Q=Q,
       c=c, A=A1, b=b1, x0=x0)
    cpos = np.abs(c) + 0.05
    op(rec, "frank_wolfe", lambda: U.frank_wolfe(lambda x: Q @ x, cpos, 1., 1., x0, 20), Q=Q, c=cpos, x0=x0)
    op(rec, "frank_wolfe-nox0", lambda: U.frank_wolfe(lambda x: Q @ x, cpos, max_iter=20), c=cpos)
    x1 = rng.normal(size=(3, 2))
    x2 = rng.normal(size=4)
    op(rec, "torch_minimize", lambda: U.torch_minimize(lambda u, v: (u ** 2).sum() + ((v - 1) ** 2).sum(), [x1, x2]), x0=[x1, x2])
    op(rec, "torch_minimize-1", lambda: U.torch_minimize(lambda u: ((u - 2) ** 2).sum(), x1), x0=x1)
    tx = torch.as_tensor(rng.normal(size=3))
    op(rec, "torch_minimize-t", lambda: U.torch_minimize(lambda u: ((u - 2) ** 2).sum(), tx), x0=tx)
    if d.task == "clf":
        yy = np.searchsorted(np.unique(d.labels), np.where(ys == -1, d.labels[0], ys))
        cl = np.asarray(d.labels)[yy]
        if len(np.unique(cl)) > 1:
            ws, wt = np.full(len(Xs), 1 / len(Xs)), np.full(len(Xt), 1 / len(Xt))
            op(rec, "solve_jdot_classification", lambda: skada.solve_jdot_classification(
                LogisticRegression(), Xs, cl, Xt, ws=ws, wt=wt, n_iter_max=2), Xs=Xs, ys=cl, Xt=Xt, ws=ws, wt=wt)
    else:
        ws, wt = rng.random(len(Xs)) + .1, rng.random(len(Xt)) + .1
        op(rec, "solve_jdot_regression", lambda: skada.solve_jdot_regression(Ridge(), Xs, ys, Xt, ws=ws, wt=wt, n_iter_max=2),
           Xs=Xs, ys=ys, Xt=Xt, ws=ws, wt=wt)
    rec.seen("helpers", X, y)


@case("C02", quick=120, thorough=2400, requires=["arguments-watched"])
def resampling(rec, rng):
    d = data(rng, "clf", n_per=(12, 20))
    y = np.where(d.y == -1, d.labels[0], d.y)
    y[:3 * len(d.labels)] = np.repeat(d.labels, 3)
    X, sd = d.X, d.sd
    for S in (MS.SourceTargetShuffleSplit, MS.DomainShuffleSplit, MS.LeaveOneDomainOut, MS.StratifiedDomainShuffleSplit):
        s = S(n_splits=2, random_state=0) if S is not MS.LeaveOneDomainOut else S(max_n_splits=2, random_state=0)
        yy, ss = y, sd
        if S is MS.LeaveOneDomainOut:
            XX = np.concatenate([X, X])
            yy, ss = np.concatenate([y, y]), np.concatenate([np.abs(sd), -np.abs(sd)])
        else:
            XX = X
        may = (lambda e: isinstance(e, ValueError)) if S in (MS.StratifiedDomainShuffleSplit, MS.LeaveOneDomainOut) else ()
        op(rec, f"{S.__name__}.split", lambda: list(s.split(XX, yy, ss)), may=may, X=XX, y=yy, sample_domain=ss)
        op(rec, f"{S.__name__}.get_n_splits", lambda: s.get_n_splits(XX, yy, ss), may=may, X=XX, y=yy, sample_domain=ss)
    w = rng.random(len(X))
    for T in (skada.Subsampler, skada.DomainSubsampler, skada.StratifiedDomainSubsampler):
        for size in (.6, 10 ** 6):
            a = T(train_size=size, random_state=0)
            may = (lambda e: isinstance(e, ValueError)) if T is skada.StratifiedDomainSubsampler else ()
            op(rec, f"{T.__name__}.fit_transform", lambda: a.fit_transform(X, y, sample_domain=sd, sample_weight=w), may=may, X=X,
               y=y, sample_domain=sd, sample_weight=w)
            op(rec, f"{T.__name__}.transform", lambda: a.transform(X, y, sample_domain=sd), X=X, y=y, sample_domain=sd)
    rec.seen("resampling", X, sd)


def scorers():
    return {
        "Supervised": lambda: M.SupervisedScorer(), "IW": lambda: M.ImportanceWeightedScorer(),
        "PE": lambda: M.PredictionEntropyScorer(), "PE-none": lambda: M.PredictionEntropyScorer(reduction="none"),
        "SND": lambda: M.SoftNeighborhoodDensity(), "DEV": lambda: M.DeepEmbeddedValidation(random_state=0),
        "CV": lambda: M.CircularValidation(), "MixVal": lambda: M.MixValScorer(random_state=0), "MaNo": lambda: M.MaNoScorer(),
    }


@case("C02", quick=180, thorough=3600, requires=["arguments-watched"])
def scoring(rec, rng):
    d = data(rng, "clf", labels=[[0, 1], [0, 1, 2]][int(rng.integers(2))], n_per=(14, 22))
    X, sd = d.X, d.sd
    true = np.where(d.y == -1, 0, d.y)
    if rec.idx % len(scorers()) == sorted(scorers()).index("DEV"):
        true = true.astype(int)  # indices of the columns of predict_proba
    y = np.where(sd < 0, -1, true)
    names = sorted(scorers())
    n = names[rec.idx % len(names)]
    p = make_da_pipeline(StandardScaler(), LogisticRegression().set_score_request(sample_weight=True))
    p.fit(X, y, sample_domain=sd)
    s = scorers()[n]()
    kw = {"target_labels": true} if n == "Supervised" else {}
    op(rec, f"scorer:{n}", lambda: s(p, X, y, sample_domain=sd, **kw), X=X, y=y, sample_domain=sd, target_labels=true)
    if n != "CV":
        op(rec, f"scorer:{n}:unmasked", lambda: s(p, X, true, sample_domain=sd, **kw), X=X, y=true, sample_domain=sd,
           target_labels=true)
    params = {"sample_domain": sd}
    if n == "Supervised":
        params["target_labels"] = true
    op(rec, f"cross_validate:{n}", lambda: cross_validate(p, X, y, params=params, cv=MS.SourceTargetShuffleSplit(n_splits=2, random_state=0),
                                                          scoring=s if n != "PE-none" else M.PredictionEntropyScorer(),
                                                          error_score="raise"),
       X=X, y=y, sample_domain=sd, target_labels=true)
    rec.seen("scoring", n, X)


@case("C02", quick=120, thorough=2400, requires=["arguments-watched"])
def packing(rec, rng):
    as_t = rng.random() < .3
    kind = ["int", "float", "uint", "bool"][int(rng.integers(4))]
    doms = []
    for i in range(int(rng.integers(2, 5))):
        m = int(rng.integers(3, 8))
        X = rng.normal(size=(m, 3))
        y = {"int": lambda: rng.integers(0, 3, m), "float": lambda: rng.normal(size=m), "uint": lambda: rng.integers(0, 3, m).astype(np.uint8),
             "bool": lambda: rng.random(m) < .5}[kind]()
        if as_t:
            X, y = torch.as_tensor(X), torch.as_tensor(y)
        doms.append((X, y, f"d{i}"))
    names = [x[2] for x in doms]
    ds = op(rec, "DomainAwareDataset()", lambda: DomainAwareDataset(doms), domains=doms)
    k = int(rng.integers(1, len(names)))
    src, tgt = names[:k], names[k:]
    for mask in (True, False):
        for rt in (["tensor", "DeepDADataset", "auto"] if as_t else ["array", "Bunch", "tensor", "DeepDADataset", "auto"]):
            if as_t and kind == "uint" and rt == "DeepDADataset":
                pass
            op(rec, f"pack:{rt}", lambda: ds.pack(as_sources=src, as_targets=tgt, mask_target_labels=mask, return_type=rt), dataset=ds,
               domains=doms, as_sources=src, as_targets=tgt)
    if not as_t and kind in ("int", "float"):
        op(rec, "pack:mask", lambda: ds.pack(as_sources=src, as_targets=tgt, mask_target_labels=True, mask=-7, return_type="array"),
           dataset=ds, domains=doms)
        op(rec, "pack_train", lambda: ds.pack_train(as_sources=src, as_targets=tgt), dataset=ds, domains=doms)
        op(rec, "pack_test", lambda: ds.pack_test(as_targets=tgt), dataset=ds, domains=doms)
        op(rec, "pack_lodo", lambda: ds.pack_lodo(), dataset=ds, domains=doms)
        X, y, sd = ds.pack(as_sources=src, as_targets=tgt, mask_target_labels=False, return_type="array")
        op(rec, "select_domain", lambda: select_domain(ds.domain_names_, np.abs(sd), names[:2]), sd=sd, names=names)
    other = DomainAwareDataset([(doms[0][0], doms[0][1], "other")])
    op(rec, "merge", lambda: DomainAwareDataset([(doms[1][0], doms[1][1], "a")]).merge(other, names_mapping={"other": "zz"}), other=other,
       domains=doms)
    rec.seen("packing", kind, as_t, [x[0] for x in doms])


@case("C02", quick=80, thorough=1600, requires=["arguments-watched"])
def deep_dataset(rec, rng):
    n = int(rng.integers(6, 15))
    X = rng.normal(size=(n, 3)).astype(np.float32)
    y = rng.integers(0, 3, n)
    sd = np.where(rng.random(n) < .5, 1, -2)
    w = rng.random(n)
    if rng.random() < .5:
        X, y, sd, w = map(torch.as_tensor, (X, y, sd, w))
    dic = {"X": X, "y": y, "sample_domain": sd, "sample_weight": w}
    ds = op(rec, "DeepDADataset", lambda: DeepDADataset(X, y, sd, w), X=X, y=y, sd=sd, w=w)
    d2 = op(rec, "DeepDADataset(dict)", lambda: DeepDADataset(dic), dic=dic)
    op(rec, "DeepDADataset(ds)", lambda: DeepDADataset(ds), ds=ds)
    for m, f in {
        "merge": lambda: ds.merge(d2, keep_weights=True), "merge0": lambda: ds.merge(d2), "select_source": lambda: ds.select_source(),
        "select_target": lambda: ds.select_target(), "select_domain": lambda: ds.select_domain(-2),
        "per_domain_split": lambda: ds.per_domain_split(), "select_with_labels": lambda: ds.select_with_labels(),
        "select": lambda: ds.select(lambda v: v > 0, on="y"), "as_dict": lambda: ds.as_dict(), "as_arrays": lambda: ds.as_arrays(),
        "add_domain": lambda: ds.add_domain(dic), "add_domain-t": lambda: ds.add_domain((X, y, sd)), "repr": lambda: repr(ds),
        "getitem": lambda: [ds[i] for i in range(len(ds))], "select-noweights": lambda: ds.select_source(return_weights=False),
    }.items():
        op(rec, f"DeepDADataset.{m}", f, ds=ds, d2=d2, X=X, y=y, sd=sd, w=w, dic=dic)
    into = DeepDADataset(X, y, sd, w)
    op(rec, "DeepDADataset.merge-inplace", lambda: into.merge(d2, keep_weights=True, out=False), other=d2, X=X, y=y, sd=sd, w=w)
    op(rec, "DeepDADataset.add_weights", lambda: DeepDADataset(X, y, sd).add_weights(w), X=X, y=y, sd=sd, w=w)
    op(rec, "DeepDADataset.remove_weights", lambda: into.remove_weights(), X=X, y=y, sd=sd, w=w)
    rec.seen("deep_dataset", X, sd)


def nets(module=None):
    m = lambda: ToyModule2D(n_classes=2, num_features=5)
    D = sd_deep
    kw = dict(layer_name="dropout", max_epochs=1, batch_size=8, train_split=None, verbose=0)
    return {
        "SourceOnly": lambda **k: D.SourceOnly(m(), **{**kw, **k}), "TargetOnly": lambda **k: D.TargetOnly(m(), **{**kw, **k}),
        "DeepCoral": lambda **k: D.DeepCoral(m(), reg=1, **{**kw, **k}), "DAN": lambda **k: D.DAN(m(), reg=1, **{**kw, **k}),
        "DeepJDOT": lambda **k: D.DeepJDOT(m(), **{**kw, **k}), "DANN": lambda **k: D.DANN(m(), num_features=5, **{**kw, **k}),
        "CDAN": lambda **k: D.CDAN(m(), num_features=5, n_classes=2, **{**kw, **k}),
        "MDD": lambda **k: D.MDD(m(), num_features=5, n_classes=2, **{**kw, **k}), "MCC": lambda **k: D.MCC(m(), **{**kw, **k}),
        "CAN": lambda **k: D.CAN(m(), **{**kw, **k}),
        "SPA": lambda **k: D.SPA(m(), num_features=5, **{**kw, **k}),
    }


@case("C02", quick=66, thorough=880, requires=["arguments-watched"])
def deep_nets(rec, rng):
    names = sorted(nets())
    n = names[rec.idx % len(names)]
    ns, nt = int(rng.integers(16, 24)), int(rng.integers(16, 24))
    X = rng.normal(size=(ns + nt, 2)).astype(np.float32)
    sd = np.r_[np.ones(ns, int), -2 * np.ones(nt, int)][rng.permutation(ns + nt)]
    y = rng.integers(0, 2, ns + nt)
    if n != "TargetOnly":
        y[sd < 0] = -1
    net = nets()[n]()
    form = rec.idx // len(names) % 3
    dic = {"X": X, "sample_domain": sd}
    ds = DeepDADataset(X, y, sd)
    if form == 0:
        op(rec, f"net:{n}.fit", lambda: net.fit(X, y, sample_domain=sd), X=X, y=y, sample_domain=sd)
    elif form == 1:
        op(rec, f"net:{n}.fit(dict)", lambda: net.fit(dic, y), X=dic, y=y)
    else:
        op(rec, f"net:{n}.fit(ds)", lambda: net.fit(ds, None), ds=ds)
    for m in ("predict", "predict_proba"):
        op(rec, f"net:{n}.{m}", lambda: getattr(net, m)(X, sample_domain=sd, allow_source=True), X=X, sample_domain=sd)
        op(rec, f"net:{n}.{m}", lambda: getattr(net, m)(ds), ds=ds)
    op(rec, f"net:{n}.predict_features", lambda: net.predict_features(X), X=X)
    yy = np.abs(y)
    op(rec, f"net:{n}.score", lambda: net.score(X, yy, sample_domain=sd), X=X, y=yy, sample_domain=sd)
    op(rec, f"net:{n}.score-all", lambda: net.score(X, yy, sample_domain=sd, allow_source=True), X=X, y=yy, sample_domain=sd)
    rec.seen("nets", n, X)


@case("C02", quick=80, thorough=1600, requires=["arguments-watched"])
def loss_functions(rec, rng):
    T = lambda *s: torch.as_tensor(rng.normal(size=s).astype(np.float32))
    b, p, k = int(rng.integers(6, 12)), 4, 3
    fs, ft = T(b, p), T(b, p)
    ys = torch.as_tensor(rng.integers(0, k, b))
    ys[:k] = torch.arange(k)
    ps, pt = T(b, k), T(b, k)
    op(rec, "deepcoral_loss", lambda: L.deepcoral_loss(fs, ft), fs=fs, ft=ft)
    op(rec, "deepcoral_loss-c", lambda: L.deepcoral_loss(fs, ft, assume_centered=True), fs=fs, ft=ft)
    op(rec, "dan_loss", lambda: L.dan_loss(fs, ft), fs=fs, ft=ft)
    op(rec, "deepjdot_loss", lambda: L.deepjdot_loss(ys, pt, fs, ft, 1, 1), ys=ys, pt=pt, fs=fs, ft=ft)
    op(rec, "mcc_loss", lambda: L.mcc_loss(pt, T=2.), pt=pt)
    op(rec, "gda_loss", lambda: L.gda_loss(fs, ft), fs=fs, ft=ft)
    op(rec, "probability_scaling", lambda: L.probability_scaling(pt, temperature=2.), pt=pt)
    km = sd_deep.utils.SphericalKMeans(n_clusters=k, random_state=0) if hasattr(sd_deep, "utils") else None
    from skada.deep.utils import SphericalKMeans
    km = SphericalKMeans(n_clusters=k, random_state=0, initial_centroids=None)
    op(rec, "SphericalKMeans.fit", lambda: km.fit(ft), ft=ft)
    op(rec, "SphericalKMeans.predict", lambda: km.predict(ft), ft=ft)
    cen = T(k, p)
    km2 = SphericalKMeans(n_clusters=k, initial_centroids=cen, random_state=0)
    op(rec, "SphericalKMeans.fit-init", lambda: km2.fit(ft), ft=ft, initial_centroids=cen)
    op(rec, "cdd_loss", lambda: L.cdd_loss(ys, fs, ft, km2, class_threshold=1), ys=ys, fs=fs, ft=ft)
    mf, mo, idx = T(20, p), torch.softmax(T(20, k), 1), torch.as_tensor(rng.permutation(20)[:b])
    op(rec, "nap_loss", lambda: L.nap_loss(ft, pt, mf, mo, idx, K=3), ft=ft, pt=pt, mf=mf, mo=mo, idx=idx)
    for name, crit in {
        "DeepCoralLoss": sd_deep.DeepCoralLoss(), "DANLoss": sd_deep.DANLoss(), "DeepJDOTLoss": sd_deep.DeepJDOTLoss(),
        "MCCLoss": sd_deep.MCCLoss(), "DANNLoss": sd_deep.DANNLoss(), "CDANLoss": sd_deep.CDANLoss(),
    }.items():
        ds_, dt_ = torch.sigmoid(T(b)), torch.sigmoid(T(b))
        kw = dict(y_s=ys, y_pred_s=ps, y_pred_t=pt, domain_pred_s=ds_, domain_pred_t=dt_, features_s=fs, features_t=ft,
                  sample_idx_s=torch.arange(b), sample_idx_t=torch.arange(b))
        op(rec, name, lambda: crit(**kw), **kw)
    rec.seen("losses", fs, ft)


@case("C02", quick=150, thorough=3000, requires=["arguments-watched"])
def solvers(rec, rng):
    """Programs, start points and bounds handed to the numerical solvers."""
    n = int(rng.integers(1, 6))
    B = rng.normal(size=(n, n))
    Q, c = B @ B.T + np.eye(n), rng.normal(size=n)
    a = rng.uniform(.5, 2, n) * (1 if rng.random() < .7 else -1)
    x0 = rng.dirichlet(np.ones(n)) / np.abs(a)
    if rng.random() < .4:       # as a view of a larger array
        x0 = np.stack([x0, x0], 1)[:, 0]
    lo, hi = sorted(rng.uniform(.2, 3, 2) * np.sign(a[0]))
    A, b = np.stack([a, -a]), np.array([hi, -lo])
    kw = {} if rng.random() < .2 else {"x0": x0}
    if rng.random() < .5:
        kw["max_iter"] = 20
    which = rec.idx % 4
    with np.errstate(all="ignore"):
        if which == 0:
            op(rec, "qp:scipy", lambda: U.qp_solve(Q, c, A, b, lb=-3 * np.ones(n), ub=3 * np.ones(n), **kw), Q=Q, c=c, A=A, b=b, x0=x0)
        elif which == 1:
            op(rec, "qp:frank-wolfe", lambda: U.qp_solve(Q, c, A, b, solver="frank-wolfe", **kw), Q=Q, c=c, A=A, b=b, x0=x0)
        elif which == 2:
            op(rec, "frank-wolfe", lambda: U.frank_wolfe(lambda v: Q @ v + c, a, lo, hi, **kw), Q=Q, c=c, a=a, x0=x0)
        else:
            start = [x0, c[:1]] if rng.random() < .5 else x0 if rng.random() < .5 else torch.tensor(x0)
            tq = torch.tensor(Q)
            op(rec, "minimise", lambda: U.torch_minimize(lambda *v: v[0] @ tq @ v[0] + sum((u ** 2).sum() for u in v[1:]), start), start=start, x0=x0, c=c)
    rec.seen("solver", which, Q)
