"""C31: the same content in other containers (lists, data frames, series, strided, read-only) gives the same result."""
import numpy as np
import pandas as pd
from sklearn.linear_model import LogisticRegression, Ridge
from sklearn.model_selection import cross_validate
from sklearn.preprocessing import StandardScaler

import skada
from skada import PerDomain, SelectSource, SelectSourceTarget, SelectTarget, Shared, make_da_pipeline
from skada import metrics as M
from skada import model_selection as MS
from skada import utils as U

from .. import gen, spies, zoo
from ..core import case
from ..probe import METHODS, collapsed, flat_output, methods


def strided(a):
    B = np.zeros((2 * len(a) + 1, *a.shape[1:]), dtype=a.dtype)
    B[1::2] = a
    return B[1::2]


def readonly(a):
    a = np.array(a, copy=True)
    a.flags.writeable = False
    return a


def _index(rng, n):
    """An index under which positions and labels never agree."""
    k = int(rng.integers(4))
    if k == 0:
        return np.arange(n)[::-1]
    if k == 1:
        return np.roll(np.arange(n), 1 + int(rng.integers(n - 1))) if n > 1 else np.array([5])
    if k == 2:
        return np.arange(n) + 1000
    return [f"r{i}" for i in range(n)]


XFORMS = {
    "frame": lambda rng, a: pd.DataFrame(a, columns=[f"c{i}" for i in range(a.shape[1])], index=_index(rng, len(a))),
    "list": lambda rng, a: a.tolist(),
    "fortran": lambda rng, a: np.asfortranarray(a),
    "strided": lambda rng, a: strided(a),
    "readonly": lambda rng, a: readonly(a),
    "array": lambda rng, a: a,
}
VFORMS = {
    "series": lambda rng, a: pd.Series(a, index=_index(rng, len(a))),
    "list": lambda rng, a: a.tolist(),
    "strided": lambda rng, a: strided(a),
    "readonly": lambda rng, a: readonly(a),
    "array": lambda rng, a: a,
}
SFORMS = {
    **VFORMS,
    "int32": lambda rng, a: a.astype(np.int32),
    "int8": lambda rng, a: a.astype(np.int8 if np.abs(a).max(initial=0) < 127 else np.int64),
    "float": lambda rng, a: a.astype(float),
}


class Disguise:
    """Draws one container per argument and dresses every later argument of that kind with it."""

    def __init__(self, rng, sforms=SFORMS):
        self.rng = rng
        k = int(rng.integers(5))
        names = lambda t: zoo.pick(rng, sorted(set(t) - {"array"}))
        self.x = names(XFORMS) if k != 1 else "array"
        self.y = names(VFORMS) if k != 2 else "array"
        self.s = names(sforms) if k != 3 else "array"
        self.w = names(VFORMS)
        if k == 4:  # everything pandas, the commonest case
            self.x, self.y, self.s, self.w = "frame", "series", "series", "series"
        self.sf = sforms

    def X(self, a):
        return XFORMS[self.x](self.rng, np.asarray(a))

    def Y(self, a):
        return VFORMS[self.y](self.rng, np.asarray(a))

    def S(self, a):
        return self.sf[self.s](self.rng, np.asarray(a))

    def W(self, a):
        return VFORMS[self.w](self.rng, np.asarray(a))

    def __repr__(self):
        return f"X={self.x},y={self.y},sample_domain={self.s},sample_weight={self.w}"


def asarray(o):
    return np.asarray(o)


def same(rec, got, want, key, msg, tol, sign=False):
    got, want = asarray(got), asarray(want)
    rec.event("results-compared")
    if sign:
        got, want = np.abs(got), np.abs(want)
    if got.dtype.kind in "OUS" or want.dtype.kind in "OUS":
        rec.expect(got.shape == want.shape and bool((got == want).all()), key, msg, got=got, want=want)
    else:
        rec.close(got, want, key, msg, rtol=tol, atol=tol)


def ask(rec, key, a, b, f, d, Xn, sdn, tol, sign=False, which=METHODS, domain_args=True):
    for m in methods(a, which):
        kw = lambda s: dict(sample_domain=s, allow_source=True) if domain_args else {}
        with rec.call(f"{key}.{m}"):
            want = getattr(a, m)(Xn, **kw(sdn))
            got = getattr(b, m)(f.X(Xn), **kw(f.S(sdn)))
        if m == "predict" and d.task == "clf" and tol > 1e-7:
            rec.event("results-compared")
            rec.expect(np.mean(asarray(got) == asarray(want)) > .8, f"{key}.{m}", "predictions differ", form=repr(f))
        else:
            same(rec, got, want, f"{key}.{m}", f"{m} depends on the container of its arguments", tol, sign)


@case("C31", quick=222, thorough=3330, requires=["results-compared"])
def adapters(rec, rng):
    es = zoo.adapters()
    e = es[rec.idx % len(es)]
    d = gen.da(rng, zoo.pick(rng, e.tasks), p=3)
    f = Disguise(rng)
    Xn, sdn = gen.new_rows(rng, d)
    key = f"adapter:{e.name}"
    tol = max(e.tol, 1e-6)
    y = d.y if not e.reads_target_y else d.mask()
    with rec.context(form=repr(f), layout=d.kind):
        with rec.call(key):
            a, b = e.make(), e.make()
            want = a.fit_transform(d.X, y, sample_domain=d.sd)
            got = b.fit_transform(f.X(d.X), f.Y(y), sample_domain=f.S(d.sd))
        (X1, y1, p1), (X2, y2, p2) = flat_output(want), flat_output(got)
        same(rec, X2, X1, key, "samples out of fit_transform", tol, e.sign)
        rec.expect((y1 is None) == (y2 is None) and set(p1) == set(p2), key + ":outputs", "different outputs")
        if y1 is not None and not e.predicts_target:
            same(rec, y2, y1, key, "labels out of fit_transform", tol)
        for k in p1:
            if p1[k] is not None:
                same(rec, p2[k], p1[k], f"{key}:{k}", "produced values", max(tol, 1e-3 if "KMM" in e.name or "MMDTarS" in e.name else 0))
        if e.kind != "labelprop" and "MMDLSConS" not in e.name:
            ask(rec, key, a, b, f, d, Xn, sdn, tol, e.sign, ("transform",))
    rec.seen("adapter", e.name, repr(f))
    rec.sample(adapter=e.name, form=repr(f))


@case("C31", quick=222, thorough=3330, requires=["results-compared"])
def pipelines(rec, rng):
    es = zoo.adapters()
    e = es[rec.idx % len(es)]
    d = gen.da(rng, zoo.pick(rng, e.tasks), p=3)
    f = Disguise(rng)
    Xn, sdn = gen.new_rows(rng, d)
    key = f"pipeline:{e.name}"
    tol = max(1e-5, 30 * e.tol)
    first = [StandardScaler(), PerDomain(StandardScaler()), Shared(StandardScaler()), SelectSourceTarget(StandardScaler()), None]
    first = first[int(rng.integers(5))]
    make = lambda: make_da_pipeline(*([first] if first is not None else []), e.make(), zoo.base_for(d.task, e.produces))
    y = d.y if rng.random() < .5 else d.mask()
    with rec.context(form=repr(f), first=repr(first), layout=d.kind):
        with rec.call(key):
            a, b = make(), make()
            a.fit(d.X, y, sample_domain=d.sd)
            b.fit(f.X(d.X), f.Y(y), sample_domain=f.S(d.sd))
        if e.tol <= 1e-4:
            ask(rec, key, a, b, f, d, Xn, sdn, tol)
        else:
            for m in ("predict",):
                with rec.call(f"{key}.{m}"):
                    b.predict(f.X(Xn), sample_domain=f.S(sdn), allow_source=True)
                rec.event("results-compared")
        t = ~d.src
        if e.tol <= 1e-4:
            with rec.call(key + ".score"):
                want = a.score(d.X[t], d.y[t], sample_domain=d.sd[t])
                got = b.score(f.X(d.X[t]), f.Y(d.y[t]), sample_domain=f.S(d.sd[t]))
            same(rec, got, want, key + ".score", "score", tol)
    rec.seen("pipeline", e.name, repr(f))


def final(task, weighted):
    e = spies.SpyClassifier() if task == "clf" else spies.SpyRegressor()
    return e.set_fit_request(sample_weight=True) if weighted else e


@case("C31", quick=360, thorough=5400, requires=["results-compared"])
def selectors(rec, rng):
    d = gen.da(rng, zoo.pick(rng, ("clf", "reg")), p=3)
    d.X[:, 0] = np.arange(len(d.X))
    f = Disguise(rng)
    weighted = rng.random() < .6
    w = rng.random(len(d.X)) + .1
    i = rec.idx % 9
    fin = lambda: final(d.task, weighted)
    make = {
        0: lambda: Shared(fin()), 1: lambda: Shared(fin(), mask_target_labels=False), 2: lambda: PerDomain(fin(), mask_target_labels=False),
        3: lambda: SelectSource(fin()), 4: lambda: SelectTarget(fin()), 5: lambda: SelectSourceTarget(fin()),
        6: lambda: PerDomain(spies.SpyTransformer()), 7: lambda: SelectSourceTarget(spies.SpyTransformer()),
        8: lambda: SelectSource(spies.SpyTransformer())}[i]
    kw = {"sample_weight": w} if weighted and i < 6 else {}
    kf = {"sample_weight": f.W(w)} if weighted and i < 6 else {}
    y = d.y if i in (1, 2, 4, 5) else (d.y, d.mask())[int(rng.integers(2))]
    key = f"selector:{type(make()).__name__}{':transformer' if i > 5 else ''}"
    with rec.context(form=repr(f), weighted=weighted, layout=d.kind, i=i):
        a, b = make(), make()
        spies.take()
        with rec.call(key):
            a.fit(d.X, y, sample_domain=d.sd, **kw)
            la = [e for e in spies.take() if e.call == "fit"]
            b.fit(f.X(d.X), f.Y(y), sample_domain=f.S(d.sd), **kf)
            lb = [e for e in spies.take() if e.call == "fit"]
        rec.must(len(la) == len(lb), key + ":fits", "another number of inner fits")
        for u, v in zip(la, lb):
            for k in ("X", "y", "sample_weight"):
                if u.get(k) is not None:
                    rec.must(v.get(k) is not None, key + ":lost", f"{k} did not arrive")
                    same(rec, v[k], u[k], f"{key}:{k}", f"{k} received by the inner estimator", 1e-12)
        rows = rng.permutation(len(d.X))[:20]
        for m in methods(a):
            with rec.call(f"{key}.{m}"):
                want = getattr(a, m)(d.X[rows], sample_domain=d.sd[rows])
                got = getattr(b, m)(f.X(d.X[rows]), sample_domain=f.S(d.sd[rows]))
            same(rec, got, want, f"{key}.{m}", m, 1e-9)
        spies.take()
        if i > 5:
            with rec.call(key + ".fit_transform"):
                p, q = (make_da_pipeline(make(), fin0) for fin0 in (final(d.task, False), final(d.task, False)))
                p.fit(d.X, d.y, sample_domain=d.sd)
                u = [e for e in spies.take() if e.call == "fit"][-1]
                q.fit(f.X(d.X), f.Y(d.y), sample_domain=f.S(d.sd))
                v = [e for e in spies.take() if e.call == "fit"][-1]
            same(rec, v.X, u.X, key + ".fit_transform", "samples passed on", 1e-9)
            same(rec, v.y, u.y, key + ".fit_transform", "labels passed on", 1e-12)
    rec.seen("selector", i, repr(f))


@case("C31", quick=90, thorough=1350, requires=["results-compared"])
def estimators(rec, rng):
    es = zoo.da_estimators()
    e = es[rec.idx % len(es)]
    d = gen.da(rng, zoo.pick(rng, e.tasks), p=3, **({"labels": [0, 1]} if e.binary else {}))
    f = Disguise(rng)
    Xn, sdn = gen.new_rows(rng, d)
    key = f"estimator:{e.name}"
    y = d.mask()
    w = rng.random(len(d.X)) + .1
    weighted = "JDOT" in e.name and rng.random() < .5
    with rec.context(form=repr(f), layout=d.kind):
        a, b = e.make(), e.make()
        try:
            a.fit(d.X, y, sample_domain=d.sd, **({"sample_weight": w} if weighted else {}))
        except ValueError as ex:
            if collapsed(ex):
                rec.event("results-compared")
                return
            raise
        with rec.call(key):
            b.fit(f.X(d.X), f.Y(y), sample_domain=f.S(d.sd), **({"sample_weight": f.W(w)} if weighted else {}))
        ask(rec, key, a, b, f, d, Xn, sdn, max(e.tol, 1e-5), domain_args=e.domain_args, which=METHODS[:-1])
    rec.seen("estimator", e.name, repr(f))


@case("C31", quick=300, thorough=4500, requires=["results-compared"])
def helpers(rec, rng):
    d = gen.da(rng, zoo.pick(rng, ("clf", "reg")), p=3)
    f = Disguise(rng)
    X, y, sd, w = d.X, d.y, d.sd, rng.random(len(d.X))
    ym = d.mask()
    with rec.context(form=repr(f)):
        for name, fn, args in [
            ("check_X_y_domain", lambda X, y, s: U.check_X_y_domain(X, y, s), (X, y, sd)),
            ("check_X_domain", lambda X, y, s: U.check_X_domain(X, s), (X, y, sd)),
            ("check_X_y_domain:auto", lambda X, y, s: U.check_X_y_domain(X, y, None), (X, ym, sd)),
            ("extract_source_indices", lambda X, y, s: (U.extract_source_indices(s),), (X, y, sd)),
            ("source_target_split", lambda X, y, s: U.source_target_split(X, y, f.W(w) if not isinstance(X, type(None)) else w,
                                                                         sample_domain=s), (X, y, sd)),
        ]:
            with rec.call(name):
                want = fn(*args)
                got = fn(f.X(args[0]), f.Y(args[1]), f.S(args[2]))
            rec.must(len(got) == len(want), name + ":length")
            for u, v in zip(want, got):
                same(rec, v, u, name, "result depends on the container", 1e-12)
        with rec.call("extract_domains_indices"):
            want, got = U.extract_domains_indices(sd), U.extract_domains_indices(f.S(sd))
        rec.expect(sorted(map(int, want)) == sorted(map(int, got)), "extract_domains_indices", "domains differ")
        for k in want:
            same(rec, got[k], want[k], "extract_domains_indices", "indices", 0)
        with rec.call("per_domain_split"):
            want = U.per_domain_split(X, y, w, sample_domain=sd)
            got = U.per_domain_split(f.X(X), f.Y(y), f.W(w), sample_domain=f.S(sd))
        for u, v in zip(want, got):
            rec.must(sorted(map(int, u)) == sorted(map(int, v)), "per_domain_split", "domains differ")
            for k in u:
                for p, q in zip(u[k], v[k]):
                    same(rec, q, p, "per_domain_split", "rows of a domain depend on the container", 1e-12)
        s = d.src
        n = int(min(s.sum(), (~s).sum()))
        with rec.call("source_target_merge"):
            want = U.source_target_merge(X[s], X[~s], y[s], y[~s], sample_domain=sd)
            got = U.source_target_merge(f.X(X[s]), f.X(X[~s]), f.Y(y[s]), f.Y(y[~s]), sample_domain=f.S(sd))
        for p, q in zip(want, got):
            same(rec, q, p, "source_target_merge", "merged arrays", 1e-12)
    rec.seen("helpers", repr(f), d.task)


@case("C31", quick=120, thorough=1800, requires=["results-compared"])
def splitters(rec, rng):
    d = gen.da(rng, "clf", p=3, n_per=(12, 20))
    f = Disguise(rng)
    X, y, sd = d.X, d.y, d.sd
    if rec.idx % 4 == 2:
        X, y, sd = np.concatenate([X, X]), np.concatenate([y, y]), np.concatenate([np.abs(sd), -np.abs(sd)])
    mk = [lambda: MS.SourceTargetShuffleSplit(n_splits=2, random_state=0), lambda: MS.DomainShuffleSplit(n_splits=2, random_state=0),
          lambda: MS.LeaveOneDomainOut(max_n_splits=2, random_state=0),
          lambda: MS.StratifiedDomainShuffleSplit(n_splits=2, random_state=0)][rec.idx % 4]
    key = type(mk()).__name__
    with rec.context(form=repr(f)):
        try:
            want = list(mk().split(X, y, sd))
        except ValueError:
            rec.event("results-compared")
            return
        with rec.call(key):
            got = list(mk().split(f.X(X), f.Y(y), f.S(sd)))
            n = mk().get_n_splits(f.X(X), f.Y(y), f.S(sd))
        rec.expect(n == mk().get_n_splits(X, y, sd), key + ":n", "announced number of splits")
        for (a, b), (p, q) in zip(want, got):
            same(rec, p, a, key, "training rows", 0)
            same(rec, q, b, key, "test rows", 0)
    rec.seen("splitter", key, repr(f))


@case("C31", quick=90, thorough=1350, requires=["results-compared"])
def resamplers(rec, rng):
    d = gen.da(rng, "clf", p=3, n_per=(12, 20))
    f = Disguise(rng)
    w = rng.random(len(d.X))
    T = (skada.Subsampler, skada.DomainSubsampler, skada.StratifiedDomainSubsampler)[rec.idx % 3]
    key = T.__name__
    with rec.context(form=repr(f)):
        try:
            want = T(train_size=.6, random_state=0).fit_transform(d.X, d.y, sample_domain=d.sd, sample_weight=w)
        except ValueError:
            rec.event("results-compared")
            return
        with rec.call(key):
            got = T(train_size=.6, random_state=0).fit_transform(f.X(d.X), f.Y(d.y), sample_domain=f.S(d.sd), sample_weight=f.W(w))
        (X1, y1, p1), (X2, y2, p2) = flat_output(want), flat_output(got)
        same(rec, X2, X1, key, "samples", 1e-12)
        same(rec, y2, y1, key, "labels", 0)
        for k in p1:
            if p1[k] is not None:
                same(rec, p2[k], p1[k], f"{key}:{k}", k, 1e-12)
    rec.seen("resampler", key, repr(f))


SCORERS = {
    "Supervised": lambda: M.SupervisedScorer(), "IW": lambda: M.ImportanceWeightedScorer(),
    "PE": lambda: M.PredictionEntropyScorer(), "SND": lambda: M.SoftNeighborhoodDensity(),
    "DEV": lambda: M.DeepEmbeddedValidation(random_state=0), "CV": lambda: M.CircularValidation(),
    "MixVal": lambda: M.MixValScorer(random_state=0), "MaNo": lambda: M.MaNoScorer(),
}


@case("C31", quick=120, thorough=1800, requires=["results-compared"])
def scorers(rec, rng):
    d = gen.da(rng, "clf", p=3, labels=[[0, 1], [0, 1, 2]][int(rng.integers(2))], n_per=(14, 22))
    f = Disguise(rng)
    n = sorted(SCORERS)[rec.idx % len(SCORERS)]
    y = d.mask()
    p = make_da_pipeline(StandardScaler(), LogisticRegression().set_score_request(sample_weight=True)).fit(d.X, y, sample_domain=d.sd)
    kw = {"target_labels": d.y} if n == "Supervised" else {}
    kf = {"target_labels": f.Y(d.y)} if n == "Supervised" else {}
    with rec.context(form=repr(f), scorer=n):
        with rec.call(f"scorer:{n}"):
            want = SCORERS[n]()(p, d.X, y, sample_domain=d.sd, **kw)
            got = SCORERS[n]()(p, f.X(d.X), f.Y(y), sample_domain=f.S(d.sd), **kf)
        same(rec, got, want, f"scorer:{n}", "score depends on the container", 1e-5)
        with rec.call(f"cross_validate:{n}"):
            cv = lambda: MS.SourceTargetShuffleSplit(n_splits=2, random_state=0)
            run = lambda X, y, s, k: cross_validate(p, X, y, params={"sample_domain": s, **k}, cv=cv(), scoring=SCORERS[n](),
                                                    error_score="raise")["test_score"]
            want = run(d.X, y, d.sd, kw)
            got = run(f.X(d.X), f.Y(y), f.S(d.sd), kf)
        same(rec, got, want, f"cross_validate:{n}", "scores depend on the container", 1e-5)
    rec.seen("scorer", n, repr(f))


@case("C31", quick=90, thorough=1200, requires=["results-compared", "trainings"])
def deep(rec, rng):
    """Deep datasets and networks, and packing of domains, from arrays in other containers."""
    import torch
    from skada import deep as D
    from skada.datasets import DomainAwareDataset
    from skada.deep.base import DeepDADataset
    from skada.deep.modules import ToyModule2D
    d = gen.da(rng, "clf", p=2, labels=[0, 1], n_per=(8, 14))
    X, y, sd = d.X.astype(np.float32), d.y.astype(np.int64), d.sd
    w = rng.random(len(X)).astype(np.float32) + .1
    sforms = {k: SFORMS[k] for k in ("series", "list", "strided", "readonly", "array", "int32")}
    f = Disguise(rng, sforms)
    if f.x == "frame":   # a data frame stands for a dictionary of fields here
        f.x = zoo.pick(rng, ["fortran", "strided", "readonly", "list"])
    if f.w == "list" and rng.random() < .5:
        f.w = "strided"
    key = "deep"
    with rec.context(containers=repr(f)):
        with rec.call(key + ":dataset"):
            a, b = DeepDADataset(X, y, sd, w), DeepDADataset(f.X(X), f.Y(y), f.S(sd), f.W(w))
        for n in ("X", "y", "sample_domain", "sample_weight", "sample_idx"):
            if hasattr(a, n) and getattr(a, n) is not None:
                same(rec, getattr(b, n), getattr(a, n), key + ":dataset", f"{n} depends on the container", 1e-6)
        if f.x == "list":   # lists hold double precision numbers, modules single precision ones
            f.x = zoo.pick(rng, ["fortran", "strided", "readonly"])
        y0 = np.where(sd < 0, -1, y)
        outs = []
        which = zoo.pick(rng, ["DeepCoral", "DANN", "DeepJDOT"])
        weighted = rng.random() < .5
        for g in (None, f):
            X1, y1, s1 = (X, y0, sd) if g is None else (g.X(X), g.Y(y0), g.S(sd))
            kw = {} if not weighted else {"sample_weight": w if g is None else g.W(w)}
            torch.manual_seed(3)
            m = ToyModule2D()
            extra = {"DANN": {"num_features": 10, "reg": .5}, "DeepCoral": {"reg": .5}}.get(which, {})
            if weighted:
                extra["criterion__reduction"] = "none"
            net = getattr(D, which)(m, layer_name="dropout", batch_size=6, max_epochs=1, train_split=None, verbose=0, **extra)
            torch.manual_seed(4)
            np.random.seed(4)
            with rec.call(key + ":training"):
                net.fit(X1, y1, sample_domain=s1, **kw)
                p = net.predict_proba(X1, sample_domain=s1, allow_source=True)
                q = net.score(X1, y if g is None else g.Y(y), sample_domain=s1, allow_source=True)
            outs.append((p, q))
        rec.event("trainings")
        same(rec, outs[1][0], outs[0][0], key + ":training", "the trained network depends on the container", 1e-5)
        same(rec, outs[1][1], outs[0][1], key + ":score", "the score depends on the container", 1e-6)
        h = Disguise(rng)
        h.x, h.y = zoo.pick(rng, ["frame", "fortran", "strided", "readonly"]), zoo.pick(rng, ["series", "strided", "readonly"])
        doms = [int(v) for v in np.unique(sd)]
        masked = bool(rng.random() < .5)
        packs = []
        for g in (None, h):
            ds = DomainAwareDataset()
            for v in doms:
                ds.add_domain(*((X[sd == v], y[sd == v]) if g is None else (g.X(X[sd == v]), g.Y(y[sd == v]))), domain_name=f"n{v}")
            with rec.call(key + ":pack"):
                packs.append(ds.pack([f"n{v}" for v in doms if v >= 0], [f"n{v}" for v in doms if v < 0], mask_target_labels=masked, return_type="array"))
        for u, v in zip(*packs):
            same(rec, v, u, key + ":pack", "packing depends on the container", 1e-7)
    rec.seen("deep", repr(f), which, X)


LTYPES = (bool, np.uint8, np.uint16, np.uint64, np.int16, np.float32)


@case("C31", quick=240, thorough=3600, requires=["results-compared", "label-types"])
def label_types(rec, rng):
    """The same binary labels in a number type that is signed or not, boolean, wide or narrow: same results, target labels stay masked."""
    d = gen.da(rng, "clf", p=3, labels=[0, 1], n_per=(8, 16))
    dt = LTYPES[rec.idx % len(LTYPES)]
    kind = ("pipeline", "selector", "estimator", "cross_validate", "pipeline")[(rec.idx // len(LTYPES)) % 5]
    if kind == "cross_validate":   # every fold needs samples of both roles
        d = gen.da(rng, "clf", p=3, labels=[0, 1], n_per=(14, 22))
    y0, y1 = d.y.astype(np.int64), d.y.astype(dt)
    Xn, sdn = gen.new_rows(rng, d)
    key = f"label-types:{kind}"
    t = ~d.src

    def check(make, key, tol, soft=False):
        a, b = make(), make()
        try:
            a.fit(d.X, y0, sample_domain=d.sd)
        except ValueError as ex:
            if collapsed(ex):
                rec.event("label-types")
                rec.event("results-compared")
                return
            raise
        with rec.call(key):
            b.fit(d.X, y1, sample_domain=d.sd)
            want, got = (m.predict(Xn, sample_domain=sdn, allow_source=True) for m in (a, b))
        rec.event("label-types")
        rec.event("results-compared")
        got, want = asarray(got).astype(float), asarray(want).astype(float)
        rec.must(got.shape == want.shape, key, "shape")
        rec.expect(np.mean(got == want) >= (.8 if soft else 1), key, "predictions depend on the number type of the labels", got=got, want=want)
        with rec.call(key + ".score"):
            u, v = a.score(d.X[t], y0[t], sample_domain=d.sd[t]), b.score(d.X[t], y1[t], sample_domain=d.sd[t])
        rec.expect(abs(u - v) <= (.25 if soft else 1e-9), key + ".score", "score depends on the number type of the labels", got=v, want=u)

    with rec.context(dtype=np.dtype(dt).name, layout=d.kind):
        if kind == "pipeline":
            es = [e for e in zoo.adapters() if "clf" in e.tasks and e.tol <= 1e-4]
            e = es[(rec.idx // 30 * 2 + (rec.idx // 24) % 2 + int(rng.integers(len(es)))) % len(es)]
            first = [StandardScaler(), PerDomain(StandardScaler()), None][int(rng.integers(3))]
            check(lambda: make_da_pipeline(*([first] if first is not None else []), e.make(), zoo.base_for("clf", e.produces)), f"{key}:{e.name}", 1e-6,
                  soft=e.tol > 1e-7)
        elif kind == "selector":
            i = int(rng.integers(4))
            make = [lambda: Shared(final("clf", False)), lambda: SelectSource(final("clf", False)),
                    lambda: make_da_pipeline(Shared(spies.SpyTransformer()), final("clf", False)),
                    lambda: make_da_pipeline(PerDomain(spies.SpyTransformer()), SelectSource(final("clf", False)))][i]
            logs = []
            for y in (y0, y1):
                spies.take()
                with rec.call(key):
                    make().fit(d.X, y, sample_domain=d.sd)
                logs.append([e for e in spies.take() if e.call == "fit"])
            rec.event("label-types")
            rec.must(len(logs[0]) == len(logs[1]), key + ":fits", "another number of inner fits")
            for u, v in zip(*logs):
                for k in ("X", "y"):
                    if u.get(k) is not None:
                        rec.must(v.get(k) is not None, key + ":lost", f"{k} did not arrive")
                        same(rec, asarray(v[k]).astype(float), asarray(u[k]).astype(float), f"{key}:{k}", f"{k} received by the inner estimator", 1e-12)
        elif kind == "estimator":
            es = [e for e in zoo.da_estimators() if "clf" in e.tasks and e.tol <= 1e-4]
            e = es[int(rng.integers(len(es)))]
            check(lambda: make_da_pipeline(e.make()), f"{key}:{e.name}", 1e-6, soft=e.tol > 1e-7)
        else:
            n = zoo.pick(rng, sorted(SCORERS))
            out = []
            for y in (y0, y1):
                yy = np.where(d.src, y.astype(np.result_type(y.dtype, np.int8)), -1) if n == "CV" else y
                p = make_da_pipeline(StandardScaler(), LogisticRegression().set_score_request(sample_weight=True))
                kw = {"target_labels": y} if n == "Supervised" else {}
                cv = MS.SourceTargetShuffleSplit(n_splits=2, test_size=.4, random_state=0)
                with rec.call(f"{key}:{n}"):
                    out.append(cross_validate(p, d.X, yy, params={"sample_domain": d.sd, **kw}, cv=cv,
                                              scoring=SCORERS[n](), error_score="raise")["test_score"])
            rec.event("label-types")
            same(rec, out[1], out[0], f"{key}:{n}", "scores depend on the number type of the labels", 1e-6)
    rec.seen("label-type", np.dtype(dt).name, kind)
