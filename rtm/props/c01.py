"""C01: twin runs whose only difference is the labels of the target rows."""
import numpy as np
from sklearn.base import clone
from sklearn.decomposition import PCA
from sklearn.feature_selection import SelectKBest, f_classif, f_regression
from sklearn.linear_model import LogisticRegression, Ridge
from sklearn.naive_bayes import GaussianNB
from sklearn.neighbors import KNeighborsClassifier, KNeighborsRegressor
from sklearn.preprocessing import StandardScaler
from sklearn.svm import SVC
from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor

import skada
from skada import PerDomain, SelectSource, Shared, make_da_pipeline

from .. import gen, spies, zoo
from ..core import Skip, case, digest
from ..probe import collapsed, compare, flat_output, probe, probe_plain

HOWS = ("mask", "random", "constant", "rotate", "novel")


def worlds(rng, d):
    """The true labels and two other labellings of the target rows."""
    out = [("true", d.y.copy())]
    for how in ["mask", HOWS[1:][int(rng.integers(4))]]:
        out.append((how, gen.relabel_targets(rng, d, how)))
    return out


def data(rng, e=None, task=None, **kw):
    task = task or (zoo.pick(rng, e.tasks) if e is not None else zoo.pick(rng, ("clf", "reg")))
    if e is not None and e.binary:
        kw["labels"] = [[0, 1], [1, 2], [2, 5]][int(rng.integers(3))]
    return gen.da(rng, task, **kw)


def twin(rec, rng, d, build, observe, key, compare_fn, may_collapse=False, **wit):
    """Fit one fresh object per labelling; every observation must coincide with the first world."""
    ref = None
    seed = int(rng.integers(2**31))
    for how, y in worlds(rng, d):
        np.random.seed(seed)
        with rec.context(labels=how, layout=d.kind, ns=d.ns, nt=d.nt, task=d.task, **wit):
            err, obs = None, None
            try:
                with rec.call(key):
                    try:
                        obs = observe(build(), y)
                    except Exception as e:
                        if may_collapse and collapsed(e):
                            err = type(e).__name__
                        else:
                            raise
            finally:
                spies.take()
            if ref is None:
                ref = (err, obs)
            else:
                rec.event("twin-comparisons")
                if rec.expect((err is None) == (ref[0] is None), key + ":error", f"{err} vs {ref[0]}") and err is None:
                    compare_fn(ref[1], obs, key)
    if ref[0] is None:
        rec.seen(key.split(":")[0], d.X, d.sd, sorted(wit.items()))
        rec.sample(key=key, X=d.X, y=d.y, sample_domain=d.sd, **wit)


@case("C01", quick=240, thorough=2500, requires=["twin-comparisons"])
def adapters_direct(rec, rng):
    es = [e for e in zoo.adapters() if not e.reads_target_y]
    e = es[rec.idx % len(es)]
    d = data(rng, e, p=int(rng.integers(2, 5)))
    Xn, sdn = gen.new_rows(rng, d)

    def observe(a, y):
        X, yo, par = flat_output(a.fit_transform(d.X, y, sample_domain=d.sd))
        out = {("fit_transform", "X"): X}
        if yo is not None:
            out["fit_transform", "y"] = np.asarray(yo, float)
        for k, v in par.items():
            if v is not None:
                out["fit_transform", k] = v
        if e.kind != "labelprop":
            out.update(probe(a, d, Xn, sdn, which=("transform",)))
        if e.produces == "sample_weight":
            out["compute_weights", "train"] = a.compute_weights(d.X, y, sample_domain=d.sd)
        return out

    twin(rec, rng, d, e.make, observe, f"adapter:{e.name}", lambda a, b, k: compare(rec, a, b, k), name=e.name)


@case("C01", quick=160, thorough=1600, requires=["twin-comparisons"])
def adapters_fit_only(rec, rng):
    """fit() (without fit_transform) followed by transform."""
    es = [e for e in zoo.adapters() if not e.reads_target_y and e.kind in ("mapping", "subspace", "reweight")]
    e = es[rec.idx % len(es)]
    d = data(rng, e)
    Xn, sdn = gen.new_rows(rng, d)

    def observe(a, y):
        a.fit(d.X, y, sample_domain=d.sd)
        out = probe(a, d, Xn, sdn, which=("transform",))
        if e.produces == "sample_weight":
            out["compute_weights", "train"] = a.compute_weights(d.X, y, sample_domain=d.sd)
        return out

    twin(rec, rng, d, e.make, observe, f"adapter-fit:{e.name}", lambda a, b, k: compare(rec, a, b, k), name=e.name)


def pre_steps(rng, task):
    """Random ordinary steps, some of them supervised."""
    sup = (lambda: SelectKBest(f_classif, k=2)) if task == "clf" else (lambda: SelectKBest(f_regression, k=2))
    opts = [
        lambda: StandardScaler(),
        lambda: PCA(n_components=2),
        lambda: Shared(StandardScaler()),
        lambda: PerDomain(StandardScaler()),
        lambda: Shared(PCA(n_components=2)),
        lambda: make_da_pipeline(StandardScaler(), PCA(n_components=2)),
        lambda: ("named", StandardScaler()),
    ]
    if task == "clf":
        opts += [sup, lambda: skada.StratifiedDomainSubsampler(train_size=0.8, random_state=0)]
    opts += [lambda: skada.Subsampler(train_size=0.9, random_state=1), lambda: skada.DomainSubsampler(train_size=.85, random_state=2)]
    k = int(rng.integers(0, 3))
    return [opts[i] for i in rng.choice(len(opts), k, replace=False)]


def finals(rng, task, weighted):
    if task == "clf":
        o = [lambda: LogisticRegression(), lambda: SVC(kernel="linear"), lambda: DecisionTreeClassifier(random_state=0)]
        if not weighted:
            o += [lambda: KNeighborsClassifier(3), lambda: GaussianNB()]
    else:
        o = [lambda: Ridge(), lambda: DecisionTreeRegressor(random_state=0)]
        if not weighted:
            o += [lambda: KNeighborsRegressor(3)]
    f = zoo.pick(rng, o)
    return (lambda: f().set_fit_request(sample_weight=True)) if weighted else f


@case("C01", quick=320, thorough=4000, requires=["twin-comparisons"])
def pipelines(rec, rng):
    """Random pipelines around every adapter, target masking on (the default)."""
    es = zoo.adapters()
    e = es[rec.idx % len(es)]
    d = data(rng, e, p=int(rng.integers(3, 5)), n_per=(12, 18))
    Xn, sdn = gen.new_rows(rng, d)
    pre = pre_steps(rng, d.task) if e.name != "JCPOTLabelProp" else []
    fin = finals(rng, d.task, e.produces == "sample_weight")
    cloned, nested = rng.random() < .3, rng.random() < .2

    def build():
        steps = [f() for f in pre] + [e.make()]
        p = make_da_pipeline(make_da_pipeline(*steps), fin()) if nested else make_da_pipeline(*steps, fin())
        return clone(p) if cloned else p

    def observe(p, y):
        p.fit(d.X, y, sample_domain=d.sd)
        per = any("perdomain" in n for n, _ in p.steps)
        return probe(p, d, *(() if per else (Xn, sdn)))

    def has_per():
        p = build()
        return [n for n, _ in p.steps]

    twin(rec, rng, d, build, observe, f"pipeline:{e.name}", lambda a, b, k: compare(rec, a, b, k), steps=has_per(),
         cloned=cloned)


@case("C01", quick=80, thorough=800, requires=["twin-comparisons"])
def ready_made(rec, rng):
    task = ("clf", "reg")[rec.idx % 2]
    names = sorted(zoo.factories(task))
    n = names[(rec.idx // 2) % len(names)]
    d = data(rng, task=task)
    Xn, sdn = gen.new_rows(rng, d)
    f = zoo.factories(task)[n]

    def observe(p, y):
        p.fit(d.X, y, sample_domain=d.sd)
        return probe(p, d, Xn, sdn)

    twin(rec, rng, d, f, observe, f"ready:{n}", lambda a, b, k: compare(rec, a, b, k), name=n)


@case("C01", quick=60, thorough=600, requires=["twin-comparisons"])
def da_estimators(rec, rng):
    es = zoo.da_estimators()
    e = es[rec.idx % len(es)]
    piped = bool((rec.idx // len(es)) % 2) or e.reads_target_y
    d = data(rng, e)
    Xn, sdn = gen.new_rows(rng, d)

    def build():
        return make_da_pipeline(StandardScaler(), e.make()) if piped else e.make()

    def observe(p, y):
        p.fit(d.X, y, sample_domain=d.sd)
        if piped or e.domain_args:
            return probe(p, d, Xn, sdn)
        return probe_plain(p, d, Xn, sdn)

    twin(rec, rng, d, build, observe, f"estimator:{e.name}", lambda a, b, k: compare(rec, a, b, k),
         may_collapse=e.name in ("DASVM", "Gradual"), piped=piped)


def spy_logs(log):
    return [(ev.call, digest(ev.X), None if ev.get("y") is None else digest(np.asarray(ev.y, float)),
             None if ev.get("sample_weight") is None else digest(ev.sample_weight)) for ev in log]


@case("C01", quick=120, thorough=1500, requires=["twin-comparisons", "labels-seen"])
def labels_received(rec, rng):
    """A recording step sees no information about target labels, whatever wraps it."""
    task = zoo.pick(rng, ("clf", "reg"))
    d = data(rng, task=task)
    d.X[:, 0] = np.arange(len(d.X))
    sel = ["shared", "selectsource", "pipeline", "pipeline-da", "pipeline-adapter", "selector-fn", "transformer", "perdomain-tr",
           "perdomain"][rec.idx % 9]
    clf = (lambda: spies.SpyClassifier()) if task == "clf" else (lambda: spies.SpyRegressor())

    def build():
        return {
            "shared": lambda: Shared(clf()),
            "selectsource": lambda: SelectSource(clf()),
            "pipeline": lambda: make_da_pipeline(("t", spies.SpyTransformer()), ("f", clf())),
            "pipeline-da": lambda: make_da_pipeline(spies.SpyTransformer(), Shared(clf())),
            "pipeline-adapter": lambda: make_da_pipeline(spies.SpyDomainAdapter(weights=True),
                                                         clf().set_fit_request(sample_weight=True)),
            "selector-fn": lambda: make_da_pipeline(StandardScaler(with_mean=False), clf(), default_selector=SelectSource),
            "transformer": lambda: Shared(spies.SpyTransformerNoFT()),
            "perdomain-tr": lambda: make_da_pipeline(spies.SpyTransformer(), clf(), default_selector="per_domain"),
            "perdomain": lambda: PerDomain(clf()),
        }[sel]()

    t_ids = set(np.flatnonzero(~d.src).tolist())

    def observe(p, y):
        spies.take()
        if sel == "transformer":
            p.fit_transform(d.X, y, sample_domain=d.sd)
        else:
            p.fit(d.X, y, sample_domain=d.sd)
        log = [e for e in spies.take() if e.call.startswith("fit")]
        rec.must(log, "spy:silent", "the recording step was never fitted", sel=sel)
        for ev in log:
            if ev.get("y") is None or sel in ("selector-fn",):
                continue
            ids = spies.ident(ev.X)
            for i, v in zip(ids, ev.y):
                rec.event("labels-seen")
                if i in t_ids:
                    masked = (v == -1) if task == "clf" else not np.isfinite(v)
                    rec.expect(masked, f"label-leak:{sel}", "a target label reached a step", row=int(i), label=v, sel=sel)
                    rec.expect(isinstance(ev.obj, (spies.SpyTransformer, spies.SpyTransformerNoFT, spies.SpyDomainAdapter)),
                               f"masked-row-fitted:{sel}", "a masked row reached a plain estimator", row=int(i))
                else:
                    rec.expect(v == d.y[i], f"source-label:{sel}", "a source row arrived with another label", row=int(i), got=v,
                               want=d.y[i])
        return spy_logs(log)

    twin(rec, rng, d, build, observe, f"spy:{sel}",
         lambda a, b, k: rec.expect(a == b, k, "the recorded calls differ", a=a, b=b), sel=sel)


@case("C01", quick=40, thorough=400, requires=["twin-comparisons"])
def order_of_targets(rec, rng):
    """Direct domain-aware estimators with weights and selectors that never need target labels."""
    task = zoo.pick(rng, ("clf", "reg"))
    d = data(rng, task=task)
    which = rec.idx % 3
    fin = finals(rng, task, False)

    def build():
        if which == 0:
            return SelectSource(fin())
        if which == 1:
            return Shared(fin())
        return make_da_pipeline(SelectSource(StandardScaler()), fin())

    def observe(p, y):
        p.fit(d.X, y, sample_domain=d.sd)
        return {("predict", "all"): np.asarray(p.predict(d.X, sample_domain=d.sd, allow_source=True), float)}

    twin(rec, rng, d, build, observe, f"plain:{which}", lambda a, b, k: compare(rec, a, b, k), which=which)
