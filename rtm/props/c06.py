"""C06: a hand-written interpreter applies the same steps one after another; every output must coincide."""
import shutil
import tempfile

import numpy as np
from sklearn.base import clone
from sklearn.decomposition import PCA
from sklearn.feature_selection import SelectKBest, f_classif, f_regression
from sklearn.linear_model import LogisticRegression, Ridge
from sklearn.naive_bayes import GaussianNB
from sklearn.pipeline import Pipeline
from sklearn.preprocessing import MinMaxScaler, RobustScaler, StandardScaler
from sklearn.svm import SVC
from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor

import skada
from skada import PerDomain, SelectSource, SelectSourceTarget, SelectTarget, Shared, make_da_pipeline

from .. import gen, spies, zoo
from ..core import Skip, case
from ..probe import METHODS, flat_output, methods


# ---------------------------------------------------------------- by hand
class Hand:
    """Steps applied one after another with nothing but the components' own public methods."""

    def __init__(self, plan, task):
        self.plan, self.task = plan, task

    def fit(self, X, y, sd):
        self.fitted = []
        st = {"X": X, "y": y, "sd": sd, "w": None}
        src = lambda: st["sd"] >= 0

        def masked(yy, s):
            out = np.array(yy, float if self.task == "reg" else None)
            out[s < 0] = np.nan if self.task == "reg" else -1
            return out

        ok = lambda yy: np.isfinite(yy) if self.task == "reg" else yy != -1
        yfull = y
        st["y"] = masked(y, sd)
        for kind, what in self.plan:
            X, y, sd, w = st["X"], st["y"], st["sd"], st["w"]
            if kind == "shared":
                e = clone(what)
                st["X"] = e.fit_transform(X, y)
                self.fitted.append(lambda X, s, e=e: e.transform(X))
            elif kind == "perdomain":
                es = {d: clone(what) for d in np.unique(sd)}
                out = None
                for d, e in es.items():
                    r = e.fit_transform(X[sd == d], y[sd == d])
                    out = np.zeros((len(X),) + r.shape[1:]) if out is None else out
                    out[sd == d] = r
                st["X"] = out
                self.fitted.append(lambda X, s, es=es: self._parts(X, s, es, lambda e, x: e.transform(x)))
            elif kind == "role":
                es = {1: clone(what), 0: clone(what)}
                out = None
                for d, e in es.items():
                    m = (sd >= 0) == d
                    r = e.fit_transform(X[m], y[m])
                    out = np.zeros((len(X),) + r.shape[1:]) if out is None else out
                    out[m] = r
                st["X"] = out
                self.fitted.append(lambda X, s, es=es: self._parts(X, (s >= 0).astype(int), es, lambda e, x: e.transform(x)))
            elif kind == "source":
                m = sd >= 0
                e = clone(what)
                st["X"], st["y"], st["sd"] = e.fit_transform(X[m], y[m]), y[m], sd[m]
                st["w"] = None if w is None else w[m]
                self.fitted.append(lambda X, s, e=e: e.transform(X))
            elif kind == "adapter":
                a = clone(what)
                X2, y2, par = flat_output(a.fit_transform(X, y, sample_domain=sd))
                st["X"] = X2
                if y2 is not None:
                    st["y"] = y2
                if par.get("sample_weight") is not None:
                    st["w"] = par["sample_weight"]
                if par.get("sample_domain") is not None:
                    st["sd"] = np.asarray(par["sample_domain"])
                self.fitted.append(lambda X, s, a=a: a.transform(X, sample_domain=s, allow_source=True))
            elif kind == "final":
                e = clone(what)
                m = ok(y)
                kw = {"sample_weight": w[m]} if w is not None else {}
                e.fit(X[m], y[m].astype(float if self.task == "reg" else int), **kw)
                self.last = lambda m, X, s, e=e: getattr(e, m)(X)
            elif kind == "final-source":
                e = clone(what)
                m = ok(y) & (sd >= 0)
                kw = {"sample_weight": w[m]} if w is not None else {}
                e.fit(X[m], y[m], **kw)
                self.last = lambda m, X, s, e=e: getattr(e, m)(X)
            elif kind == "final-da":
                e = clone(what)
                if not np.isfinite(X).all() or not 1e-6 < np.abs(X).max() < 1e6:
                    raise Skip("the step before collapsed the features")
                e.fit(X, y, sample_domain=sd)
                self.last = lambda m, X, s, e=e: getattr(e, m)(X, sample_domain=s, allow_source=True)
        return self

    @staticmethod
    def _parts(X, key, es, f):
        out = None
        for d, e in es.items():
            m = key == d
            if m.any():
                r = f(e, X[m])
                out = np.zeros((len(X),) + r.shape[1:]) if out is None else out
                out[m] = r
        return out

    def steps(self, X, s, k=None):
        for f in self.fitted[:k]:
            X = f(X, s)
        return X

    def ask(self, m, X, s):
        return self.last(m, self.steps(X, s), s)


def transformers(rng, task):
    t = [lambda: StandardScaler(), lambda: MinMaxScaler(), lambda: RobustScaler(), lambda: PCA(n_components=2, svd_solver="full")]
    t += [lambda: SelectKBest(f_classif if task == "clf" else f_regression, k=2)] if False else []
    return zoo.pick(rng, t)()


def spell(rng, kind, what, i):
    """One of the equivalent ways to write a step."""
    if kind in ("shared", "adapter", "final", "final-da"):
        how = ["bare", "Shared", "named", "named-Shared"][int(rng.integers(4))]
        e = clone(what)
        if getattr(what, "predicts_target_labels", False):
            how = ["bare", "named"][int(rng.integers(2))]
        return {"bare": lambda: e, "Shared": lambda: Shared(e), "named": lambda: (f"step{i}", e),
                "named-Shared": lambda: (f"step{i}", Shared(e))}[how]()
    S = {"perdomain": PerDomain, "role": SelectSourceTarget, "source": SelectSource, "final-source": SelectSource}[kind]
    s = S(clone(what))
    return (f"step{i}", s) if rng.random() < .4 else s


def nest(rng, steps):
    """Group some neighbouring steps into nested pipelines."""
    if len(steps) < 2 or rng.random() < .5:
        return steps
    i = int(rng.integers(0, len(steps) - 1))
    j = int(rng.integers(i + 1, len(steps))) + 1
    return steps[:i] + [make_da_pipeline(*steps[i:j])] + steps[j:]


def has_relabel(plan):
    return any("LabelProp" in type(w).__name__ for _, w in plan)


def draw_plan(rng, d):
    plan = []
    for _ in range(int(rng.integers(0, 3))):
        plan.append((zoo.pick(rng, ["shared", "shared", "perdomain", "role"]), transformers(rng, d.task)))
    fins = [LogisticRegression(), SVC(kernel="linear", probability=False), DecisionTreeClassifier(random_state=0), GaussianNB()] \
        if d.task == "clf" else [Ridge(), DecisionTreeRegressor(random_state=0)]
    fin = zoo.pick(rng, fins)
    mode = rng.random()
    if mode < .75:
        es = [e for e in zoo.adapters() if d.task in e.tasks and e.name != "JCPOTLabelProp"]
        e = zoo.pick(rng, es)
        plan.append(("adapter", e.make()))
        if e.produces == "sample_weight":
            fin = fin.set_fit_request(sample_weight=True)
        if e.produces != "y" and rng.random() < .3:
            e2 = zoo.pick(rng, zoo.mappers())
            if d.task in e2.tasks and not (e.kind == "subspace"):
                plan.append(("adapter", e2.make()))
        name = e.name
        if rng.random() < .4 and e.produces != "y":
            plan.append((zoo.pick(rng, ["shared", "role"]), StandardScaler()))
    elif mode < .85:
        name = "subsampler"
        plan.append(("adapter", zoo.pick(rng, [skada.Subsampler(.8, random_state=1), skada.DomainSubsampler(.8, random_state=1)])))
    else:
        name = "source"
        plan.append(("source", StandardScaler()))
    if mode < .85 and rng.random() < .15 and not has_relabel(plan):
        das = [e for e in zoo.da_estimators() if d.task in e.tasks and e.domain_args and "hinge" not in e.name]
        e = zoo.pick(rng, das)
        plan.append(("final-da", e.make()))
        plan = [(k, w) for k, w in plan if not (k == "adapter" and "Reweight" in type(w).__name__)]
        return name + "+" + e.name, plan
    relabel = has_relabel(plan)
    plan.append((zoo.pick(rng, ["final", "final", "final-source"]) if not relabel else "final", fin))
    return name, plan


@case("C06", quick=480, thorough=6000, requires=["outputs-compared"])
def composition(rec, rng):
    d = gen.da(rng, zoo.pick(rng, ("clf", "reg")), p=int(rng.integers(3, 5)), n_per=(12, 16))
    name, plan = draw_plan(rng, d)
    flat = [spell(rng, k, w, i) for i, (k, w) in enumerate(plan)]
    relabel = has_relabel(plan)
    steps = flat if relabel else nest(rng, flat)
    desc = [f"{k}:{type(w).__name__}" for k, w in plan]
    memory = tempfile.mkdtemp(prefix="rtm06") if rng.random() < .1 else None
    key = f"composition:{name}"
    try:
        with rec.context(plan=desc, nested=len(steps) != len(flat), layout=d.kind, sample_domain=d.sd, memory=bool(memory)):
            yin = d.y
            with rec.call(key + ":by-hand"):
                h = Hand(plan, d.task).fit(d.X, d.y, d.sd)
            with rec.call(key):
                p = make_da_pipeline(*steps, memory=memory)
                rec.expect(isinstance(p, Pipeline), key + ":type")
                rec.expect(len(p.steps) == len(plan), key + ":steps", "number of steps", steps=[n for n, _ in p.steps])
                p.fit(d.X, yin, sample_domain=d.sd)
            Xn, sdn = gen.new_rows(rng, d)
            for m in methods(p, METHODS[:-1]):
                for X, s, w in ((d.X, d.sd, "train"), (Xn, sdn, "new"), (d.X[~d.src], d.sd[~d.src], "targets")):
                    with rec.call(f"{key}.{m}"):
                        got = getattr(p, m)(X, sample_domain=s, allow_source=True)
                        want = h.ask(m, X, s)
                    rec.event("outputs-compared")
                    rec.close(got, want, key, f"{m} on {w} rows differs from the steps applied by hand", rtol=1e-7, atol=1e-8)
            # prefixes of the pipeline are the prefixes of the composition
            if len(plan) > 1:
                k = int(rng.integers(1, len(plan)))
                kw = {"allow_source": True} if any(a == "adapter" for a, _ in plan[:k]) else {}
                with rec.call(key + ":prefix"):
                    got = p[:k].transform(Xn, sample_domain=sdn, **kw)
                rec.close(got, h.steps(Xn, sdn, k), key + ":prefix", "prefix of the pipeline differs", rtol=1e-7, atol=1e-8)
                rec.event("outputs-compared")
    finally:
        if memory:
            shutil.rmtree(memory, ignore_errors=True)
    rec.seen("composition", desc, d.X)
    rec.sample(plan=desc, X=d.X)


@case("C06", quick=100, thorough=1000, requires=["outputs-compared"])
def spellings(rec, rng):
    """The same steps written in different ways give the same pipeline."""
    d = gen.da(rng, zoo.pick(rng, ("clf", "reg")), p=3)
    es = [e for e in zoo.mappers() + zoo.subspaces() + zoo.reweighters() if d.task in e.tasks]
    e = zoo.pick(rng, es)
    fin = lambda: zoo.base_for(d.task, e.produces)
    S = StandardScaler
    makes = {
        "bare": lambda: make_da_pipeline(S(), e.make(), fin()),
        "shared": lambda: make_da_pipeline(Shared(S()), Shared(e.make()), Shared(fin())),
        "named": lambda: make_da_pipeline(("a", S()), ("b", e.make()), ("c", fin())),
        "nested-tail": lambda: make_da_pipeline(S(), make_da_pipeline(e.make(), fin())),
        "nested-head": lambda: make_da_pipeline(make_da_pipeline(S(), e.make()), fin()),
        "nested-deep": lambda: make_da_pipeline(make_da_pipeline(make_da_pipeline(S()), e.make()), fin()),
        "selector-str": lambda: make_da_pipeline(S(), e.make(), fin(), default_selector="shared"),
        "selector-fn": lambda: make_da_pipeline(S(), e.make(), fin(), default_selector=Shared),
        "selector-lambda": lambda: make_da_pipeline(S(), e.make(), fin(), default_selector=lambda x, **k: Shared(x, **k)),
        "verbose": lambda: make_da_pipeline(S(), e.make(), fin(), verbose=True),
        "cloned": lambda: clone(make_da_pipeline(S(), e.make(), fin())),
        "set_params": lambda: make_da_pipeline(("a", S()), ("b", Shared(e.make())), ("c", LogisticRegression() if d.task == "clf" else
                                                                                     Ridge())).set_params(c=Shared(fin())._mark_as_final()),
    }
    Xn, sdn = gen.new_rows(rng, d)
    ref = None
    with rec.context(adapter=e.name, layout=d.kind):
        for n, mk in makes.items():
            if n == "set_params":
                continue
            with rec.call(f"spelling:{n}"):
                p = mk().fit(d.X, d.y, sample_domain=d.sd)
                out = np.asarray(p.predict_proba(Xn, sample_domain=sdn, allow_source=True) if d.task == "clf"
                                 else p.predict(Xn, sample_domain=sdn, allow_source=True))
            if ref is None:
                ref = out
            rec.event("outputs-compared")
            rec.close(out, ref, f"spelling:{n}", "another way to write the same steps gives other predictions", rtol=1e-8, atol=1e-9)
    rec.seen("spellings", e.name, d.X)


@case("C06", quick=60, thorough=600, requires=["outputs-compared"])
def per_domain_default(rec, rng):
    """default_selector='per_domain' is PerDomain around every bare step; explicit selectors are kept."""
    d = gen.da(rng, "clf", p=3, ns=int(rng.integers(1, 4)), nt=int(rng.integers(1, 3)))
    fin = zoo.pick(rng, [LogisticRegression(), GaussianNB()])
    a = make_da_pipeline(StandardScaler(), Shared(PCA(2)), clone(fin), default_selector="per_domain", mask_target_labels=False)
    b = make_da_pipeline(PerDomain(StandardScaler(), mask_target_labels=False), Shared(PCA(2), mask_target_labels=False),
                         PerDomain(clone(fin), mask_target_labels=False))
    rec.expect([n for n, _ in a.steps] == ["perdomain_standardscaler", "pca", f"perdomain_{type(fin).__name__.lower()}"],
               "per-domain:names", "names", names=[n for n, _ in a.steps])
    with rec.call("per-domain"):
        for p in (a, b):
            p.fit(d.X, d.y, sample_domain=d.sd)
        A, B = (p.predict_proba(d.X, sample_domain=d.sd, allow_source=True) for p in (a, b))
    rec.close(A, B, "per-domain", "default selector differs from the explicit selectors")
    # by hand
    Z = np.zeros_like(d.X)
    for dom in np.unique(d.sd):
        m = d.sd == dom
        Z[m] = StandardScaler().fit_transform(d.X[m])
    U = PCA(2).fit_transform(Z)
    W = np.zeros_like(A)
    for dom in np.unique(d.sd):
        m = d.sd == dom
        W[m] = clone(fin).fit(U[m], d.y[m]).predict_proba(U[m])
    rec.event("outputs-compared")
    rec.close(A, W, "per-domain:by-hand", "per-domain pipeline differs from per-domain fits by hand", rtol=1e-6, atol=1e-7)
    rec.seen("per-domain", d.X, d.sd)


@case("C06", quick=120, thorough=1200, requires=["selectors-checked"])
def default_selectors(rec, rng):
    """Whatever way the default selector is given, every bare step gets it, with the pipeline's masking; wrapped steps keep their own."""
    d = gen.da(rng, "clf", p=3)
    cls = [Shared, PerDomain, SelectSource, SelectTarget, SelectSourceTarget][rec.idx % 5]
    maskable = cls not in (SelectTarget, SelectSourceTarget)
    mask = bool(rng.random() < .5) and maskable
    seen = []

    def with_kwargs(e, **k):
        seen.append(k)
        return cls(e, **k)

    def with_name(e, mask_target_labels=None):
        seen.append({"mask_target_labels": mask_target_labels})
        return cls(e, mask_target_labels=mask_target_labels)

    def alone(e):
        return cls(e, mask_target_labels=mask)

    forms = [cls, with_kwargs, with_name, alone] + ([{Shared: "shared", PerDomain: "per_domain"}[cls]] if cls in (Shared, PerDomain) else [])
    k = int(rng.integers(len(forms)))
    spies.take()
    own = Shared(StandardScaler(), mask_target_labels=not mask) if rng.random() < .5 else None
    steps = ([own] if own is not None else []) + [StandardScaler(), spies.SpyClassifier("c")]
    with rec.context(selector=cls.__name__, form=k, mask=mask):
        with rec.call("selectors"):
            p = make_da_pipeline(*steps, default_selector=forms[k], mask_target_labels=mask)
        rec.event("selectors-checked")
        for (nm, st), given in zip(p.steps, steps):
            if given is own and own is not None:
                rec.expect(st is own and st.mask_target_labels == (not mask), "selectors:own", "an explicit selector was replaced or changed")
            else:
                rec.expect(type(st) is cls, "selectors:type", "a bare step is not wrapped in the default selector", got=type(st).__name__)
                rec.expect(bool(st.mask_target_labels) == mask, "selectors:mask", "the pipeline's masking does not reach the selector", got=st.mask_target_labels)
        for kw in seen:
            rec.expect(kw.get("mask_target_labels") == mask, "selectors:keyword", "masking not passed to the callable", got=kw)
        # what the final estimator learns from
        y = d.y
        if own is not None and not mask:
            rec.seen("default-selectors", cls.__name__, k, mask, "own")
            return
        if cls is PerDomain and mask:
            rec.seen("default-selectors", cls.__name__, k, mask, d.X)
            return  # nothing is left to fit the target domains on
        with rec.call("selectors:fit"):
            p.fit(d.X, y, sample_domain=d.sd)
        got = [e for e in spies.take() if e.call == "fit" and e.tag == "c"]
        n = sum(len(e.y) for e in got)
        ns, nt = int((d.sd >= 0).sum()), int((d.sd < 0).sum())
        want = {Shared: ns if mask else ns + nt, PerDomain: ns + nt, SelectSource: ns, SelectTarget: nt, SelectSourceTarget: ns + nt}[cls]
        rec.equal(n, want, "selectors:rows", "number of labelled rows the final estimator was given")
        lab = np.sort(np.concatenate([np.asarray(e.y) for e in got]))
        rows = {ns: d.sd >= 0, nt: d.sd < 0}.get(want, None) if want != ns + nt else np.ones(len(d.sd), bool)
        if ns != nt or want == ns + nt:
            rec.equal(lab, np.sort(y[rows]), "selectors:labels", "labels the final estimator was given")
    rec.seen("default-selectors", cls.__name__, k, mask, d.X)


NAMES = {"standardscaler": lambda: StandardScaler(), "pca": lambda: PCA(2), "coraladapter": lambda: skada.CORALAdapter(),
         "minmaxscaler": lambda: MinMaxScaler(), "gaussianreweightadapter": lambda: skada.GaussianReweightAdapter()}


@case("C06", quick=200, thorough=2000, requires=["names-checked"])
def naming(rec, rng):
    n = int(rng.integers(1, 7))
    steps, want, given = [], [], []
    for i in range(n):
        base = zoo.pick(rng, sorted(NAMES))
        e = NAMES[base]()
        how = int(rng.integers(5))
        if how == 0:
            steps.append(e), want.append((base, None))
        elif how == 1:
            steps.append(Shared(e)), want.append((base, None))
        elif how == 2:
            steps.append(PerDomain(e)), want.append(("perdomain_" + base, None))
        elif how == 3:
            user = zoo.pick(rng, [f"mine{i}", type(e).__name__ + "X" * i, base.upper() + "X" * i, f"Step {i}", f"{i}"])
            steps.append((user, e)), want.append((base, user))
        else:
            steps.append(SelectSource(e)), want.append((base, None))
    fin = [LogisticRegression(), ("last", Ridge())][int(rng.integers(2))]
    steps.append(fin)
    want.append(("logisticregression", None) if not isinstance(fin, tuple) else ("ridge", "last"))
    with rec.call("naming"):
        p = make_da_pipeline(*steps)
    names = [x for x, _ in p.steps]
    rec.event("names-checked", len(names))
    with rec.context(names=names, want=want):
        rec.expect(len(set(names)) == len(names), "naming:unique", "step names are not unique")
        rec.expect(len(names) == len(want), "naming:count", "steps lost or added")
        total = {}
        for b, _ in want:
            total[b] = total.get(b, 0) + 1
        count = {}
        for nm, (b, u) in zip(names, want):
            count[b] = count.get(b, 0) + 1
            if u is not None:
                rec.expect(nm == u, "naming:given", "a given name was not kept")
            elif total[b] == 1:
                rec.expect(nm == b, "naming:auto", "name of an only step", got=nm, expected=b)
            else:
                rec.expect(nm == f"{b}-{count[b]}", "naming:suffix", "name of a repeated step", got=nm, expected=f"{b}-{count[b]}")
        for nm, est in p.steps:
            rec.expect(isinstance(est, skada.base.BaseSelector), "naming:wrapped", "a step is not wrapped in a selector")
            rec.expect(p.named_steps[nm] is est, "naming:lookup")
    # nested pipelines keep their names when flattened
    inner = make_da_pipeline(MinMaxScaler(), ("deep", PCA(2)))
    outer = make_da_pipeline(StandardScaler(), inner, LogisticRegression())
    rec.expect([x for x, _ in outer.steps] == ["standardscaler", "minmaxscaler", "deep", "logisticregression"], "naming:nested",
               "names of flattened steps", names=[x for x, _ in outer.steps])
    rec.seen("naming", names)


@case("C06", quick=60, thorough=600, requires=["params-checked"])
def parameters(rec, rng):
    """Parameters are reachable through the step names and changing them takes effect."""
    d = gen.da(rng, "clf", p=3)
    c = float(rng.choice([1e-3, 1e-2, 10.0]))
    reg = float(rng.choice([.05, .5]))
    wrap = [lambda x: x, Shared, lambda x: ("n", x)][int(rng.integers(3))]
    p = make_da_pipeline(StandardScaler(), skada.CORALAdapter(), LogisticRegression())
    q = make_da_pipeline(StandardScaler(with_std=False), skada.CORALAdapter(reg=reg), LogisticRegression(C=c))
    with rec.call("params"):
        p.set_params(standardscaler__with_std=False, coraladapter__reg=reg, logisticregression__C=c)
    g = p.get_params()
    rec.event("params-checked")
    rec.expect(g["logisticregression__C"] == c and g["coraladapter__reg"] == reg and g["standardscaler__with_std"] is False,
               "params:get", "set_params is not visible in get_params")
    for k in ("standardscaler", "coraladapter", "logisticregression", "steps"):
        rec.expect(k in g, "params:names", f"{k} missing from get_params")
    with rec.call("params:fit"):
        a = p.fit(d.X, d.y, sample_domain=d.sd).predict_proba(d.X, sample_domain=d.sd, allow_source=True)
        b = q.fit(d.X, d.y, sample_domain=d.sd).predict_proba(d.X, sample_domain=d.sd, allow_source=True)
    rec.close(a, b, "params:effect", "setting parameters differs from constructing with them")
    rec.rejects("params:unknown", lambda: p.set_params(coraladapter__nope=1), ValueError, "unknown parameter")
    rec.rejects("params:unknown-step", lambda: p.set_params(nope__reg=1), ValueError, "unknown step")
    with rec.call("params:nested-selector"):
        r = make_da_pipeline(PerDomain(StandardScaler()), ("x", SelectSource(PCA(2))), ("y", Shared(SVC())))
        r.set_params(perdomain_standardscaler__with_mean=False, x__n_components=1, y__C=c, y__kernel="linear")
        gr = r.get_params()
    rec.expect(gr["x__n_components"] == 1 and gr["y__C"] == c and gr["perdomain_standardscaler__with_mean"] is False, "params:selectors")
    with rec.call("params:kwargs"):  # selectors accept parameters of what they wrap
        s = Shared(LogisticRegression(), C=c)
    rec.expect(s.get_params()["C"] == c, "params:kwargs", "selector keyword not forwarded")
    rec.seen("parameters", c, reg, d.X)


@case("C06", quick=24, thorough=120, requires=["rejections"])
def invalid(rec, rng):
    rec.rejects("invalid:empty", lambda: make_da_pipeline(), TypeError, "no step")
    rec.rejects("invalid:selector-name", lambda: make_da_pipeline(StandardScaler(), default_selector="nope"), ValueError, "selector name")
    rec.rejects("invalid:selector-type", lambda: make_da_pipeline(StandardScaler(), default_selector=3), ValueError, "selector type")
    rec.rejects("invalid:selector-result", lambda: make_da_pipeline(StandardScaler(), default_selector=lambda e, **k: e), ValueError,
                "callable not returning a selector")
    d = gen.da(rng, "clf")
    rec.rejects("invalid:duplicates", lambda: make_da_pipeline(("a", StandardScaler()), ("a", LogisticRegression())).fit(
        d.X, d.y, sample_domain=d.sd), ValueError, "duplicate names")
    # a nested pipeline given a name: the flattened names must be usable
    p = make_da_pipeline(("inner", make_da_pipeline(StandardScaler(), MinMaxScaler())), LogisticRegression())
    try:
        p.fit(d.X, d.y, sample_domain=d.sd)
    except ValueError as e:
        rec.violate("named-nested-pipeline-unusable", f"a named nested pipeline cannot be fitted: {e}", names=[n for n, _ in p.steps])
    rec.seen("invalid", d.X)


@case("C06", quick=60, thorough=800, requires=["cached-fits", "outputs-compared"])
def memory_histories(rec, rng):
    """Pipelines sharing one cache folder, fitted on data differing in one respect only, equal the uncached ones."""
    d = gen.da(rng, zoo.pick(rng, ("clf", "reg")), p=3, n_per=(8, 12))
    for _ in range(20):
        name, plan = draw_plan(rng, d)
        if len(plan) > 1:
            break
    else:
        raise Skip("no plan with a cached step")
    steps = [spell(rng, k, w, i) for i, (k, w) in enumerate(plan)]
    folder = tempfile.mkdtemp(prefix="rtm06")
    worlds = [("first", d.X, d.y, d.sd)]
    X = d.X.copy()
    X[int(rng.integers(len(X)))] += 1.
    worlds.append(("one sample", X, d.y, d.sd))
    y = d.y.copy()
    i = int(rng.choice(np.flatnonzero(d.src)))
    y[i] = zoo.pick(rng, [v for v in np.unique(d.y[d.src]) if v != y[i]]) if d.task == "clf" else y[i] + 1.
    if d.task == "reg" or min(np.sum(y[d.src] == c) for c in np.unique(d.y)) >= 2:
        worlds.append(("one label", d.X, y, d.sd))
    src = np.unique(d.sd[d.src])
    sd = d.sd.copy()
    if len(src) > 1:   # a sample changes source domain
        i = int(rng.choice(np.flatnonzero(d.src)))
        sd[i] = zoo.pick(rng, [v for v in src if v != sd[i]])
    else:
        sd = np.where(sd >= 0, sd + 1, sd - 1)
    worlds.append(("domains", d.X, d.y, sd))
    order = [0] + [int(k) for k in rng.integers(0, len(worlds), size=3)] + [0]
    key = f"memory:{name}"
    try:
        with rec.context(plan=[f"{k}:{type(w).__name__}" for k, w in plan], history=[worlds[k][0] for k in order]):
            for k in order:
                _, Xk, yk, sk = worlds[k]
                try:
                    plain = make_da_pipeline(*[clone_step(s) for s in steps]).fit(Xk, yk, sample_domain=sk)
                except Exception:
                    rec.event("plain-refused")
                    continue
                with rec.call(key):
                    cached = make_da_pipeline(*[clone_step(s) for s in steps], memory=folder).fit(Xk, yk, sample_domain=sk)
                rec.event("cached-fits")
                for m in methods(plain, METHODS[:-1]):
                    kw = dict(sample_domain=sk, allow_source=True)
                    with rec.call(f"{key}.{m}"):
                        got, want = getattr(cached, m)(Xk, **kw), getattr(plain, m)(Xk, **kw)
                    rec.event("outputs-compared")
                    rec.close(got, want, key, f"{m} differs when intermediate results are cached", rtol=1e-7, atol=1e-8)
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    rec.seen("memory", name, d.X)


def clone_step(s):
    return (s[0], clone(s[1])) if isinstance(s, tuple) else clone(s)
