"""C07: twin histories of construct / clone / set_params / fit / refit must be indistinguishable."""
import inspect
import re

import numpy as np
from sklearn.base import clone
from sklearn.linear_model import LogisticRegression, Ridge
from sklearn.naive_bayes import GaussianNB
from sklearn.neighbors import KernelDensity, KNeighborsClassifier
from sklearn.decomposition import PCA
from sklearn.preprocessing import MinMaxScaler, StandardScaler
from sklearn.svm import SVC

import ot
import skada
from skada import PerDomain, SelectSource, SelectSourceTarget, SelectTarget, Shared, make_da_pipeline
from skada._gradual_da import GradualEstimator
from skada.transformers import DomainSubsampler, StratifiedDomainSubsampler, Subsampler

from .. import gen, zoo
from ..core import CaseAbort, Skip, case, digest
from ..probe import collapsed, compare, flat_output, probe, probe_plain

S = skada
# parameter variations: every constructor argument of every shipped component, with another legal value
VAR = {
    S.DensityReweightAdapter: {"weight_estimator": lambda: KernelDensity(bandwidth=.4)},
    S.GaussianReweightAdapter: {"reg": lambda: .4},
    S.DiscriminatorReweightAdapter: {"domain_classifier": lambda: GaussianNB()},
    S.KLIEPReweightAdapter: {"gamma": lambda: .2, "cv": lambda: 4, "n_centers": lambda: 5, "tol": lambda: 1e-3,
                             "max_iter": lambda: 7, "random_state": lambda: 11},
    S.NearestNeighborReweightAdapter: {"n_neighbors": lambda: 4, "weights": lambda: "distance", "algorithm": lambda: "brute",
                                       "leaf_size": lambda: 5, "p": lambda: 1, "metric": lambda: "manhattan",
                                       "laplace_smoothing": lambda: True, "n_jobs": lambda: 1},
    S.KMMReweightAdapter: {"kernel": lambda: "linear", "gamma": lambda: 1.2, "degree": lambda: 2, "coef0": lambda: .3,
                           "B": lambda: 2., "eps": lambda: .5, "tol": lambda: 1e-3, "max_iter": lambda: 15,
                           "smooth_weights": lambda: True, "solver": lambda: "scipy"},
    S.MMDTarSReweightAdapter: {"gamma": lambda: 1.3, "reg": lambda: 1e-2, "tol": lambda: 1e-2, "max_iter": lambda: 5},
    S.OTMappingAdapter: {"metric": lambda: "cityblock", "norm": lambda: "max", "max_iter": lambda: 50000},
    S.EntropicOTMappingAdapter: {"reg_e": lambda: 5., "metric": lambda: "euclidean", "norm": lambda: "median",
                                 "max_iter": lambda: 20, "tol": lambda: 1e-3},
    S.ClassRegularizerOTMappingAdapter: {"reg_e": lambda: 5., "reg_cl": lambda: 1., "norm": lambda: "l1l2",
                                         "metric": lambda: "euclidean", "max_iter": lambda: 3, "max_inner_iter": lambda: 20,
                                         "tol": lambda: 1e-3},
    S.LinearOTMappingAdapter: {"reg": lambda: .3, "bias": lambda: False},
    S.MultiLinearMongeAlignmentAdapter: {"reg": lambda: .3, "bias": lambda: False, "test_time": lambda: True},
    S.CORALAdapter: {"reg": lambda: .3, "assume_centered": lambda: True},
    S.MMDLSConSMappingAdapter: {"gamma": lambda: .5, "reg_k": lambda: 1e-2, "reg_m": lambda: 1e-2, "tol": lambda: 1e-1,
                                "max_iter": lambda: 3},
    S.SubspaceAlignmentAdapter: {"n_components": lambda: 2, "random_state": lambda: 5},
    S.TransferComponentAnalysisAdapter: {"kernel": lambda: "linear", "n_components": lambda: 2, "mu": lambda: 1.5},
    S.TransferJointMatchingAdapter: {"n_components": lambda: 1, "tradeoff": lambda: .5, "max_iter": lambda: 1,
                                     "kernel": lambda: "linear", "tol": lambda: .3, "verbose": lambda: True},
    S.TransferSubspaceLearningAdapter: {"n_components": lambda: 2, "base_method": lambda: "pca", "length_scale": lambda: 1.,
                                        "mu": lambda: 1., "reg": lambda: .5, "max_iter": lambda: 4, "tol": lambda: .5,
                                        "verbose": lambda: True},
    S.OTLabelPropAdapter: {"metric": lambda: "cityblock", "reg": lambda: 1., "n_iter_max": lambda: 100000},
    S.JCPOTLabelPropAdapter: {"metric": lambda: "cityblock", "reg": lambda: 3., "max_iter": lambda: 40, "tol": lambda: 1e-4,
                              "verbose": lambda: True},
    S.JDOTClassifier: {"base_estimator": lambda: LogisticRegression(C=.1), "alpha": lambda: .2, "metric": lambda: "hinge",
                       "n_iter_max": lambda: 2, "tol": lambda: 1., "verbose": lambda: True, "thr_weights": lambda: 1e-2},
    S.JDOTRegressor: {"base_estimator": lambda: Ridge(alpha=10.), "alpha": lambda: .1, "n_iter_max": lambda: 2,
                      "tol": lambda: 1., "verbose": lambda: True},
    S.DASVMClassifier: {"base_estimator": lambda: SVC(kernel="rbf"), "k": lambda: 1, "max_iter": lambda: 6,
                        "save_estimators": lambda: True, "save_indices": lambda: True},
    GradualEstimator: {"alpha": lambda: .3, "n_steps": lambda: 2, "ot_method": lambda: ot.da.EMDTransport(),
                       "base_estimator": lambda: GaussianNB(), "advanced_ot_plan_sampling": lambda: True,
                       "save_estimators": lambda: True, "save_intermediate_data": lambda: True},
    Subsampler: {"train_size": lambda: 9, "random_state": lambda: 8},
    DomainSubsampler: {"train_size": lambda: .4, "random_state": lambda: 8},
    StratifiedDomainSubsampler: {"train_size": lambda: .6, "random_state": lambda: 8},
}


def extras():
    E = zoo.E
    return [E("Subsampler", lambda: Subsampler(.5, random_state=2), kind="sub", produces="X"),
            E("DomainSubsampler", lambda: DomainSubsampler(.5, random_state=2), kind="sub", produces="X"),
            E("StratifiedDomainSubsampler", lambda: StratifiedDomainSubsampler(.5, random_state=2), kind="sub", produces="X",
              tasks=("clf",), uses_y=True)]


def entries():
    return zoo.adapters() + zoo.da_estimators() + extras()


def draw(rng, e):
    task = zoo.pick(rng, e.tasks)
    kw = {}
    if e.binary:
        kw["labels"] = [0, 1]
    if e.name.startswith("JDOTClassifier-hinge"):
        kw["labels"] = [0, 1, 2]
    p = int(rng.integers(2, 5))
    return lambda: gen.da(rng, task, p=p, n_per=(10, 14), **kw)


def state(v, depth=0):
    """Configuration of an object, deep: what an observer of its parameters (and of objects in them) can see."""
    if isinstance(v, np.ndarray):
        return ("nd", v.shape, str(v.dtype), digest(v))
    if isinstance(v, (list, tuple)):
        return tuple(state(x, depth + 1) for x in v)
    if isinstance(v, dict):
        return tuple((k, state(x, depth + 1)) for k, x in sorted(v.items()))
    if isinstance(v, (int, float, str, bool, type(None), np.generic)):
        return repr(v)
    if callable(v) and not hasattr(v, "get_params"):
        return ("callable", id(v))
    if hasattr(v, "__dict__") and depth < 4:
        return (type(v).__name__, tuple((k, state(x, depth + 1)) for k, x in sorted(vars(v).items()) if k != "_sklearn_output_config"))
    return repr(v)


def params_state(o):
    """Parameters only (the learned attributes of o itself are excluded)."""
    return {k: (id(v), state(v)) for k, v in o.get_params(deep=False).items()}


def behave(e, o, d, Xn, sdn, fit=True, mask=False):
    """Everything one can observe by fitting (or not) and using the object."""
    y = d.mask() if mask else d.y
    out = {}
    if e.kind == "est":
        if fit:
            o.fit(d.X, y, sample_domain=d.sd)
        if e.domain_args:
            return probe(o, d, Xn, sdn)
        return probe_plain(o, d, Xn, sdn)
    X2, y2, par = flat_output(o.fit_transform(d.X, y, sample_domain=d.sd))
    out["fit_transform", "X"] = X2
    if y2 is not None:
        out["fit_transform", "y"] = y2
    for k, v in par.items():
        if v is not None:
            out["fit_transform", k] = np.asarray(v)
    if e.kind not in ("labelprop",):
        r = flat_output(o.transform(Xn, sample_domain=sdn, allow_source=True))
        out["transform", "new"] = r[0]
        for k, v in r[2].items():
            if v is not None:
                out["transform", "new-" + k] = np.asarray(v)
    return out


def attempt(e, o, d, Xn, sdn):
    try:
        return behave(e, o, d, Xn, sdn)
    except Exception as ex:
        if collapsed(ex):
            raise Skip(str(ex))
        raise


@case("C07", quick=370, thorough=4000, requires=["histories-compared"])
def histories(rec, rng):
    """fresh / cloned / refitted / reconfigured objects behave alike."""
    es = entries()
    e = es[rec.idx % len(es)]
    mk = draw(rng, e)
    A, B = mk(), mk()
    if A.p != B.p:
        raise Skip("features")
    Xn, sdn = gen.new_rows(rng, B)
    T = dict(rtol=1e-6, atol=1e-8)
    key = f"history:{e.name}"
    make, conf = e.make, None
    var = sorted(set(VAR.get(type(e.make()), {})) & set(e.make().get_params(deep=False)))
    if var and rng.random() < .5 and not e.name.startswith("JDOTClassifier"):
        conf = zoo.pick(rng, var)
        val = VAR[type(e.make())][conf]()
        make = lambda: e.make().set_params(**{conf: clone(val) if hasattr(val, "get_params") else val})
    with rec.context(component=e.name, layout=B.kind, sample_domain=B.sd, other=conf):
        with rec.call(key + ":fresh"):
            fresh = make()
            ref = attempt(e, fresh, B, Xn, sdn)
        # parameters of a fitted object are those it was constructed with
        obj = make()
        before = params_state(obj)
        with rec.call(key + ":first-fit"):
            attempt(e, obj, A, *gen.new_rows(rng, A))
        rec.expect(params_state(obj) == before, f"params-altered:{e.name}", "fitting altered the constructor parameters",
                   before=[k for k in before if before[k] != params_state(obj).get(k)])
        # clone of a fitted object is unfitted and has the same configuration
        with rec.call(key + ":clone"):
            c = clone(obj)
        rec.expect(c is not obj and type(c) is type(obj), f"clone:{e.name}", "clone is the same object")
        rec.expect(repr_params(c) == repr_params(obj), f"clone-params:{e.name}", "clone has other parameters", a=repr_params(c), b=repr_params(obj))
        learned = [k for k, v in vars(c).items() if k.endswith("_") and not k.startswith("_") and v is not None]
        rec.expect(not learned, f"clone-fitted:{e.name}", "clone carries learned state", attrs=learned)
        with rec.call(key + ":clone-fit"):
            out = attempt(e, c, B, Xn, sdn)
        rec.event("histories-compared")
        compare(rec, ref, out, f"clone-behaviour:{e.name}", **T)
        # refit on other data
        with rec.call(key + ":refit"):
            out = attempt(e, obj, B, Xn, sdn)
        rec.event("histories-compared")
        compare(rec, ref, out, f"refit:{e.name}", **T)
        rec.expect(params_state(obj) == before, f"params-altered:{e.name}", "refitting altered the constructor parameters")
        # twice on the same data
        with rec.call(key + ":again"):
            out = attempt(e, obj, B, Xn, sdn)
        rec.event("histories-compared")
        compare(rec, ref, out, f"fit-twice:{e.name}", **T)
    rec.seen("history", e.name, A.X, B.X)
    rec.sample(component=e.name, sample_domain=B.sd)


def norm(v):
    return re.sub(r" at 0x[0-9a-f]+", "", repr(v))


def repr_params(o):
    return {k: digest(v) if isinstance(v, np.ndarray) else norm(v) for k, v in o.get_params(deep=True).items()}


@case("C07", quick=370, thorough=4000, requires=["variations"])
def parameters(rec, rng):
    """Every constructor argument: readable, settable, cloned, and set_params == construction."""
    es = entries()
    e = es[rec.idx % len(es)]
    base = e.make()
    cls = type(base)
    sig = [p for p in inspect.signature(cls.__init__).parameters.values() if p.name != "self" and p.kind != p.VAR_KEYWORD]
    names = {p.name for p in sig}
    got = base.get_params(deep=False)
    rec.expect(set(got) == names, f"get_params:{e.name}", "parameters exposed are not the constructor's", exposed=sorted(got), want=sorted(names))
    var = VAR.get(cls, {})
    known = [n for n in var if n in names]
    n = known[int(rng.integers(len(known)))]
    val = var[n]()
    if e.name.startswith("JDOTClassifier-hinge") and n in ("base_estimator", "metric"):
        raise Skip("combination not meaningful")
    if cls is S.JDOTClassifier and n == "metric":
        raise Skip("hinge needs another base estimator")
    d = draw(rng, e)()
    if n == "n_neighbors" or n == "n_centers":
        pass
    Xn, sdn = gen.new_rows(rng, d)
    key = f"param:{e.name}.{n}"
    built = {**{k: clone(v) if hasattr(v, "get_params") else v for k, v in got.items()}, n: val}
    with rec.context(component=e.name, parameter=n, value=val):
        a = cls(**built)
        rec.expect(a.get_params(deep=False)[n] is val or repr(a.get_params(deep=False)[n]) == repr(val), key + ":stored",
                   "constructor did not store the value", stored=a.get_params(deep=False)[n])
        b = e.make()
        with rec.call(key + ":set"):
            r = b.set_params(**{n: val})
        rec.expect(r is b, key + ":returns", "set_params did not return the object")
        rec.expect(b.get_params(deep=False)[n] is val or repr(b.get_params(deep=False)[n]) == repr(val), key + ":set-stored", "set_params not stored")
        c = clone(a)
        rec.expect(repr_params(c) == repr_params(a), key + ":clone", "clone lost a parameter", a=repr_params(a), b=repr_params(c))
        used = e.make()
        try:
            with rec.call(key + ":fit"):
                attempt(e, used, d, Xn, sdn)
                before = params_state(a)
                ref = attempt(e, a, d, Xn, sdn)
                rec.expect(params_state(a) == before, f"{key}:altered", "fitting altered a constructor parameter",
                           which=[k for k, v in params_state(a).items() if v != before[k]])
                for how, o in (("set_params", b), ("clone", c), ("set_params-after-fit", used.set_params(**{n: val})),
                               ("clone-after-set", clone(b))):
                    out = attempt(e, o, d, Xn, sdn)
                    rec.event("variations")
                    compare(rec, ref, out, f"{key}:{how}", rtol=1e-6, atol=1e-8)
                    rec.expect(norm(o.get_params(deep=False)[n]) == norm(a.get_params(deep=False)[n]), f"{key}:{how}:kept", "parameter differs after fit")
        except CaseAbort:
            raise
        for x in (a, b, c):
            repr(x)
    rec.seen("parameter", e.name, n, d.X)


@case("C07", quick=148, thorough=1500, requires=["instances-compared"])
def independence(rec, rng):
    """Instances do not share state: default arguments, or the same inner object given to two instances."""
    es = entries()
    e = es[rec.idx % len(es)]
    mk = draw(rng, e)
    A, B = mk(), mk()
    cls = type(e.make())
    kw = e.make().get_params(deep=False)
    inner = [k for k, v in kw.items() if hasattr(v, "get_params") or hasattr(v, "fit")]
    Xa, sa = gen.new_rows(rng, A)
    Xb, sb = gen.new_rows(rng, B)
    key = f"independent:{e.name}"
    with rec.context(component=e.name):
        with rec.call(key):
            ref = attempt(e, e.make(), A, Xa, sa)
            # two instances built from the very same argument objects (which covers shared default arguments)
            a, b = cls(**kw), cls(**kw)
            states = {k: state(kw[k]) for k in inner}
            attempt(e, b, B, Xb, sb)
            out = attempt(e, a, A, Xa, sa)
            rec.event("instances-compared")
            compare(rec, ref, out, key + ":shared-args", rtol=1e-6, atol=1e-8)
            for k in inner:
                rec.expect(state(kw[k]) == states[k], f"{key}:{k}", "an object given by the caller was altered by fitting", obj=kw[k])
            # a's predictions survive b being fitted afterwards
            if e.kind == "est":
                attempt(e, b, B, Xb, sb)
                again = behave(e, a, A, Xa, sa, fit=False)
                rec.event("instances-compared")
                compare(rec, out, again, key + ":fitted-survives", rtol=1e-9, atol=1e-10)
            # all defaults
            try:
                d1, d2 = cls(), cls()
            except TypeError:
                d1 = None
            if d1 is not None and e.name != "JDOTClassifier-hinge" and (d1.get_params() != {} or True):
                try:
                    np.random.seed(3)  # unseeded defaults draw from the process-wide generator
                    r1 = behave(e, d1, A, Xa, sa)
                except Exception as ex:
                    if collapsed(ex) or isinstance(ex, (ValueError, TypeError)):
                        r1 = None
                    else:
                        raise
                if r1 is not None:
                    try:
                        behave(e, d2, B, Xb, sb)
                    except Exception:
                        pass
                    d3 = cls()
                    if "random_state" in kw:
                        d3 = None
                    if d3 is not None:
                        rec.event("instances-compared")
                        np.random.seed(3)
                        compare(rec, r1, behave(e, d3, A, Xa, sa), key + ":defaults", rtol=1e-6, atol=1e-8)
    rec.seen("independent", e.name, A.X)


# ------------------------------------------------------------------ selectors and pipelines
def sel_makers(d):
    b = LogisticRegression if d.task == "clf" else Ridge
    p = {"C": .05} if d.task == "clf" else {"alpha": 20.}
    return {
        "Shared": (lambda **k: Shared(b(**k)), p, ""),
        "PerDomain": (lambda **k: PerDomain(b(**k), mask_target_labels=False), p, ""),
        "SelectSource": (lambda **k: SelectSource(b(**k)), p, ""),
        "SelectTarget": (lambda **k: SelectTarget(b(**k)), p, ""),
        "SelectSourceTarget": (lambda **k: SelectSourceTarget(b(**k), b(**k)), p, "both"),
        "SelectSourceTarget-1": (lambda **k: SelectSourceTarget(b(**k)), p, "one"),
    }


def sel_behave(s, d):
    t = ~d.src
    out = {}
    s.fit(d.X, d.y, sample_domain=d.sd)
    for m in ("predict", "predict_proba", "decision_function"):
        if hasattr(s, m):
            out[m, "targets"] = np.asarray(getattr(s, m)(d.X[t], sample_domain=d.sd[t]))
            out[m, "all"] = np.asarray(getattr(s, m)(d.X, sample_domain=d.sd, allow_source=True))
    return out


@case("C07", quick=160, thorough=1600, requires=["selectors-compared"])
def selectors(rec, rng):
    d = gen.da(rng, zoo.pick(rng, ("clf", "reg")), p=3)
    d2 = gen.da(rng, d.task, p=3, labels=d.labels)
    # per-domain selectors need the same domains at predict time
    m = sel_makers(d)
    n = sorted(m)[rec.idx % len(m)]
    mk, p, how = m[n]
    key = f"selector:{n}"
    par = list(p)[0]
    with rec.context(selector=n, sample_domain=d.sd):
        with rec.call(key):
            ref0, ref1 = sel_behave(mk(), d), sel_behave(mk(**p), d)
            s = mk()
            g = s.get_params()
            if how == "":
                rec.expect(g.get(par) == mk().base_estimator.get_params()[par], key + ":get", "parameters of the inner estimator are not reachable", got=sorted(g))
                pp = dict(p)
            else:
                rec.expect(f"source_estimator__{par}" in g and "mask_target_labels" in g, key + ":get", "parameters not reachable", got=sorted(g))
                pp = {f"source_estimator__{par}": p[par]}
                if how == "both":
                    pp[f"target_estimator__{par}"] = p[par]
            inner_before = state(s.base_estimator) if how == "" else state(s.source_estimator)
            c = clone(s)
            compare(rec, ref0, sel_behave(s, d), key + ":repeat")
            rec.expect((state(s.base_estimator) if how == "" else state(s.source_estimator)) == inner_before, key + ":inner",
                       "fitting a selector altered the estimator it was given")
            compare(rec, ref0, sel_behave(c, d), key + ":clone")
            c2 = clone(s)   # clone of a fitted one
            rec.expect(not [k for k in vars(c2) if k.endswith("_") and not k.startswith("_")], key + ":clone-fitted", "clone is fitted", attrs=list(vars(c2)))
            rec.expect(repr(c2.get_params()) == repr(s.get_params()), key + ":clone-params", "clone has other parameters")
            sel_behave(s, d2)
            compare(rec, ref0, sel_behave(s, d), key + ":refit")
            r = s.set_params(**pp)
            rec.expect(r is s, key + ":returns", "set_params does not return the selector")
            compare(rec, ref1, sel_behave(s, d), key + ":set_params")
            compare(rec, ref1, sel_behave(clone(s), d), key + ":clone-set")
            compare(rec, ref0, sel_behave(c2, d), key + ":clone-detached")
            if how == "":  # a new inner estimator and its parameter in one call
                fresh = type(s.base_estimator)()
                for o in (mk(), clone(mk())):
                    o.set_params(base_estimator=fresh, **p)
                    rec.expect(o.base_estimator is fresh, key + ":set-both", "the new inner estimator was not taken over")
                    compare(rec, ref1, sel_behave(o, d), key + ":set-both")
                pipe = make_da_pipeline(("z", mk()))
                pipe.set_params(z__base_estimator=type(s.base_estimator)(), **{f"z__{par}": p[par]})
                compare(rec, ref1, sel_behave(pipe, d), key + ":set-both-piped")
            else:
                o = mk().set_params(source_estimator=type(s.source_estimator)(), **pp)
                compare(rec, ref1, sel_behave(o, d), key + ":set-both")
            rec.event("selectors-compared", 8)
            repr(s)
        # masking choice survives cloning
        msk = rng.random() < .5
        S_ = {"Shared": Shared, "PerDomain": PerDomain, "SelectSource": SelectSource}.get(n)
        if S_ is not None:
            fits = []
            o = S_(Recorder(fits), mask_target_labels=bool(msk))
            for x in (o, clone(o), clone(clone(o))):
                fits.clear()
                with rec.call(key + ":mask"):
                    x.fit(d.X, d.y, sample_domain=d.sd)
                seen = sum(len(y) for y in fits)
                want = int(d.src.sum()) if (msk or n == "SelectSource") else len(d.X)
                rec.expect(seen == want, key + ":mask-cloned", "masking choice was not kept", rows=seen, want=want, mask=msk)
    rec.seen("selector", n, d.X)


class Recorder(LogisticRegression):
    """Logs the labels it is fitted with (the log is shared by clones)."""

    def __init__(self, fits=None):
        super().__init__()
        self.fits = Cell(fits) if not isinstance(fits, Cell) else fits

    def fit(self, X, y, sample_weight=None):
        self.fits.l.append(np.array(y))
        self.classes_ = np.unique(y)
        return self

    def get_params(self, deep=True):
        return {"fits": self.fits}

    def set_params(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)
        return self

    def __sklearn_clone__(self):
        return Recorder(self.fits)


class Cell:
    def __init__(self, l):
        self.l = l if l is not None else []

    def __deepcopy__(self, memo):
        return self


def pipelines(task):
    b = LogisticRegression if task == "clf" else Ridge
    q = "C" if task == "clf" else "alpha"
    bn = b.__name__.lower()
    w = lambda **k: b(**k).set_fit_request(sample_weight=True)
    return {
        "coral": (lambda scale=True, reg=.1, c=1.: make_da_pipeline(StandardScaler(with_mean=scale), S.CORALAdapter(reg=reg), b(**{q: c})),
                  {"scale": "standardscaler__with_mean", "reg": "coraladapter__reg", "c": f"{bn}__{q}"}),
        "kmm": (lambda gamma=.3, c=1.: make_da_pipeline(S.KMMReweightAdapter(gamma=gamma, B=5.), w(**{q: c})),
                {"gamma": "kmmreweightadapter__gamma", "c": f"{bn}__{q}"}),
        "named": (lambda reg=1e-3, c=1.: make_da_pipeline(("ad", S.LinearOTMappingAdapter(reg=reg)), ("fin", b(**{q: c}))),
                  {"reg": "ad__reg", "c": f"fin__{q}"}),
        "per-domain": (lambda scale=True, reg=.1: make_da_pipeline(PerDomain(StandardScaler(with_std=scale)), S.CORALAdapter(reg=reg), b()),
                       {"scale": "perdomain_standardscaler__with_std", "reg": "coraladapter__reg"}),
        "role": (lambda scale=True, c=1.: make_da_pipeline(SelectSourceTarget(StandardScaler(with_std=scale)), S.TransferComponentAnalysisAdapter(n_components=2), b(**{q: c})),
                 {"scale": "selectsourcetarget__source_estimator__with_std", "c": f"{bn}__{q}"}),
        "two": (lambda n=2, c=1.: make_da_pipeline(StandardScaler(), StandardScaler(), PCA(n_components=n), b(**{q: c})),
                {"n": "pca__n_components", "c": f"{bn}__{q}"}),
        "swap": (lambda inner="std": make_da_pipeline(("sc", StandardScaler() if inner == "std" else MinMaxScaler()), S.CORALAdapter(reg=.1), b()),
                 {"inner": "sc__base_estimator"}),
    }


VALS = {"scale": lambda: False, "reg": lambda: .5, "c": lambda: .03, "gamma": lambda: 1.1, "n": lambda: 1, "inner": lambda: "minmax"}


@case("C07", quick=140, thorough=1400, requires=["pipelines-compared"])
def pipeline_params(rec, rng):
    task = zoo.pick(rng, ("clf", "reg"))
    d = gen.da(rng, task, p=3)
    d2 = gen.da(rng, task, p=3)
    ps = pipelines(task)
    n = sorted(ps)[rec.idx % len(ps)]
    mk, names = ps[n]
    a = zoo.pick(rng, sorted(names))
    v = VALS[a]()
    key = f"pipeline:{n}.{a}"
    Xn, sdn = gen.new_rows(rng, d)
    P = lambda o, dd, xx, ss: probe(o.fit(dd.X, dd.y, sample_domain=dd.sd), dd, xx, ss)
    with rec.context(pipeline=n, parameter=names[a]):
        with rec.call(key):
            ref0, ref1 = P(mk(), d, Xn, sdn), P(mk(**{a: v}), d, Xn, sdn)
            o = mk()
            rec.must(names[a] in o.get_params(), key + ":reachable", "parameter is not reachable", params=sorted(o.get_params()))
            before = {k: repr(x) for k, x in o.get_params().items()}
            compare(rec, ref0, P(o, d, Xn, sdn), key + ":repeat")
            rec.expect({k: repr(x) for k, x in o.get_params().items()} == before, key + ":params-altered", "fit altered parameters")
            P(o, d2, *gen.new_rows(rng, d2))
            compare(rec, ref0, P(o, d, Xn, sdn), key + ":refit")
            c = clone(o)
            compare(rec, ref0, P(c, d, Xn, sdn), key + ":clone")
            vv = v if a != "inner" else MinMaxScaler()
            o.set_params(**{names[a]: vv})
            compare(rec, ref1, P(o, d, Xn, sdn), key + ":set_params")
            c2 = clone(o)
            compare(rec, ref1, P(c2, d, Xn, sdn), key + ":clone-set")
            compare(rec, ref0, P(clone(c), d, Xn, sdn), key + ":clone-detached")
            rec.event("pipelines-compared", 6)
            repr(o), repr(c2)
    rec.seen("pipeline", n, a, d.X)


@case("C07", quick=60, thorough=600, requires=["pipelines-compared"])
def shared_inner(rec, rng):
    """The same estimator objects given to two pipelines, or twice to one pipeline, stay independent and unfitted."""
    task = zoo.pick(rng, ("clf", "reg"))
    A, B = gen.da(rng, task, p=3), gen.da(rng, task, p=3)
    es = [e for e in zoo.mappers() + zoo.subspaces() + zoo.reweighters() if task in e.tasks]
    e = es[int(rng.integers(len(es)))]
    key = f"shared:{e.name}"
    with rec.context(adapter=e.name):
        with rec.call(key):
            ref = probe(make_da_pipeline(StandardScaler(), e.make(), zoo.base_for(task, e.produces)).fit(A.X, A.y, sample_domain=A.sd), A)
            sc, ad, fin = StandardScaler(), e.make(), zoo.base_for(task, e.produces)
            st = [state(x) for x in (sc, ad, fin)]
            p, q = make_da_pipeline(sc, ad, fin), make_da_pipeline(sc, ad, fin)
            p.fit(A.X, A.y, sample_domain=A.sd)
            q.fit(B.X, B.y, sample_domain=B.sd)
            compare(rec, ref, probe(p, A), key, rtol=1e-6, atol=1e-8)
            q.fit(A.X, A.y, sample_domain=A.sd)
            compare(rec, ref, probe(q, A), key + ":second", rtol=1e-6, atol=1e-8)
            rec.event("pipelines-compared", 2)
            rec.expect([state(x) for x in (sc, ad, fin)] == st, key + ":objects", "estimators given to the pipeline were altered by fitting")
    rec.seen("shared", e.name, A.X)


FACTORY_ADAPTER = {
    "CORAL": ("coraladapter", {"reg": .3, "assume_centered": True}),
    "OTMapping": ("otmappingadapter", {"metric": "cityblock", "norm": "max", "max_iter": 777}),
    "EntropicOTMapping": ("entropicotmappingadapter", {"metric": "cityblock", "norm": "max", "max_iter": 77, "reg_e": 3., "tol": 1e-3}),
    "ClassRegularizerOTMapping": ("classregularizerotmappingadapter", {"metric": "cityblock", "norm": "l1l2", "max_iter": 7, "max_inner_iter": 20,
                                                                       "reg_e": 3., "reg_cl": .4, "tol": 1e-3}),
    "LinearOTMapping": ("linearotmappingadapter", {"reg": .3, "bias": False}),
    "MultiLinearMongeAlignment": ("multilinearmongealignmentadapter", {"reg": .3, "bias": False, "test_time": True}),
    "MMDLSConSMapping": ("mmdlsconsmappingadapter", {"gamma": .3, "reg_k": 1e-3, "reg_m": 1e-4, "tol": 1e-2, "max_iter": 9}),
    "SubspaceAlignment": ("subspacealignmentadapter", {"n_components": 2, "random_state": 6}),
    "TransferComponentAnalysis": ("transfercomponentanalysisadapter", {"kernel": "linear", "n_components": 2, "mu": .7}),
    "TransferJointMatching": ("transferjointmatchingadapter", {"n_components": 2, "tradeoff": .3, "max_iter": 3, "kernel": "linear", "tol": .2}),
    "TransferSubspaceLearning": ("transfersubspacelearningadapter", {"n_components": 2, "base_method": "pca", "length_scale": 3, "mu": .2, "reg": .03,
                                                                     "max_iter": 4, "tol": .1}),
    "DensityReweight": ("densityreweightadapter", {"weight_estimator": KernelDensity(bandwidth=.4)}),
    "GaussianReweight": ("gaussianreweightadapter", {"reg": .4}),
    "DiscriminatorReweight": ("discriminatorreweightadapter", {"domain_classifier": GaussianNB()}),
    "KLIEPReweight": ("kliepreweightadapter", {"gamma": .3, "cv": 4, "n_centers": 9, "tol": 1e-3, "max_iter": 17, "random_state": 5}),
    "KMMReweight": ("kmmreweightadapter", {"kernel": "poly", "gamma": .2, "degree": 2, "coef0": .4, "B": 7., "eps": .2, "tol": 1e-3, "max_iter": 40,
                                           "smooth_weights": True, "solver": "scipy"}),
    "NearestNeighborReweight": ("nearestneighborreweightadapter", {"n_neighbors": 3, "weights": "distance", "algorithm": "brute", "leaf_size": 9, "p": 1,
                                                                   "metric": "manhattan", "laplace_smoothing": True}),
    "MMDTarSReweight": ("mmdtarsreweightadapter", {"gamma": .3, "reg": 1e-4, "tol": 1e-2, "max_iter": 12}),
    "OTLabelProp": ("otlabelpropadapter", {"metric": "cityblock", "reg": .7, "n_iter_max": 777}),
    "JCPOTLabelProp": ("jcpotlabelpropadapter", {"metric": "cityblock", "reg": .7, "max_iter": 17, "tol": 1e-3}),
}


@case("C07", quick=80, thorough=800, requires=["factories-compared"])
def factories(rec, rng):
    """Arguments of the ready-made pipelines reach the adapter they configure, and the base estimator is the caller's."""
    n = sorted(FACTORY_ADAPTER)[rec.idx % len(FACTORY_ADAPTER)]
    step, args = FACTORY_ADAPTER[n]
    f = getattr(S, n)
    sig = inspect.signature(f).parameters
    usable = {k: v for k, v in args.items() if k in sig or any(p.kind == p.VAR_KEYWORD for p in sig.values())}
    sub = {k: v for k, v in usable.items() if rng.random() < .6}
    if "random_state" in usable:
        sub["random_state"] = usable["random_state"]
    if "gamma" in usable and "gamma" in args and n in ("KLIEPReweight", "MMDLSConSMapping", "MMDTarSReweight"):
        sub["gamma"] = usable["gamma"]
    base = LogisticRegression(C=.123)
    if "Reweight" in n:
        base = base.set_fit_request(sample_weight=True)
    key = f"factory:{n}"
    with rec.context(factory=n, args=sub):
        with rec.call(key):
            p = f(base, **sub)
            g = p.get_params()
        rec.event("factories-compared")
        for k, v in sub.items():
            got = g.get(f"{step}__{k}", "<missing>")
            rec.expect(got is v or repr(got) == repr(v), f"{key}:{k}", "argument does not reach the adapter", got=got, want=v)
        rec.expect(g.get("logisticregression__C") == .123, key + ":base", "base estimator is not the one given", params=sorted(g))
        # same behaviour as assembling the pipeline by hand
        A = type(dict(p.named_steps)[step].base_estimator)
        d = gen.da(rng, "clf", p=3)
        Xn, sdn = gen.new_rows(rng, d)
        with rec.call(key + ":fit"):
            q = make_da_pipeline(A(**{k: v for k, v in p.named_steps[step].base_estimator.get_params(deep=False).items()}), base)
            a = probe(p.fit(d.X, d.y, sample_domain=d.sd), d, Xn, sdn)
            b = probe(q.fit(d.X, d.y, sample_domain=d.sd), d, Xn, sdn)
        compare(rec, b, a, key + ":by-hand", rtol=1e-6, atol=1e-8)
    rec.seen("factory", n, sorted(sub))


NEEDS_GAMMA = ("KLIEPReweight", "MMDLSConSMapping", "MMDTarSReweight")


@case("C07", quick=60, thorough=600, requires=["factories-compared", "weights-delivered"])
def factory_defaults(rec, rng):
    """A ready-made pipeline built without a base estimator owns a fresh default one, reconfigurable and cloneable like a given one, and a
    re-weighting pipeline trains it on its weights."""
    names = sorted(FACTORY_ADAPTER)
    n = names[rec.idx % len(names)]
    step, args = FACTORY_ADAPTER[n]
    f = getattr(S, n)
    sig = inspect.signature(f).parameters
    usable = {k: v for k, v in args.items() if k in sig}
    sub = {k: v for k, v in usable.items() if rng.random() < .4 or (k == "gamma" and n in NEEDS_GAMMA) or k == "random_state"}
    key = f"factory-defaults:{n}"
    with rec.context(factory=n, args=sub):
        labels = [0, 1] if n == "MMDTarSReweight" else None
        d = gen.da(rng, "clf", p=3, **({"labels": labels} if labels else {}))
        Xn, sdn = gen.new_rows(rng, d)
        with rec.call(key):
            p, p2 = f(**sub), f(**sub)
            last, last2 = list(p.named_steps.values())[-1], list(p2.named_steps.values())[-1]
            base = last.base_estimator
            rec.expect(base is not last2.base_estimator, key + ":shared", "two ready-made pipelines share one default base estimator")
            # a fitted one leaves no trace in the next one
            a = probe(p.fit(d.X, d.y, sample_domain=d.sd), d, Xn, sdn)
            b = probe(p2.fit(d.X, d.y, sample_domain=d.sd), d, Xn, sdn)
            compare(rec, a, b, key + ":two", rtol=1e-6, atol=1e-8)
            c = probe(clone(p).fit(d.X, d.y, sample_domain=d.sd), d, Xn, sdn)
            compare(rec, a, c, key + ":clone", rtol=1e-6, atol=1e-8)
            fresh = f(**sub)
            given = clone(list(fresh.named_steps.values())[-1].base_estimator)
            e = probe(f(given, **sub).fit(d.X, d.y, sample_domain=d.sd), d, Xn, sdn)
            compare(rec, a, e, key + ":given", rtol=1e-6, atol=1e-8)
            A = fresh.named_steps[step].base_estimator
            h = probe(make_da_pipeline(clone(A), clone(given)).fit(d.X, d.y, sample_domain=d.sd), d, Xn, sdn)
            compare(rec, h, a, key + ":by-hand", rtol=1e-6, atol=1e-8)
        rec.event("factories-compared", 5)
        if n.endswith("Reweight"):
            with rec.call(key + ":weights"):
                X2, y2, par = flat_output(clone(A).fit_transform(d.X, d.y, sample_domain=d.sd))
                w = np.asarray(par["sample_weight"], float)
                src = d.sd >= 0
                if not (w[src] > 0).sum() > 2 or len(np.unique(d.y[src][w[src] > 0])) < 2:
                    raise Skip("degenerate weights")
                keep = src & (w != 0)
                ref = clone(given).fit(np.asarray(X2)[keep], d.y[keep], sample_weight=w[keep])
                got = p.predict(d.X, sample_domain=d.sd, allow_source=True)
                df = getattr(ref, "decision_function")(d.X)
                clear = np.abs(df) > 1e-3 if df.ndim == 1 else np.sort(df, 1)[:, -1] - np.sort(df, 1)[:, -2] > 1e-3
            rec.event("weights-delivered")
            rec.equal(np.asarray(got)[clear], ref.predict(d.X)[clear], key + ":weights",
                      "default base estimator was not trained on the source rows with the adapter's weights")
    rec.seen("factory-defaults", n, sorted(sub))


class ExtraRidge(Ridge):
    def fit(self, X, y, sample_weight=None, extra=None):
        super().fit(X, y, sample_weight=sample_weight)
        self.extra_ = extra
        return self


class ExtraLR(LogisticRegression):
    def fit(self, X, y, sample_weight=None, extra=None):
        super().fit(X, y, sample_weight=sample_weight)
        self.extra_ = extra
        return self


@case("C07", quick=8, thorough=60, requires=["histories-compared"])
def jdot_fit_arguments(rec, rng):
    """The fit arguments given to the JDOT constructors are part of the configuration."""
    task = ("clf", "reg")[rec.idx % 2]
    d = gen.da(rng, task, p=3)
    o = S.JDOTRegressor(ExtraRidge(), n_iter_max=2, extra=7) if task == "reg" else S.JDOTClassifier(ExtraLR(), n_iter_max=2, extra=7)
    key = f"jdot-fit-arguments:{task}"
    with rec.call(key):
        for how, x in (("built", o), ("clone", clone(o)), ("clone-fitted", clone(clone(o).fit(d.X, d.y, sample_domain=d.sd))),
                       ("pipeline", clone(make_da_pipeline(StandardScaler(), o)))):
            x.fit(d.X, d.y, sample_domain=d.sd)
            j = x[-1].get_estimator() if how == "pipeline" else x
            rec.event("histories-compared")
            rec.expect(getattr(j.estimator_, "extra_", None) == 7, f"{key}:{how}", "fit argument given at construction was lost")
    rec.seen("jdot-kw", task, d.X)
