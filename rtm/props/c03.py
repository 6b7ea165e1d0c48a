"""C03: jointly permuting the rows of the inputs permutes the outputs and changes nothing else."""
import numpy as np
from sklearn.decomposition import PCA
from sklearn.linear_model import LogisticRegression, Ridge
from sklearn.naive_bayes import GaussianNB
from sklearn.preprocessing import StandardScaler

from skada import PerDomain, SelectSource, SelectSourceTarget, SelectTarget, Shared, make_da_pipeline
import skada

from .. import gen, spies, zoo
from ..core import case
from ..probe import collapsed, flat_output, methods


def perm_of(rng, d):
    """A random, sorting, reversing or interleaving permutation of the rows."""
    kind = ["shuffled", "shuffled", "sorted", "target_first", "alternate", "reversed"][int(rng.integers(6))]
    if kind == "reversed":
        return np.arange(len(d.X))[::-1], kind
    r = rng.permutation(len(d.X))
    return r[gen.layout(rng, d.sd[r], kind)], kind


def same(rec, a, b, key, msg, tol, sign=False, **wit):
    """b is a up to the numerical tolerance of the method (and the sign of each column)."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    rec.event("row-comparisons", len(a))
    if a.shape != b.shape:
        return rec.expect(False, key, msg + " [shape]", a=a, b=b, **wit)
    if sign and a.ndim == 2:
        s = np.sign((a * b).sum(0))
        b = b * np.where(s == 0, 1, s)
    scale = max(np.abs(a[np.isfinite(a)]).max() if np.isfinite(a).any() else 0, 1e-12)
    d = np.abs(a - b)
    d[(a == b) | (np.isnan(a) & np.isnan(b))] = 0
    err = float(np.max(d)) / scale if d.size else 0.0
    return rec.expect(err <= tol, key, f"{msg}: relative error {err:.3g} > {tol:g}", a=a, b=b, **wit)


def build_stable(e):
    """The method with few optimiser steps: long runs of quasi-Newton iterations amplify rounding."""
    a = e.make()
    if e.name.startswith(("MMDLS", "TransferSubspace")):
        a.set_params(max_iter=2)
    return a


def tasks(e):
    """Exact optimal transport of labels: classes of equal mass are tied, only regression is comparable."""
    return ("reg",) if e.name == "OTLabelProp" else e.tasks


def note(rec, tag, d, perm):
    sw = int((np.diff((d.sd >= 0).astype(int)) != 0).sum())
    rec.event("interleavings", sw > 1)
    rec.seen(tag, d.X, perm)
    rec.sample(tag=tag, sample_domain=d.sd, perm=perm)


@case("C03", quick=216, thorough=2600, requires=["row-comparisons"])
def adapters(rec, rng):
    """Fitting on permuted rows gives the permuted result."""
    es = [e for e in zoo.adapters() if e.perm]
    e = es[rec.idx % len(es)]
    d = gen.da(rng, zoo.pick(rng, tasks(e)))
    X, y, sd = d.X, d.y, d.sd
    p, kind = perm_of(rng, d)
    Xn, sdn = gen.new_rows(rng, d)
    a, b = build_stable(e), build_stable(e)
    k = f"adapter:{e.name}"
    tol = max(e.tol, 1e-6)
    with rec.context(permutation=kind, layout=d.kind, sample_domain=sd, name=e.name):
        with rec.call(k):
            Xa, ya, pa = flat_output(a.fit_transform(X, y, sample_domain=sd))
            Xb, yb, pb = flat_output(b.fit_transform(X[p], y[p], sample_domain=sd[p]))
        same(rec, Xa[p], Xb, k + ":X", "fit_transform on permuted rows", tol, e.sign)
        rec.expect(set(pa) == set(pb), k + ":keys")
        for q in pa:
            if pa[q] is not None:
                same(rec, pa[q][p], pb[q], k + f":{q}", q, tol)
        if ya is not None:
            same(rec, ya[p], yb, k + ":y", "labels", 1e-9)
        if e.kind != "labelprop":
            with rec.call(k):
                Ta = a.transform(Xn, sample_domain=sdn, allow_source=True)
                Tb = b.transform(Xn, sample_domain=sdn, allow_source=True)
                Tc = b.transform(X, sample_domain=sd, allow_source=True)
            same(rec, Ta, Tb, k + ":transform", "new rows after fitting on permuted rows", tol, e.sign)
            same(rec, Xa if e.produces == "X" else X, Tc, k + ":transform-train", "training rows after fitting on permuted rows", tol,
                 e.sign)
    note(rec, "adapter:" + e.name, d, p)


@case("C03", quick=160, thorough=1600, requires=["row-comparisons"])
def outputs_of_fitted(rec, rng):
    """One fitted object asked about permuted rows answers with the permuted rows (every adapter and estimator)."""
    es = [e for e in zoo.adapters() if e.kind != "labelprop"] + zoo.da_estimators()
    e = es[rec.idx % len(es)]
    kw = {"labels": [0, 1]} if e.binary else {}
    d = gen.da(rng, zoo.pick(rng, e.tasks), **kw)
    p, kind = perm_of(rng, d)
    k = f"fitted:{e.name}"
    a = e.make()
    may = e.name in ("DASVM", "Gradual")
    with rec.context(permutation=kind, layout=d.kind, sample_domain=d.sd, name=e.name):
        with rec.call(k):
            try:
                if e.kind == "est":
                    a.fit(d.X, d.mask() if e.reads_target_y else d.y, sample_domain=d.sd)
                else:
                    a.fit(d.X, d.y, sample_domain=d.sd)
            except Exception as ex:
                if may and collapsed(ex):
                    rec.event("collapsed")
                    return
                raise
        Xn, sdn = gen.new_rows(rng, d, 23)
        q = rng.permutation(23)
        for m in methods(a):
            f = getattr(a, m)
            call = (lambda X, s: f(X, sample_domain=s, allow_source=True)) if e.domain_args else (lambda X, s: f(X))
            for X, s, pp, w in ((d.X, d.sd, p, "train"), (Xn, sdn, q, "new")):
                with rec.call(f"{k}.{m}"):
                    u, v = call(X, s), call(X[pp], s[pp])
                rec.expect(len(u) == len(X), f"{k}.{m}:rows", "wrong number of rows")
                same(rec, np.asarray(u)[pp], v, f"{k}.{m}", f"{m} on permuted {w} rows", 1e-8)
        if e.produces == "sample_weight":
            with rec.call(f"{k}.compute_weights"):
                u = a.compute_weights(d.X, d.y, sample_domain=d.sd)
                v = a.compute_weights(d.X[p], d.y[p], sample_domain=d.sd[p])
            if "MMDTarS" not in e.name and "KMM" not in e.name:
                same(rec, u[p], v, f"{k}.compute_weights", "weights of permuted rows", 1e-6)
    note(rec, "fitted:" + e.name, d, p)


def exact_final(task, weighted):
    # weighted naive Bayes is undefined when a whole class weighs nothing
    b = Ridge() if task == "reg" else LogisticRegression(tol=1e-9, max_iter=5000) if weighted else GaussianNB()
    return b.set_fit_request(sample_weight=True) if weighted else b


@case("C03", quick=216, thorough=2600, requires=["row-comparisons"])
def pipelines(rec, rng):
    es = [e for e in zoo.adapters() if e.perm]
    e = es[rec.idx % len(es)]
    d = gen.da(rng, zoo.pick(rng, tasks(e)), p=int(rng.integers(2, 5)))
    X, y, sd = d.X, d.y, d.sd
    p, kind = perm_of(rng, d)
    Xn, sdn = gen.new_rows(rng, d)
    pre = [[], [lambda: StandardScaler()], [lambda: PerDomain(StandardScaler())], [lambda: SelectSourceTarget(StandardScaler())]]
    pre = pre[int(rng.integers(len(pre)))] if e.name != "JCPOTLabelProp" else []
    k = f"pipeline:{e.name}"
    build = lambda: make_da_pipeline(*[f() for f in pre], build_stable(e), exact_final(d.task, e.produces == "sample_weight"))
    a, b = build(), build()
    tol = 1e-5 if e.tol <= 1e-5 else 0.1
    with rec.context(permutation=kind, layout=d.kind, sample_domain=sd, steps=[n for n, _ in a.steps]):
        with rec.call(k):
            a.fit(X, y, sample_domain=sd)
            b.fit(X[p], y[p], sample_domain=sd[p])
        for m in methods(a, ("predict_proba",) if d.task == "clf" else ("predict",)):
            with rec.call(f"{k}.{m}"):
                A = getattr(a, m)(X, sample_domain=sd, allow_source=True)
                B = getattr(b, m)(X[p], sample_domain=sd[p], allow_source=True)
                C = getattr(b, m)(X, sample_domain=sd, allow_source=True)
                An = getattr(a, m)(Xn, sample_domain=sdn, allow_source=True)
                Bn = getattr(b, m)(Xn, sample_domain=sdn, allow_source=True)
            same(rec, C[p], B, f"{k}.{m}:rows", "one pipeline, permuted rows", 1e-8)
            same(rec, A[p], B, f"{k}.{m}", "permuted fit and rows", tol)
            same(rec, An, Bn, f"{k}.{m}:new", "permuted fit, new rows", tol)
    note(rec, "pipeline:" + e.name, d, p)


@case("C03", quick=120, thorough=1200, requires=["row-comparisons"])
def selectors(rec, rng):
    d = gen.da(rng, zoo.pick(rng, ("clf", "reg")))
    i = rec.idx % 10
    tr = [lambda: spies.SpyTransformer(), lambda: spies.SpyTransformerNoFT(), lambda: StandardScaler(), lambda: PCA(2)][int(rng.integers(4))]
    cl = lambda: exact_final(d.task, False)
    make, sources = {
        0: (lambda: Shared(tr()), True), 1: (lambda: PerDomain(tr()), True), 2: (lambda: SelectSource(tr()), True),
        3: (lambda: SelectTarget(tr()), True), 4: (lambda: SelectSourceTarget(tr()), True), 5: (lambda: Shared(cl()), True),
        6: (lambda: SelectSource(cl()), True), 7: (lambda: SelectSourceTarget(cl()), True),
        8: (lambda: PerDomain(cl(), mask_target_labels=False), True), 9: (lambda: SelectTarget(cl()), True),
    }[i]
    p, kind = perm_of(rng, d)
    X, y, sd = d.X, d.y, d.sd
    a, b = make(), make()
    k = f"selector:{type(a).__name__}:{'transformer' if i < 5 else 'estimator'}"
    Xn, sdn = gen.new_rows(rng, d)
    with rec.context(permutation=kind, layout=d.kind, sample_domain=sd, selector=repr(a)):
        with rec.call(k):
            a.fit(X, y, sample_domain=sd)
            b.fit(X[p], y[p], sample_domain=sd[p])
        for m in methods(a):
            kw = {}
            with rec.call(f"{k}.{m}"):
                A = getattr(a, m)(X, sample_domain=sd, **kw)
                B = getattr(b, m)(X[p], sample_domain=sd[p], **kw)
                An, Bn = getattr(a, m)(Xn, sample_domain=sdn), getattr(b, m)(Xn, sample_domain=sdn)
            sign = type(getattr(a, "base_estimator", None) or a.source_estimator).__name__ == "PCA"
            if sign:  # each sub-estimator has its own signs: compare magnitudes
                A, B, An, Bn = map(np.abs, (A, B, An, Bn))
            same(rec, A[p], B, f"{k}.{m}", "permuted fit and rows", 1e-7)
            same(rec, An, Bn, f"{k}.{m}:new", "permuted fit, new rows", 1e-7)
    spies.take()
    note(rec, k, d, p)


@case("C03", quick=40, thorough=400, requires=["row-comparisons"])
def jdot(rec, rng):
    d = gen.da(rng, "reg", n_per=(8, 12))
    p, kind = perm_of(rng, d)
    Xn, sdn = gen.new_rows(rng, d)
    mk = lambda: skada.JDOTRegressor(Ridge(alpha=.1), alpha=.7, n_iter_max=3)
    a, b = mk(), mk()
    with rec.call("jdot"):
        a.fit(d.X, d.y, sample_domain=d.sd)
        b.fit(d.X[p], d.y[p], sample_domain=d.sd[p])
        A, B = a.predict(Xn, sample_domain=sdn, allow_source=True), b.predict(Xn, sample_domain=sdn, allow_source=True)
    same(rec, A, B, "jdot", "JDOTRegressor fitted on permuted rows", 1e-6, permutation=kind)
    note(rec, "jdot", d, p)
