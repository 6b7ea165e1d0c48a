"""C05: provenance of the values produced by a step, tracked row by row to every later step."""
import numpy as np
from sklearn.base import clone
from sklearn.linear_model import LogisticRegression, Ridge
from sklearn.naive_bayes import GaussianNB
from sklearn.preprocessing import StandardScaler
from sklearn.svm import SVC

import skada
from skada import PerDomain, SelectSource, SelectSourceTarget, SelectTarget, Shared, make_da_pipeline
from skada.base import IncompatibleMetadataError

from .. import gen, spies, zoo
from ..core import case
from ..probe import flat_output


def world(rng, task=None):
    d = gen.da(rng, task or zoo.pick(rng, ("clf", "reg")), p=3)
    d.X[:, 0] = np.arange(len(d.X))
    return d


def final(d, request=True, key=True):
    e = spies.SpyClassifier() if d.task == "clf" else spies.SpyRegressor()
    return e.set_fit_request(sample_weight=key if request else False)


def note(rec, tag, d, **kw):
    rec.seen(tag, d.X, d.sd, sorted(kw.items()))
    rec.sample(tag=tag, sample_domain=d.sd, **kw)


MIDDLE = {
    "nothing": lambda: [],
    "scaler": lambda: [Shared(spies.SpyTransformer("m"))],
    "per-domain": lambda: [PerDomain(spies.SpyTransformer("m"))],
    "role": lambda: [SelectSourceTarget(spies.SpyTransformer("m"))],
    "no-fit-transform": lambda: [spies.SpyTransformerNoFT("m")],
    "mover": lambda: [spies.SpyDomainAdapter("m", weights=False, move=True)],
    "two": lambda: [spies.SpyTransformer("m"), PerDomain(spies.SpyTransformerNoFT("m2"))],
    "subsampler": lambda: [skada.Subsampler(.7, random_state=0).set_transform_request(sample_weight=True)],
    "domain-subsampler": lambda: [skada.DomainSubsampler(.7, random_state=0).set_transform_request(sample_weight=True)],
    "source": lambda: [SelectSource(spies.SpyTransformer("m"))],
    "source-noft": lambda: [SelectSource(spies.SpyTransformerNoFT("m"))],
    "fewer-features-adapter": lambda: [spies.SpyDomainAdapter("m", weights=False, drop=True)],
    "fewer-features": lambda: [spies.SpyReshaper()],
    "more-features": lambda: [PerDomain(spies.SpyReshaper(grow=True))],
    "nested": lambda: [make_da_pipeline(spies.SpyTransformerNoFT("m"), PerDomain(spies.SpyTransformer("m2")))],
}


@case("C05", quick=480, thorough=6000, requires=["weights-tracked"])
def weights_follow(rec, rng):
    d = world(rng)
    mids = sorted(MIDDLE)
    mid = mids[rec.idx % len(mids)]
    before = [[], [lambda: spies.SpyTransformer("b")], [lambda: PerDomain(spies.SpyTransformer("b"))],
              [lambda: skada.Subsampler(.8, random_state=1)]][int(rng.integers(4))]
    producer = [lambda: spies.SpyDomainAdapter("p"), lambda: PerDomain(spies.SpyDomainAdapter("p")),
                lambda: SelectSourceTarget(spies.SpyDomainAdapter("p"))][int(rng.integers(3))]
    alias = rng.random() < .2 and "subsampler" not in mid
    if alias:
        producer = lambda: spies.SpyDomainAdapter("p", key="wt")
    wi = int(rng.integers(3))
    wrap = [lambda e: e, lambda e: Shared(e), lambda e: SelectSource(e)][wi]
    two = rng.random() < .2 and not alias
    mask = wi > 0 or rng.random() < .7
    key = f"weights:{mid}"
    spies.take()
    with rec.context(middle=mid, before=len(before), alias=alias, sample_domain=d.sd, layout=d.kind, mask=mask):
        with rec.call(key):
            p = make_da_pipeline(*[f() for f in before], producer(), *([spies.SpyDomainAdapter("p2")] if two else []),
                                 *MIDDLE[mid](), wrap(final(d, key="wt" if alias else True)), mask_target_labels=mask)
            p.fit(d.X, d.y, sample_domain=d.sd)
        ev = [e for e in spies.take() if e.call == "fit" and e.tag in ("clf", "reg")]
        rec.must(len(ev) == 1, key + ":fits")
        ids = spies.ident(ev[0].X)
        rec.must(ev[0].get("sample_weight") is not None, key + ":lost", "the produced weights did not reach the step that asked for them")
        rec.event("weights-tracked", len(ids))
        rec.close(ev[0].sample_weight, spies.wfun(ids), key, "weights attached to other samples than those they were computed for",
                  ids=ids)
        src_only = mask or mid.startswith("source")
        if src_only:
            rec.expect(d.src[ids].all(), key + ":targets", "masked rows were kept")
        if "subsampler" not in mid and not (before and isinstance(before[0](), skada.Subsampler)):
            want = np.flatnonzero(d.src) if src_only else np.arange(len(d.X))
            rec.expect(sorted(ids.tolist()) == want.tolist(), key + ":rows", "rows lost or repeated", got=sorted(ids.tolist()))
        rec.close(np.asarray(ev[0].y, float), np.asarray(d.y, float)[ids], key + ":labels", "labels attached to other samples")
    note(rec, key, d, before=len(before), alias=alias, two=two)


@case("C05", quick=160, thorough=2000, requires=["labels-tracked"])
def labels_follow(rec, rng):
    """A producing step that relabels: later steps see its labels, for the right rows."""
    d = world(rng, "clf")
    mids = [m for m in sorted(MIDDLE) if not m.startswith("source")]
    mid = mids[rec.idx % len(mids)]
    ad = spies.SpyDomainAdapter("p", labels=True)
    ad.predicts_target_labels = True
    per = rng.random() < .3
    key = f"labels:{mid}"
    last = spies.SpyDomainClassifier() if rng.random() < .4 else final(d)
    sw = not isinstance(last, spies.SpyDomainClassifier)
    spies.take()
    with rec.context(middle=mid, sample_domain=d.sd, layout=d.kind):
        with rec.call(key):
            sel = PerDomain(ad, mask_target_labels=False) if per else Shared(ad, mask_target_labels=False)
            p = make_da_pipeline(sel, *MIDDLE[mid](), last if sw else last.set_fit_request(sample_weight=True),
                                 mask_target_labels=False)
            p.fit(d.X, d.y, sample_domain=d.sd)
        log = spies.take()
        for e in log:
            if e.call in ("fit", "fit_transform") and e.tag != "p" and e.get("y") is not None:
                ids = spies.ident(e.X)
                rec.event("labels-tracked", len(ids))
                rec.equal(np.asarray(e.y), spies.lfun(ids), key, f"step {e.tag} got labels of other rows", ids=ids)
                if e.get("sample_weight") is not None:
                    rec.close(e.sample_weight, spies.wfun(ids), key + ":weights", "weights and labels disagree about the rows")
        rec.must(any(e.call == "fit" and e.tag == "clf" for e in log), key + ":silent")
    note(rec, key, d, per=per)


def rows_of(d, X):
    """Row numbers recognised by their content."""
    lut = {r.tobytes(): i for i, r in enumerate(np.ascontiguousarray(d.X, float))}
    return np.array([lut.get(r.tobytes(), -1) for r in np.ascontiguousarray(X, float)])


@case("C05", quick=140, thorough=1600, requires=["weights-tracked"])
def real_reweighters(rec, rng):
    es = zoo.reweighters()
    e = es[rec.idx % len(es)]
    d = gen.da(rng, zoo.pick(rng, e.tasks))
    key = f"reweighter:{e.name}"
    yin = d.mask()
    with rec.context(name=e.name, sample_domain=d.sd, layout=d.kind):
        with rec.call(key):
            _, _, par = flat_output(e.make().fit_transform(d.X, yin, sample_domain=d.sd))
        w = par["sample_weight"]
        for scaled in (False, True):
            spies.take()
            last = (spies.SpyClassifier() if d.task == "clf" else spies.SpyRegressor()).set_fit_request(sample_weight=True)
            with rec.call(key + ":pipeline"):
                p = make_da_pipeline(e.make(), *([spies.SpyTransformer("m", alpha=0.0)] if scaled else []), last)
                p.fit(d.X, d.y, sample_domain=d.sd)
            ev = [x for x in spies.take() if x.call == "fit" and x.tag in ("clf", "reg")]
            rec.must(len(ev) == 1, key + ":fits")
            ids = rows_of(d, ev[0].X)
            rec.must((ids >= 0).all(), key + ":moved", "a reweighting step altered the samples")
            rec.expect(sorted(ids.tolist()) == np.flatnonzero(d.src).tolist(), key + ":rows", "not exactly the source rows")
            rec.must(ev[0].get("sample_weight") is not None, key + ":lost", "weights did not arrive")
            rec.event("weights-tracked", len(ids))
            rec.close(ev[0].sample_weight, w[ids], key, "the final step got other weights than the adapter gave these rows", rtol=1e-9)
            rec.close(np.asarray(ev[0].y, float), np.asarray(d.y, float)[ids], key + ":labels")
    note(rec, key, d)


@case("C05", quick=90, thorough=1000, requires=["rows-tracked"])
def real_movers(rec, rng):
    """Mapped / projected samples reach the final step in place of their originals, with their label."""
    es = zoo.mappers() + zoo.subspaces()
    e = es[rec.idx % len(es)]
    d = gen.da(rng, zoo.pick(rng, e.tasks))
    key = f"mover:{e.name}"
    with rec.context(name=e.name, sample_domain=d.sd, layout=d.kind):
        with rec.call(key):
            Z, _, _ = flat_output(e.make().fit_transform(d.X, d.mask(), sample_domain=d.sd))
        aware = d.task == "clf" and rng.random() < .5
        last = spies.SpyDomainClassifier() if aware else (spies.SpyClassifier() if d.task == "clf" else spies.SpyRegressor())
        spies.take()
        with rec.call(key + ":pipeline"):
            make_da_pipeline(e.make(), last).fit(d.X, d.y, sample_domain=d.sd)
        ev = [x for x in spies.take() if x.call == "fit"]
        rec.must(len(ev) == 1, key + ":fits")
        want = np.arange(len(d.X)) if aware else np.flatnonzero(d.src)
        rec.must(len(ev[0].X) == len(want), key + ":count", f"{len(ev[0].X)} rows instead of {len(want)}")
        yy = np.asarray(d.mask(), float)
        rec.event("rows-tracked", len(want))
        a = np.c_[Z[want], yy[want]]
        b = np.c_[ev[0].X, np.asarray(ev[0].y, float)]
        if not aware:  # the order of the rows is free, their pairing with labels is not
            a, b = a[np.lexsort(np.round(a, 6).T)], b[np.lexsort(np.round(b, 6).T)]
        rec.close(b, a, key, "final step got other (sample, label) pairs than the adapter produced", rtol=1e-7, atol=1e-8)
        if aware:
            rec.equal(ev[0].sample_domain, d.sd, key + ":domains")
    note(rec, key, d)


@case("C05", quick=60, thorough=600, requires=["labels-tracked"])
def real_relabelers(rec, rng):
    es = zoo.labelprops()
    e = es[rec.idx % len(es)]
    d = gen.da(rng, zoo.pick(rng, e.tasks))
    key = f"relabel:{e.name}"
    with rec.context(name=e.name, sample_domain=d.sd, layout=d.kind):
        yin = d.mask()
        w = rng.random(len(d.X)) + .1
        kw = {"sample_weight": w} if e.name.startswith("OTLabelProp") and rng.random() < .6 else {}
        with rec.call(key):
            Z, yo, par = flat_output(e.make().fit_transform(d.X, yin, sample_domain=d.sd, **kw))
        rec.must(yo is not None, key + ":labels-missing")
        spies.take()
        last = spies.SpyClassifier() if d.task == "clf" else spies.SpyRegressor()
        if "sample_weight" in par:
            last = last.set_fit_request(sample_weight=True)
        with rec.call(key + ":pipeline"):
            make_da_pipeline(e.make(), last).fit(d.X, yin, sample_domain=d.sd, **kw)
        ev = [x for x in spies.take() if x.call == "fit"]
        rec.must(len(ev) == 1, key + ":fits")
        ids = rows_of(d, ev[0].X)
        rec.must((ids >= 0).all(), key + ":moved", "samples altered")
        if kw:
            rec.must("sample_weight" in par and ev[0].get("sample_weight") is not None, key + ":weights", "the given weights do not pass the step")
            rec.close(ev[0].sample_weight, w[ids], key + ":weights", "the given weights arrive at other samples", rtol=1e-12)
            rec.event("given-weights")
        rec.event("labels-tracked", len(ids))
        rec.close(np.asarray(ev[0].y, float), np.asarray(yo, float)[ids], key, "labels of other rows than the adapter produced")
        ok = (yo != -1) if d.task == "clf" else np.isfinite(yo)
        rec.expect(sorted(ids.tolist()) == np.flatnonzero(ok).tolist(), key + ":rows", "rows lost or invented")
    note(rec, key, d)


@case("C05", quick=60, thorough=600, requires=["rejections"])
def undeclared(rec, rng):
    """A produced value that the next estimator could use but has not declared is refused, not dropped."""
    d = world(rng, "clf" if rec.idx % 2 else "reg")
    prod = [lambda: spies.SpyDomainAdapter(), lambda: PerDomain(spies.SpyDomainAdapter()), lambda: skada.GaussianReweightAdapter(reg=.1),
            lambda: skada.NearestNeighborReweightAdapter(), lambda: skada.DensityReweightAdapter(),
            lambda: skada.KMMReweightAdapter(gamma=.3)][int(rng.integers(6))]
    mids = [[], [StandardScaler()], [spies.SpyTransformer()]][int(rng.integers(3))]
    ests = [spies.SpyClassifier(), LogisticRegression(), GaussianNB(), SVC()] if d.task == "clf" else [spies.SpyRegressor(), Ridge()]
    e = ests[int(rng.integers(len(ests)))]
    wrap = [lambda x: x, Shared, SelectSource, PerDomain, SelectSourceTarget][int(rng.integers(5))]
    k = f"undeclared:{getattr(wrap, '__name__', 'bare')}"
    spies.take()
    rec.rejects(k, lambda: make_da_pipeline(prod(), *[clone(m) for m in mids], wrap(clone(e))).fit(d.X, d.y, sample_domain=d.sd),
                IncompatibleMetadataError, "weights produced but never declared",
                estimator=repr(e))
    log = [x for x in spies.take() if x.call == "fit" and x.tag in ("clf", "reg")]
    rec.expect(not log, k + ":fitted", "the estimator was fitted before the refusal")
    # declared as unwanted: accepted, not passed
    if isinstance(e, (spies.SpyClassifier, spies.SpyRegressor)):
        with rec.call(k + ":declined"):
            make_da_pipeline(prod(), clone(e).set_fit_request(sample_weight=False)).fit(d.X, d.y, sample_domain=d.sd)
        ev = [x for x in spies.take() if x.call == "fit" and x.tag in ("clf", "reg")]
        rec.expect(len(ev) == 1 and ev[0].get("sample_weight") is None, k + ":declined", "weights passed to a step that declined them")
        if wrap is SelectSourceTarget:   # only one of the two roles declares
            A, B = clone(e).set_fit_request(sample_weight=True), clone(e).set_fit_request(sample_weight=False)
            if rng.random() < .5:
                A, B = B, A
            with rec.call(k + ":one-role"):
                p = make_da_pipeline(prod(), SelectSourceTarget(A, B)).fit(d.X, d.y, sample_domain=d.sd)
            ev = {x.obj: x for x in spies.take() if x.call == "fit" and x.tag in ("clf", "reg")}
            for g, want in (("source", A), ("target", B)):
                o = p[-1].get_estimator(g)
                rec.must(o in ev, k + ":one-role", "the role's estimator was not fitted")
                rec.expect((ev[o].get("sample_weight") is not None) == (want.get_metadata_routing().fit.requests["sample_weight"] is True),
                           k + ":one-role", "a role got weights it declined, or lost weights it requested", role=g)
            for C, D in ((clone(e).set_fit_request(sample_weight=True), clone(e)), (clone(e), clone(e).set_fit_request(sample_weight=False))):
                rec.rejects(k + ":one-role", lambda: make_da_pipeline(prod(), SelectSourceTarget(C, D)).fit(d.X, d.y, sample_domain=d.sd),
                            IncompatibleMetadataError, "one role's estimator has not declared the weights")
            spies.take()
    # a final transformer counts as well, and clones behave alike
    if wrap in (Shared, SelectSource, PerDomain) or not hasattr(wrap, "__mro__"):
        fin = make_da_pipeline(prod(), *[clone(m) for m in mids], wrap(StandardScaler()))
        for how, q in (("", fin), (":clone", clone(fin)), (":clone2", clone(clone(fin)))):
            rec.rejects(k + ":final-transformer" + how, lambda: q.fit(d.X, d.y, sample_domain=d.sd), IncompatibleMetadataError,
                        "weights produced, a final transformer that could use them has not declared them")
        last = make_da_pipeline(prod(), wrap(clone(e)))
        rec.rejects(k + ":clone", lambda: clone(last).fit(d.X, d.y, sample_domain=d.sd), IncompatibleMetadataError, "clone of the pipeline")
        spies.take()
        # the same scaler before the end just passes the weights on
        with rec.call(k + ":middle"):
            tail = (spies.SpyClassifier() if d.task == "clf" else spies.SpyRegressor()).set_fit_request(sample_weight=True)
            clone(make_da_pipeline(prod(), StandardScaler(), tail)).fit(d.X, d.y, sample_domain=d.sd)
        ev = [x for x in spies.take() if x.call == "fit" and x.tag in ("clf", "reg")]
        rec.expect(len(ev) == 1 and ev[0].get("sample_weight") is not None, k + ":middle", "weights did not pass the scaler")
    note(rec, k, d, est=type(e).__name__)


@case("C05", quick=320, thorough=4000, requires=["weights-tracked", "steps-without-request"])
def given_weights(rec, rng):
    """Weights given to the fit of a pipeline reach every step that asked for them, and no other, attached to their own samples."""
    d = world(rng)
    w = rng.random(len(d.X)) + .1
    steps, expect = [], []
    for i in range(int(rng.integers(1, 4))):
        cls = spies.SpyWeighted if rng.random() < .7 else spies.SpyWeightedNoFT
        ask = zoo.pick(rng, [True, True, False, None])
        e = cls(f"w{i}")
        if ask is not None:
            e.set_fit_request(sample_weight=ask)
        # steps that drop the rows of a role do not cut the caller's weights for the steps behind them (DESIGN section 6)
        sel = zoo.pick(rng, ["plain", "shared", "per-domain", "source-target"])
        steps.append({"plain": lambda e: e, "shared": Shared, "per-domain": PerDomain, "source-target": SelectSourceTarget}[sel](e))
        expect.append((f"w{i}", bool(ask), sel))
    other = zoo.pick(rng, [None, None, "scaler", "adapter", "mover"])
    if other:
        steps.insert(int(rng.integers(len(steps) + 1)), {"scaler": lambda: spies.SpyTransformer("o"), "adapter": lambda: skada.CORALAdapter(),
                                                         "mover": lambda: spies.SpyDomainAdapter("o", weights=False)}[other]())
        if other == "adapter":
            steps.append(steps.pop(next(i for i, s in enumerate(steps) if isinstance(s, skada.CORALAdapter))))
    asked = bool(rng.random() < .7)
    mask = bool(rng.random() < .7)
    key = "given-weights"
    last = final(d, asked)
    spies.take()
    with rec.context(steps=expect, final=asked, other=other, mask=mask, sample_domain=d.sd, layout=d.kind):
        if not asked and not any(a for _, a, _ in expect):
            return rec.event("steps-without-request")
        with rec.call(key):
            make_da_pipeline(*steps, last, mask_target_labels=mask).fit(d.X, d.y, sample_domain=d.sd, sample_weight=w)
        ev = [e for e in spies.take() if e.call == "fit"]
        for tag, ask, sel in expect + [("clf" if d.task == "clf" else "reg", asked, "final")]:
            mine = [e for e in ev if e.tag == tag]
            rec.must(mine, f"{key}:{sel}:fits", "the step was not fitted")
            for e in mine:
                if not ask:
                    rec.expect(e.get("sample_weight") is None, f"{key}:{sel}:unasked", "weights were given to a step that did not ask for them")
                    rec.event("steps-without-request")
                    continue
                rec.must(e.get("sample_weight") is not None, f"{key}:{sel}:lost", "the weights did not reach a step that asked for them")
                if other == "adapter" and sel == "final":
                    rows = np.flatnonzero(d.src) if mask else np.arange(len(d.X))
                    rec.expect(sorted(np.asarray(e.sample_weight).tolist()) == sorted(w[rows].tolist()), f"{key}:{sel}", "other weights arrive")
                else:
                    rec.close(e.sample_weight, w[spies.ident(e.X)], f"{key}:{sel}", "the weights arrive at other samples", rtol=1e-12)
                rec.event("weights-tracked", len(e.X))
    note(rec, key, d, steps=[s for _, _, s in expect])
