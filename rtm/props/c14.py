"""C14: rows leaving a subsampling step, followed by their identity."""
import numpy as np
from math import floor


from skada import make_da_pipeline
from skada.transformers import DomainSubsampler, StratifiedDomainSubsampler, Subsampler

from .. import gen, spies, zoo
from ..core import case
from ..watch import unchanged

KINDS = {"plain": Subsampler, "domain": DomainSubsampler, "stratified": StratifiedDomainSubsampler}


def sample(rng, kind, big=False):
    d = gen.da(rng, "clf" if kind == "stratified" or rng.random() < .7 else "reg", n_per=(15, 40) if big else (9, 20), p=3)
    d.X[:, 0] = np.arange(len(d.X)) + 1000
    y = d.y
    if rng.random() < .5 and not (kind == "stratified" and d.task == "reg"):
        y = d.mask()
    w = rng.random(len(y)) + .01 if rng.random() < .6 else None
    return d, y, w


def rows(rec, key, out, d, y, w, sd_given, has_y=True):
    """Each row that comes out is a row that went in, with its own label, domain and weight; returns indices."""
    rec.must(isinstance(out, tuple) and len(out) == 3, key + ":shape", "not (X, y, params)", got=type(out).__name__)
    X2, y2, p = out
    idx = spies.ident(X2) - 1000
    rec.must(((idx >= 0) & (idx < len(d.X))).all(), key + ":rows", "rows that were not there before", got=idx)
    rec.expect(len(set(idx.tolist())) == len(idx), key + ":duplicates", "a row was drawn twice", got=idx)
    rec.equal(X2, d.X[idx], key + ":samples", "samples altered")
    if has_y:
        rec.equal(np.asarray(y2, float), np.asarray(y, float)[idx], key + ":labels", "labels do not follow the rows")
    else:
        rec.expect(y2 is None, key + ":labels", "labels out of nothing")
    if sd_given:
        rec.must("sample_domain" in p, key + ":domain", "domain labels are not passed on", got=list(p))
    if "sample_domain" in p and sd_given:
        rec.equal(p["sample_domain"], d.sd[idx], key + ":domain", "domain labels do not follow the rows")
    if w is not None:
        rec.must("sample_weight" in p, key + ":weights", "weights are not passed on", got=list(p))
        rec.equal(p["sample_weight"], w[idx], key + ":weights", "weights do not follow the rows")
    else:
        rec.expect(p.get("sample_weight") is None, key + ":weights", "weights out of nothing")
    rec.event("rows-followed", len(idx))
    return idx


def proportions(rec, key, g, idx, k):
    n = len(g)
    _, gi = np.unique(g, axis=0, return_inverse=True)
    gi = gi.ravel()
    cnt = np.bincount(gi)
    got = np.bincount(gi[idx], minlength=len(cnt))
    want = k * cnt / n
    rec.expect((np.abs(got - want) < 1 + 1e-9).all(), key, "a group is over- or under-represented", got=got, want=want)
    rec.event("groups-counted", len(cnt))


@case("C14", quick=1500, thorough=20000, requires=["rows-followed", "groups-counted", "kept-all", "transforms"])
def step(rec, rng):
    """One subsampling step: subset, size, proportions, companions; identity outside fitting."""
    kind = zoo.pick(rng, list(KINDS))
    d, y, w = sample(rng, kind, big=kind != "plain")
    n = len(y)
    size = zoo.pick(rng, [.5, .3, float(np.round(rng.uniform(.3, .7), 2)), n // 2, n // 3 + 1, n, n + 5, 3 * n, 1.0])
    if kind == "plain":
        size = zoo.pick(rng, [size, size, 1, 5, .1, n - 1])
    seed = int(rng.integers(10000))
    make = lambda s=seed: KINDS[kind](train_size=size, random_state=s)
    key = f"{kind}"
    with rec.context(kind=kind, train_size=size, n=n, sd=d.sd):
        o = make()
        with rec.call(key), unchanged(rec, key, X=d.X, y=y, sd=d.sd, w=w):
            out = o.fit_transform(d.X, y, sample_domain=d.sd, sample_weight=w)
        idx = rows(rec, key, out, d, y, w, True)
        k = n if size >= n else (floor(size * n) if isinstance(size, float) else size)
        rec.expect(len(idx) == k, key + ":size", "requested size not honoured", got=len(idx), want=k)
        if k == n:
            rec.event("kept-all")
        elif kind == "domain":
            proportions(rec, key + ":proportion", d.sd, idx, k)
        elif kind == "stratified":
            proportions(rec, key + ":proportion", np.c_[y, d.sd], idx, k)
        with rec.call(key):
            again = make().fit_transform(d.X, y, sample_domain=d.sd, sample_weight=w)
            other = make(seed + 1).fit_transform(d.X, y, sample_domain=d.sd, sample_weight=w)
        rec.equal(again[0], out[0], key + ":seeded", "the same seed draws another subset")
        if 20 < k < n - 5:
            rec.expect(not np.array_equal(other[0], out[0]), key + ":seed-ignored", "another seed draws the same subset")
        # outside fitting nothing happens
        Xn, sdn = gen.new_rows(rng, d, 13)
        for A, s in ((Xn, sdn), (d.X, d.sd)):
            for kw in ({}, dict(allow_source=True)):
                with rec.call(key + ":transform"), unchanged(rec, key + ":transform", A=A):
                    B = o.transform(A, sample_domain=s, **kw)
                rec.equal(B, A, key + ":transform", "new data are not passed through unchanged")
                rec.event("transforms")
    rec.seen("step", kind, size, d.X, idx)
    rec.sample(kind=kind, size=size, n=n, kept=len(idx))


@case("C14", quick=120, thorough=2000, requires=["coverage-checks"])
def coverage(rec, rng):
    """Every row has its chance: over many seeds each row is kept at least once and left out at least once."""
    kind = zoo.pick(rng, list(KINDS))
    d, y, w = sample(rng, kind, big=True)
    hits = np.zeros(len(y), int)
    m = 60
    s0 = int(rng.integers(10000))
    for s in range(m):
        with rec.call(kind):
            out = KINDS[kind](train_size=.5, random_state=s0 + s).fit_transform(d.X, y, sample_domain=d.sd)
        hits[spies.ident(out[0]) - 1000] += 1
    rec.event("coverage-checks")
    rec.expect((hits > 0).all(), kind + ":coverage", "rows that are never kept", rows=np.flatnonzero(hits == 0))
    rec.expect((hits < m).all(), kind + ":coverage", "rows that are always kept", rows=np.flatnonzero(hits == m))
    # binomial(60, ~1/2): nine standard deviations
    rec.expect(hits.min() >= 2 and hits.max() <= 58, kind + ":fairness", "rows are not drawn evenly", lo=hits.min(), hi=hits.max())
    rec.seen("coverage", kind, hits)


@case("C14", quick=600, thorough=8000, requires=["rows-followed", "pipeline-fits", "predictions"])
def pipeline(rec, rng):
    """Inside a pipeline: what reaches the steps after the subsampler while fitting, and that predicting keeps every row."""
    kind = zoo.pick(rng, list(KINDS))
    d, y, w = sample(rng, kind, big=kind != "plain")
    n = len(y)
    size = zoo.pick(rng, [.5, .4, n // 2, n + 1])
    before = zoo.pick(rng, [None, "tr", "ad"])
    clf = spies.SpyDomainClassifier() if d.task == "clf" and rng.random() < .4 else (
        spies.SpyClassifier() if d.task == "clf" else spies.SpyRegressor())
    steps = []
    if before == "tr":
        steps.append(spies.SpyTransformer())
    sub = KINDS[kind](train_size=size, random_state=int(rng.integers(1000)))
    if before == "ad":
        steps.append(spies.SpyDomainAdapter())
        sub.set_transform_request(sample_weight=True)
        clf.set_fit_request(sample_weight=True)
    steps += [sub]
    after = rng.random() < .5
    if after:
        steps.append(spies.SpyTransformer("tr2", alpha=0.))
    spies.take()
    with rec.context(kind=kind, size=size, before=before, clf=type(clf).__name__, sd=d.sd):
        pipe = make_da_pipeline(*steps, clf)
        with rec.call("pipeline:fit"), unchanged(rec, "pipeline", X=d.X, y=y, sd=d.sd):
            pipe.fit(d.X, y, sample_domain=d.sd)
        ev = [e for e in spies.take() if e.call == "fit"]
        rec.event("pipeline-fits")
        k = n if size >= n else (floor(size * n) if isinstance(size, float) else size)
        final = [e for e in ev if e.tag == "clf" or e.tag == "reg"]
        rec.must(len(final) == 1, "pipeline:final-fits", got=len(final))
        f = final[0]
        idx = spies.ident(f.X) - 1000
        rec.must(((idx >= 0) & (idx < n)).all(), "pipeline:rows", got=idx)
        rec.expect(len(set(idx.tolist())) == len(idx), "pipeline:duplicates", got=idx)
        rec.event("rows-followed", len(idx))
        domain_aware = isinstance(clf, spies.SpyDomainClassifier)
        if after:
            t2 = [e for e in ev if e.tag == "tr2"]
            rec.must(len(t2) == 1, "pipeline:tr2-fits", got=len(t2))
            i2 = spies.ident(t2[0].X) - 1000
            rec.expect(len(i2) == k, "pipeline:size", "the step after the subsampler does not see the requested number of rows", got=len(i2), want=k)
            if not domain_aware:
                rec.expect(set(idx.tolist()) == set(i2[d.sd[i2] >= 0].tolist()), "pipeline:subset", "the final estimator sees other rows than the subsampled sources")
            else:
                rec.expect(set(idx.tolist()) == set(i2.tolist()), "pipeline:subset", "the final estimator sees other rows than the subsampled ones")
        if domain_aware:
            rec.expect(len(idx) == k, "pipeline:size", got=len(idx), want=k)
            rec.equal(f.sample_domain, d.sd[idx], "pipeline:domain", "domain labels do not follow the rows")
        rec.expect(domain_aware or (d.sd[idx] >= 0).all(), "pipeline:targets", "masked targets reach a plain estimator")
        s = d.sd[idx] >= 0
        rec.equal(np.asarray(f.y, float)[s], np.asarray(d.y, float)[idx][s], "pipeline:labels", "labels do not follow the rows")
        if before == "ad":
            rec.must(f.sample_weight is not None, "pipeline:weights", "the weights are lost")
            rec.close(f.sample_weight, spies.wfun(idx + 1000), "pipeline:weights", "weights do not follow the rows", rtol=1e-12)
        # predicting: every row, in order
        Xn, sdn = gen.new_rows(rng, d, 11)
        Xn[:, 0] = np.arange(11) + 5000
        for A, sdA in ((Xn, sdn), (d.X, d.sd)):
            spies.take()
            with rec.call("pipeline:predict"):
                p = pipe.predict(A, sample_domain=sdA, allow_source=True)
            rec.expect(len(p) == len(A), "pipeline:predict-rows", "predicting does not keep every row", got=len(p), want=len(A))
            e = [e for e in spies.take() if e.call == "predict"]
            rec.must(len(e) == 1, "pipeline:predict-calls", got=len(e))
            rec.equal(spies.ident(e[0].X), spies.ident(A), "pipeline:predict-rows", "the subsampler acts while predicting")
            rec.event("predictions")
    rec.seen("pipeline", kind, size, before, idx)


@case("C14", quick=200, thorough=2000, requires=["rejections", "defaults"])
def edges(rec, rng):
    """No domain labels, no labels, impossible requests."""
    kind = zoo.pick(rng, list(KINDS))
    d, y, w = sample(rng, kind, big=True)
    d.y = y
    with rec.context(kind=kind):
        if kind == "plain":
            with rec.call("edges:no-domain"):
                yy = d.mask() if d.task == "clf" else np.where(d.src, d.y, np.nan)
                out = Subsampler(.5, random_state=0).fit_transform(d.X, yy)
            rows(rec, "edges:no-domain", out, d, yy, None, False)
            rec.event("defaults")
        rec.rejects("edges:short-domain", lambda: KINDS[kind](.5).fit_transform(d.X, y, sample_domain=d.sd[:-1]), ValueError, "mis-sized domain labels")
        rec.rejects("edges:short-y", lambda: KINDS[kind](.5).fit_transform(d.X, y[:-1], sample_domain=d.sd), ValueError, "mis-sized labels")
        if kind != "plain":
            rec.rejects("edges:too-few", lambda: KINDS[kind](1).fit_transform(d.X, y, sample_domain=d.sd), ValueError,
                        "fewer rows than groups cannot be stratified")
