"""C29: fitted objects asked about the same rows alone, in chunks, duplicated, reordered, with strangers, or as the very training set."""
import numpy as np
from sklearn.decomposition import PCA
from sklearn.linear_model import LogisticRegression, Ridge
from sklearn.naive_bayes import GaussianNB
from sklearn.preprocessing import StandardScaler

from skada import PerDomain, SelectSource, SelectSourceTarget, SelectTarget, Shared, make_da_pipeline

from .. import gen, spies, zoo
from ..core import Skip, case
from ..probe import METHODS, collapsed, methods

# what the method itself computes with limited precision (iterative transport plans)
TOL = {"EntropicOTMapping": 1e-4, "ClassRegularizerOTMapping": 1e-4, "ClassRegularizerOTMapping-l1l2": 1e-4}


def batches(rng, n, ntrain, sd):
    """Rows of each way to submit the pool (training rows come first in the pool)."""
    o = rng.permutation(n)
    cut = np.sort(rng.choice(n + 1, min(4, n), replace=False))
    tr = np.arange(ntrain)
    out = {"chunks": [c for c in np.split(o, cut) if len(c)], "reordered": [o], "reversed": [np.arange(n)[::-1]], "duplicated": [rng.integers(0, n, n), np.repeat(o[:3], 7)],
           "single": [np.array([i]) for i in o[:8]], "training-set": [tr], "training-reordered": [rng.permutation(tr)], "training-part": [rng.permutation(tr)[: max(1, ntrain // 3)]],
           "strangers": [np.arange(ntrain, n)], "sources": [np.flatnonzero(sd >= 0)], "targets": [np.flatnonzero(sd < 0)],
           "training-sources": [tr[sd[:ntrain] >= 0]], "training-targets": [tr[sd[:ntrain] < 0]], "one-domain": [np.flatnonzero(sd == s) for s in set(sd.tolist())],
           "training-and-one": [np.r_[tr, n - 1], np.r_[n - 1, tr]]}
    return {k: [b for b in v if len(b)] for k, v in out.items()}


def independent(rec, rng, obj, call, pool, sd, ntrain, key, tol, which, kinds=None):
    """call(method, X, sd) on every way of submitting the pool gives each row its answer of the reference call."""
    for m in which:
        with rec.call(f"{key}.{m}"):
            ref = np.array(call(m, pool, sd))
        rec.must(len(ref) == len(pool), f"{key}.{m}:rows", "wrong number of rows", got=len(ref), want=len(pool))
        label = m == "predict" and ref.dtype.kind in "iuUO" or m == "predict" and np.array_equal(ref, np.round(ref.astype(float)))
        scale = 1 if label else max(np.abs(ref[np.isfinite(ref)]).max() if np.isfinite(ref).any() else 0, 1e-9)
        ways = batches(rng, len(pool), ntrain, sd)
        names = list(ways)
        if kinds:
            names = [names[i] for i in rng.permutation(len(names))[:kinds]]
        for way in names:
            for b in ways[way][:8]:
                with rec.context(way=way, method=m, rows=len(b)):
                    with rec.call(f"{key}.{m}:{way}"):
                        got = np.array(call(m, pool[b], sd[b]))
                    if got.shape != ref[b].shape:
                        rec.violate(f"{key}.{m}:rows", "shape of the answer", got=got.shape, want=ref[b].shape)
                        continue
                    if label:
                        bad = np.flatnonzero(got != ref[b])
                        if len(bad) and hasattr(obj, "predict_proba"):   # a tie at the border between two classes
                            p = np.sort(np.asarray(call("predict_proba", pool[b][bad], sd[b][bad])), 1)
                            bad = bad[(p[:, -1] - p[:, -2]) > 1e-9]
                        rec.expect(len(bad) == 0, f"{key}.{m}", "a row's prediction depends on the rows submitted with it", rows_differing=len(bad), first=b[bad[:5]])
                    else:
                        d = np.abs(got - ref[b])
                        d[(got == ref[b]) | (np.isnan(got) & np.isnan(ref[b]))] = 0
                        err = d.max() / scale
                        rec.expect(err <= tol, f"{key}.{m}", f"a row's result depends on the rows submitted with it (relative difference {err:.3g})", got=got, want=ref[b])
                    rec.event("row-comparisons", len(b))
                    rec.event("training-rows", int((b < ntrain).sum()))
        with rec.call(f"{key}.{m}:again"):
            again = np.array(call(m, pool, sd))
        rec.close(again, ref, f"{key}.{m}:again", "asking again after other questions gives another answer", 1e-9, 1e-9 * scale)
        rec.event("asked-again")


def pool_of(rng, d, n=13):
    Xn, sdn = gen.new_rows(rng, d, n)
    return np.concatenate([d.X, Xn]), np.r_[d.sd, sdn]


@case("C29", quick=264, thorough=3900, requires=["row-comparisons", "training-rows", "asked-again"])
def fitted(rec, rng):
    """Adapters and estimators."""
    es = [e for e in zoo.adapters() if e.kind != "labelprop"] + zoo.da_estimators()
    e = es[rec.idx % len(es)]
    kw = {"labels": [0, 1]} if e.binary else {}
    d = gen.da(rng, zoo.pick(rng, e.tasks), **kw)
    a = e.make()
    key = f"fitted:{e.name}"
    with rec.context(name=e.name, task=d.task, layout=d.kind, domains=(d.sids, d.tids), n=len(d.X)):
        with rec.call(key):
            try:
                y = d.mask() if e.reads_target_y else d.y
                if e.kind == "est":
                    a.fit(d.X, y, sample_domain=d.sd)
                elif rng.random() < .5:
                    a.fit(d.X, y, sample_domain=d.sd)
                else:
                    a.fit_transform(d.X, y, sample_domain=d.sd)
            except Exception as ex:
                if e.name in ("DASVM", "Gradual", "JDOTClassifier", "JDOTClassifier-hinge") and collapsed(ex):
                    raise Skip("collapsed")
                raise
        pool, sd = pool_of(rng, d)
        call = lambda m, X, s: getattr(a, m)(X, sample_domain=s, allow_source=True) if e.domain_args else getattr(a, m)(X)
        independent(rec, rng, a, call, pool, sd, len(d.X), key, TOL.get(e.name, 1e-7), methods(a, METHODS))
    rec.seen("fitted", e.name, d.X)
    rec.sample(kind="fitted", name=e.name, rows=len(pool))


@case("C29", quick=160, thorough=2400, requires=["row-comparisons", "asked-again"])
def pipelines(rec, rng):
    """Ready-made pipelines, and pipelines of adapters with transformers around."""
    task = zoo.pick(rng, ["clf", "reg"])
    fs = zoo.factories(task)
    name = sorted(fs)[rec.idx % len(fs)]
    d = gen.da(rng, task)
    key = f"pipeline:{name}"
    with rec.context(name=name, task=task, domains=(d.sids, d.tids)):
        with rec.call(key):
            p = fs[name]()
            wrapped = rng.random() < .4
            if wrapped:
                p = make_da_pipeline(zoo.pick(rng, [StandardScaler(), PerDomain(StandardScaler()), PCA(2)]), *[s for _, s in p.steps])
            p.fit(d.X, d.mask() if rng.random() < .5 else d.y, sample_domain=d.sd)
        pool, sd = pool_of(rng, d)
        call = lambda m, X, s: getattr(p, m)(X, sample_domain=s, allow_source=True)
        independent(rec, rng, p, call, pool, sd, len(d.X), key, max(TOL.get(name[:-2], 0), 1e-6), [m for m in methods(p, METHODS)], kinds=6)
        t = sd < 0
        if rng.random() < .4 and not wrapped and not name.startswith("MultiLinear"):  # without domain labels every row is a target
            m = zoo.pick(rng, methods(p, ("predict", "predict_proba")))
            with rec.call(key + ":default"):
                u = np.asarray(getattr(p, m)(pool[t]))
                v = np.concatenate([np.asarray(getattr(p, m)(pool[t][i:i + 1])) for i in range(t.sum())])
            if m == "predict" and task == "clf":
                rec.expect((u != v).mean() < .05, key + ":default", "predictions without domain labels depend on the batch", differing=int((u != v).sum()))
            else:
                rec.close(v, u, key + ":default", "predictions without domain labels depend on the batch", 1e-5, 1e-6 * max(1, np.abs(u).max()))
    rec.seen("pipeline", name, d.X)


@case("C29", quick=150, thorough=2000, requires=["row-comparisons", "asked-again"])
def selectors(rec, rng):
    d = gen.da(rng, zoo.pick(rng, ("clf", "reg")))
    tr = zoo.pick(rng, [lambda: spies.SpyTransformer(), lambda: StandardScaler(), lambda: PCA(2)])
    cl = (lambda: Ridge()) if d.task == "reg" else (lambda: GaussianNB())
    table = {
        "Shared-t": lambda: Shared(tr()), "PerDomain-t": lambda: PerDomain(tr()), "SelectSource-t": lambda: SelectSource(tr()), "SelectTarget-t": lambda: SelectTarget(tr()),
        "SelectSourceTarget-t": lambda: SelectSourceTarget(tr()), "SelectSourceTarget-2": lambda: SelectSourceTarget(StandardScaler(), tr() if False else StandardScaler(with_std=False)),
        "Shared-e": lambda: Shared(cl()), "SelectSource-e": lambda: SelectSource(cl()), "SelectSourceTarget-e": lambda: SelectSourceTarget(cl(), mask_target_labels=False),
        "PerDomain-e": lambda: PerDomain(cl(), mask_target_labels=False), "SelectTarget-e": lambda: SelectTarget(cl(), mask_target_labels=False),
    }
    name = sorted(table)[rec.idx % len(table)]
    s = table[name]()
    key = "selector:" + name
    with rec.context(selector=name, task=d.task, domains=(d.sids, d.tids)):
        with rec.call(key):
            s.fit(d.X, d.y, sample_domain=d.sd)
        pool, sd = pool_of(rng, d)
        which = methods(s, METHODS)
        if name in ("PerDomain-e", "SelectSourceTarget-e") and "predict_proba" in which:
            which = [m for m in which if m == "predict"]    # classes may differ from model to model
        call = lambda m, X, q: getattr(s, m)(X, sample_domain=q)
        independent(rec, rng, s, call, pool, sd, len(d.X), key, 1e-9, which)
    spies.take()
    rec.seen("selector", name, d.X)


@case("C29", quick=100, thorough=1500, requires=["row-comparisons"])
def interleaved(rec, rng):
    """Methods in any order, other rows in between: answers do not drift; unusual requests leave no trace."""
    es = [e for e in zoo.adapters() if e.kind != "labelprop"]
    e = es[rec.idx % len(es)]
    d = gen.da(rng, zoo.pick(rng, e.tasks))
    base = zoo.base_for(d.task, e.produces)
    key = f"interleaved:{e.name}"
    with rec.context(name=e.name, task=d.task):
        with rec.call(key):
            p = make_da_pipeline(StandardScaler(), e.make(), base).fit(d.X, d.mask(), sample_domain=d.sd)
        pool, sd = pool_of(rng, d)
        t = np.flatnonzero(sd < 0)
        ms = methods(p, ("predict", "predict_proba", "decision_function"))
        with rec.call(key):
            ref = {m: np.array(getattr(p, m)(pool, sample_domain=sd, allow_source=True)) for m in ms}
        for _ in range(6):
            what = zoo.pick(rng, ["score", "other", "sources-refused", "sub", "far"])
            m = zoo.pick(rng, ms)
            with rec.call(key + ":" + what):
                if what == "score" and d.task == "clf":
                    p.score(pool[t], rng.choice(d.labels, len(t)), sample_domain=sd[t])
                elif what == "other":
                    Xo, so = gen.new_rows(rng, d, 9)
                    getattr(p, m)(Xo, sample_domain=so, allow_source=True)
                elif what == "far":
                    Xo, so = gen.new_rows(rng, d, 9)
                    getattr(p, m)(Xo * 3, sample_domain=so, allow_source=True)
                elif what == "sources-refused":
                    try:
                        getattr(p, m)(pool, sample_domain=sd)
                    except ValueError:
                        pass
                rows = rng.permutation(len(pool))[: int(rng.integers(1, len(pool)))]
                got = np.array(getattr(p, m)(pool[rows], sample_domain=sd[rows], allow_source=True))
            tol = max(TOL.get(e.name, 0), 1e-6)
            if m == "predict" and d.task == "clf":
                bad = got != ref[m][rows]
                if bad.any() and "predict_proba" in ref:
                    q = np.sort(ref["predict_proba"][rows[bad]], 1)
                    bad = np.array([(q[:, -1] - q[:, -2]).max() > 1e-4])
                rec.expect(not bad.any(), f"{key}.predict", "predictions drift from call to call", what=what)
            else:
                rec.close(got, ref[m][rows], f"{key}.{m}", "answers drift from call to call", tol, tol * max(1, np.abs(ref[m]).max()), what=what)
            rec.event("row-comparisons", len(rows))
    rec.seen("interleaved", e.name, d.X)
