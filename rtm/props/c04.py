"""C04: an event log of every call the inner estimators receive, against the rule of each selector."""
import numpy as np
from sklearn.base import clone
from sklearn.exceptions import NotFittedError

from skada import PerDomain, SelectSource, SelectSourceTarget, SelectTarget, Shared, make_da_pipeline

from .. import gen, spies, zoo
from ..core import case
from ..probe import methods

OUT = ("predict", "predict_proba", "predict_log_proba", "decision_function")


def world(rng, task=None, **kw):
    d = gen.da(rng, task or zoo.pick(rng, ("clf", "reg")), p=3, **kw)
    d.X[:, 0] = np.arange(len(d.X))
    if rng.random() < .4:  # some source labels missing too
        d["y"] = d.y.astype(float) if d.task == "reg" else d.y
        s = np.flatnonzero(d.src)
        y = d.y.copy()
        keep = np.zeros(len(y), bool)  # keep every domain and class represented
        for dom in np.unique(d.sd):
            for c in (d.labels if d.task == "clf" else [None]):
                r = np.flatnonzero((d.sd == dom) & ((y == c) if c is not None else True))
                keep[r[:2]] = True
        lose = [i for i in s if not keep[i] and rng.random() < .3]
        y[lose] = -1 if d.task == "clf" else np.nan
        d["y"] = y
    return d


def unmasked(task, y):
    return (y != -1) if task == "clf" else np.isfinite(y)


def fits(log):
    return [e for e in log if e.call == "fit"]


def check_fit(rec, ev, rows, d, y, w, key):
    """One fit event saw exactly ``rows``, each once, with its own content."""
    ids = spies.ident(ev.X)
    rec.event("rows-routed", len(ids))
    rec.expect(len(ids) == len(set(ids.tolist())), key + ":duplicated", "a row was handed over twice", ids=ids)
    rec.expect(sorted(ids.tolist()) == sorted(np.asarray(rows).tolist()), key + ":rows", "wrong rows reached the estimator",
               got=sorted(ids.tolist()), want=sorted(np.asarray(rows).tolist()))
    ok = [i for i in ids if 0 <= i < len(d.X)]
    rec.equal(np.asarray(ev.X), d.X[ids], key + ":content", "samples changed on the way")
    if ev.get("y") is not None:
        rec.close(np.asarray(ev.y, float), np.asarray(y, float)[ids], key + ":labels", "a row arrived with another row's label")
    if w is not None:
        rec.must(ev.get("sample_weight") is not None, key + ":weights-missing", "requested weights did not arrive")
        rec.close(ev.sample_weight, w[ids], key + ":weights", "a row arrived with another row's weight")
    if ev.get("sample_domain") is not None:
        rec.equal(ev.sample_domain, d.sd[ids], key + ":domains", "a row arrived with another row's domain label")
    return ok


def estimator(rng, task, weighted):
    e = spies.SpyClassifier(alpha=float(rng.random() + .5)) if task == "clf" else spies.SpyRegressor()
    return e.set_fit_request(sample_weight=True) if weighted else e


def subsets(rng, d):
    """Row subsets to ask about: everything, one role, one domain, single rows, shuffled."""
    n = len(d.X)
    out = [rng.permutation(n), np.arange(n), np.flatnonzero(d.src), np.flatnonzero(~d.src)]
    dom = zoo.pick(rng, d.sids + d.tids)
    out += [np.flatnonzero(d.sd == dom), rng.integers(0, n, 1), rng.integers(0, n, 7)]
    # one row of a role (or a domain) among many of the other
    a, b = np.flatnonzero(d.src), np.flatnonzero(~d.src)
    if rng.random() < .5:
        a, b = b, a
    out.append(rng.permutation(np.r_[rng.choice(a, 1), np.tile(b, 2)]))
    out.append(rng.permutation(np.r_[rng.choice(np.flatnonzero(d.sd == dom), 1), np.flatnonzero(d.sd != dom)]))
    return out


def watch_outputs(rec, rng, sel, d, owner, key, rows_ok=None):
    """Every prediction method: rows go to their owner once, answers come back to their rows."""
    for m in methods(sel, OUT):
        for rows in subsets(rng, d):
            if rows_ok is not None:
                rows = rows[rows_ok[rows]]
            if not len(rows):
                continue
            spies.take()
            with rec.call(f"{key}.{m}"):
                out = getattr(sel, m)(d.X[rows], sample_domain=d.sd[rows])
            log = [e for e in spies.take() if e.call == m]
            rec.must(log, f"{key}.{m}:silent", "no inner estimator was asked")
            asked = []
            for ev in log:
                ids = spies.ident(ev.X)
                asked += ids.tolist()
                for i in ids:
                    rec.expect(ev.obj is owner(i), f"{key}.{m}:owner", "a row was sent to an estimator of another role",
                               row=int(i), domain=int(d.sd[i]))
            rec.event("rows-asked", len(asked))
            rec.expect(sorted(asked) == sorted(rows.tolist()), f"{key}.{m}:asked", "rows asked about differ from the rows given",
                       got=sorted(asked), want=sorted(rows.tolist()))
            want = np.array([np.asarray(getattr(owner(i), m)(d.X[i:i + 1]))[0] for i in rows])
            spies.take()
            if rec.expect(np.asarray(out).shape == want.shape, f"{key}.{m}:shape", "shape of the merged output", got=out, want=want):
                rec.close(out, want, f"{key}.{m}:placement", "an answer was put back at another row", rtol=1e-9, atol=1e-9)


def note(rec, tag, d):
    rec.seen(tag, d.X, d.sd, d.y)
    rec.event("domains-served", d.ns + d.nt)
    rec.sample(tag=tag, sample_domain=d.sd, y=d.y)


@case("C04", quick=800, thorough=8000, requires=["rows-routed", "rows-asked"])
def estimators(rec, rng):
    d = world(rng)
    weighted = rng.random() < .5
    w = rng.random(len(d.X)) + .1 if weighted else None
    kw = {"sample_weight": w} if weighted else {}
    base = estimator(rng, d.task, weighted)
    i = rec.idx % 8
    y = d.y
    mask = True
    make = {0: lambda: Shared(base), 1: lambda: Shared(base, mask_target_labels=False), 2: lambda: SelectSource(base),
            3: lambda: SelectTarget(base), 4: lambda: PerDomain(base), 5: lambda: PerDomain(base, mask_target_labels=False),
            6: lambda: SelectSourceTarget(base), 7: lambda: SelectSourceTarget(base, estimator(rng, d.task, weighted))}[i]
    sel = make()
    key = f"{type(sel).__name__}{'' if i not in (1, 5) else ':unmasked'}"
    n = np.arange(len(d.X))
    ok = unmasked(d.task, y)
    if i in (1, 5) and rng.random() < .5:  # partially labelled targets
        t = np.flatnonzero(~d.src & ok)
        y = y.copy()
        lose = []
        for dom in d.tids:
            r = [q for q in t if d.sd[q] == dom]
            first = {next(q for q in r if d.y[q] == c) for c in np.unique(d.y[r])} if d.task == "clf" else set(r[:3])
            lose += [q for q in r[len(r) // 2:] if q not in first]
        y[lose] = -1 if d.task == "clf" else np.nan
        ok = unmasked(d.task, y)
    if i in (0, 1, 2) and rng.random() < .12:  # a single labelled sample is left
        y = y.copy()
        keep = zoo.pick(rng, np.flatnonzero(ok & (d.src if i != 1 else True)))
        lose = np.arange(len(y)) != keep
        if i != 1:
            lose &= d.src
        y[lose] = -1 if d.task == "clf" else np.nan
        ok = unmasked(d.task, y)
    spies.take()
    with rec.context(selector=key, ns=d.ns, nt=d.nt, layout=d.kind, sample_domain=d.sd, y=y):
        with rec.call(key + ".fit"):
            ret = sel.fit(d.X, y, sample_domain=d.sd, **kw)
        rec.expect(ret is sel, key + ":self", "fit returned something else")
        log = fits(spies.take())
        src = d.src
        if i in (0, 2):
            groups = {"one": n[src & ok]}
        elif i == 1:
            groups = {"one": n[ok]}
        elif i == 3:
            groups = {"one": n[~src & ok]}
        elif i == 4:
            groups = {dom: n[(d.sd == dom) & ok] for dom in d.sids}
        elif i == 5:
            groups = {dom: n[(d.sd == dom) & ok] for dom in d.sids + d.tids}
        else:
            groups = {"source": n[src & ok], "target": n[~src & ok]}
        rec.must(len(log) == len(groups), key + ":fits", f"{len(log)} inner fits for {len(groups)} groups")
        if i < 4:
            owners = {"one": sel.get_estimator()}
        else:
            owners = {g: sel.get_estimator(g) for g in groups}
        for g, rows in groups.items():
            evs = [e for e in log if e.obj is owners[g]]
            rec.must(len(evs) == 1, key + ":owner-fit", f"estimator of {g} was fitted {len(evs)} times", group=g)
            check_fit(rec, evs[0], rows, d, y, w, key)
        if i == 7:
            rec.equal([owners["source"].get_params()["alpha"] if d.task == "clf" else 0,
                       owners["target"].get_params()["alpha"] if d.task == "clf" else 0],
                      [sel.source_estimator.alpha if d.task == "clf" else 0, sel.target_estimator.alpha if d.task == "clf" else 0],
                      key + ":role", "the estimators of the two roles were exchanged")
        rec.expect(not any(o is base for o in owners.values()), key + ":clone", "the given estimator itself was fitted")
        rec.expect(not hasattr(base, "means_") and not hasattr(base, "coef_"), key + ":clone", "the given estimator was modified")
        if i == 7:
            rec.expect(not any(o is sel.target_estimator for o in owners.values()) and not hasattr(sel.target_estimator, "means_")
                       and not hasattr(sel.target_estimator, "coef_"), key + ":clone", "the given target estimator was fitted")
        if i < 4:
            watch_outputs(rec, rng, sel, d, lambda r: owners["one"], key)
        elif i in (4, 5):
            watch_outputs(rec, rng, sel, d, lambda r: owners[int(d.sd[r])], key, np.isin(d.sd, list(owners)))
            unknown = 77
            rec.rejects(key + ":unknown-domain", lambda: sel.predict(d.X[:2], sample_domain=np.array([unknown, -78])), ValueError,
                        "rows of a domain never seen")
        else:
            watch_outputs(rec, rng, sel, d, lambda r: owners["source" if d.sd[r] >= 0 else "target"], key)
    spies.take()
    note(rec, "estimators:" + key, d)


@case("C04", quick=600, thorough=6000, requires=["rows-routed", "rows-placed"])
def transformers(rec, rng):
    """Selectors around transformers, in front of a recording step: what comes out, for which row."""
    d = world(rng)
    i = rec.idx % 5
    base = (spies.SpyTransformer if rng.random() < .5 else spies.SpyTransformerNoFT)(alpha=float(rng.integers(1, 4)))
    S = (Shared, PerDomain, SelectSource, SelectTarget, SelectSourceTarget)[i]
    sel = S(base) if i != 4 or rng.random() < .5 else S(base, spies.SpyTransformer(alpha=7.0))
    key = S.__name__ + ":transformer"
    last = spies.SpyDomainClassifier() if d.task == "clf" and rng.random() < .5 else estimator(rng, d.task, False)
    p = make_da_pipeline(("a", sel), ("z", last))
    n = np.arange(len(d.X))
    src = d.src
    groups = {0: {"one": n}, 1: {dom: n[d.sd == dom] for dom in d.sids + d.tids}, 2: {"one": n[src]}, 3: {"one": n[~src]},
              4: {"source": n[src], "target": n[~src]}}[i]
    seen_y = d.y if i in (3, 4) else d.mask()
    spies.take()
    with rec.context(selector=key, ns=d.ns, nt=d.nt, layout=d.kind, sample_domain=d.sd, base=type(base).__name__):
        with rec.call(key + ".fit"):
            p.fit(d.X, d.y, sample_domain=d.sd)
        log = spies.take()
        fl = [e for e in fits(log) if isinstance(e.obj, (spies.SpyTransformer, spies.SpyTransformerNoFT))]
        rec.must(len(fl) == len(groups), key + ":fits", f"{len(fl)} inner fits for {len(groups)} groups")
        step = p.named_steps["a"]
        owners = {g: (step.get_estimator() if g == "one" else step.get_estimator(g)) for g in groups}
        for g, rows in groups.items():
            evs = [e for e in fl if e.obj is owners[g]]
            rec.must(len(evs) == 1, key + ":owner-fit", f"estimator of {g} was fitted {len(evs)} times", group=g)
            check_fit(rec, evs[0], rows, d, seen_y, None, key)

        def owner(r):
            return owners[{0: "one", 1: int(d.sd[r]), 2: "one", 3: "one", 4: "source" if d.sd[r] >= 0 else "target"}[i]]

        image = lambda rows: np.array([d.X[r] + owner(r).alpha * owner(r).shift_ for r in rows])
        # what the next step was fitted on
        ev = [e for e in fits(log) if e.tag == last.tag]
        rec.must(len(ev) == 1, key + ":next", "the next step was not fitted once")
        ids = spies.ident(ev[0].X)
        kept = np.concatenate(list(groups.values()))
        if not isinstance(last, spies.SpyDomainClassifier):
            kept = kept[unmasked(d.task, (d.y if i == 3 else d.mask())[kept])]
        rec.expect(sorted(ids.tolist()) == sorted(kept.tolist()), key + ":next-rows", "rows lost or invented before the next step",
                   got=sorted(ids.tolist()), want=sorted(kept.tolist()))
        rec.event("rows-placed", len(ids))
        rec.close(ev[0].X, image(ids), key + ":placement", "a transformed row was put back at another place")
        rec.close(np.asarray(ev[0].y, float), np.asarray(d.y if i == 3 else d.mask(), float)[ids], key + ":next-labels",
                  "labels moved relative to the samples")
        if isinstance(last, spies.SpyDomainClassifier):
            rec.equal(ev[0].sample_domain, d.sd[ids], key + ":next-domains", "domain labels moved relative to the samples")
        # transforms of new calls
        for rows in subsets(rng, d):
            if not len(rows):
                continue
            spies.take()
            with rec.call(key + ".transform"):
                out = step.transform(d.X[rows], sample_domain=d.sd[rows])
            asked = []
            for e in spies.take():
                if e.call == "transform":
                    ids = spies.ident(e.X)
                    asked += ids.tolist()
                    rec.expect(all(owner(r) is e.obj for r in ids), key + ":transform-owner", "a row was sent to another role's estimator")
            rec.expect(sorted(asked) == sorted(rows.tolist()), key + ":transform-asked", "rows asked about differ from those given",
                       got=sorted(asked), want=sorted(rows.tolist()))
            rec.close(out, image(rows), key + ":transform-placement", "a transformed row was put back at another place")
            with rec.call(key + ":piped-predict"):
                out = p.predict(d.X[rows], sample_domain=d.sd[rows])
            want = p.named_steps["z"].get_estimator().predict(image(rows))
            rec.close(np.asarray(out, float), np.asarray(want, float), key + ":piped", "pipeline prediction misplaced")
    spies.take()
    note(rec, "transformers:" + key, d)


@case("C04", quick=240, thorough=2400, requires=["rows-routed"])
def domain_aware(rec, rng):
    """Estimators that ask for domain labels keep every row, masked ones included."""
    d = world(rng, "clf")
    i = rec.idx % 3
    sel = (lambda: Shared(spies.SpyDomainClassifier()), lambda: SelectSourceTarget(spies.SpyDomainClassifier()),
           lambda: make_da_pipeline(spies.SpyDomainClassifier()))[i]()
    n = np.arange(len(d.X))
    spies.take()
    y = d.mask() if i != 1 else d.y
    key = f"domain-aware:{i}"
    if i == 1:
        y = d["y"] = np.where(d.y == -1, d.labels[0], d.y)
    with rec.context(layout=d.kind, sample_domain=d.sd):
        with rec.call(key):
            sel.fit(d.X, d.y, sample_domain=d.sd)
        log = fits(spies.take())
        groups = [n] if i != 1 else [n[d.src], n[~d.src]]
        rec.must(len(log) == len(groups), key + ":fits")
        for ev, rows in zip(log, groups):
            check_fit(rec, ev, rows, d, y, None, key)
            rec.must(ev.get("sample_domain") is not None, key + ":no-domains", "the domain labels it asked for did not arrive")
        if i != 1:
            for rows in subsets(rng, d):
                spies.take()
                with rec.call(key + ".predict"):
                    sel.predict(d.X[rows], sample_domain=d.sd[rows], allow_source=True)
                ev = [e for e in spies.take() if e.call == "predict"]
                rec.must(len(ev) == 1, key + ":predict")
                rec.equal(spies.ident(ev[0].X), rows, key + ":predict-rows")
                rec.equal(ev[0].sample_domain, d.sd[rows], key + ":predict-domains", "domain labels not aligned")
                rec.expect(ev[0].allow_source is True, key + ":allow_source", "allow_source was lost")
    note(rec, key, d)


@case("C04", quick=240, thorough=2400, requires=["rows-placed"])
def per_domain_adapters(rec, rng):
    """One producing step per domain: produced samples and weights are put back at their rows."""
    d = world(rng)
    i = rec.idx % 2
    typed = [None, None, "int64", "float32"][int(rng.integers(4))] if i == 1 else None
    ad = spies.SpyDomainAdapter(weights=True, move=True)
    sel = PerDomain(ad) if i == 0 else SelectSourceTarget(ad, spies.SpyDomainAdapter(weights=True, move=True, dtype=typed))
    if typed and rng.random() < .5:
        sel = SelectSourceTarget(spies.SpyDomainAdapter(weights=True, move=True, dtype=typed), ad)
    last = estimator(rng, d.task, True)
    p = make_da_pipeline(sel, last)
    key = f"adapters:{type(sel).__name__}"
    spies.take()
    with rec.context(layout=d.kind, sample_domain=d.sd):
        with rec.call(key):
            p.fit(d.X, d.y, sample_domain=d.sd)
        log = spies.take()
        calls = [e for e in log if e.call == "fit_transform"]
        rec.expect(len(calls) == (d.ns + d.nt if i == 0 else 2), key + ":calls", f"{len(calls)} adapters fitted")
        seen = []
        for e in calls:
            ids = spies.ident(e.X)
            seen += ids.tolist()
            one = len(set((d.sd[ids] if i == 0 else d.sd[ids] >= 0).tolist())) == 1
            rec.expect(one, key + ":mixed", "an inner estimator saw more than its own role", ids=ids)
            if e.get("sample_domain") is not None:
                rec.equal(e.sample_domain, d.sd[ids], key + ":domains")
        rec.expect(sorted(seen) == list(range(len(d.X))), key + ":partition", "rows lost or repeated", got=sorted(seen))
        ev = fits(log)
        rec.must(len(ev) == 1, key + ":next")
        ids = spies.ident(ev[0].X)
        rec.event("rows-placed", len(ids))
        want = d.X.copy()
        want[:, 1:] += 1000.0 * d.src[:, None]
        rec.close(ev[0].X, want[ids], key + ":placement", "moved samples put back at other rows")
        own = lambda r: getattr(sel, "source_estimator" if d.sd[r] >= 0 else "target_estimator", None) or ad
        ww = np.array([np.rint(spies.wfun(r) * 10) if own(r).dtype else spies.wfun(r) for r in ids])
        rec.close(ev[0].sample_weight, ww, key + ":weights", "weights put back at other rows, or altered", typed=typed)
        rec.close(np.asarray(ev[0].y, float), np.asarray(d.y, float)[ids], key + ":labels")
    note(rec, key, d)


@case("C04", quick=160, thorough=1600, requires=["rows-placed"])
def mixed_roles(rec, rng):
    """Role estimators that differ in output type, in what they implement and in what they request."""
    d = world(rng)
    d["X"] = d.X + np.r_[0, .37 * np.ones(d.X.shape[1] - 1)]
    s = d.src
    i = rec.idx % 4
    key = f"mixed:{i}"
    spies.take()
    with rec.context(layout=d.kind, sample_domain=d.sd):
        if i < 2:
            types = [["int64", "float64"], ["float32", "float64"], ["int64", "float32"], ["float64", "int64"]][int(rng.integers(4))]
            a, b = [spies.SpyTyped(dtype=t) for t in types]
            if i == 0:
                with rec.call(key):
                    sel = SelectSourceTarget(a, b)
                    out = sel.fit_transform(d.X, d.y, sample_domain=d.sd)
                    new = sel.transform(d.X, sample_domain=d.sd)
                want = np.where(s[:, None], a.fit(d.X).transform(d.X), b.fit(d.X).transform(d.X))
                out = out if isinstance(out, np.ndarray) else out.merge_out(None)[0]
                rec.event("rows-placed", len(d.X))
                for o, w in ((out, ":fit_transform"), (new, ":transform")):
                    rec.close(np.asarray(o, float), want, key + w, "values of a role were squeezed into the other role's type", types=types, rtol=1e-6)
            else:  # one role's transformer has no fit_transform
                a, b = spies.SpyTransformer(alpha=1.), spies.SpyTransformerNoFT(alpha=3.)
                if rng.random() < .5:
                    a, b = b, a
                last = estimator(rng, d.task, False)
                with rec.call(key):
                    p = make_da_pipeline(SelectSourceTarget(a, b), last).fit(d.X, d.y, sample_domain=d.sd)
                log = spies.take()
                ev = [e for e in fits(log) if e.tag == last.tag]
                rec.must(len(ev) == 1, key + ":fits")
                o = {g: p[0].get_estimator(g) for g in ("source", "target")}
                rec.expect(type(o["source"]) is type(a) and type(o["target"]) is type(b), key + ":role", "estimators of the roles exchanged")
                ids = spies.ident(ev[0].X)
                rec.event("rows-placed", len(ids))
                own = lambda r: o["source" if s[r] else "target"]
                rec.close(ev[0].X, np.array([d.X[r] + own(r).alpha * own(r).shift_ for r in ids]), key, "rows misplaced")
        elif i == 2:  # one role takes weights, the other declines
            w = rng.random(len(d.X)) + .1
            e = estimator(rng, d.task, False)
            flags = [True, False] if rng.random() < .5 else [False, True]
            A, B = [clone(e).set_fit_request(sample_weight=f) for f in flags]
            with rec.call(key):
                sel = SelectSourceTarget(A, B).fit(d.X, d.y, sample_domain=d.sd, sample_weight=w)
            log = fits(spies.take())
            for g, f, m in (("source", flags[0], s), ("target", flags[1], ~s)):
                ev = [x for x in log if x.obj is sel.get_estimator(g)]
                rec.must(len(ev) == 1, key + ":fits")
                check_fit(rec, ev[0], np.flatnonzero(m & unmasked(d.task, d.y)), d, d.y, w if f else None, key)
                rec.event("rows-placed", len(ev[0].X))
                if not f:
                    rec.expect(ev[0].get("sample_weight") is None, key + ":declined", "a role got weights it declined", role=g)
        else:  # per-domain metadata at transform time
            w = rng.random(len(d.X)) + .1
            sel = PerDomain(Weighing().set_transform_request(sample_weight=True))
            with rec.call(key):
                sel.fit(d.X, d.y, sample_domain=d.sd)
            for rows in subsets(rng, d):
                if len(rows):
                    with rec.call(key):
                        out = sel.transform(d.X[rows], sample_domain=d.sd[rows], sample_weight=w[rows])
                    rec.event("rows-placed", len(rows))
                    rec.close(out, d.X[rows] * w[rows][:, None], key, "a row was transformed with another row's weight")
    spies.take()
    note(rec, key, d)


class Weighing(spies.TransformerMixin, spies.BaseEstimator):
    def fit(self, X, y=None):
        self.fitted_ = True
        return self

    def transform(self, X, sample_weight=None):
        return np.asarray(X) * np.asarray(sample_weight)[:, None]


@case("C04", quick=160, thorough=1600, requires=["rows-routed"])
def tiny(rec, rng):
    """A handful of rows: one or two of one role, a few of the other."""
    task = zoo.pick(rng, ("clf", "reg"))
    a, b = int(rng.integers(1, 3)), int(rng.integers(1, 9))
    ns, nt = (a, b) if rng.random() < .6 else (b, a)
    n = ns + nt
    X = rng.normal(size=(n, 3))
    X[:, 0] = np.arange(n)
    sd = rng.permutation(np.r_[rng.choice([1, 4], ns), rng.choice([-2, -3], nt)])
    s = sd >= 0
    y = rng.integers(0, 2, n) if task == "clf" else rng.normal(size=n)
    if task == "clf" and rng.random() < .4:
        y = y.astype(float)
    d = gen.Data(X=X, y=y, sd=sd, task=task, ns=len(set(sd[s])), nt=len(set(sd[~s])), kind="tiny")
    i = rec.idx % 5
    weighted = rng.random() < .5
    w = rng.random(n) + .1 if weighted else None
    base = estimator(rng, task, weighted)
    sel = (lambda: Shared(base), lambda: make_da_pipeline(base), lambda: SelectSource(base), lambda: SelectTarget(base),
           lambda: SelectSourceTarget(base))[i]()
    rows = {3: [np.flatnonzero(~s)], 4: [np.flatnonzero(s), np.flatnonzero(~s)]}.get(i, [np.flatnonzero(s)])
    key = f"tiny:{i}"
    spies.take()
    with rec.context(sample_domain=sd, y=y, weighted=weighted):
        with rec.call(key):
            sel.fit(X, y, sample_domain=sd, **({"sample_weight": w} if weighted else {}))
        log = fits(spies.take())
        rec.must(len(log) == len(rows), key + ":fits")
        for ev, r in zip(log, rows):
            check_fit(rec, ev, r, d, y, w, key)
        if i in (0, 1):  # before a step that asks for domains, the target labels are hidden however few the sources
            dom = spies.SpyDomainClassifier() if task == "clf" else None
            tr = spies.SpyTransformer()
            with rec.call(key + ":masked"):
                make_da_pipeline(tr, *([dom] if dom else [estimator(rng, task, False)])).fit(X, y, sample_domain=sd)
            for ev in spies.take():
                if ev.call in ("fit", "fit_transform") and ev.get("y") is not None:
                    k = spies.ident(ev.X)
                    t = ~s[k]
                    yy = np.asarray(ev.y, float)
                    rec.expect(bool(np.all(yy[t] == -1) if task == "clf" else np.all(np.isnan(yy[t]))), key + ":leak",
                               "target labels reached a step", y=yy)
                    rec.close(yy[~t], np.asarray(y, float)[k][~t], key + ":labels", "source labels altered")
    note(rec, key, d)


@case("C04", quick=160, thorough=1600, requires=["rows-routed"])
def without_domains(rec, rng):
    """No domain labels given: the mask alone decides which rows a plain estimator is fitted on."""
    d = world(rng)
    y = d.mask()
    base = estimator(rng, d.task, False)
    spies.take()
    i = rec.idx % 2
    sel = Shared(base) if i == 0 else make_da_pipeline(spies.SpyTransformer(), base)
    with rec.call("no-domains"):
        sel.fit(d.X, y)
    log = [e for e in fits(spies.take()) if e.tag == base.tag]
    rec.must(len(log) == 1, "no-domains:fits")
    ids = spies.ident(log[0].X)
    rec.event("rows-routed", len(ids))
    rec.expect(sorted(ids.tolist()) == np.flatnonzero(unmasked(d.task, y)).tolist(), "no-domains:rows", "masked rows reached the fit",
               got=sorted(ids.tolist()))
    rec.close(np.asarray(log[0].y, float), np.asarray(y, float)[ids], "no-domains:labels")
    note(rec, "no-domains", d)


@case("C04", quick=30, thorough=300, requires=["rejections"])
def refusals(rec, rng):
    d = world(rng)
    base = estimator(rng, d.task, False)
    rec.rejects("SelectTarget:mask", lambda: SelectTarget(base, mask_target_labels=True), ValueError, "masking what it fits on")
    rec.rejects("SelectSourceTarget:mask", lambda: SelectSourceTarget(base, mask_target_labels=True), ValueError, "masking")
    s = d.src
    rec.rejects("SelectSourceTarget:no-target", lambda: SelectSourceTarget(base).fit(d.X[s], d.y[s], sample_domain=d.sd[s]), ValueError,
                "no target rows")
    rec.rejects("SelectSourceTarget:no-source", lambda: SelectSourceTarget(base).fit(d.X[~s], d.y[~s], sample_domain=d.sd[~s]),
                ValueError, "no source rows")
    rec.rejects("SelectSourceTarget:mixed", lambda: SelectSourceTarget(spies.SpyTransformer(), base), TypeError,
                "a transformer for one role and a predictor for the other")
    # nothing to select: the inner estimator never gets the other role's samples instead
    for S, rows in ((SelectTarget, s), (SelectSource, ~s)):
        for inner in (base, spies.SpyTransformer()):
            spies.take()
            try:
                with np.errstate(all="ignore"):
                    S(inner).fit(d.X[rows], d.y[rows], sample_domain=d.sd[rows])
            except Exception:
                pass
            got = [len(e.X) for e in fits(spies.take())]
            rec.expect(not any(got), f"{S.__name__}:empty", "fitted on samples of the other role when its own role is absent", got=got)
    for S in (Shared, PerDomain, SelectSource, SelectTarget, SelectSourceTarget):
        rec.rejects(f"{S.__name__}:unfitted", lambda: S(base).predict(d.X, sample_domain=d.sd), NotFittedError, "not fitted")
    spies.take()
    rec.seen("refusals", d.X)
