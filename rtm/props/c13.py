"""C13: every fold of every domain-aware splitter checked index by index."""
import numpy as np
from math import ceil, floor

from skada.model_selection import (DomainShuffleSplit, LeaveOneDomainOut, SourceTargetShuffleSplit,
                                   StratifiedDomainShuffleSplit)

from .. import gen, watch, zoo
from ..core import case


def sizes(n, test, train):
    """Documented sizes (scikit-learn's convention); None when the request cannot be honoured."""
    if test is None and train is None:
        test = .1
    t = ceil(test * n) if isinstance(test, float) else test
    r = floor(train * n) if isinstance(train, float) else train
    if r is None:
        r = n - t
    elif t is None:
        t = n - r
    for v, s in ((t, test), (r, train)):
        if isinstance(s, float) and not 0 < s < 1 or isinstance(s, int) and not 0 < s < n:
            return None
    if isinstance(test, float) and isinstance(train, float) and test + train > 1:
        return None
    if t + r > n or r == 0:
        return None
    return r, t


def request(rng):
    k = int(rng.integers(8))
    f = lambda: float(np.round(rng.uniform(.08, .6), 2))
    i = lambda: int(rng.integers(1, 12))
    return [(None, None), (f(), None), (None, f()), (f(), f()), (i(), None), (None, i()), (i(), i()), (f(), i())][k]


def data(rng, targets=None):
    ns, nt = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    sids, tids = gen.domain_ids(rng, ns, nt)
    if rng.random() < .15:
        sids[0] = 0 if 0 not in sids else sids[0]
    cnt = rng.integers(2, 25, ns + nt)
    sd = np.repeat(sids + tids, cnt)
    sd = sd[gen.layout(rng, sd, zoo.pick(rng, ["sorted", "target_first", "alternate", "random"]))]
    y = rng.choice([0, 1, 4], len(sd))
    X = rng.normal(size=(len(sd),) + ((2,) if rng.random() < .8 else (2, 3)))
    if rng.random() < .3:
        sd = zoo.pick(rng, [list, lambda a: a.astype(np.int32), lambda a: a.astype(np.min_scalar_type(-int(np.abs(a).max()) - 1))])(sd)
    return X, y, sd


def fold(rec, key, tr, te, n):
    rec.event("folds")
    for a in (tr, te):
        rec.must(isinstance(a, np.ndarray) and a.ndim == 1 and a.dtype.kind in "iu", key + ":type", "indices are not an integer array", got=a)
    rec.expect(len(set(tr.tolist())) == len(tr), key + ":train-duplicates", "an index occurs twice in train", train=tr)
    rec.expect(len(set(te.tolist())) == len(te), key + ":test-duplicates", "an index occurs twice in test", test=te)
    rec.expect(not set(tr.tolist()) & set(te.tolist()), key + ":overlap", "train and test overlap", train=tr, test=te)
    b = np.r_[tr, te]
    rec.must(len(b) == 0 or (b.min() >= 0 and b.max() < n), key + ":range", "index out of range", got=b, n=n)


def fair(rec, key, folds, eligible, frac):
    """Over many random folds every eligible row is tested; folds are not copies of one another."""
    ever = set().union(*[set(te.tolist()) for _, te in folds])
    if frac > 0 and len(eligible) * (1 - frac) ** len(folds) < 1e-9:
        rec.expect(set(eligible) <= ever, key + ":coverage", "some rows are never tested", never=sorted(set(eligible) - ever), folds=len(folds))
        rec.event("coverage-checks")
    if len(folds) >= 10 and len(eligible) >= 20:
        u = {(tuple(sorted(a.tolist())), tuple(sorted(b.tolist()))) for a, b in folds}
        rec.expect(len(u) > 1, key + ":identical", "all random folds are the same")


def splits(rec, key, cv, X, y, sd, seed):
    n = len(sd)
    if n % 3 == 0:   # a splitter that has split other data (other domains) before
        b = np.asarray(sd).astype(int)
        with rec.call(key + ":reused"):
            list(cv.split(X, y, np.where(b >= 0, b + 50, b - 50)))
        rec.event("reused-splitters")
    with watch.unchanged(rec, key, X=X, y=y, sd=sd):
        with rec.call(key):
            folds = list(cv.split(X, y, sd))
    for tr, te in folds:
        fold(rec, key, tr, te, n)
    with rec.call(key):
        k = cv.get_n_splits(X, y, sd)
    rec.expect(k == len(folds), key + ":n-splits", "announced number of splits", announced=k, produced=len(folds))
    if isinstance(seed, int):
        with rec.call(key):
            again = list(cv.split(X, y, sd))
        rec.expect(len(again) == len(folds) and all(np.array_equal(a, c) and np.array_equal(b, d) for (a, b), (c, d) in zip(folds, again)),
                   key + ":seeded", "a second pass with the same integer seed differs")
    return folds


def seed_of(rng):
    s = int(rng.integers(10000))
    return zoo.pick(rng, [s, s, np.random.RandomState(s), None])


@case("C13", quick=1200, thorough=20000, requires=["folds", "coverage-checks", "rejections"])
def source_target(rec, rng):
    """SourceTargetShuffleSplit: requested sizes within the sources and within the targets."""
    X, y, sd = data(rng)
    a = np.asarray(sd)
    test, train = request(rng)
    k = int(zoo.pick(rng, [1, 2, 5, 60]))
    seed = seed_of(rng)
    cv = SourceTargetShuffleSplit(n_splits=k, test_size=test, train_size=train, random_state=seed)
    s = a >= 0
    want = [sizes(m.sum(), test, train) for m in (s, ~s)]
    with rec.context(test=test, train=train, n_splits=k, sd=a):
        if None in want:
            rec.rejects("source-target:impossible", lambda: list(cv.split(X, y, sd)), ValueError, "sizes that cannot be honoured")
            return
        folds = splits(rec, "source-target", cv, X, None if rng.random() < .3 else y, sd, seed)
        rec.expect(len(folds) == k, "source-target:count", got=len(folds), want=k)
        for tr, te in folds:
            for m, (r, t), nm in ((s, want[0], "source"), (~s, want[1], "target")):
                rec.expect((m[tr].sum(), m[te].sum()) == (r, t), f"source-target:size-{nm}", "requested sizes not honoured",
                           got=(m[tr].sum(), m[te].sum()), want=(r, t))
        fair(rec, "source-target", folds, range(len(a)), min(w[1] / m.sum() for w, m in zip(want, (s, ~s))))
    rec.seen("st", a, [f[0] for f in folds][:3])


@case("C13", quick=1200, thorough=20000, requires=["folds", "coverage-checks", "rejections"])
def stratified(rec, rng):
    """StratifiedDomainShuffleSplit: proportion of every (label, domain) group."""
    X, y, sd = data(rng)
    a = np.asarray(sd)
    multi = None
    mode = int(rng.integers(6))
    if mode == 0:
        y = np.where(a >= 0, y, -1)
    elif mode == 1:
        y = y.astype(float)
    elif mode == 2:
        y = np.array(["a", "b", "c", "d", "e"])[y]
    elif mode == 3:
        multi = np.c_[y, rng.integers(0, 2, len(y))] if rng.random() < .5 else np.c_[rng.choice([1, 11], len(y)), rng.choice([1, 11, 111], len(y))]
    Y = y if multi is None else multi
    lab = np.unique(np.asarray([str(v) for v in (Y.tolist())]), return_inverse=True)[1]
    g = np.unique(np.c_[lab, a], axis=0, return_inverse=True)[1].ravel()
    cnt = np.bincount(g)
    n = len(a)
    test, train = request(rng)
    if isinstance(test, int) or isinstance(train, int):
        test, train = (test * 4 if isinstance(test, int) else test), (train * 4 if isinstance(train, int) else train)
    k = int(zoo.pick(rng, [1, 2, 5, 80]))
    seed = seed_of(rng)
    cv = StratifiedDomainShuffleSplit(n_splits=k, test_size=test, train_size=train, random_state=seed)
    want = sizes(n, test, train)
    with rec.context(test=test, train=train, n_splits=k, sd=a, y=Y):
        if want is None or cnt.min() < 2 or want[0] < len(cnt) or want[1] < len(cnt):
            rec.rejects("stratified:impossible", lambda: list(cv.split(X, Y, sd)), ValueError, "a split that cannot be stratified")
            return
        folds = splits(rec, "stratified", cv, X, Y, sd, seed)
        rec.expect(len(folds) == k, "stratified:count", got=len(folds), want=k)
        for tr, te in folds:
            rec.expect((len(tr), len(te)) == want, "stratified:size", "requested sizes not honoured", got=(len(tr), len(te)), want=want)
            ct, ce = np.bincount(g[tr], minlength=len(cnt)), np.bincount(g[te], minlength=len(cnt))
            p = want[0] * cnt / n
            rec.expect((np.abs(ct - p) < 1 + 1e-9).all(), "stratified:train-proportion", "a (label, domain) group is over- or under-represented in train",
                       got=ct, want=p)
            left = cnt - ct
            p = want[1] * left / left.sum()
            rec.expect((np.abs(ce - p) < 1 + 1e-9).all(), "stratified:test-proportion", "a (label, domain) group is over- or under-represented in test",
                       got=ce, want=p)
            rec.event("groups-counted", len(cnt))
        # a group of m rows has each of its rows tested with frequency about t/m
        fr = min(floor(want[1] * c / n) / c for c in cnt)
        fair(rec, "stratified", folds, range(n), fr)
    rec.seen("strat", a, lab, [f[0] for f in folds][:3])


@case("C13", quick=1200, thorough=20000, requires=["folds", "coverage-checks", "rejections"])
def domain_shuffle(rec, rng):
    """DomainShuffleSplit: the same share of every domain takes part; roles keep their sizes."""
    X, y, sd = data(rng)
    a = np.asarray(sd)
    test, train = request(rng)
    us = zoo.pick(rng, [None, 1.0, .8, .5, float(np.round(rng.uniform(.3, 1), 2)), 1])
    k = int(zoo.pick(rng, [1, 2, 5, 120]))
    seed = seed_of(rng)
    kw = {} if us is None else dict(under_sampling=us)
    u = .8 if us is None else us
    cv = DomainShuffleSplit(n_splits=k, test_size=test, train_size=train, random_state=seed, **kw)
    s = a >= 0
    take = {d: int((a == d).sum() * u) for d in np.unique(a)}
    m = [sum(v for d, v in take.items() if (d >= 0) == src) for src in (True, False)]
    want = [sizes(v, test, train) if v else None for v in m]
    with rec.context(test=test, train=train, under_sampling=us, n_splits=k, sd=a):
        rec.rejects("domain-shuffle:under_sampling", lambda: DomainShuffleSplit(under_sampling=1.5), ValueError, "under_sampling above 1")
        rec.rejects("domain-shuffle:under_sampling", lambda: DomainShuffleSplit(under_sampling=-.5), ValueError, "negative under_sampling")
        if None in want:
            rec.rejects("domain-shuffle:impossible", lambda: list(cv.split(X, y, sd)), ValueError, "sizes that cannot be honoured")
            return
        folds = splits(rec, "domain-shuffle", cv, X, y, sd, seed)
        rec.expect(len(folds) == k, "domain-shuffle:count", got=len(folds), want=k)
        full = all(sum(w) == v for w, v in zip(want, m))
        for tr, te in folds:
            for src, w, nm in ((True, want[0], "source"), (False, want[1], "target")):
                got = ((a[tr] >= 0) == src).sum(), ((a[te] >= 0) == src).sum()
                rec.expect(got == w, f"domain-shuffle:size-{nm}", "requested sizes not honoured", got=got, want=w)
            used = a[np.r_[tr, te]]
            for d, v in take.items():
                c = (used == d).sum()
                rec.expect(c == v if full else c <= v, "domain-shuffle:share", "a domain takes part with another share than requested", domain=d, got=c, want=v)
            rec.event("groups-counted", len(take))
        fr = min(w[1] / v for w, v in zip(want, m)) * min(v / (a == d).sum() for d, v in take.items())
        fair(rec, "domain-shuffle", folds, range(len(a)), fr)
    rec.seen("ds", a, [f[0] for f in folds][:3])


@case("C13", quick=1000, thorough=15000, requires=["folds", "left-out-domains"])
def leave_one_out(rec, rng):
    """LeaveOneDomainOut on data where each domain occurs as source and as target."""
    nd = int(rng.integers(2, 7))
    ids = rng.choice(np.arange(1, 20), nd, replace=False)
    cnt = rng.integers(2, 15, nd)
    base = np.repeat(ids, cnt)
    sd = np.r_[base, -base]
    who = np.tile(np.arange(len(base)), 2)          # the physical sample behind each row
    o = gen.layout(rng, sd, zoo.pick(rng, ["sorted", "target_first", "alternate", "random"]))
    sd, who = sd[o], who[o]
    X = rng.normal(size=(len(sd), 2) if rng.random() < .8 else (len(sd), 2, 2))
    y = rng.integers(0, 3, len(sd))
    test, train = request(rng)
    mx = int(zoo.pick(rng, [10, 1, 2, nd, nd + 3]))
    seed = seed_of(rng)
    cv = LeaveOneDomainOut(max_n_splits=mx, test_size=test, train_size=train, random_state=seed)
    want = {d: (sizes(len(base) - c, test, train), sizes(c, test, train)) for d, c in zip(ids.tolist(), cnt.tolist())}
    with rec.context(test=test, train=train, max_n_splits=mx, sd=sd):
        if any(None in w for w in want.values()):
            if mx >= nd:
                rec.rejects("lodo:impossible", lambda: list(cv.split(X, y, sd)), ValueError, "sizes that cannot be honoured")
            return
        folds = splits(rec, "lodo", cv, X, y, sd, seed)
        rec.expect(len(folds) == min(mx, nd), "lodo:count", got=len(folds), want=min(mx, nd))
        left = []
        for tr, te in folds:
            t = np.unique(np.r_[sd[tr], sd[te]][np.r_[sd[tr], sd[te]] < 0])
            if not rec.expect(len(t) == 1, "lodo:alone", "not exactly one domain is left out", got=t):
                continue
            d = int(-t[0])
            left.append(d)
            (sr, se), (r, e) = want[d]
            rec.expect(not (sd[tr] == d).any() and not (sd[te] == d).any(), "lodo:leak", "the left-out domain also occurs as a source", domain=d)
            rec.expect(not set(who[tr][sd[tr] < 0].tolist()) & set(who[te].tolist()), "lodo:leak", "a left-out sample is both trained on and tested")
            got = (sd[tr] > 0).sum(), (sd[te] > 0).sum(), (sd[tr] < 0).sum(), (sd[te] < 0).sum()
            rec.expect(got == (sr, se, r, e), "lodo:size", "requested sizes not honoured", got=got, want=(sr, se, r, e))
            rec.event("left-out-domains")
        rec.expect(len(set(left)) == len(left), "lodo:repeat", "a domain is left out twice", got=left)
        if mx < nd and rng.random() < .1:       # which domains are kept is drawn: each must come up for some seed
            ever = set()
            for k in range(60 * nd):
                ever |= {int(v) for tr, te in LeaveOneDomainOut(max_n_splits=mx, test_size=test, train_size=train, random_state=k).split(X, y, sd)
                         for v in -sd[np.r_[tr, te]][sd[np.r_[tr, te]] < 0][:1]}
                if len(ever) == nd:
                    break
            rec.expect(len(ever) == nd, "lodo:never", "a domain is left out for no seed", never=sorted(set(ids.tolist()) - ever), seeds=60 * nd)
            rec.event("seeds-swept", k + 1)
    rec.seen("lodo", sd, left)
