"""C12: synthetic datasets against the definition of each generator."""
import numpy as np
from scipy.stats import multivariate_normal

from skada.datasets import (DomainAwareDataset, make_dataset_from_moons_distribution, make_shifted_blobs, make_shifted_datasets,
                            make_variable_frequency_dataset)

from .. import watch, zoo
from ..core import case

SIX = 6.5
# cluster of class 0: a uniform ellipse; the others: gaussians (mean, root covariance)
ELL = (np.array([2., 2.]), np.array([[2, -.5], [-.5, 2]]))
GAUSS = [((-1.5, 3), [[.15, 0], [0, .3]]), ((-.5, 1), [[.2, -.1], [-.1, .2]]), ((1, -.4), [[.17, -.05], [-.05, .17]]),
         ((3, -1), [[.3, 0], [0, .15]])]
SUB = [((-1, 1), [[.5, 0], [0, .5]]), ((1.5, .5), [[.1, 0], [0, .1]]), ((-.5, -1.5), [[.2, 0], [0, .2]])]


def forms(rec, fn, kw, seed, key):
    """The same call in each return form; returns (Xs, ys, Xt, yt) of one of them."""
    kw = dict(kw)
    with rec.call(key):
        X, y, sd = fn(random_state=seed, **kw)
        b = fn(random_state=seed, return_X_y=False, **kw)
        ds = fn(random_state=seed, return_dataset=True, **kw)
    rec.must(isinstance(ds, DomainAwareDataset), key + ":dataset-form", "not a dataset object", got=type(ds).__name__)
    rec.equal(b["X"], X, key + ":forms", "bunch and arrays hold different samples")
    rec.equal(b["y"], y, key + ":forms", "bunch and arrays hold different labels")
    rec.equal(b["sample_domain"], sd, key + ":forms", "bunch and arrays hold different domain labels")
    names = dict(b["domain_names"])
    rec.expect(list(names) == list(ds.domain_names_), key + ":names", "domain names", got=names)
    rec.expect(len(X) == len(y) == len(sd), key + ":lengths", "lengths differ")
    rec.expect(sorted(set(sd.tolist())) == sorted(names.values()), key + ":table", "domain table", names=names)
    for n, lab in names.items():
        got = ds.get_domain(n)
        rec.equal(X[sd == lab], got[0], key + ":forms", "dataset object and arrays hold different samples", name=n)
        rec.equal(y[sd == lab], got[1], key + ":forms", "dataset object and arrays hold different labels", name=n)
    with rec.call(key):
        a = fn(random_state=np.random.RandomState(seed), **kw)
        c = fn(random_state=np.random.RandomState(seed), **kw)
        g0 = watch.global_rng_state()
        fn(random_state=seed, **kw)
    for p, q, r in zip(a, c, (X, y, sd)):
        rec.equal(p, q, key + ":randomstate", "two equal RandomState instances give different data")
        rec.expect(p.shape == r.shape, key + ":randomstate-shape", "sizes depend on the form of the seed")
    rec.expect(watch.global_rng_state() == g0, key + ":global-rng", "a seeded generator consumed the global random state")
    with rec.call(key):
        np.random.seed(seed)
        n1 = fn(random_state=None, **kw)
    rec.expect(n1[0].shape == X.shape, key + ":none-seed", "sizes depend on the form of the seed")
    rec.expect(not np.array_equal(fn(random_state=seed + 1, **kw)[0], X), key + ":seed-ignored", "another seed gives the same data")
    rec.expect(np.isfinite(X).all() and np.isfinite(np.asarray(y, float)).all(), key + ":finite", "non-finite data")
    rec.event("forms-compared")
    return X, y, sd, names


@case("C12", quick=300, thorough=4000, requires=["forms-compared", "shifts"])
def blobs(rec, rng):
    p = int(rng.integers(1, 6))
    k = zoo.pick(rng, [None, 1, 4, "array"])
    cen = rng.normal(size=(int(rng.integers(2, 5)), p)) * 6 if k == "array" else k
    n = int(rng.integers(5, 60))
    shift = zoo.pick(rng, [float(rng.normal()), rng.normal(size=p), list(rng.normal(size=p)), 0.])
    std = zoo.pick(rng, [1.0, .01, 3.])
    noise = zoo.pick(rng, [None, .3, (.2, 0.), (0., .4), [.1, .5]])
    kw = dict(n_samples=n, n_features=p, shift=shift, centers=cen, cluster_std=std, noise=noise)
    if k == "array" and rng.random() < .3:
        kw["n_samples"] = [int(x) for x in rng.integers(2, 9, len(cen))]
        n = sum(kw["n_samples"])
    seed = int(rng.integers(1000))
    with rec.context(**kw):
        X, y, sd, names = forms(rec, make_shifted_blobs, kw, seed, "blobs")
        rec.expect(names == {"s": 1, "t": -2}, "blobs:names", got=names)
        rec.must(X.shape == (2 * n, p), "blobs:shape", got=X.shape)
        Xs, Xt, ys, yt = X[sd > 0], X[sd < 0], y[sd > 0], y[sd < 0]
        rec.equal(ys, yt, "blobs:labels", "the shift changes the labels")
        nc = len(cen) if k == "array" else (3 if cen is None else cen)
        rec.expect(set(ys.tolist()) <= set(range(nc)) and (n < nc or len(set(ys.tolist())) == nc), "blobs:classes", got=set(ys.tolist()))
        with rec.call("blobs"):
            X0, y0, _ = make_shifted_blobs(random_state=seed, **{**kw, "noise": None})
        Xs0, Xt0 = X0[sd > 0], X0[sd < 0]
        rec.equal(y0, y, "blobs:noise-labels", "noise changes the labels")
        rec.close(Xt0, Xs0 + np.asarray(shift), "blobs:shift", "target is not the source translated by the shift", rtol=1e-12, atol=1e-12)
        if k == "array":
            rec.expect((np.abs(Xs0 - cen[ys]) <= SIX * std + 1e-12).all(), "blobs:centers", "samples are not around their centers")
        a, b = (noise, noise) if noise is None or np.isscalar(noise) else noise
        noise_ok(rec, Xs - Xs0, a, "blobs:noise-source")
        noise_ok(rec, Xt - Xt0, b, "blobs:noise-target")
        rec.event("shifts")
    rec.seen("blobs", X)
    rec.sample(n=n, p=p, shift=shift, noise=noise)


def noise_ok(rec, r, scale, key):
    if not scale:
        rec.expect(np.abs(r).max() < 1e-12, key, "noise although none was requested", got=np.abs(r).max())
        return
    m = r.size
    rec.expect(np.abs(r).max() <= scale * 6.5, key, "noise larger than requested", got=np.abs(r).max(), scale=scale)
    rec.expect(abs(r.mean()) <= 6 * scale / np.sqrt(m), key, "noise not centred", got=r.mean(), scale=scale, m=m)
    # chi-square concentration
    s2 = (r ** 2).mean() / scale ** 2
    rec.expect(abs(s2 - 1) <= 8 * np.sqrt(2 / m) + 20. / m, key, "noise of another standard deviation than requested", got=s2, m=m)


def regf(X, kw, sub):
    mu, sg = kw.get("mu_regression"), kw.get("sigma_regression")
    if sub:
        return multivariate_normal(0 if mu is None else mu, 1 if sg is None else sg).pdf(X.mean(1)) * kw["regression_scaling_constant"]
    return multivariate_normal([0, 0] if mu is None else mu, np.eye(2) if sg is None else sg).pdf(X) * kw["regression_scaling_constant"]


def in_cluster(X, mu, S, unif=False):
    z = (X - np.asarray(mu)) @ np.linalg.inv(np.asarray(S))
    return (np.linalg.norm(z, axis=1) <= (1 + 1e-9 if unif else SIX)).all()


def clusters(rec, X, y, label, sub, key):
    """Each class sits on the clusters its definition names."""
    if sub:
        # half of the points are on the first cluster, a quarter on each of the others
        n = len(y) // 4
        bounds = np.cumsum([0, 2 * n, n, n])
        if label == "binary":
            size = [2 * n, 2 * n]
        else:
            size = [2 * n + 2 * n % 4] + 4 * [2 * n // 4]
        rec.equal(np.bincount(y, minlength=len(size)), size, key + "-balance", "classes of another size")
        first = np.cumsum([0] + size)
        groups = {c: [g for g in range(3) if bounds[g] < first[c + 1] and bounds[g + 1] > first[c]] for c in range(len(size)) if size[c]}
        for c, ks in groups.items():
            ok = np.zeros((y == c).sum(), bool)
            for g in ks:
                ok |= np.linalg.norm((X[y == c] - np.array(SUB[g][0])) @ np.linalg.inv(SUB[g][1]), axis=1) <= SIX
            rec.expect(ok.all(), key, "samples away from the clusters of their class", c=c)
        return
    z = np.linalg.norm((X[y == 0] - ELL[0]) @ np.linalg.inv(ELL[1]), axis=1)
    rec.expect((z <= 1 + 1e-9).all(), key, "class 0 outside its support")
    if label == "multiclass":
        for c in range(1, 5):
            rec.expect(in_cluster(X[y == c], *GAUSS[c - 1]), key, "samples away from the cluster of their class", c=c)
    else:
        ok = np.zeros((y == 1).sum(), bool)
        for mu, S in GAUSS:
            ok |= np.linalg.norm((X[y == 1] - np.array(mu)) @ np.linalg.inv(S), axis=1) <= SIX
        rec.expect(ok.all(), key, "samples away from the clusters of their class")


@case("C12", quick=400, thorough=5000, requires=["forms-compared", "shifts", "rejections"])
def shifted(rec, rng):
    shift = zoo.pick(rng, ["covariate_shift", "target_shift", "conditional_shift", "subspace"])
    label = zoo.pick(rng, ["binary", "multiclass", "regression"])
    ns, nt = int(rng.integers(2, 30)), int(rng.integers(2, 30))
    kw = dict(n_samples_source=ns, n_samples_target=nt, shift=shift, label=label)
    sub = shift == "subspace"
    kw["ratio"] = ratio = float(zoo.pick(rng, [.9, .5, .1, 0., 1., rng.random()]))
    kw["mean"] = mean = zoo.pick(rng, [1, -2.5, 0.])
    kw["sigma"] = sigma = zoo.pick(rng, [.7, 2., 1.])
    kw["gamma"] = gamma = zoo.pick(rng, [2, .5, 0.])
    kw["regression_scaling_constant"] = zoo.pick(rng, [27, 1.5])
    c = zoo.pick(rng, [(0, 2), (2, 2), (-1, 0)])
    kw["center_cov_shift"] = c
    if rng.random() < .5:
        kw["center"] = zoo.pick(rng, [(0, 2), (4, -3), (2, 2)])
    if label == "regression" and rng.random() < .5:
        kw["mu_regression"] = .3 if sub else np.array([1., .5])
        kw["sigma_regression"] = 2. if sub else np.array([[2., .3], [.3, 1.]])
    noise = zoo.pick(rng, [None, .2, (.3, 0.), (0., .25), [.1, .4]])
    std = bool(rng.random() < .25)
    seed = int(rng.integers(1000))
    with rec.context(seed=seed, **kw):
        X, y, sd, names = forms(rec, make_shifted_datasets, {**kw, "noise": noise, "standardize": std}, seed, f"shifted:{shift}")
        rec.expect(names == {"s": 1, "t": -2}, "shifted:names", got=names)
        s, t = sd > 0, sd < 0
        extra = 4 if not sub else 2
        # documented: 8 n per domain (the two class-balanced halves); the subspace variant has 4 n
        ws, wt = (8 * ns, 8 * nt) if not sub else (4 * ns, 4 * nt)
        if rec.expect(X.shape[1] == 2 and s.sum() == ws and t.sum() == wt, f"shifted:{shift}:size", got=(s.sum(), t.sum()), want=(ws, wt), extra=extra):
            pass
        with rec.call("shifted"):
            X0, y0, sd0 = make_shifted_datasets(random_state=seed, noise=None, **kw)
            Xn, yn, _ = make_shifted_datasets(random_state=seed, noise=noise, **kw)
        rec.equal(y0, y, f"shifted:{shift}:noise-labels", "noise or standardisation changes the labels")
        a, b = (noise, noise) if noise is None or np.isscalar(noise) else noise
        noise_ok(rec, (Xn - X0)[s], a, "shifted:noise-source")
        noise_ok(rec, (Xn - X0)[t], b, "shifted:noise-target")
        if std:
            rec.close(X, (Xn - Xn.mean(0)) / Xn.std(0), "shifted:standardize", "not standardised jointly", rtol=1e-9, atol=1e-9)
        else:
            rec.equal(X, Xn, "shifted:forms")
        Xs, ys, Xt, yt = X0[s], y0[s], X0[t], y0[t]
        # undo the shift: what is left must follow the source model
        U = {"conditional_shift": lambda: (Xt - mean) / sigma, "subspace": lambda: -Xt}.get(shift, lambda: Xt)()
        if label == "regression":
            for A, l, r in ((Xs, ys, "source"), (U, yt, "target")):
                rec.close(l, regf(A, kw, sub), f"shifted:{shift}:regression-{r}", "labels are not the documented function of the samples", rtol=1e-9, atol=1e-9)
        else:
            k = 5 if not sub else 5
            want = {0, 1} if label == "binary" else set(range(k))
            rec.expect(set(ys.tolist()) <= want and ys.dtype.kind == "i", "shifted:classes", got=set(ys.tolist()), want=want)
            clusters(rec, Xs, ys, label, sub, f"shifted:{shift}:source")
            clusters(rec, U, yt, label, sub, f"shifted:{shift}:target")
            rec.expect((ys == 0).sum() == (ys != 0).sum() if not (sub and label == "multiclass") else True, "shifted:source-balance",
                       got=np.bincount(ys))
            if label == "multiclass" and not sub:
                rec.expect((np.bincount(ys)[1:] == ns).all(), "shifted:source-balance", got=np.bincount(ys))
            if shift == "target_shift":
                n0 = int(8 * nt * ratio)
                rec.expect((yt == 0).sum() == n0, "shifted:target_shift:ratio", got=(yt == 0).sum(), want=n0)
            elif shift in ("conditional_shift", "subspace"):
                a, b = np.bincount(ys, minlength=5) / len(ys), np.bincount(yt, minlength=5) / len(yt)
                if label == "binary" or not sub:
                    rec.close(a, b, f"shifted:{shift}:proportions", "class proportions change", atol=1e-9)
        rec.expect(len(np.unique(Xt, axis=0)) == len(Xt), f"shifted:{shift}:distinct", "target samples drawn twice")
        if shift == "covariate_shift" and gamma and not sub:
            # target samples concentrate around the centre: none of the alternatives does that by chance
            ds_, dt_ = ((Xs - c) ** 2).sum(1), ((Xt - c) ** 2).sum(1)
            if len(ds_) >= 60 and len(dt_) >= 60 and gamma == 2:
                rec.expect(np.mean(dt_) < np.mean(ds_), "shifted:covariate_shift:concentration", "target is not concentrated around the centre",
                           got=np.mean(dt_), source=np.mean(ds_))
        rec.event("shifts")
        rec.event(f"shifts-{shift}-{label}")
    rec.rejects("shifted:unknown-shift", lambda: make_shifted_datasets(shift="nope"), ValueError, "unknown shift")
    rec.rejects("shifted:unknown-label", lambda: make_shifted_datasets(label="nope"), ValueError, "unknown label kind")
    rec.seen("shifted", X)


@case("C12", quick=200, thorough=3000, requires=["forms-compared", "shifts"])
def moons(rec, rng):
    ns, nt = int(rng.integers(1, 40)), int(rng.integers(1, 40))

    def pos():
        k = int(rng.integers(0, 4))
        return float(rng.random() * .99) if k == 0 else [float(v) for v in rng.random(k) * .99]
    ps, pt = pos(), pos()
    noise = zoo.pick(rng, [None, .2, (.3, 0.), (0., .3), [.1, .2]])
    kw = dict(n_samples_source=ns, n_samples_target=nt, pos_source=ps, pos_target=pt, noise=noise)
    seed = int(rng.integers(1000))
    with rec.context(**kw):
        X, y, sd, names = forms(rec, make_dataset_from_moons_distribution, kw, seed, "moons")
        a, b = (noise, noise) if noise is None or np.isscalar(noise) else noise
        ang = np.linspace(0, np.pi, 100)
        want = []
        for role, p, n, s in (("s", ps, ns, a), ("t", pt, nt, b)):
            lst = [(role, p)] if np.isscalar(p) else [(f"{role}{i}", v) for i, v in enumerate(p)]
            want += [(nm, v, n, s or 0.) for nm, v in lst]
        rec.must(list(names) == [w[0] for w in want], "moons:names", got=list(names), want=[w[0] for w in want])
        for nm, v, n, s in want:
            lab = names[nm]
            rec.expect((lab > 0) == (nm[0] == "s"), "moons:role", name=nm, label=lab)
            m = sd == lab
            rec.must(m.sum() == 2 * n, "moons:size", got=m.sum(), want=2 * n)
            th = ang[int(v * 100)]
            cen = np.array([[np.cos(th), np.sin(th)], [1 - np.cos(th), .5 - np.sin(th)]])
            sg = np.sqrt(.01 + s ** 2)
            for c in (0, 1):
                Z = X[m][y[m] == c]
                rec.expect(len(Z) == n, "moons:balance", got=len(Z), want=n)
                rec.expect(np.abs(Z - cen[c]).max() <= SIX * sg, "moons:position", "cluster is not at its position on the moon", name=nm, got=Z.mean(0), want=cen[c])
                rec.expect(np.abs(Z.mean(0) - cen[c]).max() <= SIX * sg / np.sqrt(n), "moons:position", "cluster is not at its position on the moon",
                           name=nm, got=Z.mean(0), want=cen[c])
                s2 = ((Z - cen[c]) ** 2).mean() / sg ** 2
                if n >= 10:
                    rec.expect(abs(s2 - 1) <= 8 / np.sqrt(n) + 20. / n, "moons:spread", "noise of another size than requested", name=nm, got=s2)
                    rec.expect(s2 > .2, "moons:spread", "noise of another size than requested", name=nm, got=s2)
        rec.event("shifts")
    rec.seen("moons", X)


@case("C12", quick=40, thorough=400, requires=["forms-compared", "shifts"])
def frequencies(rec, rng):
    ns, nt = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    ch, k = int(rng.integers(1, 3)), int(rng.integers(1, 5))
    nf = int(rng.integers(1, 3))
    delta = zoo.pick(rng, [1, 3., 0, 5, 2.6])
    band = zoo.pick(rng, [1, .5])
    noise = zoo.pick(rng, [None, None, .01, (.02, 0.)])
    kw = dict(n_samples_source=ns, n_samples_target=nt, n_channels=ch, n_frequencies=nf, n_classes=k, delta_f=delta, band_size=band,
              sigma_freq=.01, noise=noise)
    seed = int(rng.integers(1000))
    with rec.context(**kw):
        X, y, sd, names = forms(rec, make_variable_frequency_dataset, kw, seed, "frequency")
        rec.expect(names == {"s": 1, "t": -2}, "frequency:names", got=names)
        rec.must(X.shape == ((ns + nt) * k, ch, 3000), "frequency:shape", got=X.shape)
        s = sd > 0
        for m, n in ((s, ns), (~s, nt)):
            rec.equal(np.bincount(y[m], minlength=k), np.full(k, n), "frequency:classes")
        with rec.call("frequency"):
            X0, y0, _ = make_variable_frequency_dataset(random_state=seed, **{**kw, "noise": None})
        rec.equal(y0, y, "frequency:noise-labels")
        a, b = (noise, noise) if noise is None or np.isscalar(noise) else noise
        noise_ok(rec, (X - X0)[s], a, "frequency:noise-source")
        noise_ok(rec, (X - X0)[~s], b, "frequency:noise-target")
        # where the energy is: spectrum averaged over the samples and channels of a class
        fr = np.fft.rfftfreq(3000, .01)
        P = np.abs(np.fft.rfft(X0, axis=-1)) ** 2
        if nf == 1:
            cen = {}
            for c in range(k):
                for r, m in (("s", s), ("t", ~s)):
                    Q = P[m & (y == c)].mean((0, 1))
                    cen[r, c] = (Q * fr).sum() / Q.sum()
                f = round(cen["s", c] - band / 2)
                rec.expect(abs(cen["s", c] - band / 2 - f) < .3 and -1 <= f <= 15, "frequency:band", "source energy is not in a frequency band of the requested width",
                           c=c, got=cen["s", c], band=band)
                if cen["s", c] > 1:         # the lowest band folds at zero
                    rec.expect(abs(cen["t", c] - cen["s", c] - delta) < .25, "frequency:delta", "the band is not moved by delta_f", c=c,
                               got=cen["t", c] - cen["s", c], want=delta)
            v = sorted(round(cen["s", c] - band / 2) for c in range(k))
            rec.expect(len(set(v)) == k, "frequency:distinct", "two classes share a band", got=v)
        rec.event("shifts")
    rec.seen("frequency", X)
