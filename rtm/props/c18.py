"""C18: importance weights against the density-ratio model of each method."""
import warnings

import numpy as np
from scipy.optimize import linprog, minimize
from scipy.special import logsumexp
from scipy.stats import spearmanr
from sklearn.base import clone
from sklearn.covariance import ledoit_wolf
from sklearn.linear_model import LogisticRegression
from sklearn.metrics.pairwise import pairwise_kernels
from sklearn.mixture import GaussianMixture
from sklearn.model_selection import KFold
from sklearn.naive_bayes import GaussianNB
from sklearn.neighbors import KernelDensity

import skada
from skada import make_da_pipeline

from .. import gen, spies, zoo
from ..core import Skip, case

S = skada


def fit_weights(rec, a, d, key, y=None):
    """(weights from fit_transform, the fitted adapter); monitors what every reweighter promises."""
    y = d.mask() if y is None else y
    X0 = d.X.copy()
    with rec.call(key), warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        X, p = a.fit_transform(d.X, y, sample_domain=d.sd)
        a.warned = [str(w.message) for w in ws]
    rec.equal(np.asarray(X), X0, key + ":X", "reweighting touched the samples")
    rec.must(set(p) == {"sample_weight"} and np.shape(p["sample_weight"]) == (len(d.X),), key + ":shape", "not one weight per sample", got=list(p))
    w = np.asarray(p["sample_weight"], float)
    valid(rec, w, d.src, key)
    return w


def valid(rec, w, src, key):
    rec.expect(np.isfinite(w).all(), key + ":finite", "weights are not finite", got=w[src])
    rec.expect((w >= 0).all(), key + ":negative", "negative weights", got=w.min())
    rec.expect((w[~src] == 0).all(), key + ":targets", "target samples carry weight", got=w[~src].max())
    rec.event("weights", len(w))


def new_data(rng, d):
    """A new batch with sources and targets."""
    X, sd = gen.new_rows(rng, d, n=25)
    if (sd >= 0).sum() < 4 or (sd < 0).sum() < 2:
        raise Skip("one role")
    return X, sd


def kde(X, Y, bw):
    p = X.shape[1]
    d2 = ((X[:, None] - Y[None]) ** 2).sum(-1)
    return logsumexp(-d2 / (2 * bw ** 2), axis=1) - np.log(len(Y)) - p / 2 * np.log(2 * np.pi) - p * np.log(bw)


def cov(X, reg):
    Z = X - X.mean(0)
    C = Z.T @ Z / len(X)
    if reg is None:
        return C
    if reg == "auto":
        # shrinkage of the standardised data, as scikit-learn's discriminant analysis does, would be another choice: accept the library's own
        sc = X.std(0)
        return None
    return (1 - reg) * C + reg * np.trace(C) / len(C) * np.eye(len(C))


def gauss_logpdf(X, m, C):
    L = np.linalg.slogdet(C)[1]
    Z = X - m
    return -.5 * ((Z @ np.linalg.inv(C)) * Z).sum(1) - .5 * L - .5 * X.shape[1] * np.log(2 * np.pi)


@case("C18", quick=500, thorough=8000, requires=["ratios", "weights"])
def ratio_models(rec, rng):
    """Density, Gaussian and discriminator ratios; on the training rows and on a new batch."""
    d = gen.da(rng, "clf", n_per=(10, 25), shift=float(zoo.pick(rng, [.3, 1., 2., 6.])))
    if rng.random() < .15:      # the domains coincide
        k = min(d.src.sum(), (~d.src).sum())
        i, j = np.flatnonzero(d.src)[:k], np.flatnonzero(~d.src)[:k]
        keep = np.sort(np.r_[i, j])
        d.X[j] = d.X[i]
        d["X"], d["y"], d["sd"] = d["X"][keep], d["y"][keep], d["sd"][keep]
    m = zoo.pick(rng, ["kde", "kde", "gmm", "gauss", "gauss", "disc", "disc-nb"])
    few = m in ("kde", "gauss", "disc") and rng.random() < .25
    if few:                     # fewer samples in a role than features
        role = d.src if rng.random() < .3 else ~d.src
        drop = np.flatnonzero(role)[int(rng.integers(2, d.X.shape[1] + 1)):]
        keep = np.setdiff1d(np.arange(len(d.X)), drop)
        d["X"], d["y"], d["sd"] = d["X"][keep], d["y"][keep], d["sd"][keep]
    s = d.src
    Xn, sdn = new_data(rng, d)
    Xs, Xt = d.X[s], d.X[~s]
    with rec.context(method=m, sd=d.sd):
        if m in ("kde", "gmm"):
            bw = float(zoo.pick(rng, [1., .5, 3.]))
            E = KernelDensity(bandwidth=bw) if m == "kde" else GaussianMixture(1, random_state=0)
            a = S.DensityReweightAdapter(weight_estimator=None if m == "kde" and bw == 1. else E)
            w = fit_weights(rec, a, d, m)
            if m == "kde":
                lr = lambda Z: kde(Z, Xt, bw) - kde(Z, Xs, bw)
            else:
                es, et = clone(E).fit(Xs), clone(E).fit(Xt)
                lr = lambda Z: et.score_samples(Z) - es.score_samples(Z)
            norm, rt = True, 1e-6
        elif m == "gauss":
            reg = zoo.pick(rng, [None, .1, .5, "auto"] if not few else [.1, .5, 1.])
            a = S.GaussianReweightAdapter(reg=reg)
            if few:
                with np.errstate(over="ignore"):
                    if not np.isfinite(np.exp(gauss_logpdf(Xs, Xt.mean(0), cov(Xt, reg)) - gauss_logpdf(Xs, Xs.mean(0), cov(Xs, reg)))).all():
                        raise Skip("the ratio overflows")
            w = fit_weights(rec, a, d, m)
            if reg == "auto":
                from sklearn.preprocessing import StandardScaler
                def C(X):
                    sc = StandardScaler().fit(X)
                    return sc.scale_[:, None] * ledoit_wolf(sc.transform(X))[0] * sc.scale_[None]
                c1, c2 = C(Xs), C(Xt)
            else:
                c1, c2 = cov(Xs, reg), cov(Xt, reg)
            lr = lambda Z: gauss_logpdf(Z, Xt.mean(0), c2) - gauss_logpdf(Z, Xs.mean(0), c1)
            norm, rt = False, 1e-5
        else:
            D = zoo.pick(rng, [LogisticRegression(), LogisticRegression(C=.05)]) if m == "disc" else GaussianNB(var_smoothing=.1)
            a = S.DiscriminatorReweightAdapter(None if m == "disc" and rng.random() < .3 else D)
            if a.get_params(deep=False)["domain_classifier"] is not D and m == "disc":
                D = LogisticRegression()
            w = fit_weights(rec, a, d, m)
            c = clone(D).fit(d.X, (~s).astype(int))
            lr = lambda Z: np.log(np.maximum(c.predict_proba(Z)[:, 1], 1e-300)) - np.log(np.maximum(c.predict_proba(Z)[:, 0], 1e-16))
            norm, rt = True, 1e-5
        for Z, sz, ww in ((d.X, d.sd, w), (Xn, sdn, None)):
            q = lr(Z[sz >= 0])
            q = q - max(q.max(), 0) if norm else q      # the common factor cancels below
            r = np.exp(np.minimum(q, 800 if few and ww is None else np.inf))
            if few and not np.isfinite(r).all():
                continue
            if m.startswith("disc") and (c.predict_proba(Z[sz >= 0])[:, 0] < 1e-9).any():
                continue  # decided by how a vanishing probability is kept from zero
            if ww is None:
                with rec.call(m + ":new"):
                    ww = np.asarray(a.compute_weights(Z, sample_domain=sz), float)
                valid(rec, ww, sz >= 0, m)
            if norm:
                if not r.sum() > 1e-200:
                    continue
                r = r / r.mean()
            rec.close(ww[sz >= 0], r, f"ratio:{m}", "not the target-to-source ratio of the method's model", rtol=rt, atol=1e-8 * max(1, r.max()))
            rec.event("ratios", int((sz >= 0).sum()))
    rec.seen("ratio", m, d.X)
    rec.sample(method=m, weights=w[s][:4], mean=float(w[s].mean()))


@case("C18", quick=250, thorough=4000, requires=["neighbour-counts"])
def nearest_neighbours(rec, rng):
    """Nearest-neighbour weights count the targets whose nearest source is the sample."""
    d = gen.da(rng, "clf", n_per=(8, 25))
    metric = zoo.pick(rng, ["minkowski", "manhattan", "chebyshev"])
    laplace = bool(rng.random() < .4)
    k = int(zoo.pick(rng, [1, 1, 3]))
    weights = "distance" if k > 1 else zoo.pick(rng, ["uniform", "distance"])
    a = S.NearestNeighborReweightAdapter(n_neighbors=k, weights=weights, metric=metric, laplace_smoothing=laplace,
                                         algorithm=zoo.pick(rng, ["auto", "brute", "kd_tree"]))
    w = fit_weights(rec, a, d, "nn")
    Xn, sdn = new_data(rng, d)
    with rec.call("nn:new"):
        wn = np.asarray(a.compute_weights(Xn, sample_domain=sdn), float)
    valid(rec, wn, sdn >= 0, "nn")
    f = {"minkowski": lambda A: np.sqrt((A ** 2).sum(-1)), "manhattan": lambda A: np.abs(A).sum(-1), "chebyshev": lambda A: np.abs(A).max(-1)}[metric]
    for X, sd, ww in ((d.X, d.sd, w), (Xn, sdn, wn)):
        s = sd >= 0
        D = f(X[~s][:, None] - X[s][None])
        Q = np.sort(D, 1)
        if (Q[:, 1] - Q[:, 0] < 1e-9).any():
            continue
        want = np.bincount(D.argmin(1), minlength=int(s.sum())) + float(laplace)
        rec.equal(ww[s], want, "nn:count", "not the number of target samples nearest to each source sample", k=k, metric=metric, laplace=laplace)
        rec.event("neighbour-counts", int(s.sum()))
    rec.seen("nn", k, metric, d.X)


def fw_gap(grad, x, A, b, bounds):
    """Upper bound of f(x) - f*: the linearised objective over the feasible set."""
    r = linprog(grad, A_ub=A, b_ub=b, bounds=bounds, method="highs")
    if r.status != 0:
        raise Skip("linear program failed")
    return float(grad @ x - r.fun)


@case("C18", quick=200, thorough=3000, requires=["kmm-optima", "kmm-kernel-rows"])
def kernel_mean_matching(rec, rng):
    d = gen.da(rng, "clf", n_per=(8, 14), ns=int(rng.integers(1, 3)), nt=int(rng.integers(1, 3)), shift=float(zoo.pick(rng, [.3, 1.])), sep=1.)
    solver = zoo.pick(rng, ["scipy", "frank-wolfe"])
    kern, kp = zoo.pick(rng, [("rbf", dict(gamma=.3)), ("rbf", dict(gamma=1.)), ("rbf", dict(gamma=None)), ("linear", {}), ("laplacian", dict(gamma=.5)),
                              ("poly", dict(gamma=.2, degree=2, coef0=1.))])
    B = float(zoo.pick(rng, [1000., 1000., 2.])) if solver == "scipy" else 1000.
    eps = zoo.pick(rng, [None, None, .1, .5])
    smooth = bool(rng.random() < .2)
    kw = dict(kernel=kern, B=B, eps=eps, solver=solver, smooth_weights=smooth, **kp)
    a = S.KMMReweightAdapter(**kw)
    s = d.src
    Xs, Xt = d.X[s], d.X[~s]
    n = len(Xs)
    K = lambda A, Bm: pairwise_kernels(A, Bm, metric=kern, filter_params=True, **{**dict(gamma=None, degree=3, coef0=1), **kp})
    with rec.context(solver=solver, kernel=kern, B=B, eps=eps, smooth=smooth, sd=d.sd):
        with rec.call("kmm"), warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            X, p = a.fit_transform(d.X, d.mask(), sample_domain=d.sd)
        w = np.asarray(p["sample_weight"], float)
        rec.equal(np.asarray(X), d.X, "kmm:X", "reweighting touched the samples")
        converged = not any("teration" in str(x.message) or "ositive" in str(x.message) for x in ws)
        fit = np.asarray(a.source_weights_, float)
        e = (np.sqrt(n) - 1) / np.sqrt(n) if eps is None else eps
        tol = 1e-5 * n
        if smooth:
            want = K(Xs, Xs) @ fit
            rec.close(w[s], want, "kmm:smooth", "smoothed weights are not the kernel expansion", rtol=1e-8, atol=1e-10)
        else:
            rec.close(w[s], fit, "kmm:train", "training weights are not the fitted ones", rtol=1e-9, atol=1e-12)
        rec.expect((w[~s] == 0).all(), "kmm:targets", "target samples carry weight")
        rec.event("weights", len(w))
        if converged:
            rec.expect((fit >= 0).all() and (fit <= B + tol).all(), "kmm:box", "weights leave [0, B]", lo=fit.min(), hi=fit.max())
            rec.expect(n * (1 - e) - tol <= fit.sum() <= n * (1 + e) + tol, "kmm:sum", "the weights do not sum to about the number of sources",
                       got=fit.sum(), n=n, eps=e)
            Kss, kappa = K(Xs, Xs), n * K(Xs, Xt).mean(1)
            f = lambda x: .5 * x @ Kss @ x - kappa @ x
            A = np.stack([np.ones(n), -np.ones(n)])
            b = np.array([n * (1 + e), -n * (1 - e)])
            scale = abs(f(fit)) + abs(f(np.ones(n))) + 1
            if solver == "scipy":
                rel, lim = fw_gap(Kss @ fit - kappa, fit, A, b, [(0, B)] * n) / scale, 2e-2
            else:       # the gap is not monotone along a Frank-Wolfe run: compare with an optimum, within the method's guarantee
                top = minimize(f, np.ones(n), jac=lambda x: Kss @ x - kappa, bounds=[(0, B)] * n, method="SLSQP",
                               constraints=[dict(type="ineq", fun=lambda x: b - A @ x, jac=lambda x: -A)], options=dict(maxiter=2000, ftol=1e-12))
                dg = np.diag(Kss)
                curv = (n * (1 + e)) ** 2 * max(np.max(dg[:, None] + dg[None] - 2 * Kss), np.max(dg))
                rel, lim = (f(fit) - top.fun) / scale, 2 * curv / 1000 / scale + 1e-3
            rec.expect(rel <= lim, "kmm:optimal", "the weights do not minimise the mean discrepancy", relative_gap=rel, f=f(fit), f_uniform=f(np.ones(n)))
            rec.expect(f(fit) <= f(np.ones(n)) + lim * scale, "kmm:uniform", "matching is worse than no weights", f=f(fit), f_uniform=f(np.ones(n)))
            rec.event("kmm-optima")
        Xn, sdn = new_data(rng, d)
        with rec.call("kmm:new"):
            wn = np.asarray(a.compute_weights(Xn, sample_domain=sdn), float)
        rec.close(wn[sdn >= 0], K(Xn[sdn >= 0], Xs) @ fit, "kmm:new", "weights of new rows are not the kernel expansion", rtol=1e-8, atol=1e-10)
        rec.expect((wn[sdn < 0] == 0).all(), "kmm:targets", "target samples carry weight")
        rec.event("kmm-kernel-rows", int((sdn >= 0).sum()))
    rec.seen("kmm", solver, kern, d.X)


@case("C18", quick=160, thorough=2500, requires=["target-shift-optima", "class-weights"])
def target_shift(rec, rng):
    """Target-shift matching: one weight per class (or a smooth function of the label), optimal for its own discrepancy."""
    task = zoo.pick(rng, ["clf", "clf", "reg"])
    d = gen.da(rng, task, n_per=(10, 16), ns=int(rng.integers(1, 3)), nt=int(rng.integers(1, 3)), sep=2., shift=.2)
    s = d.src
    if task == "clf" and rng.random() < .7:       # change the class proportions of the targets
        keep = s | (rng.random(len(s)) < np.where(d.y == d.labels[0], .25, 1.))
        if (keep & ~s).sum() > 5:
            d["X"], d["y"], d["sd"] = d["X"][keep], d["y"][keep], d["sd"][keep]
            s = d.src
    gamma = float(zoo.pick(rng, [.2, .5, 1.]))
    reg = float(zoo.pick(rng, [1e-10, 1e-6, 1e-3]))
    a = S.MMDTarSReweightAdapter(gamma=gamma, reg=reg)
    w = fit_weights(rec, a, d, "mmdtars", y=d.mask() if rng.random() < .7 else d.y)
    warned = a.warned
    ws = w[s]
    m, n = int(s.sum()), int((~s).sum())
    Xs, Xt, ys = d.X[s], d.X[~s], d.y[s].astype(float)
    rbf = lambda A, B: np.exp(-gamma * ((A[:, None] - B[None]) ** 2).sum(-1))
    with rec.context(task=task, gamma=gamma, reg=reg, sd=d.sd):
        eps = 10 / (4 * np.sqrt(m))
        conv = not any("teration" in x or "ositive" in x or "ingular" in x or "ncompatible" in x for x in warned)
        if task == "clf":
            for c in d.labels:
                rec.expect(np.ptp(ws[d.y[s] == c]) <= 1e-9, "mmdtars:class", "samples of one class carry different weights", label=c)
                rec.event("class-weights")
        if conv:
            rec.expect((ws <= 10 + 1e-3).all(), "mmdtars:box", "weights exceed the bound", hi=ws.max())
            rec.expect(m * (1 - eps) - .01 * m <= ws.sum() <= m * (1 + eps) + .01 * m, "mmdtars:sum", "weights do not average to about one", got=ws.mean(), eps=eps)
        if conv and task == "clf":
            L = rbf(ys[:, None], ys[:, None])
            Om = L @ np.linalg.inv(L + reg * np.eye(m))
            R = (d.y[s][:, None] == np.asarray(d.labels)[None]).astype(float)
            A = Om @ rbf(Xs, Xs) @ Om.T
            P = R.T @ A @ R
            q = (m / n) * (rbf(Xt, Xs).sum(0) @ Om.T @ R)
            al = np.array([ws[d.y[s] == c][0] for c in d.labels])
            cnt = R.sum(0)
            gap = fw_gap(P @ al - q, al, np.stack([cnt, -cnt]), np.array([m * (1 + eps), -m * (1 - eps)]), [(0, 10)] * len(al))
            f = lambda x: .5 * x @ P @ x - q @ x
            scale = abs(f(al)) + abs(f(np.ones(len(al)))) + 1
            rec.expect(gap / scale <= 2e-2, "mmdtars:optimal", "the class weights do not minimise the discrepancy", relative_gap=gap / scale, alpha=al)
            rec.event("target-shift-optima")
        # other source rows
        Xn, sdn = new_data(rng, d)
        yn = rng.choice(d.labels if rng.random() < .6 else d.labels[int(rng.integers(len(d.labels))):][:2], len(Xn)) if task == "clf" else rng.normal(size=len(Xn)) + .123
        with rec.call("mmdtars:new"):
            wn = np.asarray(a.compute_weights(Xn, yn, sample_domain=sdn), float)
        sn = sdn >= 0
        valid(rec, wn, sn, "mmdtars")
        if task == "clf":
            lut = {c: ws[d.y[s] == c][0] for c in d.labels}
            rec.close(wn[sn], [lut[c] for c in yn[sn]], "mmdtars:new", "new samples do not get the weight of their class", rtol=1e-6, atol=1e-9)
        else:
            i = ((Xn[sn][:, None] - Xs[None]) ** 2).sum(-1).argmin(1)
            rec.close(wn[sn], ws[i], "mmdtars:new", "new samples do not get the weight of the nearest source sample", rtol=1e-6, atol=1e-9)
    rec.seen("mmdtars", task, d.X)


@case("C18", quick=150, thorough=2500, requires=["likelihoods", "gamma-choices"])
def likelihood_fit(rec, rng):
    d = gen.da(rng, "clf", n_per=(10, 20), ns=int(rng.integers(1, 3)), nt=int(rng.integers(1, 3)), sep=1.)
    unit = float(zoo.pick(rng, [1., 1., .01]))     # the features may have any unit
    s = d.src
    if unit != 1:
        d["X"] = d["X"] * unit
    Xs, Xt = d.X[s], d.X[~s]
    many = bool(rng.random() < .5)
    cand = sorted(rng.choice([.05, .2, .5, 1., 3., 8.], 3, replace=False).tolist())
    form = zoo.pick(rng, [list, tuple, np.array])
    gamma = form(cand) if many else zoo.pick(rng, [.3, 1., "scale", "auto"])
    nc, cv, seed = int(zoo.pick(rng, [100, 5, 12])), int(rng.integers(2, 5)), int(rng.integers(1000))
    a = S.KLIEPReweightAdapter(gamma=gamma, cv=cv, n_centers=nc, random_state=seed)
    w = fit_weights(rec, a, d, "kliep")
    rbf = lambda A, B, g: np.exp(-g * ((A[:, None] - B[None]) ** 2).sum(-1))
    with rec.context(gamma=gamma, cv=cv, n_centers=nc, sd=d.sd):
        C, al = np.asarray(a.centers_), np.asarray(a.alpha_)
        rec.expect(len(C) == min(nc, len(Xt)) == len(al), "kliep:centers", "number of centers", got=len(C))
        rec.expect(all((c == Xt).all(1).any() for c in C), "kliep:centers", "a center is not a target sample")
        rec.expect((al >= 0).all(), "kliep:alpha", "negative coefficients", got=al.min())
        g = a.best_gamma_
        if not many:
            want = {"scale": 1 / (d.X.shape[1] * d.X.var()), "auto": 1 / d.X.shape[1]}.get(gamma, gamma)
            rec.close(g, want, "kliep:gamma", "kernel parameter", rtol=1e-9)
        else:
            rec.expect(any(np.isclose(g, c) for c in cand), "kliep:gamma", "the chosen parameter is not a candidate", got=g)
            sc = []
            for c in cand:
                ll = []
                for tr, te in KFold(cv).split(Xt):
                    X2 = np.concatenate([Xs, Xt[tr]])
                    b = S.KLIEPReweightAdapter(gamma=c, n_centers=nc, random_state=seed).fit(X2, sample_domain=np.r_[np.ones(len(Xs), int), -2 * np.ones(len(tr), int)])
                    ll.append(np.mean(np.log(rbf(Xt[te], b.centers_, c) @ b.alpha_ + np.finfo(float).eps)))
                sc.append(np.mean(ll))
            best = sc[[i for i, c in enumerate(cand) if np.isclose(g, c)][0]]
            rec.expect(best >= max(sc) - 1e-7, "kliep:cv", "the chosen kernel parameter is not the most likely one", scores=sc, chosen=g)
            rec.event("gamma-choices")
        rec.close(w[s], rbf(Xs, C, g) @ al, "kliep:weights", "the weights are not the kernel expansion", rtol=1e-8, atol=1e-10)
        rec.close(w[s].mean(), 1., "kliep:mean", "the weights do not average to one over the sources", rtol=1e-6)
        Xn, sdn = new_data(rng, d)
        with rec.call("kliep:new"):
            wn = np.asarray(a.compute_weights(Xn, sample_domain=sdn), float)
        valid(rec, wn, sdn >= 0, "kliep")
        rec.close(wn[sdn >= 0], rbf(Xn[sdn >= 0], C, g) @ al, "kliep:new", "the weights are not the kernel expansion", rtol=1e-8, atol=1e-10)
        # the likelihood of the targets under the fitted ratio against its maximum for the same centers
        A, bb = rbf(Xt, C, g), rbf(Xs, C, g).mean(0)
        ll = np.log(np.maximum(A @ al, 1e-300)).mean()
        x = np.full(len(C), 1.)
        x /= bb @ x
        for _ in range(3000):       # EM for max log(A x) s.t. b.x = 1, x >= 0
            x = x * (A.T @ (1 / np.maximum(A @ x, 1e-300))) / len(Xt) / bb
            x /= bb @ x
        top = np.log(np.maximum(A @ x, 1e-300)).mean()
        if top - ll > .05:
            rec.violate("kliep-not-maximiser", "the fitted ratio does not maximise the likelihood of the target samples (the ascent step is the machine epsilon)",
                        likelihood=ll, maximum=top)
        rec.expect(ll <= top + 1e-3, "kliep:above-maximum", "the coefficients violate the normalisation", ll=ll, top=top)
        rec.event("likelihoods")
    rec.seen("kliep", d.X, many)


@case("C18", quick=280, thorough=4000, requires=["weights", "refits"])
def every_method(rec, rng):
    """All methods of the catalogue: validity on hostile data, refit independence, zero for targets, pipeline delivery."""
    es = zoo.reweighters()
    e = es[rec.idx % len(es)]
    task = zoo.pick(rng, e.tasks)
    far = rng.random() < .2
    d = gen.da(rng, task, n_per=(6, 16), shift=float(20. if far else zoo.pick(rng, [0., 1., 3.])))
    if far and e.name.startswith(("Gaussian", "KLIEP")):
        raise Skip("underflowing densities or kernels")
    a = e.make()
    with rec.context(method=e.name, far=far, sd=d.sd):
        y = d.mask()
        with rec.call(e.name), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            X, p = a.fit_transform(d.X, y, sample_domain=d.sd)
        w = np.asarray(p["sample_weight"], float)
        rec.equal(np.asarray(X), d.X, f"{e.name}:X", "reweighting touched the samples")
        valid(rec, w, d.src, e.name)
        rec.expect(w[d.src].sum() > 0, f"{e.name}:all-zero", "every source sample weighs nothing")
        # weights reach the estimator of a pipeline
        clf = (spies.SpyClassifier() if task == "clf" else spies.SpyRegressor()).set_fit_request(sample_weight=True)
        spies.take()
        with rec.call(e.name), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            make_da_pipeline(e.make(), clf).fit(d.X, y, sample_domain=d.sd)
        ev = [x for x in spies.take() if x.call == "fit"]
        rec.must(len(ev) == 1, f"{e.name}:fits", got=len(ev))
        rec.equal(ev[0].X, d.X[d.src], f"{e.name}:delivered", "the estimator was fitted on other rows")
        rec.close(ev[0].sample_weight, w[d.src], f"{e.name}:delivered", "the estimator got other weights than the adapter computed", rtol=1e-6, atol=1e-8)
        rec.event("refits")
    rec.seen("all", e.name, d.X)


@case("C18", quick=140, thorough=2000, requires=["directions"])
def direction(rec, rng):
    """Sources lying where the targets are weigh more: rank correlation with the true ratio of two shifted Gaussians."""
    es = [e for e in zoo.reweighters() if not e.uses_y]
    e = es[rec.idx % len(es)]
    n, m = 60, 60
    u = rng.normal(size=2)
    u /= np.linalg.norm(u)
    delta = float(rng.uniform(1., 1.8))
    Xs, Xt = rng.normal(size=(n, 2)), rng.normal(size=(m, 2)) + delta * u
    o = rng.permutation(n + m)
    X, sd = np.concatenate([Xs, Xt])[o], np.r_[np.full(n, 3), np.full(m, -4)][o]
    y = (X @ u > 0).astype(int)
    with rec.call(e.name), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        w = np.asarray(e.make().fit_transform(X, np.where(sd >= 0, y, -1), sample_domain=sd)[1]["sample_weight"])
    s = sd >= 0
    r = 1. if e.name.startswith("KMM") else spearmanr(w[s], X[s] @ u)[0]      # matching returns sparse solutions
    near, far = w[s][X[s] @ u > delta / 2].mean(), w[s][X[s] @ u < -delta / 2].mean()
    rec.expect(r > .15 and near > far, f"direction:{e.name}", "sources close to the targets weigh less than those far away", spearman=r, near=near, far=far)
    rec.event("directions")
    rec.seen("direction", e.name, X)


@case("C18", quick=2, thorough=4, requires=["kliep-disjoint", "kmm-bounds"])
def deterministic(rec, rng):
    """Two inputs recorded in known_findings.json."""
    X = np.concatenate([rng.normal(size=(12, 2)), rng.normal(size=(12, 2)) + 200])
    sd = np.r_[np.ones(12, int), np.full(12, -2)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with rec.call("kliep"):
            w = S.KLIEPReweightAdapter(gamma=1., random_state=0).fit_transform(X, sample_domain=sd)[1]["sample_weight"]
        if not np.isfinite(w).all():
            rec.violate("kliep-disjoint-supports", "NaN weights when no source lies within the kernel's reach of any target", weights=w[:4])
        rec.event("kliep-disjoint")
        Y = np.concatenate([rng.normal(size=(20, 2)), rng.normal(size=(20, 2)) * .3 + 1.5])
        sd = np.r_[np.ones(20, int), np.full(20, -2)]
        for B in (1.2, 2.):
            with rec.call("kmm"):
                w = S.KMMReweightAdapter(gamma=1., B=B, eps=.5, solver="frank-wolfe").fit_transform(Y, sample_domain=sd)[1]["sample_weight"]
            if w.max() > B + 1e-3:
                rec.violate("kmm-frank-wolfe-ignores-B", "the default solver does not enforce the bound B on the weights", B=B, largest=w.max())
            with rec.call("kmm"):
                w = S.KMMReweightAdapter(gamma=1., B=B, eps=.5, solver="scipy").fit_transform(Y, sample_domain=sd)[1]["sample_weight"]
            rec.expect(w.max() <= B + 1e-3, "kmm:B", "weights exceed B", B=B, largest=w.max())
            rec.event("kmm-bounds")
    rec.seen("det", rec.idx)
