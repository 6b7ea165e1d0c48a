"""C19: mapping adapters move the sources by the map of their method and leave the targets alone."""
import warnings

import numpy as np
import ot
from scipy.optimize import linprog
from scipy.special import logsumexp
from scipy.spatial.distance import cdist
from sklearn.covariance import ledoit_wolf
from sklearn.preprocessing import StandardScaler

import skada

from .. import gen, zoo
from ..core import Skip, case

S = skada


def run(rec, a, d, key, y=None, X=None):
    X = d.X if X is None else X
    X0 = X.copy()
    with rec.call(key), warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        Z = np.asarray(a.fit_transform(X, d.mask() if y is None else y, sample_domain=d.sd))
    rec.equal(X, X0, key + ":input", "the input array was changed")
    rec.must(Z.shape == X.shape, key + ":shape", "shape of the mapped data", got=Z.shape, want=X.shape)
    rec.expect(np.isfinite(Z).all(), key + ":finite", "mapped samples are not finite")
    return Z, [str(w.message) for w in ws]


def again(rec, a, X, sd, key):
    with rec.call(key + ":new"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return np.asarray(a.transform(X, sample_domain=sd, allow_source=True))


def targets_kept(rec, X, Z, sd, key):
    rec.equal(Z[sd < 0], X[sd < 0], key + ":targets", "target samples were moved")
    rec.event("targets-kept", int((sd < 0).sum()))


def new_rows(rng, d, n=20):
    X, sd = gen.new_rows(rng, d, n=n)
    if (sd >= 0).sum() < 1 or (sd < 0).sum() < 1:
        raise Skip("one role")
    return X, sd


def cost(Xs, Xt, metric, norm):
    C = cdist(Xs, Xt, metric)
    return {None: lambda: C, "max": lambda: C / C.max(), "median": lambda: C / np.median(C), "log": lambda: np.log(1 + C),
            "loglog": lambda: np.log(1 + np.log(1 + C))}[norm]()


def emd(C):
    """Optimal uniform coupling by linear programming; second value: is it the only one?"""
    n, m = C.shape
    A = np.zeros((n + m, n * m))
    for i in range(n):
        A[i, i * m:(i + 1) * m] = 1
    for j in range(m):
        A[n + j, j::m] = 1
    b = np.r_[np.full(n, 1 / n), np.full(m, 1 / m)]
    r = linprog(C.ravel(), A_eq=A, b_eq=b, method="highs", options=dict(primal_feasibility_tolerance=1e-10, dual_feasibility_tolerance=1e-10))
    if r.status != 0:
        raise Skip("linear program failed")
    red = C.ravel() - A.T @ r.eqlin.marginals
    P = r.x.reshape(n, m)
    unique = (red[r.x < 1e-12] > 1e-7 * C.max()).all()
    return P, unique, r.fun


def sinkhorn(C, reg, iters=20000):
    n, m = C.shape
    f, g = np.zeros(n), np.zeros(m)
    K = -C / reg
    for k in range(iters):
        f0 = f
        f = -np.log(n) - logsumexp(K + g[None], axis=1)
        g = -np.log(m) - logsumexp(K + f[:, None], axis=0)
        if k and np.abs(f - f0).max() < 1e-12:
            break
    return np.exp(K + f[:, None] + g[None]), g


@case("C19", quick=330, thorough=5000, requires=["couplings", "couplings:emd", "couplings:sinkhorn", "couplings:lpl1", "couplings:l1l2", "targets-kept", "new-sources", "mean-conservation"])
def transport(rec, rng):
    """Barycentric optimal transport: plans recomputed by linear programming and by a log-domain Sinkhorn."""
    kind = zoo.pick(rng, ["emd", "emd", "sinkhorn", "sinkhorn", "lpl1", "l1l2"])
    d = gen.da(rng, "clf" if kind in ("lpl1", "l1l2") or rng.random() < .6 else "reg", n_per=(5, 12), ns=int(rng.integers(1, 3)), nt=int(rng.integers(1, 3)),
               shift=float(zoo.pick(rng, [.5, 1.5])))
    s = d.src
    Xs, Xt = d.X[s], d.X[~s]
    metric = zoo.pick(rng, ["sqeuclidean", "sqeuclidean", "euclidean", "cityblock"])
    norm = zoo.pick(rng, [None, None, "max", "median", "log", "loglog"])
    with rec.context(kind=kind, metric=metric, norm=norm, sd=d.sd):
        if kind == "emd":
            a = S.OTMappingAdapter(metric=metric, norm=norm)
            Z, w = run(rec, a, d, kind)
            P, unique, _ = emd(cost(Xs, Xt, metric, norm))
            tol = 1e-6
        elif kind == "sinkhorn":
            C, C0 = cost(Xs, Xt, metric, norm), cdist(Xs, Xt, metric)
            reg = float(zoo.pick(rng, [.2, 1., 3.])) * float(np.median(C))
            a = S.EntropicOTMappingAdapter(reg_e=reg, metric=metric, norm=norm)
            Z, w = run(rec, a, d, kind)
            P, g = sinkhorn(C, reg)
            unique, tol = not w, 1e-4
        else:
            norm = None
            C = cost(Xs, Xt, metric, None)
            reg, eta = float(zoo.pick(rng, [.3, 1.])) * float(np.median(C)), float(zoo.pick(rng, [.01, .1, 1.]))
            mi, mii = int(zoo.pick(rng, [10, 3])), int(zoo.pick(rng, [200, 50]))
            a = S.ClassRegularizerOTMappingAdapter(reg_e=reg, reg_cl=eta, norm=kind, metric=metric, max_iter=mi, max_inner_iter=mii)
            Z, w = run(rec, a, d, kind)
            f = ot.da.sinkhorn_lpl1_mm if kind == "lpl1" else ot.da.sinkhorn_l1l2_gl
            with warnings.catch_warnings(record=True) as w2:
                warnings.simplefilter("always")
                P = f(np.full(len(Xs), 1 / len(Xs)), d.y[s], np.full(len(Xt), 1 / len(Xt)), C, reg, eta=eta, numItermax=mi, numInnerItermax=mii)
            unique, tol = True, 1e-5
        if unique:
            want = P / P.sum(1, keepdims=True) @ Xt
            rec.close(Z[s], want, f"plan:{kind}", "sources are not mapped to the barycenters of the optimal plan", rtol=tol, atol=tol * np.abs(Xt).max())
            rec.event("couplings")
            rec.event("couplings:" + kind)
        # the plan carries the uniform weights, hence the mean of the moved sources is the mean of the targets
        if kind == "emd" or (kind == "sinkhorn" and not w):
            rec.close(Z[s].mean(0), Xt.mean(0), f"marginals:{kind}", "the plan does not carry the weights of the samples", rtol=1e-5,
                      atol=(1e-9 if kind == "emd" else 1e-4) * np.abs(Xt).max())
            rec.event("mean-conservation")
        lo, hi = Xt.min(0), Xt.max(0)
        eps = 1e-8 * np.abs(Xt).max()
        rec.expect((Z[s] >= lo - eps).all() and (Z[s] <= hi + eps).all(), f"hull:{kind}", "a moved source lies outside the range of the targets")
        targets_kept(rec, d.X, Z, d.sd, kind)
        Xn, sdn = new_rows(rng, d)
        Zn = again(rec, a, Xn, sdn, kind)
        sn = sdn >= 0
        if kind == "sinkhorn":      # the dual potential extends the plan to new sources
            if not w:
                M = cdist(Xn[sn], Xt, metric)
                M = {None: lambda: M, "max": lambda: M / C0.max(), "median": lambda: M / np.median(C0), "log": lambda: np.log(1 + M),
                     "loglog": lambda: np.log(1 + np.log(1 + M))}[norm]()
                K = -M / reg + g[None]
                want = np.exp(K - logsumexp(K, axis=1, keepdims=True)) @ Xt
                rec.close(Zn[sn], want, f"new:{kind}", "new sources are not mapped by the potential of the plan", rtol=1e-4, atol=1e-4 * np.abs(Xt).max())
        else:
            i = cdist(Xn[sn], Xs).argmin(1)
            rec.close(Zn[sn], Z[s][i] + Xn[sn] - Xs[i], f"new:{kind}", "new sources do not follow their nearest training source", rtol=1e-7, atol=1e-9)
        targets_kept(rec, Xn, Zn, sdn, kind)
        rec.event("new-sources", int(sn.sum()))
    rec.seen("ot", kind, metric, norm, d.X)
    rec.sample(kind=kind, moved=Z[s][:2], mean=Z[s].mean(0), target_mean=Xt.mean(0))


def mom(X, bias=True):
    m = X.mean(0) if bias else np.zeros(X.shape[1])
    return m, (X - m).T @ (X - m) / len(X)


def spd(C, f):
    v, U = np.linalg.eigh((C + C.T) / 2)
    return (U * f(v)) @ U.T


sq = lambda C: spd(C, lambda v: np.sqrt(np.maximum(v, 0)))
isq = lambda C: spd(C, lambda v: 1 / np.sqrt(v))


def bures(Cs, Ct):
    r, i = sq(Cs), isq(Cs)
    return i @ sq(r @ Ct @ r) @ i


def affine(rec, X, Z, key):
    """The affine map behind (X, Z), checked to be exact."""
    H = np.c_[X, np.ones(len(X))]
    M = np.linalg.lstsq(H, Z, rcond=None)[0]
    rec.close(H @ M, Z, key + ":affine", "the map is not affine", rtol=1e-7, atol=1e-7 * (1 + np.abs(Z).max()))
    return M[:-1], M[-1]


def well(C, lim=1e4):
    return np.linalg.cond(C) < lim


@case("C19", quick=300, thorough=5000, requires=["moments", "targets-kept", "new-sources"])
def linear_transport(rec, rng):
    d = gen.da(rng, zoo.pick(rng, ["clf", "reg"]), n_per=(9, 25), shift=float(zoo.pick(rng, [.5, 3.])))
    s = d.src
    Xs, Xt = d.X[s], d.X[~s]
    bias = bool(rng.random() < .7)
    reg = float(zoo.pick(rng, [1e-8, 1e-8, 1e-3, 1.]))
    a = S.LinearOTMappingAdapter(reg=reg, bias=bias)
    Z, _ = run(rec, a, d, "linear")
    (ms, Cs), (mt, Ct) = mom(Xs, bias), mom(Xt, bias)
    p = Xs.shape[1]
    if not (well(Cs) and well(Ct)):
        raise Skip("ill-conditioned")
    A = bures(Cs + reg * np.eye(p), Ct + reg * np.eye(p))
    with rec.context(bias=bias, reg=reg, sd=d.sd):
        want = (Xs - ms) @ A + mt
        rec.close(Z[s], want, "linear:map", "not the linear Monge map between the two Gaussians", rtol=1e-6, atol=1e-6 * np.abs(want).max())
        if reg == 1e-8:
            m, C = mom(Z[s], bias)
            rec.close(m, mt, "linear:mean", "the mean does not match the target's", rtol=1e-6, atol=1e-6 * np.abs(Xt).max())
            rec.close(C, Ct, "linear:cov", "the covariance does not match the target's", rtol=1e-4, atol=1e-5 * np.abs(Ct).max())
            rec.event("moments")
        targets_kept(rec, d.X, Z, d.sd, "linear")
        Xn, sdn = new_rows(rng, d)
        Zn = again(rec, a, Xn, sdn, "linear")
        rec.close(Zn[sdn >= 0], (Xn[sdn >= 0] - ms) @ A + mt, "linear:new", "new sources are moved by another map", rtol=1e-6, atol=1e-6 * np.abs(want).max())
        targets_kept(rec, Xn, Zn, sdn, "linear")
        rec.event("new-sources", int((sdn >= 0).sum()))
    rec.seen("linear", bias, reg, d.X)


@case("C19", quick=300, thorough=5000, requires=["moments", "targets-kept", "new-sources", "centred-targets"])
def correlation_alignment(rec, rng):
    d = gen.da(rng, zoo.pick(rng, ["clf", "reg"]), n_per=(9, 25), shift=float(zoo.pick(rng, [.5, 3.])))
    s = d.src
    Xs, Xt = d.X[s], d.X[~s]
    ac = bool(rng.random() < .4)
    reg = zoo.pick(rng, [None, None, 1e-6, .1, .7, "auto", "auto"])
    a = S.CORALAdapter(reg=reg, assume_centered=ac)
    Z, _ = run(rec, a, d, "coral")

    def covariance(X):
        if reg == "auto":
            sc = StandardScaler(with_mean=not ac).fit(X)
            return sc.scale_[:, None] * ledoit_wolf(sc.transform(X), assume_centered=ac)[0] * sc.scale_[None]
        C = mom(X, not ac)[1]
        return C if reg is None else (1 - reg) * C + reg * np.trace(C) / len(C) * np.eye(len(C))
    Cs, Ct = covariance(Xs), covariance(Xt)
    if not (well(Cs) and well(Ct)):
        raise Skip("ill-conditioned")
    z = np.zeros(d.p)
    ms, mt = (z, z) if ac else (Xs.mean(0), Xt.mean(0))
    A = isq(Cs) @ sq(Ct)
    with rec.context(reg=reg, assume_centered=ac, sd=d.sd):
        want = (Xs - ms) @ A
        big = np.abs(want).max()
        rec.close(Z[s], want, "coral:map", "not whitening by the source covariance and colouring by the target covariance", rtol=1e-6, atol=1e-7 * big)
        if reg is None:
            rec.close(mom(Z[s], not ac)[1], Ct, "coral:cov", "the covariance of the moved sources is not that of the targets", rtol=1e-6, atol=1e-7 * np.abs(Ct).max())
            rec.event("moments")
        Xn, sdn = new_rows(rng, d)
        Zn = again(rec, a, Xn, sdn, "coral")
        rec.close(Zn[sdn >= 0], (Xn[sdn >= 0] - ms) @ A, "coral:new", "new sources are moved by another map", rtol=1e-6, atol=1e-7 * big)
        rec.event("new-sources", int((sdn >= 0).sum()))
        if ac:
            targets_kept(rec, d.X, Z, d.sd, "coral")
            targets_kept(rec, Xn, Zn, sdn, "coral")
        else:
            rec.close(Z[~s], Xt - mt, "coral:targets", "targets are only to be centred by their training mean", rtol=1e-9, atol=1e-9 * np.abs(Xt).max())
            rec.close(Zn[sdn < 0], Xn[sdn < 0] - mt, "coral:targets", "targets are only to be centred by their training mean", rtol=1e-9, atol=1e-9 * np.abs(Xt).max())
            rec.event("centred-targets", int((~s).sum()))
    rec.seen("coral", reg, ac, d.X)


@case("C19", quick=200, thorough=4000, requires=["moments", "barycenters", "new-sources"])
def barycenter_alignment(rec, rng):
    d = gen.da(rng, zoo.pick(rng, ["clf", "reg"]), n_per=(12, 25), shift=float(zoo.pick(rng, [.5, 3.])), ns=zoo.pick(rng, [None, None, None, 5, 7]))
    bias = bool(rng.random() < .7)
    a = S.MultiLinearMongeAlignmentAdapter(reg=float(zoo.pick(rng, [1e-8, 1e-9])), bias=bias, test_time=bool(rng.random() < .3))
    Z, _ = run(rec, a, d, "monge")
    M = {k: mom(d.X[d.sd == k], bias) for k in d.sids + d.tids}
    if not all(well(C, 1e3) for _, C in M.values()):
        raise Skip("ill-conditioned")
    mb = np.mean([M[k][0] for k in d.sids], 0)
    Cb = np.mean([M[k][1] for k in d.sids], 0)
    for _ in range(3000):
        r, i = sq(Cb), isq(Cb)
        T = np.mean([sq(r @ M[k][1] @ r) for k in d.sids], 0)
        N = i @ T @ T @ i
        done = np.abs(N - Cb).max() < 1e-13 * np.abs(Cb).max()
        Cb = N
        if done:
            break
    big = np.sqrt(np.abs(Cb).max()) + np.abs(mb).max() + 1
    with rec.context(bias=bias, sd=d.sd):
        for k in d.sids + d.tids:
            X, z = d.X[d.sd == k], Z[d.sd == k]
            A, b = affine(rec, X, z, "monge")
            rec.close(A, bures(M[k][1], Cb), "monge:map", "not the Monge map of this domain to the barycenter", rtol=1e-4, atol=1e-4 * np.abs(A).max(), domain=k)
            m, C = mom(z, bias)
            rec.close(m, mb, "monge:mean", "a mapped domain does not have the mean of the barycenter of the sources", rtol=1e-5, atol=1e-5 * big, domain=k)
            rec.close(C, Cb, "monge:cov", "a mapped domain does not have the covariance of the barycenter", rtol=1e-3, atol=1e-4 * np.abs(Cb).max(), domain=k)
            rec.event("moments")
        rec.event("barycenters")
        Xn, sdn = new_rows(rng, d)
        Zn = again(rec, a, Xn, sdn, "monge")
        for k in np.unique(sdn):
            want = (Xn[sdn == k] - M[k][0]) @ bures(M[k][1], Cb) + mb
            rec.close(Zn[sdn == k], want, "monge:new", "new rows are not moved by the map of their domain", rtol=1e-4, atol=1e-4 * np.abs(want).max(), domain=int(k))
        rec.event("new-sources", int((sdn >= 0).sum()))
    rec.seen("monge", bias, d.X)


@case("C19", quick=150, thorough=2500, requires=["objectives", "class-maps", "targets-kept", "new-sources"])
def location_scale(rec, rng):
    """Conditional location-scale mapping: one affine map per class, no worse than the identity and stationary when it did not warn."""
    task = zoo.pick(rng, ["clf", "clf", "reg"])
    d = gen.da(rng, task, n_per=(8, 14), ns=int(rng.integers(1, 3)), nt=int(rng.integers(1, 3)), p=int(rng.integers(1, 4)), sep=1.5,
               shift=float(zoo.pick(rng, [.3, 1.])))
    s = d.src
    Xs, Xt = d.X[s], d.X[~s]
    gamma, rk, rm = float(zoo.pick(rng, [.1, .5, 1.])), float(zoo.pick(rng, [1e-10, 1e-3])), float(zoo.pick(rng, [1e-10, 1e-3, .1]))
    a = S.MMDLSConSMappingAdapter(gamma=gamma, reg_k=rk, reg_m=rm, max_iter=int(zoo.pick(rng, [100, 20])))
    Z, warned = run(rec, a, d, "mmdls")
    m, n = len(Xs), len(Xt)
    with rec.context(task=task, gamma=gamma, reg_k=rk, reg_m=rm, sd=d.sd):
        targets_kept(rec, d.X, Z, d.sd, "mmdls")
        k = lambda A, B: np.exp(-gamma * cdist(A, B))
        L = k(Xs, Xs)
        om = L @ np.linalg.inv(L + rk * np.eye(m))

        def J(Y, W, B):
            return ((om @ k(Y, Y) @ om.T).sum() / m ** 2 - 2 * (k(Xt, Y) @ om.T).sum() / (m * n)
                    + rm * (((W - 1) ** 2).sum() + (B ** 2).sum()) / m)
        maps = {}
        if task == "clf":
            W, B = np.ones_like(Xs), np.zeros_like(Xs)
            for c in d.labels:
                i = d.y[s] == c
                for j in range(d.p):
                    H = np.c_[Xs[i, j], np.ones(i.sum())]
                    (w, b), *_ = np.linalg.lstsq(H, Z[s][i, j], rcond=None)
                    rec.close(H @ [w, b], Z[s][i, j], "mmdls:class-map", "samples of one class are not moved by one scale and one shift", rtol=1e-6,
                              atol=1e-6 * (1 + np.abs(Z).max()), label=c)
                    W[i, j], B[i, j] = w, b
                    maps[c, j] = w, b
                rec.event("class-maps")
            j0, j1 = J(Xs, np.ones_like(Xs), np.zeros_like(Xs)), J(Z[s], W, B)
            rec.expect(j1 <= j0 + 1e-7, "mmdls:objective", "the mapped sources are further from the targets than the original ones", before=j0, after=j1)
            rec.event("objectives")
            if not warned:
                for (c, j), (w, b) in maps.items():
                    i = d.y[s] == c
                    for dw, db in ((1e-4, 0), (0, 1e-4)):
                        v = []
                        for sg in (1, -1):
                            W2, B2 = W.copy(), B.copy()
                            W2[i, j] += sg * dw
                            B2[i, j] += sg * db
                            v.append(J(W2 * Xs + B2, W2, B2))
                        g = (v[0] - v[1]) / 2e-4
                        rec.expect(abs(g) < 3e-4, "mmdls:stationary", "the map is not a stationary point of the discrepancy and no warning was issued", gradient=g)
                rec.event("stationary")
        else:
            M = lambda Y: (om @ k(Y, Y) @ om.T).sum() / m ** 2 - 2 * (k(Xt, Y) @ om.T).sum() / (m * n)
            rec.expect(M(Z[s]) <= M(Xs) + 1e-7, "mmdls:objective", "the mapped sources are further from the targets than the original ones",
                       before=M(Xs), after=M(Z[s]))
            rec.event("objectives")
        # new sources
        Xn, sdn = new_rows(rng, d)
        Zn = again(rec, a, Xn, sdn, "mmdls")
        sn = sdn >= 0
        i = cdist(Xn[sn], Xs).argmin(1)
        if task == "clf":
            want = np.array([[maps[d.y[s][q], j][0] * x[j] + maps[d.y[s][q], j][1] for j in range(d.p)] for q, x in zip(i, Xn[sn])])
            rec.close(Zn[sn], want, "mmdls:new", "new sources are not moved by the map of their nearest training source", rtol=1e-5, atol=1e-5 * (1 + np.abs(want).max()))
        targets_kept(rec, Xn, Zn, sdn, "mmdls")
        rec.event("new-sources", int(sn.sum()))
        if task == "clf":       # the labels of new sources choose the class map
            yn = rng.choice(d.labels, len(Xn))
            with rec.call("mmdls:labelled"):
                Zy = np.asarray(a.transform(Xn, yn, sample_domain=sdn, allow_source=True))
            want = np.array([[maps[c, j][0] * x[j] + maps[c, j][1] for j in range(d.p)] for c, x in zip(yn[sn], Xn[sn])])
            rec.close(Zy[sn], want, "mmdls:labelled", "labelled new sources are not moved by the map of their class", rtol=1e-5, atol=1e-5 * (1 + np.abs(want).max()))
    rec.seen("mmdls", task, gamma, d.X)


@case("C19", quick=260, thorough=4000, requires=["number-types"])
def number_types(rec, rng):
    """Integer and single-precision inputs give the map of the same values in double precision, not one truncated to their type."""
    es = zoo.mappers()
    e = es[rec.idx % len(es)]
    d = gen.da(rng, zoo.pick(rng, e.tasks), n_per=(9, 16), sep=3., shift=1.)
    kind = zoo.pick(rng, ["int64", "int32", "int16", "float32", "uint8"])
    X = d.X
    if kind != "float32":
        X = np.round(X * 10)
        if kind == "uint8":
            X = X - X.min()
            if X.max() > 250:
                X = np.round(X * 250 / X.max())
    X = X.astype(kind)
    with rec.context(method=e.name, dtype=kind, sd=d.sd):
        a, b = e.make(), e.make()
        if e.name == "EntropicOTMapping" and kind != "float32":
            a.set_params(reg_e=300.)
            b.set_params(reg_e=300.)
        if "MMDLS" in e.name:
            if kind != "float32":
                a.set_params(gamma=.01)
                b.set_params(gamma=.01)
        Z, wa = run(rec, a, d, e.name, X=X)
        R, wb = run(rec, b, d, e.name, X=X.astype(float))
        if kind == "float32" and ("MMDLS" in e.name or "Monge" in e.name or e.name in ("OTMapping", "OTMapping-norm")):
            tol = None      # the optimal plan / optimiser path may differ in single precision
        else:
            tol = 1e-2 if kind == "float32" or "MMDLS" in e.name else 1e-4 if Z.dtype == np.float32 else 1e-6
        rec.expect(np.issubdtype(Z.dtype, np.floating), f"{e.name}:dtype", "moved samples are stored as integers", dtype=str(Z.dtype))
        if tol:
            rec.close(Z.astype(float), R, f"{e.name}:dtype", "the map depends on the number type of the input", rtol=tol, atol=tol * np.abs(R).max())
        elif "Mapping" in e.name:
            rec.equal(Z[d.sd < 0].astype(float), X[d.sd < 0].astype(float), f"{e.name}:dtype", "targets changed")
        # new rows
        Xn = X[rng.integers(0, len(X), 15)] + np.array(rng.integers(0, 3, (15, d.p))).astype(X.dtype)
        sdn = rng.choice(d.sids + d.tids, 15)
        Zn, Rn = again(rec, a, Xn, sdn, e.name), again(rec, b, Xn.astype(float), sdn, e.name)
        if tol and not (kind == "float32"):
            tn = 10 * tol
            far = np.abs(Zn.astype(float) - Rn).max(1) > tn * np.abs(Rn).max()
            if far.any() and any(k in e.name for k in ("OTMapping", "MMDLS")) and "Linear" not in e.name:
                # ties between nearest training sources on a grid
                D = np.sort(cdist(Xn.astype(float), X[d.src].astype(float)), 1)
                far &= D[:, 1] - D[:, 0] > 1e-9
            rec.expect(not far.any(), f"{e.name}:dtype-new", "the map of new rows depends on the number type of the input", rows=np.flatnonzero(far))
        rec.event("number-types")
    rec.seen("types", e.name, kind, d.X)


@case("C19", quick=200, thorough=3000, requires=["equivariance"])
def scale(rec, rng):
    """Multiplying or translating all data moves the result along (for the methods without an absolute scale)."""
    name, make, kind = zoo.pick(rng, [
        ("OTMapping", lambda: S.OTMappingAdapter(), "both"),
        ("EntropicOTMapping-max", lambda: S.EntropicOTMappingAdapter(reg_e=.5, norm="max", max_iter=20000), "both"),
        ("LinearOTMapping", lambda: S.LinearOTMappingAdapter(reg=1e-12), "both"),
        ("CORAL", lambda: S.CORALAdapter(reg=None), "both"),
        ("CORAL-auto", lambda: S.CORALAdapter(reg="auto"), "both"),
        ("CORAL-reg", lambda: S.CORALAdapter(reg=.2), "both"),
        ("Monge", lambda: S.MultiLinearMongeAlignmentAdapter(reg=1e-9), "shift"),
        ("LinearOTMapping-reg", lambda: S.LinearOTMappingAdapter(reg=.1), "shift"),
        ("EntropicOTMapping", lambda: S.EntropicOTMappingAdapter(reg_e=5., max_iter=20000), "shift")])
    d = gen.da(rng, n_per=(10, 16))
    s = d.src
    if not well(np.cov(d.X[s].T), 1e3) or not well(np.cov(d.X[~s].T), 1e3):
        raise Skip("ill-conditioned")
    f = float(zoo.pick(rng, [1e-2, 1e2, 1e4])) if kind == "both" else 1.
    c = rng.normal(size=d.p) * 20
    with rec.context(method=name, factor=f, sd=d.sd):
        Z, w = run(rec, make(), d, name)
        Y, w2 = run(rec, make(), d, name, X=f * (d.X + c))
        if w or w2:
            raise Skip("did not converge")
        want = f * Z if "CORAL" in name else f * (Z + c)
        rec.close(Y, want, f"scale:{name}", "the map does not follow a change of scale or origin of all data", rtol=1e-4, atol=1e-5 * np.abs(want).max())
        rec.event("equivariance")
    rec.seen("scale", name, d.X)
