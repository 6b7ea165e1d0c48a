"""C20: subspace adapters project every sample with the learned subspace of its role."""
import warnings

import numpy as np
import scipy.linalg
from scipy.spatial.distance import cdist
from sklearn.metrics.pairwise import pairwise_kernels

import skada

from .. import gen, zoo
from ..core import Skip, case

S = skada


def run(rec, a, d, key, X=None, k=None):
    X = d.X if X is None else X
    with rec.call(key), warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        Z = np.asarray(a.fit_transform(X, d.mask(), sample_domain=d.sd))
    rec.must(Z.ndim == 2 and len(Z) == len(X), key + ":shape", "not one row per sample", got=Z.shape)
    if k is not None:
        rec.must(Z.shape[1] == k, key + ":dimension", "dimension of the subspace", got=Z.shape[1], want=k)
    rec.expect(np.isfinite(Z).all(), key + ":finite", "projected samples are not finite")
    with rec.call(key + ":again"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        T = np.asarray(a.transform(X, sample_domain=d.sd, allow_source=True))
    rec.close(T, Z, key + ":again", "transforming the training data differs from what fitting returned", rtol=1e-7, atol=1e-8 * (1 + np.abs(Z).max()))
    rec.event("training-data-again")
    return Z, [str(w.message) for w in ws]


def new(rec, a, rng, d, key, n=20, X=None):
    Xn, sdn = gen.new_rows(rng, d, n=n)
    with rec.call(key + ":new"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        Z = np.asarray(a.transform(Xn, sample_domain=sdn, allow_source=True))
    rec.must(len(Z) == n, key + ":new-shape", "not one row per sample", got=Z.shape)
    return Xn, sdn, Z


def gaps(vals, k, rel=1e-3):
    """Are the leading k of these sorted values separated from each other and from the rest?"""
    v = np.asarray(vals)[:k + 1]
    return (np.abs(np.diff(v)) > rel * np.abs(v[0])).all()


def signs(A, B):
    s = np.sign((A * B).sum(0))
    return np.where(s == 0, 1, s)


@case("C20", quick=250, thorough=4000, requires=["aligned-axes", "new-rows", "training-data-again"])
def principal_axes(rec, rng):
    """Subspace alignment recomputed from the two covariance matrices."""
    d = gen.da(rng, zoo.pick(rng, ["clf", "reg"]), n_per=(9, 20), p=int(rng.integers(2, 7)) if rng.random() < .8 else int(rng.integers(9, 14)))
    k = zoo.pick(rng, [None, 1, 2, min(3, d.p), d.p])
    a = S.SubspaceAlignmentAdapter(n_components=k, random_state=zoo.pick(rng, [None, 0, 5]))
    s = d.src
    kk = min(s.sum(), (~s).sum(), d.p) if k is None else k
    if kk > min(s.sum(), (~s).sum()):
        raise Skip("more components than samples")
    Z, _ = run(rec, a, d, "sa", k=kk)

    def axes(X):
        v, U = np.linalg.eigh(np.cov(X.T).reshape(d.p, d.p))
        return v[::-1], U[:, ::-1][:, :kk]
    (vs, Us), (vt, Ut) = axes(d.X[s]), axes(d.X[~s])
    ok = gaps(vt, min(kk, d.p - 1), 1e-4) and (kk == d.p or vs[kk - 1] - vs[kk] > 1e-4 * vs[0])
    if not ok:
        raise Skip("close variances")
    ms, mt = d.X[s].mean(0), d.X[~s].mean(0)

    def ref(X, sd):
        R = np.empty((len(X), kk))
        R[sd >= 0] = (X[sd >= 0] - ms) @ Us @ Us.T @ Ut
        R[sd < 0] = (X[sd < 0] - mt) @ Ut
        return R
    R = ref(d.X, d.sd)
    sg = signs(R[~s], Z[~s])
    with rec.context(k=k, sd=d.sd):
        rec.close(Z, R * sg, "sa:axes", "not the aligned principal axes of sources and targets", rtol=1e-6, atol=1e-7 * np.abs(R).max())
        rec.event("aligned-axes")
        Xn, sdn, Zn = new(rec, a, rng, d, "sa")
        rec.close(Zn, ref(Xn, sdn) * sg, "sa:new", "new samples are projected by another map", rtol=1e-6, atol=1e-7 * np.abs(R).max())
        rec.event("new-rows", len(Xn))
    rec.seen("sa", k, d.X)
    rec.sample(method="sa", k=kk, first=Z[0])


def gram(A, B, kern):
    return pairwise_kernels(A, B, metric=kern)


@case("C20", quick=250, thorough=4000, requires=["transfer-components", "new-rows", "training-data-again"])
def transfer_components(rec, rng):
    """TCA recomputed: leading solutions of K H K v = lambda (I + mu K L K) v."""
    d = gen.da(rng, zoo.pick(rng, ["clf", "reg"]), n_per=(5, 14), p=int(rng.integers(2, 6)), sep=1.5)
    kern = zoo.pick(rng, ["rbf", "rbf", "linear", "poly", "laplacian", "cosine"])
    mu = float(zoo.pick(rng, [.1, .1, 1., 10., 0.]))
    k = zoo.pick(rng, [None, 1, 2, 2])
    kk = min(d.X.shape) if k is None else k
    a = S.TransferComponentAnalysisAdapter(kernel=kern, n_components=k, mu=mu)
    Z, _ = run(rec, a, d, "tca", k=kk)
    s = d.src
    o = np.r_[np.flatnonzero(s), np.flatnonzero(~s)]
    X = d.X[o]
    ns, nt = s.sum(), (~s).sum()
    n = ns + nt
    e = np.r_[np.full(ns, 1 / ns), np.full(nt, -1 / nt)]
    K = gram(X, X, kern)
    H = np.eye(n) - 1 / n
    A = np.eye(n) + mu * np.outer(K @ e, K @ e)
    lam, V = scipy.linalg.eigh(K @ H @ K, A)
    lam, V = lam[::-1], V[:, ::-1][:, :kk]
    if not gaps(lam, kk, 1e-5):
        raise Skip("close eigenvalues")
    R = K @ V
    sc = (R * Z[o]).sum(0) / (R * R).sum(0)
    with rec.context(kernel=kern, mu=mu, k=k, sd=d.sd):
        rec.close(Z[o], R * sc, "tca:components", "not the leading transfer components", rtol=1e-4, atol=1e-5 * np.abs(Z).max(), kernel=kern)
        rec.expect((np.abs(sc) > 1e-9).all(), "tca:zero", "a component vanishes")
        # with the normalisation of the method all components have the same scale in the metric of the problem
        rec.close(np.abs(sc), np.full(kk, abs(sc[0])), "tca:scale", "the components are scaled differently", rtol=1e-3)
        rec.event("transfer-components", kk)
        Xn, sdn, Zn = new(rec, a, rng, d, "tca")
        want = gram(Xn, X, kern) @ V * sc
        rec.close(Zn, want, "tca:new", "new samples are projected by another map", rtol=1e-4, atol=1e-5 * np.abs(Z).max())
        rec.event("new-rows", len(Xn))
    rec.seen("tca", kern, mu, k, d.X)


@case("C20", quick=200, thorough=3000, requires=["joint-matching", "constraints", "descents", "new-rows", "training-data-again"])
def joint_matching(rec, rng):
    """TJM: first iteration recomputed; whitened components; the objective never grows with more iterations."""
    d = gen.da(rng, zoo.pick(rng, ["clf", "reg"]), n_per=(5, 12) if rng.random() < .85 else (18, 22), ns=int(rng.integers(1, 3)), nt=int(rng.integers(1, 3)), p=int(rng.integers(2, 5)), sep=1.5)
    kern = zoo.pick(rng, ["rbf", "laplacian"])
    lam = float(zoo.pick(rng, [1e-2, 1e-2, .1, 1.]))
    k = zoo.pick(rng, [None, 1, 2, 2])
    kk = min(d.X.shape) if k is None else k
    mk = lambda it: S.TransferJointMatchingAdapter(n_components=k, tradeoff=lam, kernel=kern, max_iter=it, tol=zoo.pick(rng, [.01, 1e-8]))
    a1, a = mk(1), mk(int(zoo.pick(rng, [5, 15, 100])))
    Z1, _ = run(rec, a1, d, "tjm", k=kk)
    Z, _ = run(rec, a, d, "tjm", k=kk)
    s = d.src
    o = np.r_[np.flatnonzero(s), np.flatnonzero(~s)]
    X, ns, nt = d.X[o], s.sum(), (~s).sum()
    n = ns + nt
    K = gram(X, X, kern)
    e = np.r_[np.full(ns, 1 / ns), np.full(nt, -1 / nt)]
    M = np.outer(e, e)
    M /= np.linalg.norm(M)
    H = np.eye(n) - 1 / n
    if np.linalg.cond(K) > 1e7:
        raise Skip("near-singular kernel matrix")
    with rec.context(kernel=kern, tradeoff=lam, k=k, sd=d.sd):
        B, C = K @ M @ K + lam * np.eye(n), K @ H @ K
        inv, V = scipy.linalg.eigh(C + 1e-10 * np.eye(n), B + 1e-10 * np.eye(n))
        inv, V = inv[::-1], V[:, ::-1]
        phi, V = 1 / np.maximum(inv, 1e-12), V / np.sqrt(np.maximum(inv, 1e-12))
        if gaps(phi, kk, 1e-4) and np.linalg.cond(K) < 1e5:
            R = K @ V[:, :kk]
            sg = signs(R, Z1[o])
            rec.close(Z1[o], R * sg, "tjm:first", "the first iteration is not the joint-matching eigenproblem", rtol=1e-3, atol=1e-3 * np.abs(R).max())
            rec.event("joint-matching")
        for z in (Z1, Z):
            c = z - z.mean(0)
            rec.close(c.T @ c, np.eye(kk), "tjm:constraint", "the components are not whitened", atol=2e-3)
            rec.event("constraints")

        def obj(z):
            A = np.linalg.solve(K, z[o])
            return np.sum((z[o].T @ M) * z[o].T) + lam * (np.linalg.norm(A[:ns], axis=1).sum() + (A[ns:] ** 2).sum())
        j1, j = obj(Z1), obj(Z)
        rec.expect(j <= j1 * (1 + 1e-5) + 1e-8, "tjm:descent", "more iterations end with a larger objective", one=j1, more=j)
        rec.event("descents")
        for q, z in ((a1, Z1), (a, Z)):
            Xn, sdn, Zn = new(rec, q, rng, d, "tjm")
            want = gram(Xn, X, kern) @ np.linalg.solve(K, z[o])
            rec.close(Zn, want, "tjm:new", "new samples are projected by another map", rtol=1e-4, atol=1e-4 * np.abs(z).max())
            rec.event("new-rows", len(Xn))
    rec.seen("tjm", kern, lam, d.X)


def cov(X, reg):
    X = X - X.mean(0)
    C = X.T @ X / len(X)
    return (1 - reg) * C + reg * np.trace(C) * np.eye(len(C))


def divergence(Zs, Zt, reg):
    c1, c2 = cov(Zs, reg), cov(Zt, reg)
    ch = lambda C: np.linalg.cholesky(np.linalg.inv(C))
    f = lambda A, B, C: np.exp(-.5 * cdist(A @ ch(C), B @ ch(C))).mean()
    return f(Zs, Zs, 2 * c1) + f(Zt, Zt, 2 * c2) - 2 * f(Zs, Zt, c1 + c2)


def base_loss(W, Xs, ys, method, reg, ls):
    if method == "pca":
        return -np.trace(W.T @ cov(Xs, reg) @ W)
    if method == "flda":
        cl, idx = np.unique(ys, return_inverse=True)
        mu = np.stack([Xs[ys == c].mean(0) for c in cl])
        D = mu - Xs.mean(0)
        SB = (D.T * np.bincount(idx)) @ D / len(Xs)
        return np.trace(W.T @ cov(Xs - mu[idx], reg) @ W) / np.trace(W.T @ SB @ W)
    E = np.exp(-cdist(Xs, Xs) / ls) * (ys[:, None] == ys[None])
    return 2 * np.trace(W.T @ Xs.T @ (np.diag(E.sum(1)) - E) @ Xs @ W)


@case("C20", quick=200, thorough=3000, requires=["orthonormal", "objectives", "new-rows", "training-data-again"])
def discriminative_basis(rec, rng):
    """TSL: an orthonormal linear basis, no worse than the initial one for the method's own objective."""
    d = gen.da(rng, "clf", n_per=(8, 16), p=int(rng.integers(2, 6)), sep=2., shift=float(zoo.pick(rng, [.5, 1.5])))
    method = zoo.pick(rng, ["pca", "flda", "flda", "lpp"])
    mu, reg, ls = float(zoo.pick(rng, [.1, 0., 1., 10.])), zoo.pick(rng, [.01, .1, None]), float(zoo.pick(rng, [2., .5]))
    k = zoo.pick(rng, [None, 1, 2, min(3, d.p)])
    kk = min(d.X.shape) if k is None else k
    tol = float(zoo.pick(rng, [.01, 1e-4, 1e-4, 1e-6]))
    if rng.random() < .5:    # classes of unequal size among the sources
        keep = ~d.src | (d.y != d.labels[0]) | (rng.random(len(d.y)) < .4)
        if (d.src & keep & (d.y == d.labels[0])).sum() >= 2:
            d["X"], d["y"], d["sd"] = d["X"][keep], d["y"][keep], d["sd"][keep]
    a = S.TransferSubspaceLearningAdapter(n_components=k, base_method=method, mu=mu, reg=reg, length_scale=ls, max_iter=int(zoo.pick(rng, [100, 3, 30])), tol=tol)
    Z, warned = run(rec, a, d, "tsl", k=kk)
    s = d.src
    r = 0 if reg is None else reg
    W = np.linalg.lstsq(d.X, Z, rcond=None)[0]
    if np.linalg.cond(d.X) > 1e4:
        raise Skip("ill-conditioned")
    J = lambda W: base_loss(W, d.X[s], d.y[s], method, r, ls) + mu * divergence(d.X[s] @ W, d.X[~s] @ W, r)
    with rec.context(method=method, mu=mu, reg=reg, k=k, tol=tol, sd=d.sd):
        rec.close(d.X @ W, Z, "tsl:linear", "the projection is not linear", rtol=1e-7, atol=1e-7 * np.abs(Z).max())
        rec.close(W.T @ W, np.eye(kk), "tsl:orthonormal", "the basis is not orthonormal", atol=1e-7)
        rec.event("orthonormal")
        try:
            j0, j1 = J(np.eye(d.p)[:, :kk]), J(W)
        except np.linalg.LinAlgError:
            raise Skip("singular covariance")
        rec.expect(j1 <= j0 + 1e-7 * (1 + abs(j0)), "tsl:objective", "the learned basis is worse than the initial one", before=j0, after=j1)
        rec.event("objectives")
        if not warned and kk < d.p:
            # stationary on the manifold of subspaces
            for _ in range(3):
                E = rng.normal(size=W.shape)
                E -= W @ (W.T @ E)
                E /= np.linalg.norm(E)
                q = lambda t: J(np.linalg.qr(W + t * E)[0])
                g = (q(1e-5) - q(-1e-5)) / 2e-5
                rec.expect(abs(g) <= 30 * tol + 1e-5 * (1 + abs(j1)), "tsl:stationary",
                           "the basis is not a stationary point of the objective and no warning was issued", slope=g, tol=tol)
            rec.event("stationary")
        if method == "pca" and mu == 0 and not warned and kk < d.p:
            v = np.sort(np.linalg.eigvalsh(cov(d.X[s], r)))[::-1]
            if v[kk - 1] - v[kk] > .2 * v[0]:
                rec.expect(j1 <= -v[:kk].sum() + max(20 * tol, 1e-3) * v[0], "tsl:pca", "without divergence the PCA basis is not the leading one", got=j1, best=-v[:kk].sum())
                rec.event("pca-limits")
        Xn, sdn, Zn = new(rec, a, rng, d, "tsl")
        rec.close(Zn, Xn @ W, "tsl:new", "new samples are projected by another map", rtol=1e-6, atol=1e-6 * np.abs(Z).max())
        rec.event("new-rows", len(Xn))
    rec.seen("tsl", method, mu, k, d.X)


@case("C20", quick=200, thorough=2500, requires=["number-types"])
def number_types(rec, rng):
    """Integer and single-precision input: the projection of the same values in double precision."""
    es = zoo.subspaces()
    e = es[rec.idx % len(es)]
    d = gen.da(rng, "clf", n_per=(8, 14), sep=3.)
    kind = zoo.pick(rng, ["int64", "int16", "uint8"])
    X = np.round(d.X * 3)
    if kind == "uint8":
        X -= X.min()
    X = X.astype(kind)
    with rec.context(method=e.name, dtype=kind, sd=d.sd):
        a, b = e.make(), e.make()
        Z, _ = run(rec, a, d, e.name, X=X)
        R, _ = run(rec, b, d, e.name, X=X.astype(float))
        sg = signs(R, Z.astype(float))
        rec.close(Z.astype(float), R * sg, f"{e.name}:dtype", "the projection depends on the number type of the input", rtol=1e-4, atol=1e-5 * np.abs(R).max())
        rec.event("number-types")
    rec.seen("types", e.name, kind, d.X)
