"""C27: deep losses against references written in double precision, alone and inside real training steps."""
import math

import numpy as np
import torch
from scipy.optimize import linprog
from scipy.spatial.distance import cdist
from scipy.special import log_softmax, softmax
from skada import deep
from skada.deep import losses as L
from skada.deep._adversarial import CDANLoss, CDANModule, DANNLoss, MDDLoss, ModifiedCrossEntropyLoss, _RandomLayer
from skada.deep._class_confusion import MCCLoss
from skada.deep._divergence import CANLoss, DANLoss, DeepCoralLoss
from skada.deep._graph_alignment import SPALoss
from skada.deep._optimal_transport import DeepJDOTLoss
from skada.deep.modules import DomainClassifier, GradientReversalLayer
from skada.deep.utils import SphericalKMeans

from .. import zoo
from ..core import Skip, case
from . import c26
from .c17 import Net
from .c25 import dataset

T32 = lambda a: torch.as_tensor(np.asarray(a, np.float32))
N = lambda t: t.detach().double().numpy() if torch.is_tensor(t) else np.asarray(t, float)


# references -----------------------------------------------------------------------------------------------------------
def r_coral(fs, ft):
    d = fs.shape[1]
    c = lambda f: np.cov(f.T).reshape(d, d)
    return ((c(fs) - c(ft)) ** 2).sum() / (4 * d * d)


def r_sigmas(fs, sigmas, eps=1e-7):
    if sigmas is not None:
        return np.asarray(sigmas, float)
    return np.sort(cdist(fs, fs).ravel())[(len(fs) ** 2 - 1) // 2] * 1. * 2. ** (-8 + np.arange(33) / 2) + eps * 2. ** (-8 + np.arange(33) / 2)


def r_kernel(x, y, sig):
    return np.exp(-cdist(x, y)[..., None] / sig).sum(-1)


def r_mmd(fs, ft, sigmas=None):
    s = r_sigmas(fs, sigmas)
    return r_kernel(fs, fs, s).mean() + r_kernel(ft, ft, s).mean() - 2 * r_kernel(fs, ft, s).mean()


def r_ot(M, a, b):
    n, m = M.shape
    A = np.zeros((n + m, n * m))
    for i in range(n):
        A[i, i * m:(i + 1) * m] = 1
    for j in range(m):
        A[n + j, j::m] = 1
    r = linprog(M.ravel(), A_eq=A[:-1], b_eq=np.r_[a, b][:-1], method="highs")
    if r.status:
        raise Skip("linear program failed")
    return r.fun


def r_jdot(ys, pt, fs, ft, rd, rc, a=None, b=None, smoothing=0.):
    lp = log_softmax(pt, 1)
    ce = -(1 - smoothing) * lp[:, ys].T - smoothing * lp.mean(1)[None]
    M = rd * cdist(fs, ft) ** 2 + rc * ce
    u = lambda n: np.full(n, 1 / n)
    return r_ot(M, u(len(fs)) if a is None else a, u(len(ft)) if b is None else b)


def r_cdd(ys, fs, ft, centers, sigmas=None, dist=.5, thr=3):
    unit = lambda a: a / np.maximum(np.linalg.norm(a, axis=1, keepdims=True), 1e-8)
    sim = unit(ft) @ unit(centers).T
    top = np.sort(sim, 1)
    if sim.shape[1] > 1 and (top[:, -1] - top[:, -2]).min() < 1e-4 or np.abs(.5 * (1 - top[:, -1]) - dist).min() < 1e-4:
        raise Skip("assignment on the edge")
    lab = sim.argmax(1)
    keep = .5 * (1 - sim.max(1)) < dist
    ft, lab = ft[keep], lab[keep]
    C = len(centers)
    valid = [(lab == c).sum() >= thr for c in range(C)]
    s = r_sigmas(fs, sigmas)
    m = lambda a, b: r_kernel(a, b, s).mean() if len(a) and len(b) else 0.
    intra = inter = 0.
    for i in range(C):
        for j in range(C):
            if valid[i] and valid[j]:
                a, b = fs[ys == i], ft[lab == j]
                v = m(a, a) + m(b, b) - 2 * m(a, b)
                if i == j:
                    intra += v
                else:
                    inter += v
    return intra / C - inter / max(C * C - C, 1), sum(valid)


def r_mcc(y, T=1.):
    p = softmax(y / T, 1)
    H = -(p * np.log(p + 1e-7)).sum(1)
    W = 1 + np.exp(-H)
    W = W / W.mean()
    C = (p * W[:, None]).T @ p
    C = C / C.sum(1, keepdims=True)
    return (C.sum() - np.trace(C)) / len(C)


def r_gda(s, t, metric="euc", laplac="laplac1"):
    def spectrum(x):
        if metric == "euc":
            A = cdist(x, x)
        elif metric == "gauss":
            A = np.exp(-cdist(x, x) ** 2 / (2 * 1.5 ** 2))
        else:
            u = x / np.maximum(np.linalg.norm(x, axis=1, keepdims=True), 1e-12)
            A = u @ u.T
        v = A.sum(1)
        Lp = {"laplac1": lambda: -A / (v + 1e-7)[:, None], "laplac2": lambda: np.diag(v) - A,
              "laplac3": lambda: np.eye(len(A)) - A / np.sqrt(v + 1e-7)[:, None] / np.sqrt(v + 1e-7)[None]}[laplac]()
        return np.linalg.svd(Lp, compute_uv=False)
    return np.linalg.norm(spectrum(s) - spectrum(t))


def r_nap(ft, pt, mf, mo, idx, K=5):
    d = cdist(ft, mf)
    d[:, idx] = np.inf
    near = np.argsort(d, 1)[:, :K]
    s = np.sort(d, 1)
    if d.shape[1] > K and (not np.isfinite(s[:, K - 1]).all() or (s[:, K] - s[:, K - 1]).min() < 1e-4):
        raise Skip("neighbours not determined")
    w = mo[near].mean(1)
    top = np.sort(w, 1)
    if w.shape[1] > 1 and (top[:, -1] - top[:, -2]).min() < 1e-5:
        raise Skip("tie between classes")
    ce = -log_softmax(pt, 1)[np.arange(len(pt)), w.argmax(1)]
    return (w.max(1) * ce).sum() / (w.max(1).sum() + 1e-7)


def r_bce(ds, dt):
    c = lambda v: np.maximum(v, -100)
    with np.errstate(divide="ignore"):
        return -c(np.log(1 - ds)).mean() - c(np.log(dt)).mean()


def r_dom(ds, dt, crit):
    """The domain loss asked for (None: cross-entropy), sources labelled 0 and targets 1."""
    if crit is None:
        return r_bce(ds, dt)
    if isinstance(crit, torch.nn.MSELoss):
        return (ds ** 2).mean() + ((1 - dt) ** 2).mean()
    if isinstance(crit, torch.nn.L1Loss):
        return np.abs(ds).mean() + np.abs(1 - dt).mean()
    c = lambda v: np.maximum(v, -100)      # cross-entropy with sums
    with np.errstate(divide="ignore"):
        return -c(np.log(1 - ds)).sum() - c(np.log(dt)).sum()


def criterion(rng):
    return zoo.pick(rng, [None, None, torch.nn.MSELoss(), torch.nn.L1Loss(), torch.nn.BCELoss(reduction="sum")])


def r_modified(x, y, smoothing=.1):
    p = softmax(x, 1)
    q = (1 - smoothing) * p + smoothing / x.shape[1]
    return np.log(1 - q[np.arange(len(x)), y]).mean()


def r_mdd(ps, pt, ds, dt, gamma=4.):
    ys, yt = ps.argmax(1), pt.argmax(1)
    return gamma * -log_softmax(ds, 1)[np.arange(len(ds)), ys].mean() - r_modified(dt, yt)


def r_spa(pt, ds, dt, fs, ft, idx, mf, mo, epoch, epochs, reg_adv=1, reg_gsa=1, reg_nap=1, K=5, crit=None):
    scale = 2 / (1 + math.exp(-10 * epoch / epochs)) - 1
    return reg_adv * scale * r_dom(ds, dt, crit) + reg_gsa * r_gda(fs, ft, "gauss") + reg_nap * epoch / epochs * r_nap(ft, pt, mf, mo, idx, K)


# one case per loss, alone ---------------------------------------------------------------------------------------------
def features(rng, n, p, shape=None):
    x = rng.normal(size=(n, p)) * zoo.pick(rng, [.1, 1, 1, 3]) + rng.normal(size=p) * zoo.pick(rng, [0, 1, 3])
    if rng.random() < .1:
        x[n // 2:] = x[: n - n // 2]
    return x


LOSSES = ["coral", "dan", "jdot", "cdd", "mcc", "gda", "nap", "bce", "mdd", "spa"]


def problem(rec, rng, kind):
    """(arguments dict, function of arguments giving the loss, reference, tolerance)"""
    b, p, k = int(rng.integers(3, 20 if rng.random() < .85 else 60)), int(rng.integers(1, 7 if rng.random() < .85 else 24)), int(rng.integers(2, 6))
    d = dict(fs=features(rng, b, p), ft=features(rng, b, p), ys=rng.integers(0, k, b), ps=rng.normal(size=(b, k)) * 2, pt=rng.normal(size=(b, k)) * 2,
             ds=rng.uniform(.02, .98, b), dt=rng.uniform(.02, .98, b))
    tol = (2e-4, 2e-5)
    if kind == "coral":
        b2 = int(rng.integers(3, 20))
        d["ft"] = features(rng, b2, p)
        c = bool(rng.random() < .5)
        used, args = ("fs", "ft"), dict(assume_centered=c)
        f = (lambda a: L.deepcoral_loss(a["fs"], a["ft"], **args)) if rng.random() < .5 else (lambda a: DeepCoralLoss(**args)(features_s=a["fs"], features_t=a["ft"], y_s=None))
        ref = r_coral(d["fs"], d["ft"])
        mag = np.abs(np.cov(d["fs"].T)).max() ** 2 + np.abs(np.cov(d["ft"].T)).max() ** 2 + max(np.abs(d["fs"]).max(), np.abs(d["ft"]).max()) ** 2
        tol = (1e-3, 1e-5 * mag)
    elif kind == "dan":
        d["ft"] = features(rng, int(rng.integers(3, 20)), p)
        sig = zoo.pick(rng, [None, None, [1.], [.1, 1., 10.], [2.]])
        used, args = ("fs", "ft"), dict(sigmas=sig)
        f = (lambda a: L.dan_loss(a["fs"], a["ft"], sigmas=sig)) if rng.random() < .5 else (lambda a: DANLoss(sigmas=sig)(features_s=a["fs"], features_t=a["ft"], y_s=None))
        ref = r_mmd(d["fs"], d["ft"], sig)
        tol = (2e-3, 2e-3)
    elif kind == "jdot":
        rd, rc, sm = float(zoo.pick(rng, [0, .1, 1, 3])), float(zoo.pick(rng, [0, .1, 1, 3])), float(zoo.pick(rng, [0, 0, .3]))
        crit = torch.nn.CrossEntropyLoss(reduction="none", label_smoothing=sm) if sm or rng.random() < .3 else None
        w = rng.random() < .4
        a, c = (rng.dirichlet(np.ones(b) * 3), rng.dirichlet(np.ones(b) * 3)) if w else (None, None)
        used, args = ("fs", "ft", "pt", "ys"), dict(reg_dist=rd, reg_cl=rc, weights=w, smoothing=sm)
        if w:
            d["a"], d["b"] = a.astype(np.float32), c.astype(np.float32)
            d["a"] /= d["a"].sum()
            d["b"] /= d["b"].sum()
            used += ("a", "b")
            f = lambda x: L.deepjdot_loss(x["ys"], x["pt"], x["fs"], x["ft"], rd, rc, x["a"], x["b"], crit)
        elif rng.random() < .5:
            f = lambda x: L.deepjdot_loss(x["ys"], x["pt"], x["fs"], x["ft"], rd, rc, criterion=crit)
        else:
            f = lambda x: DeepJDOTLoss(rd, rc, crit)(y_s=x["ys"], y_pred_t=x["pt"], features_s=x["fs"], features_t=x["ft"], y_pred_s=None)
        ref = r_jdot(d["ys"], d["pt"], d["fs"], d["ft"], rd, rc, a, c, sm)
        tol = (1e-3, 1e-4 * (1 + rd * max(np.abs(d["fs"]).max(), np.abs(d["ft"]).max()) ** 2))
    elif kind == "cdd":
        if p == 1:
            raise Skip("a single feature")
        C = int(rng.integers(2, 5))
        d["ft"] = features(rng, int(rng.integers(4, 20)), p)
        d["ys"] = rng.integers(0, C, b)
        sig, dist, thr = zoo.pick(rng, [None, [1.], [.5, 5.]]), float(zoo.pick(rng, [.5, .2, .9])), int(rng.integers(1, 5))
        km = SphericalKMeans(n_clusters=C)
        km.cluster_centers_ = T32(rng.normal(size=(C, p)))
        used, args = ("fs", "ft", "ys"), dict(sigmas=sig, distance_threshold=dist, class_threshold=thr)
        f = (lambda x: L.cdd_loss(x["ys"], x["fs"], x["ft"], km, **args)) if rng.random() < .5 else \
            (lambda x: CANLoss(target_kmeans=km, **args)(y_s=x["ys"], features_s=x["fs"], features_t=x["ft"], y_pred_s=None))
        ref, nv = r_cdd(d["ys"], d["fs"], d["ft"], N(km.cluster_centers_), sig, dist, thr)
        rec.event("valid-classes", nv)
        tol = (2e-3, 1e-2)
    elif kind == "mcc":
        Tm = float(zoo.pick(rng, [.3, 1, 1, 2.5, 10]))
        used, args = ("pt",), dict(T=Tm)
        f = (lambda x: L.mcc_loss(x["pt"], T=Tm)) if rng.random() < .5 else (lambda x: MCCLoss(T=Tm)(y_pred_t=x["pt"], y_pred_s=None))
        ref = r_mcc(d["pt"], Tm)
    elif kind == "gda":
        m, lp = zoo.pick(rng, ["euc", "gauss", "cos"]), zoo.pick(rng, ["laplac1", "laplac2", "laplac3"])
        A = lambda x: (x @ x.T) / np.linalg.norm(x, axis=1)[:, None] / np.linalg.norm(x, axis=1)[None]
        if m == "cos" and (lp != "laplac2") and min(A(d["fs"]).sum(1).min(), A(d["ft"]).sum(1).min()) < .1:
            raise Skip("degrees of either sign")
        used, args = ("fs", "ft"), dict(metric=m, laplac=lp)
        f = lambda x: L.gda_loss(x["fs"], x["ft"], **args)
        ref = r_gda(d["fs"], d["ft"], m, lp)
        s = 1 + np.abs(np.r_[d["fs"].ravel(), d["ft"].ravel()]).max()
        tol = (2e-3, 1e-3 * (s if m == "euc" and lp == "laplac2" else 1) * (4 if lp == "laplac3" else 1))
        if lp != "laplac2" and m == "euc" and min(cdist(d["fs"], d["fs"]).sum(1).min(), cdist(d["ft"], d["ft"]).sum(1).min()) < .05:
            raise Skip("degenerate graph")
    elif kind == "nap":
        M, K = b + int(rng.integers(6, 30)), int(rng.integers(1, 9))
        d["mf"], d["mo"], idx = rng.normal(size=(M, p)), softmax(2 * rng.normal(size=(M, k)), 1), rng.permutation(M)[:b]
        used, args = ("ft", "pt"), dict(K=K)
        mf, mo, ti = T32(d["mf"]), T32(d["mo"]), torch.as_tensor(idx)
        d["idx"] = idx
        used += ("idx",)
        f = lambda x: L.nap_loss(x["ft"], x["pt"], mf, mo, x["idx"], K=K)
        ref = r_nap(d["ft"], d["pt"], d["mf"], d["mo"], idx, K)
    elif kind == "bce":
        cls = zoo.pick(rng, [DANNLoss, CDANLoss])
        d["dt"] = rng.uniform(.02, .98, b + int(rng.integers(0, 4)))
        d["ft"] = features(rng, len(d["dt"]), p)
        crit = criterion(rng)
        used, args = ("ds", "dt", "fs", "ft"), dict(cls=cls.__name__, criterion=str(crit))
        f = lambda x: cls(domain_criterion=crit)(domain_pred_s=x["ds"], domain_pred_t=x["dt"], features_s=x["fs"], features_t=x["ft"], y_s=None)
        ref = r_dom(d["ds"], d["dt"], crit)
    elif kind == "mdd":
        g = float(zoo.pick(rng, [1, 4, .5]))
        d["ds"], d["dt"] = rng.normal(size=(b, k)), 3 * rng.normal(size=(b + 2, k))
        d["pt"] = rng.normal(size=(b + 2, k))
        used, args = ("ps", "pt", "ds", "dt"), dict(gamma=g)
        f = lambda x: MDDLoss(gamma=g)(y_pred_s=x["ps"], y_pred_t=x["pt"], domain_pred_s=x["ds"], domain_pred_t=x["dt"], y_s=None)
        ref = r_mdd(d["ps"], d["pt"], d["ds"], d["dt"], g)
    else:
        M, K, E = b + int(rng.integers(6, 30)), int(rng.integers(1, 9)), int(rng.integers(1, 9))
        e = int(rng.integers(0, E + 1))
        regs = {r: float(zoo.pick(rng, [0, .5, 1, 2])) for r in ("reg_adv", "reg_gsa", "reg_nap")}
        mf, mo, d["idx"] = rng.normal(size=(M, p)), softmax(2 * rng.normal(size=(M, k)), 1), rng.permutation(M)[:b]
        crit = criterion(rng)
        loss = SPALoss(max_epochs=E, domain_criterion=crit, memory_features=T32(mf), memory_outputs=T32(mo), K=K, **regs)
        loss.n_epochs = e
        used, args = ("pt", "ds", "dt", "fs", "ft", "idx"), dict(K=K, epoch=e, epochs=E, criterion=str(crit), **regs)
        f = lambda x: loss(y_pred_t=x["pt"], domain_pred_s=x["ds"], domain_pred_t=x["dt"], features_s=x["fs"], features_t=x["ft"], sample_idx_t=x["idx"], y_s=None)
        ref = r_spa(d["pt"], d["ds"], d["dt"], d["fs"], d["ft"], d["idx"], mf, mo, e, E, K=K, crit=crit, **regs)
        tol = (2e-3, 2e-3)
    t = {u: torch.as_tensor(d[u]) if d[u].dtype.kind == "i" else T32(d[u]) for u in used}
    return t, f, ref, tol, args


@case("C27", quick=700, thorough=14000, requires=["values", "gradients", "permutations", "valid-classes"])
def alone(rec, rng):
    kind = LOSSES[rec.idx % len(LOSSES)]
    t, f, ref, tol, args = problem(rec, rng, kind)
    with rec.context(loss=kind, **args, sizes={k: tuple(v.shape) for k, v in t.items()}):
        leaves = {k: v.clone().requires_grad_(True) if v.dtype == torch.float32 and k not in ("a", "b") else v for k, v in t.items()}
        with rec.call("alone:" + kind):
            v = f(leaves)
        val = float(v)
        rec.expect(np.isfinite(val), f"finite:{kind}", "loss not finite", got=val)
        rec.close(val, ref, f"value:{kind}", "loss differs from its definition", *tol)
        rec.event("values")
        if torch.is_tensor(v) and v.requires_grad:
            with rec.call("gradient:" + kind):
                v.backward()
            for k, x in leaves.items():
                if x.requires_grad and x.grad is not None:
                    rec.expect(bool(torch.isfinite(x.grad).all()), f"gradient-finite:{kind}", "gradient not finite", of=k)
            rec.event("gradients")
        # order of the samples of either role
        n = {"fs": "s", "ys": "s", "ps": "s", "ds": "s", "a": "s"}
        sizes = {}
        for k, x in t.items():
            sizes.setdefault(n.get(k, "t"), len(x))
        perm = {r: torch.as_tensor(rng.permutation(m)) for r, m in sizes.items()}
        with rec.call("alone:" + kind):
            u = float(f({k: x[perm[n.get(k, "t")]] for k, x in t.items()}))
        rec.close(u, val, f"permutation:{kind}", "loss depends on the order of the samples in the batch", tol[0], tol[1])
        rec.event("permutations")
    rec.seen("alone", kind, ref, str(args))
    rec.sample(kind=kind, value=val, reference=ref, options={k: str(v) for k, v in args.items()})


@case("C27", quick=300, thorough=6000, requires=["slopes", "identical-zero"])
def gradient_values(rec, rng):
    """Gradients reaching the features against finite differences of the references; identical domains cost nothing."""
    b, p, k = int(rng.integers(4, 9)), int(rng.integers(2, 5)), int(rng.integers(2, 4))
    fs, ft, pt = (rng.normal(size=s) for s in ((b, p), (b, p), (b, k)))
    ys, fs = rng.integers(0, k, b), fs + 1
    C = 2
    cen = rng.normal(size=(C, p))
    km = SphericalKMeans(n_clusters=C)
    km.cluster_centers_ = T32(cen)
    yc = rng.integers(0, C, b)
    table = {
        "coral": (lambda a: L.deepcoral_loss(a[0], a[1]), lambda a: r_coral(a[0], a[1])),
        "dan": (lambda a: L.dan_loss(a[0], a[1], sigmas=[1., 4.]), lambda a: r_mmd(a[0], a[1], [1., 4.])),
        "jdot": (lambda a: L.deepjdot_loss(torch.as_tensor(ys), a[2], a[0], a[1], .7, 1.3), lambda a: r_jdot(ys, a[2], a[0], a[1], .7, 1.3)),
        "mcc": (lambda a: L.mcc_loss(a[2], T=1.5), lambda a: r_mcc(a[2], 1.5)),
        "gda": (lambda a: L.gda_loss(a[0], a[1], "gauss"), lambda a: r_gda(a[0], a[1], "gauss")),
        "gda2": (lambda a: L.gda_loss(a[0], a[1], "euc", "laplac2"), lambda a: r_gda(a[0], a[1], "euc", "laplac2")),
        "cdd": (lambda a: L.cdd_loss(torch.as_tensor(yc), a[0], a[1], km, sigmas=[1., 4.], class_threshold=1), lambda a: r_cdd(yc, a[0], a[1], cen, [1., 4.], thr=1)[0]),
        "bce": (lambda a: DANNLoss()(torch.sigmoid(a[0][:, 0]), torch.sigmoid(a[1][:, 0])), lambda a: r_bce(1 / (1 + np.exp(-a[0][:, 0])), 1 / (1 + np.exp(-a[1][:, 0])))),
        "modified": (lambda a: ModifiedCrossEntropyLoss(.2)(a[2], torch.as_tensor(ys)), lambda a: r_modified(a[2], ys, .2)),
    }
    kind = sorted(table)[rec.idx % len(table)]
    f, r = table[kind]
    with rec.context(loss=kind, b=b, p=p):
        leaves = [T32(x).requires_grad_(True) for x in (fs, ft, pt)]
        with rec.call("slope:" + kind):
            v = f(leaves)
            if not torch.is_tensor(v):
                raise Skip("no valid class: the loss is the number zero")
            v.backward()
        base = [fs, ft, pt]
        for which in range(3):
            g = leaves[which].grad
            d = rng.normal(size=base[which].shape)
            d /= np.linalg.norm(d)
            h = 1e-4
            up, dn = ([x + s * h * d if i == which else x for i, x in enumerate(base)] for s in (1, -1))
            slope, mid = (r(up) - r(dn)) / (2 * h), r(base)
            bend = abs(r(up) + r(dn) - 2 * mid) / h    # a kink of a piecewise loss
            got = 0. if g is None else float((g.double().numpy() * d).sum())
            if bend > 1e-2:
                continue
            rec.close(got, slope, f"slope:{kind}", "gradient differs from the slope of the definition", 2e-2, 3e-3, argument=("features_s", "features_t", "y_pred_t")[which])
            rec.event("slopes")
        # identical domains
        same = T32(fs)
        zero = {"coral": lambda: L.deepcoral_loss(same, same.clone()), "dan": lambda: L.dan_loss(same, same[torch.randperm(b)]), "gda": lambda: L.gda_loss(same, same[torch.randperm(b)], zoo.pick(rng, ["euc", "gauss"])),
                "jdot": lambda: L.deepjdot_loss(torch.as_tensor(ys), T32(60 * np.eye(k)[ys]), same, same.clone(), 1, 1)}
        z = zoo.pick(rng, sorted(zero))
        with rec.call("identical:" + z):
            v = float(zero[z]())
        rec.expect(abs(v) < 5e-3, f"identical:{z}", "discrepancy of two identical domains is not zero", got=v)
        rec.event("identical-zero")
    rec.seen("slope", kind, fs)


@case("C27", quick=150, thorough=2400, requires=["reversed", "classifier-outputs"])
def reversal(rec, rng):
    b, p, k = int(rng.integers(2, 12)), int(rng.integers(1, 7)), int(zoo.pick(rng, [1, 1, 2, 4]))
    alpha = float(zoo.pick(rng, [0., .1, 1., 1., 2.5]))
    x = T32(rng.normal(size=(b, p)))
    with rec.context(b=b, p=p, alpha=alpha, n_classes=k):
        y = x.clone().requires_grad_(True)
        with rec.call("reversal"):
            out = GradientReversalLayer.apply(y, alpha)
        rec.equal(out.detach().numpy(), x.numpy(), "reversal:forward", "the layer changes its input")
        w = T32(rng.normal(size=(b, p)))
        (out * w).sum().backward()
        rec.close(y.grad.numpy(), -alpha * w.numpy(), "reversal:gradient", "gradient is not reversed and scaled", 1e-5, 1e-6)
        torch.manual_seed(rec.idx)
        kw = {} if alpha == 1. and rng.random() < .5 else dict(alpha=alpha)
        with rec.call("domain-classifier"):
            net = DomainClassifier(p, n_classes=k, **kw)
            net.train(bool(rng.random() < .7))
            z = x.clone().requires_grad_(True)
            o = net(z)
        plain = x.clone().requires_grad_(True)
        ref = net.classifier(plain).squeeze()
        if net.training:
            rec.close(o.detach().numpy(), ref.detach().numpy(), "classifier:forward", "forward pass differs from its layers", 1e-5, 1e-6)
        rec.expect(tuple(o.shape) == ((b,) if k == 1 else (b, k)), "classifier:shape", "shape of the output", got=tuple(o.shape))
        v = o.detach().numpy()
        rec.expect((v >= 0).all() and (v <= 1).all(), "classifier:range", "not probabilities")
        if k > 1:
            rec.close(v.sum(1), np.ones(b), "classifier:sum", "probabilities do not sum to one", 1e-5, 1e-5)
        c = T32(rng.normal(size=o.shape))
        net.zero_grad()
        (o * c).sum().backward()
        own = [q.grad.clone() for q in net.parameters()]
        net.zero_grad()
        (ref * c).sum().backward()
        rec.close(z.grad.numpy(), -alpha * plain.grad.numpy(), "classifier:features-gradient", "features do not receive the reversed, scaled gradient", 1e-4, 1e-6)
        for a, q in zip(own, net.parameters()):
            rec.close(a.numpy(), q.grad.numpy(), "classifier:own-gradient", "the classifier's own gradient is altered", 1e-4, 1e-6)
        rec.event("reversed")
        rec.event("classifier-outputs", b)
    rec.seen("reversal", b, p, k, alpha)


@case("C27", quick=100, thorough=1500, requires=["maps"])
def conditional_map(rec, rng):
    """The input CDAN gives its domain classifier."""
    b, k, limit = int(rng.integers(2, 10)), 3, int(zoo.pick(rng, [4, 17, 18, 4096]))
    seed = int(rng.integers(100))
    X = np.stack([np.arange(b) / 8, rng.normal(size=b)], 1).astype(np.float32)
    sd = rng.choice([0, -1], b)
    seen = []

    class Dom(torch.nn.Module):
        def forward(self, z):
            seen.append(z)
            return torch.sigmoid(z.sum(1))
    torch.manual_seed(rec.idx)
    base = Net(k).eval()
    with rec.context(b=b, max_features=limit):
        with rec.call("cdan-module"):
            m = CDANModule(base, "body", Dom(), max_features=limit, random_state=seed)
            outs = [m(T32(X), sample_domain=torch.as_tensor(sd), is_fit=True, sample_idx=torch.arange(b)) for _ in range(2)]
        y, dom, fe, d, i = outs[0]
        f, o = base.body(T32(X)), base(T32(X))
        rec.equal(fe.detach().numpy(), f.detach().numpy(), "map:features", "features are not the layer's")
        rec.equal(y.detach().numpy(), o.detach().numpy(), "map:predictions", "predictions are not the module's")
        rec.equal(seen[0].detach().numpy(), seen[1].detach().numpy(), "map:repeatable", "random map not repeatable")
        z = seen[0].detach().numpy()
        if 6 * k <= limit:
            want = np.einsum("ij,ik->ijk", N(o), N(f)).reshape(b, -1)
            rec.close(z, want, "map:product", "not the product of predictions and features", 1e-5, 1e-6)
        else:
            g = torch.Generator().manual_seed(seed)
            A, B = torch.randn((6, limit), generator=g), torch.randn((k, limit), generator=g)
            want = (N(f) @ N(A)) * (N(o) @ N(B)) / math.sqrt(limit)
            rec.expect(z.shape == (b, limit), "map:random-size", "size of the random map", got=z.shape)
            rec.close(z, want, "map:random", "not the randomised product of predictions and features", 1e-4, 1e-5)
        rec.event("maps")
    rec.seen("map", b, limit, seed)


@case("C27", quick=120, thorough=1200, requires=["finite"])
def hostile(rec, rng):
    """Degenerate but legitimate batches: values and gradients stay finite."""
    b, p, k = int(rng.integers(3, 10)), int(rng.integers(2, 5)), 3
    how = zoo.pick(rng, ["constant-source", "constant-target", "copies", "large", "tiny", "certain", "same"])
    fs, ft, pt, ps = rng.normal(size=(b, p)), rng.normal(size=(b, p)), rng.normal(size=(b, k)), rng.normal(size=(b, k))
    ys = rng.integers(0, k, b)
    if how == "constant-source":
        fs[:] = fs[0]
    elif how == "constant-target":
        ft[:] = ft[0]
    elif how == "copies":
        fs[1:] = fs[:-1]
        ft[:] = fs[::-1]
    elif how == "large":
        fs, ft = fs * 300, ft * 300
    elif how == "tiny":
        fs, ft = fs * 1e-3, ft * 1e-3
    elif how == "certain":
        pt, ps = pt * 12, ps * 12
    else:
        ft = fs.copy()
    km = SphericalKMeans(n_clusters=k)
    km.cluster_centers_ = T32(rng.normal(size=(k, p)))
    M = 3 * b + 5
    mf, mo = T32(rng.normal(size=(M, p))), T32(softmax(rng.normal(size=(M, k)), 1))
    table = {
        "coral": lambda a: L.deepcoral_loss(a[0], a[1]), "dan": lambda a: L.dan_loss(a[0], a[1]), "jdot": lambda a: L.deepjdot_loss(torch.as_tensor(ys), a[2], a[0], a[1], 1, 1),
        "mcc": lambda a: L.mcc_loss(a[2]), "mcc-cold": lambda a: L.mcc_loss(a[2], T=.5), "cdd": lambda a: L.cdd_loss(torch.as_tensor(ys), a[0], a[1], km, class_threshold=1),
        "gda": lambda a: L.gda_loss(a[0], a[1], "gauss"), "nap": lambda a: L.nap_loss(a[1], a[2], mf, mo, torch.arange(b)),
        "dann": lambda a: DANNLoss()(torch.sigmoid(a[0].sum(1)), torch.sigmoid(a[1].sum(1))), "mdd": lambda a: MDDLoss()(a[3], a[2], a[3] * .5, a[2] * .5),
    }
    for kind, f in table.items():
        with rec.context(loss=kind, how=how, b=b):
            leaves = [T32(x).requires_grad_(True) for x in (fs, ft, pt, ps)]
            with rec.call("hostile:" + kind):
                v = f(leaves)
                if torch.is_tensor(v) and v.requires_grad:
                    v.backward()
            rec.expect(np.isfinite(float(v)), f"hostile:{kind}", "loss not finite", got=float(v))
            for x, n in zip(leaves, ("features_s", "features_t", "y_pred_t", "y_pred_s")):
                rec.expect(x.grad is None or bool(torch.isfinite(x.grad).all()), f"hostile-gradient:{kind}", "gradient not finite", of=n)
            rec.event("finite")
    rec.seen("hostile", how, fs)


# the losses inside training: options given to the factory, inputs really received ---------------------------------------
def factories(rng):
    v = lambda *a: zoo.pick(rng, a)
    kw = dict(layer_name="body", train_split=None, verbose=0)
    P, K = c26.P, c26.K
    a = {}
    g, Tm, rd, rc, sig = float(v(1, 4)), float(v(.5, 1, 3)), float(v(.2, 1, 2)), float(v(.2, 1, 2)), v(None, [1., 3.])
    cd = dict(distance_threshold=float(v(.5, .3)), class_threshold=int(v(1, 2)), sigmas=sig)
    regs = {r: float(v(0, .5, 1)) for r in ("reg_adv", "reg_gsa", "reg_nap")}
    F = ("y_s", "features_s", "features_t", "y_pred_t")
    crit, own = criterion(rng), bool(rng.random() < .4)
    sizes = lambda **q: dict(domain_criterion=crit, **(dict(domain_classifier=torch.nn.Sequential(DomainClassifier(list(q.values())[0] if "n_classes" not in q else P * K))) if own else q))
    dom = dict(criterion=str(crit), own_classifier=own)
    n = lambda kws, *names: [N(kws[i]) if kws[i].dtype.is_floating_point else kws[i].numpy() for i in names]
    return {
        "DeepCoral": (lambda m, **k: deep.DeepCoral(m, **kw, **k), lambda q, st: r_coral(*n(q, "features_s", "features_t")), {}),
        "DAN": (lambda m, **k: deep.DAN(m, sigmas=sig, **kw, **k), lambda q, st: r_mmd(*n(q, "features_s", "features_t"), sig), dict(sigmas=sig)),
        "DeepJDOT": (lambda m, **k: deep.DeepJDOT(m, reg_dist=rd, reg_cl=rc, **kw, **k), lambda q, st: r_jdot(*n(q, "y_s", "y_pred_t", "features_s", "features_t"), rd, rc), dict(reg_dist=rd, reg_cl=rc)),
        "DANN": (lambda m, **k: deep.DANN(m, **sizes(num_features=P), **kw, **k), lambda q, st: r_dom(*n(q, "domain_pred_s", "domain_pred_t"), crit), dom),
        "CDAN": (lambda m, **k: deep.CDAN(m, **sizes(num_features=P, n_classes=K), **kw, **k), lambda q, st: r_dom(*n(q, "domain_pred_s", "domain_pred_t"), crit), dom),
        "MDD": (lambda m, **k: deep.MDD(m, num_features=P, n_classes=K, gamma=g, **kw, **k), lambda q, st: r_mdd(*n(q, "y_pred_s", "y_pred_t", "domain_pred_s", "domain_pred_t"), g), dict(gamma=g)),
        "MCC": (lambda m, **k: deep.MCC(m, T=Tm, **kw, **k), lambda q, st: r_mcc(*n(q, "y_pred_t"), Tm), dict(T=Tm)),
        "CAN": (lambda m, **k: deep.CAN(m, **cd, **kw, **k), lambda q, st: r_cdd(np.searchsorted(st["present"], q["y_s"].numpy()), *n(q, "features_s", "features_t"), st["centers"], sig, cd["distance_threshold"], cd["class_threshold"])[0], cd),
        "SPA": (lambda m, **k: deep.SPA(m, **sizes(num_features=P), **regs, **kw, **k),
                lambda q, st: r_spa(*n(q, "y_pred_t", "domain_pred_s", "domain_pred_t", "features_s", "features_t", "sample_idx_t"), st["mf"], st["mo"], st["epoch"], st["epochs"], crit=crit, **regs), {**regs, **dom}),
    }


@case("C27", quick=108, thorough=1800, requires=["training-values"])
def inside_training(rec, rng):
    fac = factories(rng)
    name = sorted(fac)[rec.idx % len(fac)]
    make, ref, opts = fac[name]
    ns, nt, b = int(rng.integers(20, 30)), int(rng.integers(24, 34)), int(rng.integers(5, 10))
    X, Y, sd, _ = dataset(rng, ns, nt, False)
    Y[np.flatnonzero(sd >= 0)[:3]] = [0, 1, 2]
    present = [0, 1, 2] if rng.random() < .6 else zoo.pick(rng, [[0, 2], [1, 2], [2], [0, 1]])      # classes found in the sources
    Y = np.where(np.isin(Y, present), Y, present[-1])
    Y[sd < 0] = -1
    sd[sd < 0] = -1
    epochs = int(rng.integers(1, 4))
    torch.manual_seed(int(rng.integers(1 << 30)))
    log = []

    def hook(module, args, kwargs, out):
        st = {}
        if name == "CAN":
            st["present"] = np.array(present)
            st["centers"] = N(module.target_kmeans.cluster_centers_).copy()
        if name == "SPA":
            st = dict(mf=N(module.memory_features).copy(), mo=N(module.memory_outputs).copy(), epoch=module.n_epochs, epochs=module.max_epochs)
        log.append(({k: v.detach().clone() if torch.is_tensor(v) else v for k, v in kwargs.items()}, st, float(out)))
    with rec.context(net=name, **opts, ns=ns, nt=nt, batch=b, classes=present):
        with rec.call("training:" + name):
            net = make(Net(c26.K), max_epochs=epochs, batch_size=b, lr=.01)
            net.criterion__adapt_criterion.register_forward_hook(hook, with_kwargs=True)
            c26.train(net, zoo.pick(rng, c26.FORMS), X, Y, sd)
        if opts.get("own_classifier"):
            rec.expect(isinstance(net.module_.domain_classifier_, torch.nn.Sequential), "training:classifier", "the domain classifier given is not the one used")
        rec.must(log, "training:none", "adaptation loss never computed")
        done = 0
        for q, st, got in log:
            try:
                want = ref(q, st)
            except Skip:
                continue
            if name == "SPA":
                rec.expect(st["epochs"] == epochs, "training:epochs", "loss does not know the number of epochs", got=st["epochs"], want=epochs)
            rec.close(got, want, f"training:{name}", "adaptation loss of a training step differs from its definition with the options asked for", 5e-3, 1e-2 if name in ("CAN", "DAN", "SPA") else 1e-3)
            done += 1
        rec.event("training-values", done)
    rec.seen("training", name, str(opts), sd)
    rec.sample(kind="training", net=name, steps=len(log), compared=done)


@case("C27", quick=60, thorough=600, requires=["rejections"])
def options(rec, rng):
    x = T32(rng.normal(size=(5, 3)))
    with rec.context():
        rec.rejects("accepts:metric", lambda: L.gda_loss(x, x, metric=zoo.pick(rng, ["l1", "cosine", ""])), ValueError, "unknown metric accepted")
        rec.rejects("accepts:laplacian", lambda: L.gda_loss(x, x, laplac=zoo.pick(rng, ["laplac4", "sym"])), ValueError, "unknown Laplacian accepted")
        rec.rejects("accepts:kmeans", lambda: L.cdd_loss(torch.arange(5), x, x, None), ValueError, "missing clustering accepted")
        for f in (lambda: deep.DANN(Net(3), "body"), lambda: deep.CDAN(Net(3), "body", n_classes=3), lambda: deep.CDAN(Net(3), "body", num_features=6),
                  lambda: deep.MDD(Net(3), "body"), lambda: deep.SPA(Net(3), "body")):
            rec.rejects("accepts:num_features", f, ValueError, "missing size of the domain classifier accepted")
        p = rng.normal(size=(6, 4))
        Tm = float(zoo.pick(rng, [.3, 1, 4]))
        rec.close(L.probability_scaling(T32(p), temperature=Tm).numpy(), softmax(p / Tm, 1), "scaling", "probability scaling", 1e-4, 1e-6)
        g, want = int(rng.integers(1000)), None
        A, B = _RandomLayer(g, [3, 2], 5), _RandomLayer(g, [3, 2], 5)
        rec.expect(all(torch.equal(a, c) for a, c in zip(A.random_matrix, B.random_matrix)), "random-layer", "random layer not determined by its seed")
    rec.seen("options", rec.idx)
