"""C30: memory bank, centroids, clustering and epoch schedule watched step by step during training."""
import copy
import warnings

import numpy as np
import torch
from sklearn.base import clone
from skada import deep
from skada.deep.callbacks import ComputeSourceCentroids, CountEpochs, MemoryBank
from skada.deep.base import DeepDADataset
from skada.deep.utils import SphericalKMeans
from skorch.callbacks import Callback

from .. import zoo
from ..core import Skip, case
from . import c26
from .c17 import Net
from .c25 import dataset, index_in_domain

unit = lambda a: a / np.maximum(np.linalg.norm(a, axis=1, keepdims=True), 1e-12)
N = lambda t: t.detach().double().numpy().copy()


def forward(net, X):
    """(outputs, features) of the network as it is now, in evaluation mode, without touching it."""
    m = copy.deepcopy(net.module__base_module if not hasattr(net, "module_") else copy.deepcopy(net).module_.base_module_).eval()
    for mod in m.modules():
        mod._forward_hooks.clear()
    got = []
    m.get_submodule(net.module__layer_name).register_forward_hook(lambda mod, i, o: got.append(o.flatten(start_dim=1)))
    with torch.no_grad():
        out = m(torch.as_tensor(X))
    return N(out), N(got[0])


LOG = []


class MemoryWatch(Callback):
    """Snapshots around every refresh of the memory."""

    def on_train_begin(self, net, **kw):
        LOG.append(("train", None))

    def on_epoch_begin(self, net, **kw):
        LOG.append(("epoch", None))

    def on_batch_begin(self, net, batch=None, training=False, **kw):
        c = net.criterion__adapt_criterion
        LOG.append(("before", dict(mf=N(c.memory_features), mo=N(c.memory_outputs), n_epochs=c.n_epochs, max_epochs=c.max_epochs)))

    def on_batch_end(self, net, batch=None, training=False, **kw):
        x, _ = batch
        X = x["X"].numpy()
        t = x["sample_domain"].numpy() < 0
        out, fe = forward(net, X[t])
        LOG.append(("end", dict(X=X[t].copy(), idx=x["sample_idx"].numpy()[t].copy(), sd=x["sample_domain"].numpy()[t].copy(), out=out, fe=fe)))

    def on_train_end(self, net, **kw):
        c = net.criterion__adapt_criterion
        LOG.append(("before", dict(mf=N(c.memory_features), mo=N(c.memory_outputs), n_epochs=c.n_epochs, max_epochs=c.max_epochs)))


def softmax(a):
    e = np.exp(a - a.max(1, keepdims=True))
    return e / e.sum(1, keepdims=True)


@case("C30", quick=120, thorough=2000, requires=["memory-refreshes", "untouched-memories", "initial-memories", "epochs-counted"])
def memory(rec, rng):
    ns, nt, b = int(rng.integers(10, 30)), int(rng.integers(12, 34)), int(rng.integers(3, 9))
    X, Y, sd, _ = dataset(rng, ns, nt, False)
    sd[sd < 0] = zoo.pick(rng, [-1, -2, -7])
    Y[sd < 0] = -1
    epochs = int(rng.integers(1, 5))
    mom = zoo.pick(rng, [None, None, .1, .9, 1., 0.])
    torch.manual_seed(int(rng.integers(1 << 30)))
    del LOG[:]
    kw = dict(layer_name="body", num_features=6, train_split=None, verbose=0, batch_size=b, lr=.05, max_epochs=epochs)
    kw["iterator_train__max_samples"] = zoo.pick(rng, ["max", "source", "target", "min"])
    with rec.context(ns=ns, nt=nt, batch=b, epochs=epochs, momentum=mom, max_samples=kw["iterator_train__max_samples"]):
        net = deep.SPA(Net(3), callbacks=[MemoryWatch()], **kw)
        if mom is not None:
            net.set_params(callbacks=[MemoryWatch(), MemoryBank(momentum=mom), CountEpochs()])
        m = .5 if mom is None else mom
        with rec.call("memory"):
            c26.train(net, zoo.pick(rng, c26.FORMS), X, Y, sd)
            if rng.random() < .3:
                c26.train(net, "arrays", X, Y, sd)
        prev, epoch, first = None, 0, True
        for kind, s in LOG:
            if kind == "train":
                prev, epoch, first = None, 0, True
            elif kind == "epoch":
                epoch += 1
            elif kind == "end":
                prev = (last, s)
            else:
                last = s
                rec.must(s["mf"].shape == (nt, 6) and s["mo"].shape == (nt, 3), "memory:shape", "one memory per target sample", features=s["mf"].shape, outputs=s["mo"].shape)
                rec.expect(s["n_epochs"] == epoch and s["max_epochs"] == epochs, "schedule", "schedule does not follow the epochs", counted=s["n_epochs"], epoch=epoch, of=s["max_epochs"])
                rec.event("epochs-counted")
                if prev is None:
                    if first:
                        rec.close(np.linalg.norm(s["mf"], axis=1), np.ones(nt), "memory:initial-features", "initial memories are not on the unit sphere", 1e-5, 1e-5)
                        rec.close(s["mo"], np.full((nt, 3), 1 / 3), "memory:initial-outputs", "initial predictions are not uniform", 1e-5, 1e-6)
                        rec.event("initial-memories")
                    first = False
                    continue
                old, e = prev
                prev = None
                ids = np.rint(e["X"][:, 0] * 8).astype(int)
                rec.equal(e["idx"], index_in_domain(sd)[ids], "memory:index", "index of other samples")
                p2 = softmax(e["out"]) ** 2
                wf, wo = old["mf"].copy(), old["mo"].copy()
                wf[e["idx"]] = (1 - m) * old["mf"][e["idx"]] + m * unit(e["fe"])
                wo[e["idx"]] = (1 - m) * old["mo"][e["idx"]] + m * p2 / p2.sum(0)
                touched = np.isin(np.arange(nt), e["idx"])
                ok = ~np.isnan(wf).any(1)
                rec.close(s["mf"][touched & ok], wf[touched & ok], "memory:features", "memory not refreshed from its own sample's features with the momentum", 1e-3, 1e-4)
                rec.close(s["mo"][touched], wo[touched], "memory:outputs", "memory not refreshed from its own sample's prediction with the momentum", 1e-3, 1e-4)
                rec.equal(s["mf"][~touched], old["mf"][~touched], "memory:others", "memory of a sample outside the batch changed")
                rec.equal(s["mo"][~touched], old["mo"][~touched], "memory:others", "memory of a sample outside the batch changed")
                rec.event("memory-refreshes", int(touched.sum()))
                rec.event("untouched-memories", int((~touched).sum()))
        rec.expect(epoch == epochs, "schedule:length", "number of epochs", got=epoch, want=epochs)
    rec.seen("memory", ns, nt, b, epochs, m, sd)
    rec.sample(kind="memory", ns=ns, nt=nt, batch=b, epochs=epochs, momentum=m, refreshes=sum(k == "end" for k, _ in LOG))


@case("C30", quick=10, thorough=50, requires=["several-target-domains"])
def memory_of_several_domains(rec, rng):
    """Each target sample has a memory of its own, also with several target domains."""
    nt = int(rng.integers(6, 10))
    X, Y, sd, _ = dataset(rng, 12, 2 * nt, False)
    t = np.flatnonzero(sd < 0)
    sd[t[:nt]], sd[t[nt:]], Y[t] = -1, -2, -1
    torch.manual_seed(rec.idx)
    del LOG[:]
    net = deep.SPA(Net(3), layer_name="body", num_features=6, train_split=None, verbose=0, batch_size=4, max_epochs=2, callbacks=[MemoryWatch()])
    with rec.call("several"):
        net.fit(X, Y, sample_domain=sd)
    seen = {}
    for kind, s in LOG:
        if kind == "end":
            for i, x in zip(s["idx"], s["X"]):
                seen.setdefault(int(i), set()).add(int(round(x[0] * 8)))
    rec.event("several-target-domains")
    rec.seen("several", nt, rec.idx)
    rec.expect(all(len(v) == 1 for v in seen.values()), "memory-shared-between-target-domains", "samples of different target domains share one memory",
               shared={k: sorted(v) for k, v in list(seen.items())[:4]})


class CentroidWatch(Callback):
    def on_epoch_begin(self, net, dataset_train=None, **kw):
        # runs before ComputeSourceCentroids: the network is the one the centroids are computed with
        LOG.append(("epoch", dict(now=forward(net, self.X)[1])))

    def on_batch_begin(self, net, batch=None, training=False, **kw):
        k = net.criterion__adapt_criterion.target_kmeans
        LOG.append(("batch", dict(init=N(k.initial_centroids), centers=N(k.cluster_centers_), k=k.n_clusters)))


def lloyd(F, C, tol=1e-4, max_iter=300):
    """Spherical k-means from C; None when an assignment is ambiguous."""
    F = unit(F)
    for _ in range(max_iter):
        n = np.linalg.norm(C, axis=1, keepdims=True)
        S = F @ (C / np.maximum(n, 1e-8)).T
        top = np.sort(S, 1)
        if S.shape[1] > 1 and (top[:, -1] - top[:, -2]).min() < 1e-5:
            return None
        lab = S.argmax(1)
        new = np.array([F[lab == k].sum(0) if (lab == k).any() else np.zeros(F.shape[1]) for k in range(len(C))])
        if np.abs(new - C).max() <= tol * .5 or np.array_equal(new, C):
            return C
        C = new
    return None


@case("C30", quick=100, thorough=1600, requires=["centroids", "clusterings", "same-within-epoch", "missing-classes"])
def centroids(rec, rng):
    k = int(rng.integers(2, 4))
    ns, nt, b = int(rng.integers(12, 30)), int(rng.integers(12, 30)), int(rng.integers(4, 9))
    X, Y, sd, _ = dataset(rng, ns, nt, False)
    Y = Y % k
    Y[np.flatnonzero(sd >= 0)[:k]] = np.arange(k)
    # the network may know classes the sources lack
    known = k + int(rng.integers(0, 3)) * int(rng.random() < .4)
    present = np.sort(rng.permutation(known)[:k])
    Y = present[Y]
    Yt = np.where(sd < 0, -1, Y)
    epochs = int(rng.integers(1, 4))
    torch.manual_seed(int(rng.integers(1 << 30)))
    del LOG[:]
    w = CentroidWatch()
    w.X = X
    with rec.context(classes=present.tolist(), known=known, ns=ns, nt=nt, batch=b, epochs=epochs):
        if known > k:
            rec.event("missing-classes")
        with rec.call("centroids"):
            net = deep.CAN(Net(known), layer_name="body", train_split=None, verbose=0, batch_size=b, lr=.05, max_epochs=epochs, class_threshold=1, callbacks=[w])
            c26.train(net, zoo.pick(rng, ["arrays", "dict", "dataset"]), X, Yt, sd)
        fe, cur = None, None
        for kind, s in LOG:
            if kind == "epoch":
                fe, cur = s["now"], None
                continue
            if cur is not None:
                rec.equal(s["centers"], cur, "centroids:within-epoch", "centroids change within an epoch")
                rec.event("same-within-epoch")
                continue
            cur = s["centers"]
            rec.must(s["k"] == k and s["centers"].shape == (k, 6), "centroids:number", "one centroid per class", got=s["centers"].shape)
            if (np.linalg.norm(fe, axis=1) < 1e-6).any():
                rec.expect(np.isfinite(cur).all(), "centroids:null", "null features destroy the centroids")
                rec.event("null-features")
            u = unit(fe)
            want = np.array([u[(sd >= 0) & (Y == c)].sum(0) for c in present])
            rec.close(unit(s["init"]), unit(want), "centroids:source", "initial centroids are not those of the source features of each class", 1e-3, 1e-4)
            rec.event("centroids", k)
            ref = lloyd(fe[sd < 0], s["init"])
            if ref is not None:
                nz = np.linalg.norm(ref, axis=1) > 1e-6
                rec.close(unit(cur[nz]), unit(ref[nz]), "centroids:target", "target centroids are not the clustering started from the source centroids", 5e-3, 2e-3)
                rec.event("clusterings")
    rec.seen("centroids", k, ns, nt, Y, sd)
    rec.sample(kind="centroids", classes=k, epochs=epochs)


@case("C30", quick=500, thorough=10000, requires=["assignments", "fixed-points", "restarts"])
def clustering(rec, rng):
    n, p, k = int(rng.integers(4, 60)), int(rng.integers(2, 6)), int(rng.integers(1, 6))
    k = min(k, n)
    dirs = rng.normal(size=(k, p))
    F = (unit(dirs)[rng.integers(0, k, n)] * 3 + rng.normal(size=(n, p)) * zoo.pick(rng, [.1, .5, 1.5])) * rng.uniform(.1, 5, (n, 1))
    F = F.astype(np.float32)
    init = None if rng.random() < .5 else torch.as_tensor(rng.normal(size=(k, p)).astype(np.float32) * 2)
    seed, ninit = int(rng.integers(1000)), int(zoo.pick(rng, [1, 3, 10]))
    mi = int(zoo.pick(rng, [300, 300, 1, 3]))
    arg = torch.as_tensor(F) if rng.random() < .6 else F
    with rec.context(n=n, p=p, k=k, init=init is not None, n_init=ninit, max_iter=mi):
        before = None if init is None else init.clone()
        with rec.call("kmeans"):
            km = SphericalKMeans(n_clusters=k, n_init=ninit, max_iter=mi, initial_centroids=init, random_state=seed)
            r = km.fit(arg)
            lab = km.predict(arg).numpy()
        rec.expect(r is km, "kmeans:self", "fit does not return the object")
        if init is not None:
            rec.expect(torch.equal(init, before), "kmeans:initial", "initial centroids modified")
        C = N(km.cluster_centers_)
        rec.must(C.shape == (k, p), "kmeans:centers", "shape of the centres", got=C.shape)
        rec.expect(1 <= km.n_iter_ <= mi, "kmeans:iterations", "number of iterations", got=km.n_iter_)
        sim = unit(F.astype(float)) @ (C / np.maximum(np.linalg.norm(C, axis=1, keepdims=True), 1e-8)).T
        rec.expect((sim.max(1) - sim[np.arange(n), lab] < 1e-4).all(), "kmeans:nearest", "a point is not assigned to its nearest centre", worst=float((sim.max(1) - sim[np.arange(n), lab]).max()))
        rec.event("assignments", n)
        Z = rng.normal(size=(9, p)).astype(np.float32)
        with rec.call("kmeans:new"):
            zl = km.predict(zoo.pick(rng, [Z, torch.as_tensor(Z), Z * 7])).numpy()
        zs = unit(Z.astype(float)) @ (C / np.maximum(np.linalg.norm(C, axis=1, keepdims=True), 1e-8)).T
        rec.expect((zs.max(1) - zs[np.arange(9), zl] < 1e-4).all(), "kmeans:nearest", "a new point is not assigned to its nearest centre")
        if km.n_iter_ < mi:
            inertia = (.5 * (1 - sim.max(1))).sum()
            rec.close(km.inertia_, inertia, "kmeans:inertia", "inertia is not the dissimilarity of the points to their centres", 1e-3, 1e-3)
            u = unit(F.astype(float))
            want = np.array([u[lab == j].sum(0) for j in range(k)])
            full = np.bincount(lab, minlength=k) > 0
            rec.close(C[full], want[full], "kmeans:fixed-point", "centres are not those of the points assigned to them", 1e-2, 1e-2)
            rec.event("fixed-points")
        if rng.random() < .4:       # features a ReLU sets to zero: no direction, no pull on any centre
            nz = int(rng.integers(1, 4))
            F0 = np.insert(F, rng.integers(0, n + 1, nz), 0, axis=0)
            with rec.call("kmeans:null"):
                k0 = SphericalKMeans(n_clusters=k, n_init=ninit, max_iter=mi, initial_centroids=init, random_state=seed).fit(torch.as_tensor(F0))
            C0 = N(k0.cluster_centers_)
            rec.expect(np.isfinite(C0).all() and np.isfinite(k0.inertia_), "kmeans:null", "null feature vectors destroy the clustering", centers=C0)
            if init is not None:
                rec.close(C0, C, "kmeans:null", "null feature vectors move the centres", 1e-4, 1e-4)
                rec.close(k0.inertia_, km.inertia_ + .5 * nz, "kmeans:null", "inertia with null feature vectors", 1e-3, 1e-3)
            rec.event("null-features", nz)
        with rec.call("kmeans:repeat"):
            again = SphericalKMeans(n_clusters=k, n_init=ninit, max_iter=mi, initial_centroids=init, random_state=seed).fit(arg)
        rec.equal(N(again.cluster_centers_), C, "kmeans:repeatable", "same seed, other centres")
        if init is None and ninit > 1:
            with rec.call("kmeans:single"):
                one = SphericalKMeans(n_clusters=k, n_init=1, max_iter=mi, random_state=seed).fit(arg)
            rec.expect(km.inertia_ <= one.inertia_ + 1e-4 * (1 + one.inertia_), "kmeans:best", "restarts give a worse clustering than the first one", got=km.inertia_, first=one.inertia_)
            rec.event("restarts")
        if rec.idx % 5 == 0:
            # clear-cut groups: a hundred restarts find them, one in a few is lucky
            g = int(rng.integers(3, 5))
            D = np.eye(g)[np.repeat(np.arange(g), 6)] * rng.uniform(1, 3, (6 * g, 1)) + rng.normal(size=(6 * g, g)) * .02
            D = D[rng.permutation(len(D))].astype(np.float32)
            with rec.call("kmeans:many"):
                top = SphericalKMeans(n_clusters=g, n_init=100, random_state=seed).fit(D)
            rec.expect(top.inertia_ < .05, "kmeans:best", "the best of a hundred restarts misses clear-cut groups", got=top.inertia_, groups=g)
            rec.event("restarts")
        if init is not None and mi == 300:
            with rec.call("kmeans:short"):
                few = SphericalKMeans(n_clusters=k, max_iter=1, initial_centroids=init, random_state=seed).fit(arg)
            rec.expect(km.inertia_ <= few.inertia_ + 1e-3 * (1 + few.inertia_), "kmeans:descent", "more iterations give a worse clustering", got=km.inertia_, few=few.inertia_)
            rec.event("restarts")
    rec.seen("clustering", n, p, k, seed, init is None, mi)


class Heard(Callback):
    def __init__(self, tag=0):
        self.tag = tag

    def on_epoch_begin(self, net, **kw):
        LOG.append(("heard", self.tag))


@case("C30", quick=60, thorough=600, requires=["callback-lists", "trained-with-callbacks", "train-mode"])
def callers_callbacks(rec, rng):
    name = zoo.pick(rng, ["CAN", "SPA"])
    form = zoo.pick(rng, ["list", "list", "named", "single", "none", "empty"])
    cbs = {"list": [Heard(1), Heard(2)], "named": [("a", Heard(1)), ("b", Heard(2))], "single": Heard(1), "none": None, "empty": []}[form]
    kept = list(cbs) if isinstance(cbs, list) else cbs
    tags = {"list": [1, 2], "named": [1, 2], "single": [1]}.get(form, [])
    epochs = int(rng.integers(1, 4))
    make = lambda c: deep.CAN(Net(2), layer_name="body", class_threshold=1, train_split=None, verbose=0, batch_size=5, max_epochs=epochs, callbacks=c) if name == "CAN" else \
        deep.SPA(Net(2), layer_name="body", num_features=6, train_split=None, verbose=0, batch_size=5, max_epochs=epochs, callbacks=c)
    X, Y, sd, _ = dataset(rng, 12, 12, False)
    sd[sd < 0] = -1
    Y = np.where(sd < 0, -1, Y % 2)
    Y[np.flatnonzero(sd >= 0)[:2]] = [0, 1]
    own = {"CAN": [ComputeSourceCentroids], "SPA": [MemoryBank, CountEpochs]}[name]
    with rec.context(net=name, form=form):
        with rec.call("callbacks"):
            nets = [make(cbs) for _ in range(int(rng.integers(1, 4)))]
            nets.append(clone(nets[0]))
        same = cbs is kept if not isinstance(kept, list) else len(cbs) == len(kept) and all(a is b for a, b in zip(cbs, kept))
        rec.expect(same, "callbacks:altered", "the caller's list of callbacks was altered", got=cbs)
        rec.event("callback-lists")
        for net in nets[-2:]:
            del LOG[:]
            modes = []
            net.module__base_module.register_forward_pre_hook(lambda m, a: modes.append(m.training) if torch.is_grad_enabled() else None)
            for fit in range(int(rng.integers(1, 3))):
                n0 = len(LOG)
                with rec.call("callbacks:fit"):
                    net.fit(X, Y, sample_domain=sd)
                heard = [t for _, t in LOG[n0:]]
                rec.expect(heard == tags * epochs, "callbacks:run", "callbacks of the caller do not run once per epoch", got=heard, want=tags * epochs)
                kinds = [type(c) for _, c in net.callbacks_]
                for o in own:
                    rec.expect(kinds.count(o) == 1, "callbacks:own", f"{o.__name__} runs {kinds.count(o)} times")
            rec.event("trained-with-callbacks")
            rec.expect(modes and all(modes), "callbacks:mode", "a training step is run in evaluation mode")
            rec.event("train-mode", len(modes))
        rec.expect(same, "callbacks:altered", "the caller's list of callbacks was altered", got=cbs)
    rec.seen("callbacks", name, form, epochs, sd)
