"""C25: domain-aware batching."""
import warnings

import numpy as np
import torch
from skada import deep
from skada.deep.base import (DeepDADataset, DomainAwareCriterion, DomainAwareModule, DomainAwareNet, DomainBalancedDataLoader, DomainBalancedSampler,
                             DomainOnlyDataLoader, DomainOnlySampler)
from skada.deep._baseline import DummyLoss
from skorch.callbacks import Callback

from .. import zoo
from ..core import Skip, case
from .c17 import Net


def dataset(rng, ns, nt, weighted=None):
    """Rows numbered in their first coordinate; interleaved, several domains of each role (0 is a source)."""
    n = ns + nt
    sd = np.r_[rng.choice([0, 1, 4, 9], ns), rng.choice([-1, -2, -7], nt)][rng.permutation(n)].astype(int)
    X = np.stack([np.arange(n) / 8, rng.normal(size=n)], 1).astype(np.float32)
    y = rng.integers(0, 3, n)
    w = rng.uniform(.1, 2, n) if (rng.random() < .5 if weighted is None else weighted) else None
    return X, y, sd, w


def index_in_domain(sd):
    return np.array([int((sd[:i] == s).sum()) for i, s in enumerate(sd)])


def fields(rec, key, x, y, X, Y, sd, w):
    """Ids of the rows of a batch, after checking that every field is the row's own."""
    ids = np.rint(x["X"].numpy()[:, 0] * 8).astype(int)
    rec.must(((0 <= ids) & (ids < len(X))).all(), key + ":rows", "a row of the batch is not in the data", ids=ids)
    rec.equal(x["X"].numpy(), X[ids], key + ":fields", "values of another sample")
    rec.equal(np.asarray(y), Y[ids], key + ":fields", "labels of other samples")
    rec.equal(x["sample_domain"].numpy(), sd[ids], key + ":fields", "domains of other samples")
    if "sample_idx" in x or w is not None:
        rec.expect("sample_idx" in x, key + ":fields", "index missing")
    rec.equal(x["sample_idx"].numpy(), index_in_domain(sd)[ids], key + ":fields", "per-domain indices of other samples")
    if w is not None:
        rec.must("sample_weight" in x, key + ":fields", "weights missing")
        rec.equal(x["sample_weight"].numpy(), w[ids], key + ":fields", "weights of other samples")
    else:
        rec.expect("sample_weight" not in x, key + ":fields", "weights out of nowhere")
    rec.event("delivered", len(ids))
    return ids


def fair(rec, key, ids, pool, once=False):
    """Nothing is repeated before everything was used."""
    n = len(pool)
    rec.expect(np.isin(ids, pool).all(), key + ":role", "a sample of the other role")
    if once:
        rec.expect(len(ids) <= n, key + ":repeat", "more draws than samples")
    for a in range(0, len(ids), n):
        part = ids[a:a + n]
        rec.expect(len(set(part.tolist())) == len(part), key + ":repeat", "a sample is repeated before every sample of its role was used", draws=len(ids), samples=n)
    rec.event("passes")
    if len(ids) > n:
        rec.event("wrapped-passes")


def announced(limit, ns, nt, b):
    fs, ft = ns - ns % b, nt - nt % b
    return dict(max=max(fs, ft), min=min(fs, ft), source=fs, target=ft)[limit]


@case("C25", quick=500, thorough=8000, requires=["delivered", "balanced-batches", "wrapped-passes", "epochs-differ"])
def balanced(rec, rng):
    ns, nt = int(rng.integers(1, 40)), int(rng.integers(1, 40))
    if rng.random() < .2:
        ns, nt = int(zoo.pick(rng, [3, 60])), int(zoo.pick(rng, [4, 50]))
    b = int(rng.integers(1, 12))
    X, y, sd, w = dataset(rng, ns, nt)
    ds = DeepDADataset(X, y, sd, w)
    limit = zoo.pick(rng, ["max", "max", "min", "source", "target"])
    torch.manual_seed(int(rng.integers(1 << 30)))
    kw = {} if limit == "max" and rng.random() < .5 else dict(max_samples=limit)
    with rec.context(ns=ns, nt=nt, batch_size=b, max_samples=limit):
        with rec.call("balanced"):
            loader = DomainBalancedDataLoader(ds, b, **kw)
            sampler = DomainBalancedSampler(ds, b, **kw)
        want = announced(limit, ns, nt, b)
        src, tgt = np.flatnonzero(sd >= 0), np.flatnonzero(sd < 0)
        orders = []
        for _ in range(2):
            with rec.call("balanced:pass"):
                batches = list(loader)
            rec.expect(len(batches) == len(loader), "balanced:announced", "number of batches announced and produced", announced=len(loader), produced=len(batches))
            rec.expect(len(batches) * b == want, "balanced:length", "number of batches of a pass", got=len(batches), want=want // b)
            ids = []
            for x, yy in batches:
                i = fields(rec, "balanced", x, yy, X, y, sd, w)
                rec.expect((sd[i] >= 0).sum() == (sd[i] < 0).sum() == b, "balanced:balance", "not as many source as target samples in a batch",
                           sources=int((sd[i] >= 0).sum()), targets=int((sd[i] < 0).sum()))
                rec.event("balanced-batches")
                ids.append(i)
            ids = np.concatenate(ids) if ids else np.zeros(0, int)
            fair(rec, "balanced", ids[sd[ids] >= 0], src)
            fair(rec, "balanced", ids[sd[ids] < 0], tgt)
            orders.append(ids)
        if want >= 12:
            rec.expect(not np.array_equal(*orders), "balanced:order", "two passes use the same order")
            rec.event("epochs-differ")
        with rec.call("balanced:sampler"):
            raw = np.array(list(sampler), int)
        rec.expect(len(raw) == len(sampler) == 2 * want, "balanced:sampler-length", "length announced by the sampler", got=len(raw), announced=len(sampler))
        rec.expect(len(raw) == 0 or (sd[raw] >= 0).sum() == want, "balanced:sampler-balance", "the sampler is not balanced")
    rec.seen("balanced", ns, nt, b, limit, sd)
    rec.sample(kind="balanced", ns=ns, nt=nt, batch=b, max_samples=limit, batches=want // b)


@case("C25", quick=400, thorough=6000, requires=["delivered", "restricted-batches", "rejections", "everyone-served"])
def restricted(rec, rng):
    ns, nt = int(rng.integers(1, 30)), int(rng.integers(1, 30))
    b = int(rng.integers(1, 12))
    X, y, sd, w = dataset(rng, ns, nt)
    ds = DeepDADataset(X, y, sd, w)
    used = zoo.pick(rng, ["source", "target", "default"])
    kw = {} if used == "default" else dict(domain_used=used)
    torch.manual_seed(int(rng.integers(1 << 30)))
    with rec.context(ns=ns, nt=nt, batch_size=b, used=used):
        with rec.call("restricted"):
            loader, sampler = DomainOnlyDataLoader(ds, b, **kw), DomainOnlySampler(ds, b, **kw)
        pool = np.flatnonzero(sd < 0) if used == "target" else np.flatnonzero(sd >= 0)
        want = len(pool) // b
        served = set()
        for k in range(2 if rng.random() < .8 else 60):
            with rec.call("restricted:pass"):
                batches = list(loader)
            rec.expect(len(batches) == len(loader) == want, "restricted:announced", "number of batches announced and produced", announced=len(loader), produced=len(batches), want=want)
            ids = []
            for x, yy in batches:
                i = fields(rec, "restricted", x, yy, X, y, sd, w)
                rec.expect(len(i) == b, "restricted:size", "batch size", got=len(i))
                rec.event("restricted-batches")
                ids.append(i)
            ids = np.concatenate(ids) if ids else np.zeros(0, int)
            fair(rec, "restricted", ids, pool, once=True)
            served |= set(ids.tolist())
        if k > 10 and want:
            rec.expect(served == set(pool.tolist()), "restricted:served", "some samples never take part, pass after pass", missing=sorted(set(pool.tolist()) - served))
            rec.event("everyone-served")
        with rec.call("restricted:sampler"):
            raw = list(sampler)
        rec.expect(len(raw) == len(sampler) == want * b, "restricted:sampler", "length announced by the sampler")
    if rec.idx % 5 == 0:
        wrong = zoo.pick(rng, ["both", "Source", "", "sources"])
        rec.rejects("restricted:accepts", lambda: DomainOnlySampler(ds, b, domain_used=wrong), ValueError, "unknown domain name accepted")
        rec.rejects("restricted:accepts", lambda: DomainOnlyDataLoader(ds, b, domain_used=wrong), ValueError, "unknown domain name accepted")
    rec.seen("restricted", ns, nt, b, used, sd)


@case("C25", quick=60, thorough=600, requires=["everyone-served"])
def every_sample(rec, rng):
    """Over many balanced passes every sample of both roles takes part."""
    ns, nt, b = int(rng.integers(5, 25)), int(rng.integers(5, 25)), int(rng.integers(1, 5))
    X, y, sd, w = dataset(rng, ns, nt)
    torch.manual_seed(int(rng.integers(1 << 30)))
    limit = zoo.pick(rng, ["max", "min", "source", "target"])
    with rec.context(ns=ns, nt=nt, batch_size=b, max_samples=limit):
        sampler = DomainBalancedSampler(DeepDADataset(X, y, sd, w), b, limit)
        count = np.zeros(len(X), int)
        for _ in range(150):
            np.add.at(count, np.array(list(sampler), int), 1)
        rec.expect((count > 0).all(), "balanced:served", "some samples never take part, pass after pass", missing=np.flatnonzero(count == 0))
        for role in (sd >= 0, sd < 0):
            c = count[role]
            # uses per pass differ by at most one and are drawn at random: 150 passes stay within 6.5 standard deviations of the mean
            rec.expect(np.abs(c - c.mean()).max() <= 40, "balanced:fair", "some samples are used more often than others, pass after pass", counts=c)
    rec.event("everyone-served", len(X))
    rec.seen("served", ns, nt, b, limit)


class Watch(Callback):
    """Writes down every training batch."""

    def __init__(self):
        self.epochs, self.steps = [], []

    def on_epoch_begin(self, net, **kw):
        self.epochs.append([])

    def on_batch_begin(self, net, batch=None, training=False, **kw):
        if training:
            self.epochs[-1].append(batch)


def module():
    return Net(3)


NETS = {
    "balanced": lambda **k: DomainAwareNet(DomainAwareModule(module(), "body"), criterion=DomainAwareCriterion(torch.nn.CrossEntropyLoss(), DummyLoss()), **k),
    "SourceOnly": lambda **k: deep.SourceOnly(module(), layer_name="body", **k),
    "TargetOnly": lambda **k: deep.TargetOnly(module(), layer_name="body", **k),
    "DeepCoral": lambda **k: deep.DeepCoral(module(), reg=1, layer_name="body", **k),
    "DAN": lambda **k: deep.DAN(module(), reg=1, layer_name="body", **k),
    "DANN": lambda **k: deep.DANN(module(), reg=1, num_features=6, layer_name="body", **k),
    "MCC": lambda **k: deep.MCC(module(), reg=1, layer_name="body", **k),
    "SPA": lambda **k: deep.SPA(module(), num_features=6, layer_name="body", **k),
}


@case("C25", quick=160, thorough=1600, requires=["delivered", "balanced-batches", "restricted-batches"])
def during_training(rec, rng):
    """The batches a network really trains on."""
    name = sorted(NETS)[rec.idx % len(NETS)]
    ns, nt, b = int(rng.integers(9, 30)), int(rng.integers(9, 30)), int(rng.integers(3, 9))
    weighted = name in ("balanced", "SourceOnly") and rng.random() < .4
    X, y, sd, w = dataset(rng, ns, nt, False)
    watch = Watch()
    limit = zoo.pick(rng, ["max", "min", "source", "target"])
    only = name in ("SourceOnly", "TargetOnly")
    kw = {} if only or (limit == "max" and rng.random() < .5) else dict(iterator_train__max_samples=limit)
    net = NETS[name](max_epochs=2, batch_size=b, train_split=None, verbose=0, callbacks=[("watch", watch)], lr=1e-4, **kw)
    torch.manual_seed(int(rng.integers(1 << 30)))
    form = zoo.pick(rng, ["arrays", "dict", "dataset"])
    with rec.context(net=name, ns=ns, nt=nt, batch_size=b, max_samples=limit, form=form):
        with rec.call("train:" + name), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if form == "arrays":
                net.fit(X, y, sample_domain=sd)
            elif form == "dict":
                net.fit(dict(X=X, sample_domain=sd), y)
            else:
                net.fit(DeepDADataset(X, y, sd), None)
        watch = dict(net.callbacks_)["watch"]
        rec.must(len(watch.epochs) == 2, "train:epochs", "number of epochs", got=len(watch.epochs))
        src, tgt = np.flatnonzero(sd >= 0), np.flatnonzero(sd < 0)
        want = (ns if name == "SourceOnly" else nt) // b if only else announced(limit, ns, nt, b) // b
        for ep in watch.epochs:
            rec.expect(len(ep) == want, "train:length", "number of batches of an epoch", got=len(ep), want=want)
            ids = []
            for x, yy in ep:
                i = fields(rec, "train", x, yy, X, y, sd, None)
                if only:
                    rec.expect(len(i) == b, "train:size", "batch size", got=len(i))
                    rec.event("restricted-batches")
                else:
                    rec.expect((sd[i] >= 0).sum() == (sd[i] < 0).sum() == b, "train:balance", "not as many source as target samples in a batch",
                               sources=int((sd[i] >= 0).sum()), targets=int((sd[i] < 0).sum()))
                    rec.event("balanced-batches")
                ids.append(i)
            ids = np.concatenate(ids) if ids else np.zeros(0, int)
            if only:
                fair(rec, "train", ids, src if name == "SourceOnly" else tgt, once=True)
            else:
                fair(rec, "train", ids[sd[ids] >= 0], src)
                fair(rec, "train", ids[sd[ids] < 0], tgt)
    rec.seen("training", name, sd, b)
    rec.sample(kind="training", net=name, ns=ns, nt=nt, batch=b, batches=want)
