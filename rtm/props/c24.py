"""C24: the deep-learning dataset, against a list of records."""
import numpy as np
import pandas as pd
import torch
from skada.deep.base import DeepDADataset as D

from .. import zoo
from ..core import Skip, case

MARK = -1


class Ref:
    """The dataset as a plain list of (x, y, domain, weight) records."""

    def __init__(self, X, y, sd, w):
        self.X, self.y, self.sd, self.w = X, y, sd, w

    def take(self, keep, weights=True):
        return Ref(self.X[keep], self.y[keep], self.sd[keep], self.w[keep] if weights and self.w is not None else None)

    def join(self, other, weights):
        w = None
        if weights and (self.w is not None or other.w is not None):
            w = np.concatenate([r.w if r.w is not None else np.zeros(0) for r in (self, other)])
            w = w if len(w) else None
        return Ref(np.concatenate([self.X, other.X]), np.concatenate([self.y, other.y]), np.concatenate([self.sd, other.sd]), w)

    def idx(self):
        return np.array([int((self.sd[:i] == s).sum()) for i, s in enumerate(self.sd)], int)

    def __len__(self):
        return len(self.X)


counter = [0.]


def make(rng, n=None, weighted=None, shape=None, integer=False):
    n = int(rng.integers(0, 9)) if n is None else n
    shape = (3,) if shape is None else shape
    base = counter[0] + np.arange(n)
    counter[0] += n
    X = (base.reshape((n,) + (1,) * len(shape)) * 10 + rng.random((n,) + shape) * (not integer)).astype(int if integer else zoo.pick(rng, [np.float64, np.float64, np.float32]))
    y = rng.integers(-1 if rng.random() < .8 else -4, 4, n)
    if rng.random() < .3:
        y = y.astype(float)
    sd = rng.choice([-5, -2, -1, 0, 1, 2, 7], n)
    w = rng.uniform(.1, 3, n) if (rng.random() < .5 if weighted is None else weighted) else None
    if w is not None and rng.random() < .5:
        w[rng.random(n) < zoo.pick(rng, [.3, 1.])] = 0
    return Ref(X, y, sd, w)


def t(a):
    return torch.as_tensor(np.array(a))


def build(rec, rng, r):
    """A dataset of the records in a random supported representation; what is left out becomes the documented default."""
    r = Ref(r.X.copy(), r.y.copy(), r.sd.copy(), None if r.w is None else r.w.copy())
    kind = zoo.pick(rng, ["numpy", "torch", "list", "tuple", "dict", "dict-torch", "frame", "dataset", "dict-outside"])
    conv = dict(numpy=np.array, torch=t, list=lambda a: np.array(a).tolist(), tuple=lambda a: tuple(np.array(a).tolist()), dict=np.array, frame=list, dataset=np.array).get(kind, t)
    if kind == "dict-outside":
        conv = np.array
    parts = dict(y=r.y, sample_domain=r.sd)
    if r.w is not None:
        parts["sample_weight"] = r.w
    drop = rng.random()
    if drop < .1:
        del parts["y"]
        r.y = np.full(len(r), float(MARK))
    elif drop < .2:
        del parts["sample_domain"]
        r.sd = np.zeros(len(r), int)
    elif drop < .3 and len(r):
        one = int(rng.choice([-3, 0, 4]))
        r.sd = np.full(len(r), one)
        parts["sample_domain"] = one
    parts = {k: v if isinstance(v, int) else conv(v) for k, v in parts.items()}
    with rec.call("build:" + kind), rec.context(kind=kind, n=len(r), given=sorted(parts)):
        if kind in ("dict", "dict-torch"):
            ds = D(dict(X=conv(r.X), **parts))
        elif kind == "dict-outside":
            # any part of it beside the dict
            inside = [k for k in parts if rng.random() < .4]
            ds = D(dict(X=conv(r.X), **{k: parts[k] for k in inside}), **{k: v for k, v in parts.items() if k not in inside})
        elif kind == "frame":
            if len(r) == 0:
                kind = "numpy"
                ds = D(r.X, **{k: v if isinstance(v, int) else np.array(v) for k, v in parts.items()})
            else:
                # rows of a frame do not have to be numbered from zero
                index = rng.permutation(len(r)) + 3 if rng.random() < .5 else None
                ds = D(pd.DataFrame(dict(X=r.X.tolist(), **{k: v for k, v in parts.items()}), index=index))
        elif kind == "dataset":
            ds = D(D(conv(r.X), **parts))
        else:
            ds = D(conv(r.X), **parts)
    rec.event("built-" + kind)
    return ds, r


def arr(a):
    return a.detach().numpy() if isinstance(a, torch.Tensor) else np.asarray(a)


def agree(rec, ds, r, key):
    """Every way of reading the dataset tells the same records."""
    rec.must(len(ds) == len(r), key + ":size", "number of samples", got=len(ds), want=len(r))
    weighted = r.w is not None and len(r) > 0
    rec.expect(bool(ds.is_empty()) == (len(r) == 0), key + ":empty", "emptiness")
    with rec.call(key + ":read"):
        arrays, arrays_now, d, d_now = ds.as_arrays(), ds.as_arrays(return_weights=False), ds.as_dict(), ds.as_dict(sample_indices=False)
    rec.must(len(arrays) == (4 if weighted else 3) and len(arrays_now) == 3, key + ":arrays", "number of arrays", got=(len(arrays), len(arrays_now)))
    want = dict(X=r.X, y=r.y, sample_domain=r.sd, sample_idx=r.idx())
    if weighted:
        want["sample_weight"] = r.w
    rec.expect(set(d) == set(want) and set(d_now) == set(want) - {"sample_idx"}, key + ":keys", "fields of the dictionary", got=sorted(d))
    for name, v in want.items():
        seen = [arr(d[name])]
        if name != "sample_idx":
            i = ["X", "y", "sample_domain", "sample_weight"].index(name)
            seen += [arr(arrays[i]), arr(d_now[name])] + ([arr(arrays_now[i])] if i < 3 else [])
        for a in seen:
            rec.expect(a.shape == np.shape(v) or len(r) == 0, key + ":shape", f"shape of {name}", got=a.shape, want=np.shape(v))
            rec.expect(len(r) == 0 or (a.shape == np.shape(v) and (a == v).all()), key + ":" + name, f"{name} is not that of the samples", got=a, want=v)
    for i in range(len(r)):
        x, y = ds[i]
        ok = set(x) == set(want) - {"y"} and float(y) == float(r.y[i]) and all((arr(x[k]) == want[k][i]).all() for k in x)
        rec.expect(ok, key + ":item", "an item mixes fields of several samples", index=i)
    with rec.call(key + ":domains"):
        dom = ds.domains()
    rec.expect(tuple(dom) == tuple(sorted(set(r.sd.tolist()))), key + ":domains", "list of domains", got=dom)
    rec.event("records", len(r))


PARTS = ["select_source", "select_target", "select_domain", "select_with_labels", "select", "split"]


def operation(rec, rng, ds, r, op):
    """Apply one operation to the dataset and to the records."""
    wts = bool(rng.random() < .8)
    kw = {} if wts and rng.random() < .5 else dict(return_weights=wts)
    key = op
    if op in ("select_source", "select_target"):
        with rec.call(key):
            return getattr(ds, op)(**kw), r.take(r.sd >= 0 if op == "select_source" else r.sd < 0, wts)
    if op == "select_domain":
        one = int(zoo.pick(rng, [-5, -2, -1, 0, 1, 2, 7, 9]))
        with rec.call(key):
            return ds.select_domain(one, **kw), r.take(r.sd == one, wts)
    if op == "select_with_labels":
        with rec.call(key):
            return ds.select_with_labels(**kw), r.take(r.y != MARK, wts)
    if op == "select":
        on = zoo.pick(rng, ["X", "y", "sample_domain", "sample_weight", "sample_weight"])
        lim, up = int(rng.integers(0, 3)), bool(rng.random() < .5)
        if on == "sample_weight" and (r.w is None or len(r) == 0):
            rec.rejects("select:no-weights", lambda: ds.select(lambda v: v > lim, on=on), ValueError, "there are no weights to select on")
            return ds, r
        cond = {"X": lambda v: (v[:, 0, 0] if v.ndim == 3 else v[:, 0] if v.ndim == 2 else v) % (20 + 10 * lim) < 10,
                "y": lambda v: v <= lim, "sample_domain": lambda v: v % 2 == lim % 2, "sample_weight": lambda v: (v > lim / 2) == up}[on]
        with rec.call(key):
            out = ds.select(cond, on, **kw)
        keep = dict(X=cond(r.X), y=cond(r.y) & (r.y != MARK), sample_domain=cond(r.sd), sample_weight=None if r.w is None else cond(r.w))[on]
        return out, r.take(np.asarray(keep, bool), wts)
    if op == "split":
        with rec.call(key):
            parts = ds.per_domain_split(**kw)
        rec.expect(sorted(parts) == sorted(set(r.sd.tolist())), "split:domains", "one part per domain", got=sorted(parts))
        for k in parts:
            agree(rec, parts[k], r.take(r.sd == k, wts), "split")
        return ds, r
    if op in ("merge", "add_domain", "merge-inplace"):
        same = (r.w is not None and len(r) > 0)
        o = make(rng, shape=r.X.shape[1:], weighted=same)
        ods, o = build(rec, rng, o)
        before = Ref(r.X.copy(), r.y.copy(), r.sd.copy(), None if r.w is None else r.w.copy())
        keep = bool(rng.random() < .6)
        if op == "add_domain":
            form = zoo.pick(rng, ["dataset", "dict", "tuple", "list"])
            arg = ods if form == "dataset" else {k: v for k, v in ods.as_dict(sample_indices=False).items()} if form == "dict" else \
                tuple(ods.as_arrays()) if form == "tuple" else list(ods.as_arrays())
            if form != "dataset" and len(o) == 0:
                arg = ods
            with rec.call(key):
                out = ds.add_domain(arg)
            keep = False
        elif op == "merge":
            with rec.call(key):
                out = ds.merge(ods, keep_weights=True) if keep else ds.merge(ods) if rng.random() < .5 else ds.merge(ods, keep_weights=False)
        else:
            with rec.call(key):
                ds.merge(ods, keep_weights=keep, out=False)
            out = ds
        if op != "merge-inplace":
            agree(rec, ds, before, op + ":self")
        agree(rec, ods, o, op + ":other")
        return out, r.join(o, keep)
    if op == "add_weights":
        w = rng.uniform(0, 5, len(r)) * (rng.random(len(r)) < zoo.pick(rng, [1, 1, .7, 0.]))
        form = zoo.pick(rng, [np.array, t, list])
        with rec.call(key):
            out = ds.add_weights(form(w))
        return out, Ref(r.X, r.y, r.sd, w)
    if op == "bad_weights":
        w = rng.uniform(0, 5, len(r) + int(rng.integers(1, 3)))
        rec.rejects("bad-weights", lambda: ds.add_weights(w), (AssertionError, ValueError), "one weight per sample is required")
        return ds, r
    if op == "remove_weights":
        with rec.call(key):
            out = ds.remove_weights()
        return out, Ref(r.X, r.y, r.sd, None)
    if op == "copy":
        with rec.call(key):
            return D(ds), r
    if op == "dict":
        with rec.call(key):
            return D(ds.as_dict()) if len(r) else ds, r
    if op == "arrays":
        with rec.call(key):
            return D(*ds.as_arrays()) if len(r) else ds, r
    raise AssertionError(op)


OPS = PARTS + ["select", "select", "merge", "add_domain", "merge-inplace", "merge", "add_domain", "add_weights", "remove_weights", "copy", "dict", "arrays", "bad_weights"]


@case("C24", quick=900, thorough=15000, requires=["records", "built-frame", "built-dataset", "built-dict", "built-torch", "operations", "rejections"])
def histories(rec, rng):
    """Random operation histories replayed on a list of records."""
    r = make(rng, n=int(rng.integers(0, 12)), shape=zoo.pick(rng, [(3,), (1,), (2, 3), (2,)]), integer=rng.random() < .2)
    ds, r = build(rec, rng, r)
    agree(rec, ds, r, "build")
    trace = []
    for _ in range(int(rng.integers(2, 7))):
        op = zoo.pick(rng, OPS)
        trace.append(op)
        with rec.context(history=list(trace), n=len(r)):
            ds, r = operation(rec, rng, ds, r, op)
            rec.event("operations")
            agree(rec, ds, r, op)
        if len(r) > 60:
            break
    rec.seen("history", tuple(trace), r.X, r.sd)
    rec.sample(kind="history", operations=trace, final=len(r))


@case("C24", quick=400, thorough=5000, requires=["round-trips"])
def split_and_merge(rec, rng):
    """Taking the dataset apart and putting it together again loses and invents nothing."""
    r = make(rng, n=int(rng.integers(1, 25)))
    ds, r = build(rec, rng, r)
    weighted = r.w is not None
    how = zoo.pick(rng, ["role", "domain"])
    with rec.call("apart"):
        parts = [ds.select_source(), ds.select_target()] if how == "role" else list(ds.per_domain_split().values())
    whole = parts[0]
    for p in parts[1:]:
        with rec.call("together"):
            whole = whole.merge(p, keep_weights=weighted)
    order = np.concatenate([np.flatnonzero(m) for m in ([r.sd >= 0, r.sd < 0] if how == "role" else [r.sd == k for k in sorted(set(r.sd.tolist()))])])
    agree(rec, whole, r.take(order), "round-trip")
    rec.event("round-trips")
    rec.seen("round", r.X, r.sd)


@case("C24", quick=400, thorough=4000, requires=["rejections"])
def refusals(rec, rng):
    """Combinations that cannot be right are refused."""
    n = int(rng.integers(2, 8))
    X, y, sd, w = rng.normal(size=(n, 2)), rng.integers(0, 3, n), rng.choice([-1, 1], n), rng.uniform(.1, 1, n)
    m = n + int(zoo.pick(rng, [-1, 1]))
    err = (ValueError, TypeError, AssertionError)
    bad = {
        "labels-size": lambda: D(X, rng.integers(0, 3, m), sd),
        "domains-size": lambda: D(X, y, np.ones(m, int)),
        "weights-size": lambda: D(X, y, sd, np.ones(m)),
        "labels-2d": lambda: D(X, np.stack([y, y], 1), sd),
        "domains-2d": lambda: D(X, y, np.stack([sd, sd], 1)),
        "weights-2d": lambda: D(X, y, sd, np.stack([w, w], 1)),
        "no-X": lambda: D(dict(y=y, sample_domain=sd)),
        "no-X-frame": lambda: D(pd.DataFrame(dict(y=y, sample_domain=sd))),
        "text": lambda: D(np.array(["a", "b"])),
        "set": lambda: D(object()),
        "dict-size": lambda: D(dict(X=X, y=rng.integers(0, 3, m), sample_domain=sd)),
        "nan-y": lambda: D(X, np.r_[np.nan, y[1:]], sd, allow_label_masks=False),
        "merge": lambda: D(X, y, sd).merge((X, y, sd)),
        "merge-dict": lambda: D(X, y, sd).merge(dict(X=X, y=y)),
        "select-on": lambda: D(X, y, sd, w).select(lambda v: v > 0, on=zoo.pick(rng, ["sample_idx", "domain", "x", "weights"])),
        "merge-half-weighted": lambda: D(X, y, sd, w).merge(D(X, y, sd), keep_weights=True),
    }
    name = list(bad)[rec.idx % len(bad)]
    rec.rejects("accepts:" + name, bad[name], err, "an invalid combination was accepted")
    rec.seen("refused", name, X)


@case("C24", quick=200, thorough=2000, requires=["masked-labels", "defaults"])
def defaults(rec, rng):
    """Missing labels and domains; regression labels and their mask."""
    n = int(rng.integers(1, 10))
    X = rng.normal(size=(n, 2))
    with rec.call("defaults"):
        ds = D(X)
    rec.expect((arr(ds.y) == MARK).all() and len(ds.y) == n, "default-label", "missing labels are not the documented -1", got=ds.y)
    rec.expect((arr(ds.sample_domain) == 0).all(), "default-domain", "missing domain is not the documented 0", got=ds.sample_domain)
    rec.expect(len(ds.select_with_labels()) == 0 and len(ds.select_source()) == n, "default-selection", "selection on the defaults")
    rec.event("defaults", n)
    y = rng.normal(size=n)
    hide = rng.random(n) < .4
    y[hide] = np.nan
    sd = rng.choice([-2, 3], n)
    with rec.call("masked"):
        ds = D(X, y, sd, allow_label_masks=True) if rng.random() < .5 else D(X, y, sd)
        t_ = ds.select_target()
    rec.expect(np.array_equal(arr(ds.y), y, equal_nan=True), "nan-label", "masked regression labels changed", got=ds.y)
    rec.expect(np.array_equal(arr(t_.y), y[sd < 0], equal_nan=True) and np.array_equal(arr(t_.X), X[sd < 0]), "nan-label", "masked regression labels moved")
    rec.event("masked-labels", int(hide.sum()))
    rec.seen("defaults", X, y)
