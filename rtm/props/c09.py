"""C09: splitting and merging compared with an independent row-by-row reference, plus conservation counts."""
import warnings

import numpy as np

from skada.utils import (extract_domains_indices, extract_source_indices, per_domain_split, source_target_merge,
                         source_target_split)

from .. import gen, zoo
from ..core import case

DTYPES = ["f8", "f4", "i8", "i4", "i2", "u1", "bool", "c8", "U7", "object", "f2"]


def domains(rng, n=None):
    """Domain labels of any arrangement, also one-sided ones and the label 0."""
    n = int(rng.integers(1, 30)) if n is None else n
    ids = rng.choice(np.r_[-9:0, 0:10], int(rng.integers(1, 6)), replace=False)
    style = int(rng.integers(5))
    if style == 0:
        ids = np.abs(ids)
    elif style == 1:
        ids = -np.abs(ids) - 1
    if rng.random() < .25:
        ids = ids * zoo.pick(rng, [31, 300, 7919, 10 ** 6])
    sd = rng.choice(ids, n)
    if style == 2:
        sd = np.sort(sd)[::-1].copy()
    elif style == 3:
        sd = np.sort(sd)
    return sd.astype(zoo.pick(rng, [np.int64, np.int64, np.int32, np.min_scalar_type(-int(np.abs(sd).max()) - 1), np.float64]))


def array(rng, n, dtype=None, ndim=None):
    dtype = dtype or zoo.pick(rng, DTYPES)
    ndim = ndim or int(rng.integers(1, 5))
    shape = (n,) + tuple(int(x) for x in rng.integers(1, 4, ndim - 1))
    if dtype == "U7":
        a = rng.integers(0, 9999999, shape).astype("U7")
    elif dtype == "object":
        a = np.empty(shape, object)
        for i in np.ndindex(*shape):
            a[i] = zoo.pick(rng, [None, "x", 3, (1, 2), 2.5])
    elif dtype == "bool":
        a = rng.random(shape) < .5
    elif dtype.startswith(("i", "u")):
        a = rng.integers(np.iinfo(dtype).min // 2, np.iinfo(dtype).max // 2, shape, endpoint=True).astype(dtype)
    else:
        a = rng.normal(size=shape).astype(dtype) * 3
    k = int(rng.integers(4))
    if k == 0 and ndim > 1:
        a = np.asfortranarray(a)
    elif k == 1:
        a = np.repeat(a, 2, axis=0)[::2]
    return a


def rows(a, idx):
    return [a[i] for i in idx]


def same_rows(rec, got, want, key, dtype=None, **wit):
    ok = isinstance(got, np.ndarray) and len(got) == len(want)
    ok = ok and all(np.array_equal(np.asarray(g, dtype=object) if got.dtype == object else g, w, equal_nan=got.dtype.kind in "fc") for g, w in zip(got, want))
    if ok and dtype is not None:
        ok = got.dtype == dtype
    return rec.expect(ok, key, "rows differ from the reference", got=got, want=want[:3], dtype=str(dtype), **wit)


@case("C09", quick=4000, thorough=60000, requires=["rows-accounted"])
def split_merge(rec, rng):
    sd = domains(rng)
    n = len(sd)
    arrays = [array(rng, n) for _ in range(int(rng.integers(1, 4)))]
    none_at = int(rng.integers(len(arrays) + 4))
    args = list(arrays)
    if none_at < len(args):
        args[none_at] = None
    if all(a is None for a in args):
        args = arrays
    si, ti = [i for i in range(n) if sd[i] >= 0], [i for i in range(n) if sd[i] < 0]
    with rec.context(sample_domain=sd, dtypes=[None if a is None else (str(a.dtype), a.shape) for a in args]):
        with rec.call("split"):
            parts = source_target_split(*args, sample_domain=sd)
        rec.must(len(parts) == 2 * len(args), "split:count", "number of parts", got=len(parts))
        for k, a in enumerate(args):
            s, t = parts[2 * k], parts[2 * k + 1]
            if a is None:
                rec.expect(s is None and t is None, "split:none", "None must give a couple of None")
                continue
            same_rows(rec, s, rows(a, si), "split:source", a.dtype)
            same_rows(rec, t, rows(a, ti), "split:target", a.dtype)
            rec.expect(s.shape[1:] == a.shape[1:] and t.shape[1:] == a.shape[1:], "split:shape", "trailing shape", s=s.shape, t=t.shape)
            rec.event("rows-accounted", n)
        with rec.call("per_domain_split"):
            S, T = per_domain_split(*args, sample_domain=sd)
        ids = sorted(set(float(x) for x in sd))
        rec.expect(sorted(float(k) for k in S) == [i for i in ids if i >= 0] and sorted(float(k) for k in T) == [i for i in ids if i < 0],
                   "per_domain_split:keys", "domains", S=list(S), T=list(T))
        for did, p in list(S.items()) + list(T.items()):
            idx = [i for i in range(n) if sd[i] == did]
            rec.expect(len(p) == len(args), "per_domain_split:count", "arrays per domain")
            for a, q in zip(args, p):
                if a is None:
                    rec.expect(q is None, "per_domain_split:none", "None")
                else:
                    same_rows(rec, q, rows(a, idx), "per_domain_split:rows", a.dtype, domain=did)
                    rec.event("rows-accounted", len(idx))
        with rec.call("extract"):
            m = extract_source_indices(sd)
            D = extract_domains_indices(sd)
            DS, DT = extract_domains_indices(sd, split_source_target=True)
        rec.equal(m, [x >= 0 for x in sd], "extract_source_indices")
        got = np.sort(np.concatenate([np.asarray(v) for v in D.values()]))
        rec.equal(got, np.arange(n), "extract_domains_indices:partition", "indices are not a partition")
        for k, v in D.items():
            rec.equal(v, [i for i in range(n) if sd[i] == k], "extract_domains_indices", "indices of a domain")
        rec.expect(set(DS) | set(DT) == set(D) and all(k >= 0 for k in DS) and all(k < 0 for k in DT), "extract_domains_indices:roles", "roles")
        for k, v in list(DS.items()) + list(DT.items()):
            rec.equal(v, D[k], "extract_domains_indices:role-rows", "rows by role")
        # merging the parts restores the arrays
        pairs, kept = [], []
        for k, a in enumerate(args):
            if a is not None:
                pairs += [parts[2 * k], parts[2 * k + 1]]
                kept.append(a)
        with rec.call("merge"):
            out = source_target_merge(*pairs, sample_domain=sd)
        rec.must(len(out) == len(kept) + 1, "merge:count", "number of merged arrays")
        for a, o in zip(kept, out):
            same_rows(rec, o, list(a), "merge:restores", a.dtype)
            rec.expect(o.shape == a.shape, "merge:shape", "shape", got=o.shape, want=a.shape)
            rec.event("rows-accounted", n)
        rec.equal(out[-1], sd, "merge:sample_domain", "domain labels are not those given")
        # and once more: a second round trip changes nothing
        with rec.call("merge"):
            p2 = source_target_split(*out[:-1], sample_domain=out[-1])
        for x, y in zip(p2, pairs):
            same_rows(rec, x, list(y), "merge:second-split", y.dtype)
    rec.seen("split", sd, [None if a is None else (str(a.dtype), a.shape) for a in args])
    rec.sample(sample_domain=sd, dtypes=[str(a.dtype) for a in kept])


PAIRS = [("i8", "f8"), ("f8", "i8"), ("i4", "f4"), ("f4", "f8"), ("f8", "f4"), ("bool", "i8"), ("i8", "bool"), ("u1", "i8"), ("u1", "i2"), ("i2", "f8"),
         ("bool", "f8"), ("f4", "i8"), ("c8", "f8"), ("f8", "c8"), ("U3", "U9"), ("U9", "U3"), ("object", "f8"), ("f8", "object")]


@case("C09", quick=1500, thorough=20000, requires=["rows-accounted"])
def merge_mixed(rec, rng):
    """Parts of different types keep their values."""
    ds, dt = PAIRS[rec.idx % len(PAIRS)]
    ns, nt = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    tail = tuple(int(x) for x in rng.integers(1, 4, int(rng.integers(0, 3))))

    def mk(kind, n):
        sh = (n,) + tail
        if kind == "object":
            a = np.empty(sh, object)
            for i in np.ndindex(*sh):
                a[i] = ("o", int(rng.integers(99)))
            return a
        if kind.startswith("U"):
            w = int(kind[1:])
            return np.array(["".join(zoo.pick(rng, "abcxyz") for _ in range(w)) for _ in range(int(np.prod(sh)))], dtype=kind).reshape(sh)
        if kind == "bool":
            return rng.random(sh) < .5
        if kind[0] in "iu":
            return rng.integers(0, 200, sh).astype(kind)
        return (rng.normal(size=sh) * 7 + .123456789).astype(kind)
    s, t = mk(ds, ns), mk(dt, nt)
    sd = np.r_[rng.choice([1, 2, 5], ns), rng.choice([-1, -4, -5], nt)][rng.permutation(ns + nt)]
    with rec.context(source=ds, target=dt, sample_domain=sd, tail=tail):
        with rec.call("merge-mixed"):
            out, o2, sd2 = source_target_merge(s, t, np.arange(ns), np.arange(nt) + .5, sample_domain=sd)
        rec.must(out.shape == (ns + nt,) + tail, "merge-mixed:shape", "shape", got=out.shape)
        rec.expect(out.dtype == np.result_type(s, t) if "object" not in (ds, dt) else out.dtype == object, "merge-mixed:dtype",
                   "type cannot hold both parts", got=str(out.dtype))
        js = jt = 0
        for i in range(ns + nt):
            if sd[i] >= 0:
                want, w2, js = s[js], js, js + 1
            else:
                want, w2, jt = t[jt], jt + .5, jt + 1
            g = out[i]
            ok = all(a == b for a, b in zip(np.ravel(g).tolist(), np.ravel(want).tolist())) and np.shape(g) == np.shape(want)
            rec.expect(ok, "merge-mixed:values", "a value was changed by merging", got=g, want=want)
            rec.expect(o2[i] == w2, "merge-mixed:second", "second array misplaced or truncated", got=o2[i], want=w2)
            rec.event("rows-accounted")
    rec.seen("mixed", ds, dt, sd, tail)


@case("C09", quick=1500, thorough=20000, requires=["rows-accounted"])
def absent_parts(rec, rng):
    """One side of a pair absent: all present values kept, the documented mask in place of the absent labels."""
    kind = ["int", "float", "bool", "u1", "f4", "intfloat"][rec.idx % 6]
    ns, nt = int(rng.integers(2, 9)), int(rng.integers(1, 9))
    sd = np.r_[rng.choice([1, 2, 5], ns), rng.choice([-1, -4, -5], nt)][rng.permutation(ns + nt)]
    flip = rng.random() < .4  # labels known for the targets only
    n = nt if flip else ns
    if kind in ("float", "f4"):
        y = (rng.normal(size=n) * 5 + .37).astype("f8" if kind == "float" else "f4")
    elif kind == "bool":
        y = rng.random(n) < .5
    elif kind == "intfloat":
        y = rng.integers(0, 4, n).astype(float)
    else:
        y = rng.integers(0, 200, n).astype("i8" if kind == "int" else "u1")
    y_in = y.copy()
    gone = zoo.pick(rng, [None, np.array([])])
    X = rng.normal(size=(ns + nt, 2))
    Xs, Xt = X[sd >= 0], X[sd < 0]
    pair = (gone, y) if flip else (y, gone)
    with rec.context(kind=kind, flip=flip, sample_domain=sd, y=y):
        with rec.call("absent"):
            Xm, ym, sdm = source_target_merge(Xs, Xt, *pair, sample_domain=sd)
        rec.equal(Xm, X, "absent:X", "samples")
        rec.equal(ym[(sd < 0) if flip else (sd >= 0)].astype(float), y_in.astype(float), "absent:kept", "labels that were given changed")
        rest = ym[(sd >= 0) if flip else (sd < 0)]
        if kind in ("float", "f4"):
            rec.expect(np.isnan(rest).all(), "absent:mask", "absent regression labels are not NaN", got=rest)
        else:
            rec.expect((rest == -1).all(), "absent:mask", "absent class labels are not -1", got=rest)
        rec.equal(sdm, sd, "absent:sample_domain")
        rec.event("rows-accounted", ns + nt)
        # no domain labels: sources first with the default labels, and a warning
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            with rec.call("infer"):
                Xi, yi, sdi = source_target_merge(Xs, Xt, *pair, sample_domain=zoo.pick(rng, [None, np.array([])]))
        rec.expect(len(w) > 0, "infer:warning", "inferring the domain labels is not announced")
        rec.equal(sdi, np.r_[np.ones(ns), -2 * np.ones(nt)], "infer:sample_domain", "default domain labels")
        rec.equal(Xi, np.r_[Xs, Xt], "infer:X", "samples")
        rec.equal(yi[ns:] if flip else yi[:ns], y_in.astype(yi.dtype), "infer:y", "labels")
        # a pair with several columns: continuous targets
        Y = rng.normal(size=(n, int(rng.integers(1, 4)))) * 5 + .37
        pair = (gone, Y) if flip else (Y, gone)
        with rec.call("absent2d"):
            _, Ym, _ = source_target_merge(Xs, Xt, *pair, sample_domain=sd)
        rec.equal(Ym[(sd < 0) if flip else (sd >= 0)], Y, "absent:kept-2d", "values that were given changed")
        rec.expect(Ym.shape[1:] == Y.shape[1:] and np.isnan(Ym[(sd >= 0) if flip else (sd < 0)]).all(), "absent:mask-2d",
                   "absent continuous values are not NaN", got=Ym)
    rec.seen("absent", kind, flip, sd)


@case("C09", quick=150, thorough=1500, requires=["rejections"])
def refusals(rec, rng):
    ns, nt = int(rng.integers(2, 7)), int(rng.integers(2, 7))
    sd = np.r_[np.ones(ns, int), -np.ones(nt, int)][rng.permutation(ns + nt)]
    s, t = rng.normal(size=(ns, 3)), rng.normal(size=(nt, 3))
    M = lambda *a, **k: source_target_merge(*a, **k)
    with rec.context(ns=ns, nt=nt, sample_domain=sd):
        R = rec.rejects
        R("refuse:one", lambda: M(s, sample_domain=sd), ValueError, "one array")
        R("refuse:none", lambda: M(sample_domain=sd), ValueError, "no array")
        R("refuse:odd", lambda: M(s, t, s, sample_domain=sd), ValueError, "odd number of arrays")
        R("refuse:features", lambda: M(s, t[:, :2], sample_domain=sd), ValueError, "different features")
        R("refuse:ndim", lambda: M(s, t[:, :, None], sample_domain=sd), ValueError, "different dimensions")
        R("refuse:both-none", lambda: M(s, t, None, None, sample_domain=sd), ValueError, "both absent")
        R("refuse:both-empty", lambda: M(np.zeros((0, 3)), np.zeros((0, 3)), sample_domain=sd), ValueError, "both empty")
        R("refuse:too-few-s", lambda: M(s[:-1], t, sample_domain=sd), ValueError, "a source row is missing")
        R("refuse:too-few-t", lambda: M(s, t[:-1], sample_domain=sd), ValueError, "a target row is missing")
        R("refuse:moved", lambda: M(np.r_[s, t[:1]], t[1:], sample_domain=sd), ValueError, "row counts swapped between roles")
        R("refuse:extra", lambda: M(np.r_[s, s[:1]], t, sample_domain=sd), ValueError, "a row too many")
        R("refuse:second", lambda: M(s, t, np.arange(ns), np.arange(nt + 1), sample_domain=sd), ValueError, "inconsistent second pair")
        R("refuse:split-none", lambda: source_target_split(sample_domain=sd), ValueError, "nothing to split")
        R("refuse:per-none", lambda: per_domain_split(sample_domain=sd), ValueError, "nothing to split")
        R("refuse:split-length", lambda: source_target_split(np.r_[s, t][:-1], sample_domain=sd), Exception, "length of the samples")
        R("refuse:split-lengths", lambda: source_target_split(np.r_[s, t], np.arange(ns + nt + 1), sample_domain=sd), Exception, "two lengths")
        R("refuse:per-lengths", lambda: per_domain_split(np.r_[s, t], np.arange(ns + nt - 1), sample_domain=sd), Exception, "two lengths")
        R("refuse:nan-domain", lambda: extract_source_indices(np.array([1., np.nan])), ValueError, "NaN domain")
        R("refuse:empty", lambda: extract_source_indices(np.array([])), ValueError, "no rows")
    rec.seen("refusals", ns, nt, sd)
