"""Workload generators: hostile multi-domain data."""
import numpy as np


class Data(dict):
    __getattr__ = dict.__getitem__

    @property
    def src(self):
        return self["sd"] >= 0

    def mask(self):
        """Labels with the documented mask on target rows (a copy)."""
        y = self["y"].copy()
        if self["task"] == "reg":
            y = y.astype(float)
            y[~self.src] = np.nan
        else:
            y[~self.src] = -1
        return y


LABEL_DTYPES = [np.int64] * 7 + [np.float64, np.float32, np.int32, np.int8, np.float64]
LABEL_SETS = [[0, 1], [0, 1], [1, 2], [0, 1, 2], [2, 5], [3, 4, 9], [0, 7]]


def domain_ids(rng, ns, nt, style=None):
    """Distinct positive source labels and negative target labels, not contiguous, not ordered."""
    style = style or ["plain", "gaps", "shared", "gaps", "shared", "large"][int(rng.integers(6))]
    if style == "plain":
        ids = np.arange(1, ns + nt + 1)
        s, t = ids[:ns], -ids[ns:]
    elif style == "gaps":
        ids = rng.choice(np.arange(1, 40), ns + nt, replace=False)
        s, t = ids[:ns], -ids[ns:]
    elif style == "large":
        ids = rng.choice([1, 2, 127, 128, 129, 200, 255, 256, 300, 32768, 40000, 65536, 70000, 10 ** 6], ns + nt, replace=False)
        s, t = ids[:ns], -ids[ns:]
    else:  # the same index used by a source and a target
        ids = rng.choice(np.arange(1, 12), max(ns, nt), replace=False)
        s, t = ids[:ns], -ids[:nt]
    return [int(i) for i in s], [int(i) for i in t]


def layout(rng, sd, kind):
    n = len(sd)
    if kind == "sorted":
        return np.argsort(sd < 0, kind="stable")
    if kind == "target_first":
        return np.argsort(sd >= 0, kind="stable")
    if kind == "alternate":
        s, t = np.flatnonzero(sd >= 0), np.flatnonzero(sd < 0)
        out, i = [], 0
        while i < max(len(s), len(t)):
            if i < len(t):
                out.append(t[i])
            if i < len(s):
                out.append(s[i])
            i += 1
        return np.array(out)
    return rng.permutation(n)


def da(rng, task="clf", ns=None, nt=None, n_per=(9, 16), p=None, labels=None, kind=None, dtype=np.float64,
       sep=3.0, shift=1.0, every_class=True, style=None, equal=False, y_dtype=None, class_spread=1.0):
    """Multi-domain data.  Rows are interleaved unless ``kind`` says otherwise."""
    ns = int(rng.integers(1, 4)) if ns is None else ns
    nt = int(rng.integers(1, 4)) if nt is None else nt
    p = int(rng.integers(2, 5)) if p is None else p
    labels = labels if labels is not None else LABEL_SETS[int(rng.integers(len(LABEL_SETS)))]
    k = len(labels)
    sids, tids = domain_ids(rng, ns, nt, style)
    centers = rng.normal(size=(k, p))
    centers = sep * centers / np.maximum(np.linalg.norm(centers, axis=1, keepdims=True), .3)
    centers += np.arange(k)[:, None] * np.sign(rng.normal(size=p)) * 0.7 * sep / 3
    beta = rng.normal(size=p)
    X, y, sd = [], [], []
    m0 = int(rng.integers(n_per[0], n_per[1] + 1))
    for d in sids + tids:
        m = m0 if equal else int(rng.integers(n_per[0], n_per[1] + 1))
        m = max(m, 3 * k) if every_class else m
        off = shift * rng.normal(size=p) * (1.0 if d < 0 else 0.5)
        lab = rng.integers(0, k, m)
        if every_class:
            lab[: 3 * k] = np.repeat(np.arange(k), 3)
            lab = rng.permutation(lab)
        x = centers[lab] + off + class_spread * rng.normal(size=(m, p)) * (1 + 0.3 * rng.random(p))
        X.append(x)
        if task == "clf":
            y.append(np.asarray(labels)[lab])
        else:
            y.append(x @ beta + 0.3 * rng.normal(size=m) + 0.1234567)
        sd += [d] * m
    X, y, sd = np.concatenate(X), np.concatenate(y), np.array(sd)
    kind = kind or ["shuffled", "shuffled", "alternate", "target_first"][int(rng.integers(4))]
    # rows inside a domain are in random order already; put the domains together
    o = layout(rng, sd, kind)
    X, y, sd = X[o], y[o], sd[o]
    X = X.astype(dtype)
    if task == "clf":
        y = y.astype(y_dtype or LABEL_DTYPES[int(rng.integers(len(LABEL_DTYPES)))])
    elif rng.random() < .3:  # real values that equal the mask or the absent value of classification
        y[rng.integers(0, len(y), 2)] = [-1.0, 0.0]
    return Data(X=np.ascontiguousarray(X), y=y, sd=sd, task=task, labels=labels, kind=kind, ns=ns, nt=nt,
                sids=sids, tids=tids, p=p)


def relabel_targets(rng, d, how):
    """Alternative labels for the target rows: same dtype, sources untouched."""
    y = d.y.copy()
    t = ~d.src
    if d.task == "clf":
        if how == "random":
            y[t] = rng.choice(d.labels, t.sum())
        elif how == "novel":   # classes no source has
            y[t] = rng.choice([max(d.labels) + 1, max(d.labels) + 3], t.sum())
        elif how == "constant":
            y[t] = d.labels[int(rng.integers(len(d.labels)))]
        elif how == "rotate":
            lut = {a: d.labels[(i + 1) % len(d.labels)] for i, a in enumerate(d.labels)}
            y[t] = [lut[v] for v in y[t].tolist()]
        elif how == "mask":
            return d.mask()
    else:
        if how == "random":
            y[t] = rng.normal(size=t.sum()) * 7 - 3
        elif how == "constant":
            y[t] = 0.5
        elif how == "novel":
            y[t] = np.round(y[t]) * 1e6
        elif how == "rotate":
            y[t] = -y[t] + 11.3
        elif how == "mask":
            return d.mask()
    return y


def new_rows(rng, d, n=17, targets_only=False):
    """Fresh rows near the data, with known domain labels."""
    ids = d.tids if targets_only else d.sids + d.tids
    sd = rng.choice(ids, n)
    base = d.X[rng.integers(0, len(d.X), n)]
    X = (base + rng.normal(size=base.shape) * 0.5).astype(d.X.dtype)
    return X, sd
