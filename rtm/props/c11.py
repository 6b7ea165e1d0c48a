"""C11: DomainAwareDataset against a list-of-domains model, over random histories of operations."""
import warnings

import numpy as np
import torch

from skada.datasets import DomainAwareDataset

from .. import zoo
from ..core import case
from ..watch import unchanged

INT = ["i8", "i4", "i2", "i1", "u1", "u2", "bool"]
FLT = ["f8", "f4", "f2"]


class Model:
    """name -> (X rows, y or None), in order of arrival; the label of a domain is its rank."""

    def __init__(self):
        self.d = {}

    def add(self, name, X, y):
        self.d[name] = (np.array(X), None if y is None else np.array(y))

    def label(self, name):
        return list(self.d).index(name) + 1


def make_domain(rng, uid, p, kind, dtype, labelled, tensor):
    n = int(rng.integers(1, 8))
    X = np.round(rng.normal(size=(n, p)), 3)
    X[:, 0] = np.arange(uid, uid + n)       # provenance
    X = X.astype(["f8", "f8", "f4"][int(rng.integers(3))])
    y = None
    if labelled:
        y = (rng.integers(0, 2, n) if dtype == "bool" else rng.integers(0, 50, n) if np.dtype(dtype).kind in "iu" else rng.normal(size=n)).astype(dtype)
    if tensor:
        X = torch.as_tensor(X)
        y = None if y is None else torch.as_tensor(y)
    return X, y, n


def np_(a):
    return a.detach().cpu().numpy() if isinstance(a, torch.Tensor) else np.asarray(a)


def content(rec, key, ds, m):
    """The container holds exactly the domains of the model, under their names."""
    rec.must(list(ds.domain_names_) == list(m.d), key + ":names", "domain names differ", got=list(ds.domain_names_), want=list(m.d))
    for name, (X, y) in m.d.items():
        got = ds.get_domain(name)
        rec.must(len(got) == (1 if y is None else 2), key + ":arity", "labels appeared or vanished", name=name)
        rec.equal(np_(got[0]), X, key + ":X", "samples of another domain", name=name)
        if y is not None:
            rec.equal(np_(got[1]), y, key + ":y", "labels of another domain", name=name)
        rec.event("domains-compared")


def check_pack(rec, key, out, m, src, tgt, masked, mask, kind, has_labels):
    """Row by row: every selected sample once per role with its own label and domain label."""
    X, y, sd = (np_(o) for o in out)
    wx, wd, wy, hidden = [], [], [], []
    # no label: NaN next to floating labels, -1 otherwise
    floating = any(m.d[n][1] is not None and m.d[n][1].dtype.kind == "f" for n in [*src, *tgt])
    for role, names in ((1, src), (-1, tgt)):
        for n in names:
            Xd, yd = m.d[n]
            wx.append(Xd)
            wd += [role * m.label(n)] * len(Xd)
            hide = role < 0 and masked
            hidden += [hide] * len(Xd)
            wy += list([np.nan if floating else -1] * len(Xd) if yd is None else yd.tolist())
    wx, wd, hidden = np.concatenate(wx), np.array(wd), np.array(hidden)
    rec.event("rows-packed", len(wd))
    if not rec.expect(len(X) == len(wx) == len(y) == len(sd), key + ":count", "samples lost or duplicated", got=len(X), want=len(wx)):
        return
    # order independent: rows carry a unique provenance per (domain, role)
    o, w = np.lexsort((sd, X[:, 0])), np.lexsort((wd, wx[:, 0]))
    rec.equal(sd[o], wd[w], key + ":domain", "domain labels do not follow the samples")
    rec.close(X[o].astype(float), wx[w].astype(float), key + ":X", "samples changed", rtol=1e-6, atol=1e-6)
    yo, wo, ho = y[o].astype(float), np.array(wy, float)[w], hidden[w]
    rec.close(yo[~ho], wo[~ho], key + ":y", "labels do not follow the samples", rtol=1e-6)
    if ho.any():
        rec.event("masked-rows", int(ho.sum()))
        if mask is not None:
            rec.close(yo[ho], np.full(ho.sum(), mask), key + ":mask-value", "requested mask not used")
        elif not floating:
            rec.equal(yo[ho], np.full(ho.sum(), -1.), key + ":mask-int", "target label not hidden behind -1")
        else:
            rec.expect(np.isnan(yo[ho]).all(), key + ":mask-float", "target label not hidden behind NaN", y=yo[ho])


@case("C11", quick=1600, thorough=20000, requires=["operations", "rows-packed", "masked-rows", "domains-compared", "rejections"])
def history(rec, rng):
    """Random add / merge / pack / select histories on named, unnamed and unlabelled domains."""
    p = int(rng.integers(1, 4))
    kind = zoo.pick(rng, ["int", "int", "flt", "mix"])       # mix: integers in one domain, reals in another
    every = {"int": INT, "flt": FLT, "mix": INT + FLT}[kind]
    dtypes = [zoo.pick(rng, every)] if rng.random() < .7 and kind != "mix" else every
    tensor = rng.random() < .25
    unl = rng.random() < .5
    uid = [0]
    names = iter(rng.permutation([f"d{i}" for i in range(40)] + ["_1", "_2", "_3", "_5", "a b", "é", "s", "t"]).tolist())

    def dom():
        dt = zoo.pick(rng, dtypes)
        if tensor and dt == "u2":
            dt = "i4"
        X, y, n = make_domain(rng, uid[0], p, kind, dt, not (unl and rng.random() < .4), tensor)
        uid[0] += n
        return X, y

    def build():
        m, ds_in = Model(), []
        k = int(rng.integers(0, 4))
        how = zoo.pick(rng, ["list", "dict", "empty"])
        for _ in range(k if how != "empty" else 0):
            X, y = dom()
            if how == "dict" or rng.random() < .6:
                n = next(names)
                # a generated name may already have taken an underscore name
                while n in m.d or (n[0] == "_" and any(a is None for a, _, _ in ds_in)):
                    n = next(names)
            else:
                n = None
            ds_in.append((n, X, y))
            m.add(n if n is not None else object(), X, y)
        if how == "dict":
            ds = DomainAwareDataset({n: ((X,) if y is None else (X, y)) for n, X, y in ds_in})
        elif how == "list":
            ds = DomainAwareDataset([((X,) if y is None else (X, y)) if n is None else (X, y, n) for n, X, y in ds_in])
        else:
            ds = DomainAwareDataset()
        # generated names are whatever the container reports, provided they are new
        got = list(ds.domain_names_)
        rec.must(len(got) == len(m.d), "constructor:count", "domains lost or replaced", got=got, want=len(m.d))
        for (n, _, _), g in zip(ds_in, got):
            rec.expect(n is None or n == g, "constructor:name", "domain renamed", got=got)
        m.d = dict(zip(got, m.d.values()))
        return ds, m
    with rec.call("constructor"):
        ds, m = build()
    content(rec, "constructor", ds, m)
    ops = []
    for _ in range(int(rng.integers(2, 8))):
        op = zoo.pick(rng, ["add", "add", "add-unnamed", "merge", "pack", "pack", "pack", "select", "duplicate", "lodo", "unknown"])
        ops.append(op)
        rec.event("operations")
        with rec.context(op=op, names=list(m.d), history=ops[:]):
            if op in ("add", "add-unnamed"):
                X, y = dom()
                n = next(names) if op == "add" else None
                if n in m.d:
                    continue
                with rec.call("add_domain"), unchanged(rec, "add_domain", X=X, y=y):
                    r = ds.add_domain(X, y, n) if rng.random() < .5 else ds.add_domain(X, y=y, domain_name=n)
                rec.expect(r is ds, "add_domain:returns", "add_domain does not return the dataset")
                new = [k for k in ds.domain_names_ if k not in m.d]
                rec.must(len(new) == 1 and (n is None or new[0] == n), "add_domain:name", "the new domain has no name of its own", got=list(ds.domain_names_))
                m.add(new[0], X, y)
            elif op == "duplicate":
                if m.d:
                    X, y = dom()
                    rec.rejects("duplicate-name", lambda: ds.add_domain(X, y, zoo.pick(rng, list(m.d))), Exception, "an existing domain name")
            elif op == "merge":
                other, mo = build()
                before = [tuple(map(np_, other.get_domain(k))) for k in other.domain_names_]
                mapping = None
                if rng.random() < .6:
                    mapping = {}
                    for k in mo.d:
                        if rng.random() < .6 or k in m.d:
                            mapping[k] = next(names)
                final = [(mapping or {}).get(k, k) for k in mo.d]
                if set(final) & set(m.d) or len(set(final)) < len(final):
                    rec.rejects("merge-collision", lambda: ds.merge(other, mapping), Exception, "merging a domain under an existing name")
                    # what was merged before the refusal must at least be attached correctly
                    for f, (X, y) in zip(final, mo.d.values()):
                        if f in m.d:
                            break
                        m.add(f, X, y)
                else:
                    with rec.call("merge"):
                        r = ds.merge(other, mapping)
                    rec.expect(r is ds, "merge:returns", "merge does not return the dataset")
                    for f, (X, y) in zip(final, mo.d.values()):
                        m.add(f, X, y)
                    content(rec, "merge:other", other, mo)
                    for a, k in zip(before, other.domain_names_):
                        rec.equal(np_(other.get_domain(k)[0]), a[0], "merge:other-changed")
            elif op == "unknown":
                rec.rejects("unknown-get", lambda: ds.get_domain("no such domain"), Exception, "an unknown domain")
                rec.rejects("unknown-pack", lambda: ds.pack(as_sources=["no such domain"], as_targets=[], mask_target_labels=False),
                            Exception, "packing an unknown domain")
            elif m.d:
                pack(rec, rng, ds, m, op, kind, tensor)
            content(rec, op, ds, m)
            rec.expect(len(ds.domains_) == len(m.d), op + ":count", "number of domains", got=len(ds.domains_), want=len(m.d))
            r = repr(ds)
            rec.expect(f"Number of domains: {len(m.d)}" in r and f"Total size: {sum(len(v[0]) for v in m.d.values())}" in r,
                       "repr", "summary is wrong", got=r)
    rec.seen("history", ops, [list(m.d)])
    rec.sample(ops=ops, names=list(m.d), kind=kind, tensor=tensor)


def pack(rec, rng, ds, m, op, kind, tensor):
    names = list(m.d)
    has = any(v[1] is not None for v in m.d.values())
    if op == "lodo":
        with rec.call("pack_lodo"):
            out = ds.pack_lodo(return_type=zoo.pick(rng, ["array", "auto"])) if rng.random() < .5 else ds.pack_lodo()
            if isinstance(out, dict):
                out = out["X"], out["y"], out["sample_domain"]
        check_pack(rec, "pack_lodo", out, m, names, names, True, None, kind, has)
        return
    src = list(rng.permutation(names)[: int(rng.integers(0, len(names) + 1))])
    if rng.random() < .6:
        rest = [n for n in names if n not in src]
        tgt = list(rng.permutation(rest)[: int(rng.integers(0, len(rest) + 1))]) if rest else []
    else:                       # the same domain in both roles
        tgt = list(rng.permutation(names)[: int(rng.integers(0, len(names) + 1))])
    src, tgt = [str(s) for s in src], [str(t) for t in tgt]
    if not src and not tgt:
        src = [names[0]]
    masked = bool(rng.random() < .6)
    mask = None
    kw = dict(as_sources=src, as_targets=tgt, mask_target_labels=masked)
    if masked and rng.random() < .2 and not tensor:
        mask = zoo.pick(rng, [-7, 0, 3, -1]) if kind == "int" else zoo.pick(rng, [-3.5, 0., 2., np.nan])
        if not any(m.d[n][1] is not None and m.d[n][1].dtype.kind == "u" for n in names):
            kw["mask"] = mask
        else:
            mask = None
    if op == "select":
        with rec.call("pack"):
            b = ds.pack(return_type="Bunch", **{**kw, "mask_target_labels": False})
        for names_ in ([src[0]] if src else [], src, tgt[:1], src + tgt, src + src[:1], tuple(src[::-1])):
            if not names_:
                continue
            with rec.call("select_domain"):
                got = np.asarray(ds.select_domain(b["sample_domain"], names_[0] if len(names_) == 1 and rng.random() < .5 else names_))
            want = np.isin(b["sample_domain"], [m.label(n) for n in set(names_)])
            rec.equal(got.astype(bool), want, "select_domain", "wrong rows selected", names=names_, sd=b["sample_domain"])
            rec.event("selections")
        return
    rt = zoo.pick(rng, ["auto", "array", "tensor", "DeepDADataset", "Bunch", "deprecated", "deprecated-bunch", "pack_train", "train"])
    if tensor and rt in ("deprecated-bunch",):
        rt = "auto"
    u2 = any(v[1] is not None and v[1].dtype.kind == "u" and v[1].dtype.itemsize > 1 for v in m.d.values())
    if u2 and rt in ("tensor", "DeepDADataset"):
        rt = "array"
    key = f"pack-{rt}"
    with warnings.catch_warnings(), rec.context(src=src, tgt=tgt, masked=masked, mask=mask, return_type=rt):
        warnings.simplefilter("ignore")
        with rec.call(key):
            if rt == "deprecated":
                out = ds.pack(return_X_y=True, **kw)
            elif rt == "deprecated-bunch":
                out = ds.pack(return_X_y=False, **kw)
            elif rt == "train":
                out = ds.pack(**{**kw, "mask_target_labels": not masked}, train=masked, return_type="array")
            elif rt == "pack_train":
                masked = True
                if rng.random() < .5 and not tensor and not any(v[1] is not None and v[1].dtype.kind == "u" for v in m.d.values()):
                    kw["mask"] = mask = zoo.pick(rng, [-7, 0, 3] if kind == "int" else [-3.5, 0., 2.])
                out = ds.pack_train(as_sources=src, as_targets=tgt, mask=kw.get("mask"))
                if tgt:
                    o2 = ds.pack_test(as_targets=tgt)
                    check_pack(rec, "pack_test", o2, m, [], tgt, False, None, kind, has)
            else:
                out = ds.pack(return_type=rt, **kw)
        table = None
        if rt in ("Bunch", "deprecated-bunch"):
            table = out["domain_names"]
            out = out["X"], out["y"], out["sample_domain"]
        elif rt == "DeepDADataset":
            out = out.X, out.y, out.sample_domain
            rec.expect(all(isinstance(o, torch.Tensor) for o in out), key + ":type", "not tensors")
        elif rt == "tensor" or (rt == "auto" and tensor):
            rec.expect(all(isinstance(o, torch.Tensor) for o in out), key + ":type", "not tensors", types=[type(o).__name__ for o in out])
        elif rt != "auto" or not tensor:
            rec.expect(all(isinstance(o, np.ndarray) for o in out), key + ":type", "not arrays", types=[type(o).__name__ for o in out])
        if table is not None:
            want = {n: m.label(n) for n in src}
            want.update({n: -m.label(n) for n in tgt})
            rec.expect(dict(table) == want, key + ":table", "name table", got=dict(table), want=want)
        has_t = any(m.d[n][1] is not None for n in tgt)
        check_pack(rec, key, out, m, src, tgt, masked, mask if "mask" in kw else None, kind, has_t)
        rec.event("packs")
        rec.event("packs-" + rt)
        rec.seen("pack", rt, masked, len(src), len(tgt), kind)


@case("C11", quick=12, thorough=60, requires=["string-packs"])
def string_labels(rec, rng):
    """Target labels that are strings: hidden when masking is requested (known finding)."""
    y = np.array(["cat", "dog", "cow"])[rng.integers(0, 3, 6)]
    if rec.idx % 2:
        y = y.astype(object)
    X = rng.normal(size=(6, 2))
    ds = DomainAwareDataset([(X, y, "s"), (X + 1, y[::-1].copy(), "t")])
    rec.event("string-packs")
    with rec.call("string:unmasked"):
        X2, y2, sd = ds.pack(as_sources=["s"], as_targets=["t"], mask_target_labels=False)
    rec.equal(y2, np.r_[y, y[::-1]], "string:labels", "labels do not follow the samples")
    try:
        X2, y2, sd = ds.pack(as_sources=["s"], as_targets=["t"], mask_target_labels=True)
    except Exception:
        rec.event("string-refused")
        return
    rec.equal(y2[sd > 0], y, "string:source-labels", "source labels changed")
    rec.expect(not (y2[sd < 0] == y[::-1]).all(), "string-labels-unmasked", "true target labels handed out although masking was requested",
               y=y2)


@case("C11", quick=12, thorough=120, requires=["many-domains"])
def many_domains(rec, rng):
    """More domains than a small integer can number."""
    k = int(rng.integers(120, 300))
    m = Model()
    ds = DomainAwareDataset()
    uid = 0
    for i in range(k):
        X, y, n = make_domain(rng, uid, 2, "int", "i8", True, False)
        X = X.astype(float)     # identities beyond single precision
        X[:, 0] = np.arange(uid, uid + n)
        uid += n
        m.add(f"d{i}", X, y)
        with rec.call("many:add"):
            ds = ds.add_domain(X, y, f"d{i}") or ds
    content(rec, "many", ds, m)
    names = rng.permutation(list(m.d)).tolist()
    c = int(rng.integers(1, k))
    src, tgt = names[:c], names[c - 1:] if rng.random() < .5 else names[c:]
    masked = bool(rng.random() < .5)
    with rec.context(domains=k, sources=c):
        with rec.call("many:pack"):
            b = ds.pack(as_sources=src, as_targets=tgt, return_type="Bunch", mask_target_labels=masked)
        check_pack(rec, "many", (b["X"], b["y"], b["sample_domain"]), m, src, tgt, masked, None, "int", True)
        want = {n: m.label(n) for n in src}
        want.update({n: -m.label(n) for n in tgt})
        rec.expect(dict(b["domain_names"]) == want, "many:table", "name table")
        for part in (src[:2], tgt[:3], [names[-1]]):
            got = np.asarray(ds.select_domain(b["sample_domain"], part)).astype(bool)
            rec.equal(got, np.isin(b["sample_domain"], [m.label(n) for n in part]), "many:select", "wrong rows selected")
    rec.event("many-domains", k)
    rec.seen("many", k, c)
