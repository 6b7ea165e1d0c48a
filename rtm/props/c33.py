"""C33: pickled, deep-copied, dumped and shipped-to-a-worker objects behave like the originals and share nothing with them."""
import copy
import io
import multiprocessing as mp
import os
import pickle
import re
import tempfile

import joblib
import numpy as np
import torch
from sklearn.base import clone
from sklearn.decomposition import PCA
from sklearn.linear_model import LogisticRegression, Ridge
from sklearn.model_selection import cross_validate
from sklearn.preprocessing import StandardScaler

import skada
from skada import PerDomain, SelectSource, SelectSourceTarget, SelectTarget, Shared, make_da_pipeline
from skada import metrics as M
from skada import model_selection as MS
from skada import transformers as T
from skada.datasets import DomainAwareDataset

from .. import gen, zoo
from ..core import Skip, case
from ..probe import collapsed, compare, probe, probe_plain

WAYS = ("pickle", "pickle-2", "deepcopy", "joblib", "twice", "process")


def ship(obj, how):
    """The object after a journey."""
    if how == "pickle":
        return pickle.loads(pickle.dumps(obj))
    if how == "pickle-2":
        return pickle.loads(pickle.dumps(obj, protocol=2))
    if how == "deepcopy":
        return copy.deepcopy(obj)
    if how == "twice":
        return pickle.loads(pickle.dumps(copy.deepcopy(pickle.loads(pickle.dumps(obj)))))
    if how == "joblib":
        f = io.BytesIO()
        joblib.dump(obj, f)
        f.seek(0)
        return joblib.load(f)
    raise AssertionError(how)


def poison(obj):
    """Overwrites every array reachable from the object and changes every number and flag among its parameters."""
    seen, n = set(), 0
    todo = [obj]
    while todo:
        v = todo.pop()
        if id(v) in seen or isinstance(v, (type, str, bytes)):
            continue
        seen.add(id(v))
        if isinstance(v, np.ndarray):
            if v.dtype.kind in "fiub" and v.size and v.flags.writeable:
                v[...] = 0
                n += 1
            elif v.dtype.kind == "O":
                todo += list(v.ravel())
        elif isinstance(v, dict):
            todo += list(v.values())
        elif isinstance(v, (list, tuple)):
            todo += list(v)
        elif torch.is_tensor(v):
            v.data.zero_()
            n += 1
        elif hasattr(v, "__dict__") and type(v).__module__.split(".")[0] in ("skada", "sklearn", "ot"):
            todo += list(vars(v).values())
            if hasattr(v, "set_params") and hasattr(v, "get_params"):
                for k, p in v.get_params(deep=False).items():
                    if type(p) in (int, float, bool):
                        v.set_params(**{k: (not p) if type(p) is bool else p + 1})
                        n += 1
    return n


def show(v):
    return re.sub(r" at 0x[0-9a-f]+", "", repr(v))


def _child(conn, blob, call):
    try:
        obj = pickle.loads(blob)
        conn.send(("ok", pickle.dumps(call(obj))))
    except BaseException as e:      # noqa: the parent judges
        conn.send(("error", f"{type(e).__name__}: {e}"))
    conn.close()


def there(rec, key, obj, call):
    """What `call(obj)` gives in another process that received the object by pickle (forked: the state must travel in the pickle)."""
    mp.current_process()._config["daemon"] = False      # the checking worker itself is a daemon
    a, b = mp.Pipe()
    p = mp.get_context("fork").Process(target=_child, args=(b, pickle.dumps(obj), call))
    p.start()
    b.close()
    try:
        kind, val = a.recv() if a.poll(120) else ("error", "no answer")
    except EOFError:
        kind, val = "error", "worker died"
    p.join(10)
    rec.must(kind == "ok", key + ":worker", f"the object does not work in a worker process: {val}")
    return pickle.loads(val)


def build(rec, rng):
    """An object of the catalogue with data it can be fitted on."""
    pool = [("adapter", e) for e in zoo.adapters()] + [("est", e) for e in zoo.da_estimators()] + \
           [("factory", n) for n in sorted(zoo.factories("clf"))] + [("pipe", k) for k in range(6)] + [("selector", k) for k in range(6)]
    kind, e = pool[rec.idx % len(pool)]
    if kind in ("adapter", "est"):
        d = gen.da(rng, zoo.pick(rng, e.tasks), **({"labels": [0, 1]} if e.binary else {}))
        return kind, e.name, e.make, d, (d.mask() if e.reads_target_y else d.y), e
    if kind == "factory":
        return kind, e, zoo.factories("clf")[e], (d := gen.da(rng, "clf")), d.y, None
    task = zoo.pick(rng, ("clf", "reg"))
    d = gen.da(rng, task)
    f = (lambda: LogisticRegression()) if task == "clf" else (lambda: Ridge())
    if kind == "pipe":
        mk = [lambda: make_da_pipeline(StandardScaler(), skada.CORALAdapter(reg=.1), f()),
              lambda: make_da_pipeline(PerDomain(StandardScaler()), PCA(2), skada.OTMappingAdapter(), f()),
              lambda: make_da_pipeline(skada.NearestNeighborReweightAdapter(), f().set_fit_request(sample_weight=True)),
              lambda: make_da_pipeline(skada.SubspaceAlignmentAdapter(n_components=2, random_state=0), f()),
              lambda: make_da_pipeline(T.DomainSubsampler(12, random_state=1), StandardScaler(), f()),
              lambda: make_da_pipeline(StandardScaler(), f(), default_selector=SelectSource)][e]
        return kind, f"pipe{e}", mk, d, d.y, None
    mk = [lambda: Shared(f()), lambda: SelectSource(f()), lambda: SelectTarget(StandardScaler()), lambda: PerDomain(StandardScaler()), lambda: SelectSourceTarget(StandardScaler()),
          lambda: PerDomain(PCA(2))][e]
    return kind, f"selector{e}", mk, d, d.y, None


@case("C33", quick=240, thorough=4000, requires=["fitted-copies", "unfitted-copies", "originals-unmoved", "overwritten"])
def components(rec, rng):
    """Adapters, estimators, selectors, pipelines: configured and fitted objects after a journey, and the originals after what happened to the copy."""
    kind, name, mk, d, y, e = build(rec, rng)
    how = WAYS[int(rng.integers(len(WAYS)))]
    key = f"component:{name}:{how}"
    Xn, sdn = gen.new_rows(rng, d)
    tol = 1e-9
    if name in ("selector3", "selector5"):     # needs every domain it is asked about
        sdn = np.where(sdn >= 0, d.sids[0], d.tids[0])

    def fit(o, dd, yy):
        try:
            np.random.seed(5)
            if e is not None and e.kind == "labelprop":
                o.fit_transform(dd.X, yy, sample_domain=dd.sd)
                return o
            return o.fit(dd.X, yy, sample_domain=dd.sd)
        except Exception as ex:
            if name in ("DASVM", "Gradual", "JDOTClassifier", "JDOTClassifier-hinge", "pipe4") and collapsed(ex):
                raise Skip("collapsed")
            raise
    plain = e is not None and not e.domain_args

    def ask(o):
        np.random.seed(6)
        return probe_plain(o, d, Xn) if plain else probe(o, d, Xn, sdn)
    with rec.context(name=name, how=how, task=d.task, domains=(d.sids, d.tids)):
        with rec.call(key + ":unfitted"):
            o = mk()
            o2 = o if how == "process" else ship(o, how)
            p0, p1 = o.get_params(), o2.get_params()
        rec.expect(set(p0) == set(p1) and all(show(p0[k]) == show(p1[k]) for k in p0), key + ":params", "the copy is configured differently", original=p0, copy=p1)
        with rec.call(key + ":fit"):
            fit(o, d, y)
            ref = ask(o)
        if how == "process":
            with rec.call(key + ":answers"):
                got = there(rec, key, o, ask)
            compare(rec, ref, got, key + ":answers", tol, tol)
            un = mk()
            with rec.call(key + ":fit-there"):
                got = there(rec, key, un, lambda q: ask(fit(q, d, y)))
            compare(rec, ref, got, key + ":fit-there", tol, tol)
            rec.event("fitted-copies")
            rec.event("unfitted-copies")
            rec.event("other-processes", 2)
        else:
            with rec.call(key + ":answers"):
                c = ship(o, how)
                got = ask(c)
            compare(rec, ref, got, key + ":answers", tol, tol)
            rec.event("fitted-copies")
            with rec.call(key + ":fit-copy"):
                fit(o2, d, y)
                got = ask(o2)
            compare(rec, ref, got, key + ":fit-copy", tol, tol)
            rec.event("unfitted-copies")
            # whatever is written into a copy stays there
            if rng.random() < .6:
                conf = {k: show(v) for k, v in o.get_params().items()}
                with rec.call(key + ":overwritten"):
                    rec.event("overwritten", poison(ship(o, how)))
                    rec.expect({k: show(v) for k, v in o.get_params().items()} == conf, key + ":overwritten-params", "the parameters of the original changed with those of the copy")
                    again = ask(o)
                compare(rec, ref, again, key + ":overwritten", tol, tol)
            # the copy goes its own way on other data
            d2 = gen.da(rng, d.task, p=d.p + 1, **({"labels": [0, 1]} if e is not None and e.binary else {}))
            with rec.call(key + ":own-way"):
                try:
                    fit(c, d2, d2.mask() if e is not None and e.reads_target_y else d2.y)
                except Skip:
                    pass
        with rec.call(key + ":original"):
            again = ask(o)
        compare(rec, ref, again, key + ":original", tol, tol)
        rec.event("originals-unmoved")
        if how != "process" and rng.random() < .5:
            with rec.call(key + ":refit"):
                q = fit(ship(o, how), d, y)
                compare(rec, ref, ask(q), key + ":refit", tol, tol)
            with rec.call(key + ":clone"):
                q = fit(clone(ship(o, how)), d, y)
                compare(rec, ref, ask(q), key + ":clone", tol, tol)
    rec.seen("component", name, how, d.X)
    rec.sample(kind="component", name=name, how=how, methods=sorted({k[0] for k in ref}))


@case("C33", quick=100, thorough=1200, requires=["splits-compared", "scores-compared", "datasets-compared"])
def tools(rec, rng):
    """Splitters, scorers, resampling steps and data sets."""
    how = WAYS[int(rng.integers(5))]
    d = gen.da(rng, "clf", n_per=(12, 20))
    what = ("splitter", "scorer", "sampler", "dataset", "deep-dataset")[rec.idx % 5]
    key = f"tool:{what}:{how}"
    with rec.context(what=what, how=how):
        if what == "splitter":
            sp = zoo.pick(rng, [MS.SourceTargetShuffleSplit(n_splits=3, random_state=2), MS.StratifiedDomainShuffleSplit(n_splits=3, test_size=.4, random_state=2),
                                MS.DomainShuffleSplit(n_splits=3, random_state=2), MS.LeaveOneDomainOut(max_n_splits=2, random_state=1)])
            sd = d.sd
            if isinstance(sp, MS.LeaveOneDomainOut):     # every domain in both roles
                sd = np.arange(len(d.X)) % 3 + 1
                sd = np.where(np.arange(len(d.X)) % 2 == 0, 1, -1) * sd
            key += f":{type(sp).__name__}"
            with rec.call(key):
                a = list(sp.split(d.X, d.y, sd))
                c = ship(sp, how)
                b = list(c.split(d.X, d.y, sd))
                n1, n2 = sp.get_n_splits(d.X, d.y, sd), c.get_n_splits(d.X, d.y, sd)
            rec.expect(len(a) == len(b) and all(np.array_equal(u[0], v[0]) and np.array_equal(u[1], v[1]) for u, v in zip(a, b)), key, "the copy splits differently")
            rec.equal(n2, n1, key + ":n", "announced number of splits differs")
            rec.event("splits-compared", len(a))
        elif what == "scorer":
            sc = zoo.pick(rng, [M.SupervisedScorer(), M.ImportanceWeightedScorer(), M.PredictionEntropyScorer(), M.SoftNeighborhoodDensity(), M.CircularValidation(), M.MixValScorer(random_state=1),
                                M.MaNoScorer(), M.DeepEmbeddedValidation(random_state=1)])
            p = make_da_pipeline(StandardScaler(), LogisticRegression().set_fit_request(sample_weight=True).set_score_request(sample_weight=True))
            y = np.where(d.src, d.y, -1)
            if isinstance(sc, M.DeepEmbeddedValidation):
                y = np.where(d.src, np.unique(d.y, return_inverse=True)[1], -1)
            kw = dict(sample_domain=d.sd)
            if isinstance(sc, M.SupervisedScorer):
                kw["target_labels"] = d.y
            key += f":{type(sc).__name__}"
            with rec.call(key):
                p.fit(d.X, y, sample_domain=d.sd)
                a = sc(p, d.X, y, **kw)
                b = ship(sc, how)(ship(p, how), d.X, y, **kw)
                c = sc(p, d.X, y, **kw)
            rec.close(b, a, key, "the copy scores differently", 1e-9, 1e-9)
            rec.close(c, a, key + ":original", "the original scores differently afterwards", 1e-9, 1e-9)
            rec.event("scores-compared")
        elif what == "sampler":
            s = zoo.pick(rng, [T.Subsampler(10, random_state=3), T.DomainSubsampler(8, random_state=3), T.StratifiedDomainSubsampler(int(.7 * len(d.X)), random_state=3)])
            key += f":{type(s).__name__}"
            with rec.call(key):
                a = s.fit_transform(d.X, d.y, sample_domain=d.sd)
                b = ship(s, how).fit_transform(d.X, d.y, sample_domain=d.sd)
            rec.equal(b[0], a[0], key, "the copy keeps other rows")
            rec.equal(b[1], a[1], key + ":y", "the copy keeps other labels")
        elif what == "dataset":
            ds = DomainAwareDataset()
            names = []
            for s in d.sids + d.tids:
                m = d.sd == s
                names.append(f"n{s}")
                ds.add_domain(d.X[m], d.y[m], names[-1])
            with rec.call(key):
                c = ship(ds, how)
                src, tgt = names[:len(d.sids)], names[len(d.sids):]
                a, b = (q.pack(as_sources=src, as_targets=tgt, mask_target_labels=True, return_X_y=False) for q in (ds, c))
                c.add_domain(d.X[:3], d.y[:3], "later")
                a2 = ds.pack(as_sources=src, as_targets=tgt, mask_target_labels=True, return_X_y=False)
                missing = False
                try:
                    ds.pack(as_sources=["later"], as_targets=tgt, mask_target_labels=True, return_X_y=False)
                except Exception:
                    missing = True
            rec.expect(missing, key + ":shared", "a domain added to the copy appears in the original")
            for q, w in ((b, "copy"), (a2, "original")):
                rec.expect(all(np.array_equal(np.asarray(a[k]), np.asarray(q[k]), equal_nan=True) for k in ("X", "y", "sample_domain")) and a["domain_names"] == q["domain_names"], f"{key}:{w}",
                           "packs differently", a=a, b=q)
            rec.event("datasets-compared")
        else:
            from skada.deep.base import DeepDADataset
            X = d.X.astype(np.float32)
            w = rng.random(len(X)).astype(np.float32)
            with rec.call(key):
                ds = DeepDADataset(X, d.y, d.sd, w)
                c = ship(ds, how)
                ok = len(c) == len(ds)
                for i in range(len(ds)):
                    (a, ya), (b, yb) = ds[i], c[i]
                    ok &= set(a) == set(b) and all(np.array_equal(np.asarray(a[k]), np.asarray(b[k])) for k in a) and np.array_equal(np.asarray(ya), np.asarray(yb))
                n = len(ds)
                c.merge(DeepDADataset(X[:2], d.y[:2], d.sd[:2], w[:2]), keep_weights=True, out=False)
            rec.expect(ok, key, "records differ")
            rec.expect(len(ds) == n and len(c) == n + 2, key + ":shared", "the copy shares its records with the original", sizes=(n, len(ds), len(c)))
            rec.event("datasets-compared")
    rec.seen("tool", what, how, d.X)


@case("C33", quick=24, thorough=300, requires=["modules-compared"])
def modules(rec, rng):
    """The module inside a network, alone: scikit-learn clones and deep copies answer like the original, with their own weights and layer outputs."""
    from skada.deep.base import DomainAwareModule
    from .c17 import Net
    how = ("clone", "deepcopy", "pickle")[rec.idx % 3]
    torch.manual_seed(int(rng.integers(1 << 30)))
    net = Net(3).eval()
    dom = torch.nn.Sequential(torch.nn.Linear(6, 1), torch.nn.Sigmoid()) if rng.random() < .5 else None
    m = DomainAwareModule(net, "body", dom)
    X, X2 = (torch.as_tensor(rng.normal(size=(int(rng.integers(2, 9)), 2)).astype(np.float32)) for _ in range(2))
    key = f"module:{how}"

    def ask(q, x):
        y, dp, f, _, _ = q(x, is_fit=True)
        o, g = q(x, return_features=True)
        return [None if t is None else t.detach().numpy().copy() for t in (y, dp, f, o, g, q(x))]
    with rec.context(how=how, domain_classifier=dom is not None):
        with rec.call(key):
            a = ask(m, X)
            c = clone(m) if how == "clone" else ship(m, how)
            b = ask(c, X)
            ask(c, X2)
            kept = m.intermediate_layers["body"].detach().numpy().copy()
        for u, v in zip(a, b):
            rec.expect((u is None) == (v is None) and (u is None or np.allclose(u, v, 1e-6, 1e-7)), key, "the copy answers differently", original=u, copy=v)
        rec.close(kept, a[4], key + ":layer", "layer outputs of the original are those of the copy", 1e-6, 1e-7)
        with torch.no_grad():
            for p in c.parameters():
                p.mul_(2).add_(1)
        with rec.call(key):
            b = ask(m, X)
        for u, v in zip(a, b):
            rec.expect(u is None or np.allclose(u, v, 1e-6, 1e-7), key + ":original", "training the copy moved the original", before=u, after=v)
        rec.event("modules-compared")
    rec.seen("module", how, a[0])


def c33_rows(rng, name):
    X = np.stack([np.arange(24) / 8 - 1, rng.normal(size=24)], 1).astype(np.float32)
    sd = np.where(np.arange(24) % 2 == 0, 1, -2)
    return X, np.where(sd > 0, rng.integers(0, 3, 24), -1) if name != "TargetOnly" else rng.integers(0, 3, 24), sd


@case("C33", quick=48, thorough=600, requires=["nets-compared", "trained-on"])
def networks(rec, rng):
    """Trained networks: pickled, deep-copied, sent to a process, or their parameters saved and loaded into a fresh one; then trained further."""
    from . import c26, c28
    name, base, net = c28.trained(rec, rng)
    how = ("pickle", "deepcopy", "joblib", "params", "twice")[int(rng.integers(5))]
    n = int(rng.integers(4, 30))
    X = np.stack([rng.normal(size=n) * 2, rng.normal(size=n)], 1).astype(np.float32)
    sd = rng.choice([-1, -2, 3], n)
    key = f"net:{name}:{how}"
    ask = lambda q: dict(p=q.predict_proba(X, sd, allow_source=True), c=q.predict(X, sd, allow_source=True), f=np.asarray(q.predict_features(X)))
    with rec.context(net=name, base=base, how=how):
        with rec.call(key):
            before = c28.digest(net)
            ref = ask(net)
            if how == "params":
                with tempfile.TemporaryDirectory() as td:
                    f = os.path.join(td, "p.pt")
                    net.save_params(f_params=f)
                    torch.manual_seed(99)
                    other = clone(net).initialize()
                    other.load_params(f_params=f)
            else:
                other = ship(net, how)
            got = ask(other)
        for k in ref:
            rec.close(got[k], ref[k], key + ":" + k, "the copy answers differently", 1e-6, 1e-7)
        rec.event("nets-compared")
        # right after training, before anything else is asked
        with rec.call(key + ":after-fit"):
            q = clone(net)
            q.fit(*c33_rows(rng, name))
            r = clone(q) if rng.random() < .5 else ship(q, "deepcopy" if how == "params" else how)
            if rng.random() < .5:
                r.initialize()
        # the copy is trained further: the original does not move
        Xt = np.stack([np.arange(24) / 8 - 1, rng.normal(size=24)], 1).astype(np.float32)
        sdt = np.where(np.arange(24) % 2 == 0, 1, -2)
        Yt = np.where(sdt > 0, rng.integers(0, 3, 24), -1) if name != "TargetOnly" else rng.integers(0, 3, 24)
        with rec.call(key + ":train-copy"):
            torch.manual_seed(17)
            other.fit(Xt, Yt, sample_domain=sdt)
        rec.equal(c28.digest(net), before, key + ":original", "training the copy changes the original")
        # same training of the original and of a second copy
        if how != "params":
            with rec.call(key + ":train-both"):
                second = ship(net, how)
                torch.manual_seed(17)
                net.fit(Xt, Yt, sample_domain=sdt)
                a = ask(net)
                torch.manual_seed(17)
                second.fit(Xt, Yt, sample_domain=sdt)
                b = ask(second)
            if all(np.isfinite(v).all() for v in a.values()):
                for k in a:
                    rec.close(b[k], a[k], key + ":trained:" + k, "the copy is trained differently", 1e-5, 1e-6)
                rec.event("trained-on")
    rec.seen("net", name, base, how, X)


@case("C33", quick=36, thorough=400, requires=["parallel-scores"])
def workers(rec, rng):
    """Cross-validation and search with several workers (processes or threads) give what one worker gives."""
    d = gen.da(rng, "clf", n_per=(14, 20))
    y = np.where(d.src, d.y, -1)
    fs = zoo.factories("clf")
    name = sorted(fs)[rec.idx % len(fs)]
    backend = ("loky", "threading", "multiprocessing")[rec.idx % 3] if rec.idx % 6 == 0 else "threading"
    key = f"workers:{name}:{backend}"
    cv = zoo.pick(rng, [MS.SourceTargetShuffleSplit(n_splits=4, random_state=0), MS.DomainShuffleSplit(n_splits=4, random_state=0)])
    sc = zoo.pick(rng, [M.PredictionEntropyScorer(), M.SoftNeighborhoodDensity()])
    with rec.context(name=name, backend=backend):
        with rec.call(key):
            one = cross_validate(fs[name](), d.X, y, cv=cv, scoring=sc, params=dict(sample_domain=d.sd), n_jobs=1, error_score="raise")["test_score"]
            with joblib.parallel_backend(backend, n_jobs=3):
                many = cross_validate(fs[name](), d.X, y, cv=cv, scoring=sc, params=dict(sample_domain=d.sd), n_jobs=3, error_score="raise")["test_score"]
        rec.close(many, one, key, "several workers give other scores", 1e-6, 1e-8)
        rec.event("parallel-scores", len(one))
        rec.event("backend-" + backend)
    rec.seen("workers", name, backend, d.X)
