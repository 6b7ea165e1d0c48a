"""C34: several threads at work at once get what each would get alone; delays are injected at function entries of the code under test."""
import hashlib
import os
import pickle
import random
import sys
import threading
import time

import joblib
import numpy as np
import sklearn
from sklearn.base import clone
from sklearn.decomposition import PCA
from sklearn.linear_model import LogisticRegression, Ridge
from sklearn.preprocessing import StandardScaler

import skada
from skada import PerDomain, SelectSource, SelectSourceTarget, make_da_pipeline
from skada import metrics as M
from skada import model_selection as MS
from skada import transformers as T
from skada.datasets import DomainAwareDataset

from .. import gen, zoo
from ..core import Skip, case
from ..probe import METHODS, collapsed, methods

ROOT = os.path.dirname(os.path.abspath(skada.__file__))


class Schedule:
    """Runs jobs in threads, perturbs the schedule at entries of skada functions and records who was where."""

    def __init__(self, seed, p=.05):
        self.seed, self.p, self.log, self.inside, self.overlaps = seed, p, [], {}, 0

    def _profile(self, frame, event, arg):
        if event != "call":
            return
        f = frame.f_code.co_filename
        if not f.startswith(ROOT):
            return
        me = self.local.number
        self.log.append(me)
        if len(self.log) > 1 and self.log[-2] != me:
            self.overlaps += 1
        r = self.local.rng.random()
        if r < self.p:
            time.sleep(self.local.rng.random() * 2e-4)
        elif r < 3 * self.p:
            time.sleep(0)

    def run(self, jobs, routing=True):
        out = [None] * len(jobs)
        barrier = threading.Barrier(len(jobs))
        self.local = threading.local()

        def work(k):
            self.local.number = k
            self.local.rng = random.Random(self.seed * 1000 + k)
            if routing:
                sklearn.set_config(enable_metadata_routing=True)     # see the recorded finding
            try:
                barrier.wait(60)
                sys.setprofile(self._profile)
                try:
                    out[k] = ("ok", jobs[k]())
                finally:
                    sys.setprofile(None)
            except Exception as e:      # noqa: the monitor judges
                out[k] = ("error", e)
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        try:
            ts = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(len(jobs))]
            for t in ts:
                t.start()
            for t in ts:
                t.join(200)
        finally:
            sys.setswitchinterval(old)
        return out

    def digest(self):
        """The interleaving: the sequence of threads entering functions, runs merged."""
        runs = [k for i, k in enumerate(self.log) if i == 0 or self.log[i - 1] != k]
        return hashlib.sha1(bytes(k % 256 for k in runs)).hexdigest()[:16]


class Preempt:
    """One preemption at a chosen line: the first thread stops before its n-th line of the code under test, the second does its whole job, the
    first goes on. Waiting is bounded, so that a lock held by the first thread only postpones the second."""

    def __init__(self, at=None):
        self.at, self.lines, self.where, self.ran = at, [], None, False

    def _call(self, frame, event, arg):
        return self._line if frame.f_code.co_filename.startswith(ROOT) else None

    def _line(self, frame, event, arg):
        if event == "line":
            n = len(self.lines)
            self.lines.append((os.path.relpath(frame.f_code.co_filename, ROOT), frame.f_lineno))
            if n == self.at:
                self.where = self.lines[n]
                self.go.set()
                self.ran = self.done.wait(3)
        return self._line

    def run(self, first, second=None):
        self.go, self.done = threading.Event(), threading.Event()
        out = [None, None]

        def a():
            sklearn.set_config(enable_metadata_routing=True)     # see the recorded finding
            sys.settrace(self._call)
            try:
                out[0] = ("ok", first())
            except Exception as e:      # noqa: the monitor judges
                out[0] = ("error", e)
            finally:
                sys.settrace(None)
                self.go.set()

        def b():
            sklearn.set_config(enable_metadata_routing=True)
            self.go.wait(100)
            try:
                out[1] = ("ok", second())
            except Exception as e:      # noqa: the monitor judges
                out[1] = ("error", e)
            self.done.set()
        ts = [threading.Thread(target=f, daemon=True) for f in ((a, b) if second else (a,))]
        for t in ts:
            t.start()
        for t in ts:
            t.join(100)
        return out


def preemptions(rec, rng, first, second, want, key, limit, tol=1e-9, prefer=()):
    """The two jobs under one preemption of the first, at up to `limit` different lines it executes (most of them in the preferred files)."""
    dry = Preempt()
    (got, _) = dry.run(first)
    rec.must(got is not None and got[0] == "ok", key + ":traced", f"fails in another thread: {got[1] if got else 'stuck'}")
    spots = {}
    for n, w in enumerate(dry.lines):
        spots.setdefault(w, []).append(n)
    order = [sorted(spots)[i] for i in rng.permutation(len(spots))]
    order = [w for w in order if w[0] in prefer][:limit * 3 // 4] + [w for w in order if w[0] not in prefer]
    chosen = [spots[w] for w in order[:limit]]
    for occ in chosen:
        p = Preempt(at=int(occ[int(rng.integers(len(occ)))]))
        got = p.run(first, second)
        with rec.context(preempted_at=p.where):
            for k, (g, w) in enumerate(zip(got, want)):
                who = ("the preempted thread", "the thread in between")[k]
                if g is None:
                    rec.violate(key + ":stuck", who + " did not finish")
                elif g[0] == "error":
                    rec.violate(key + ":raises", f"{who} fails: {type(g[1]).__name__}: {str(g[1])[:200]}")
                else:
                    rec.must(set(g[1]) == set(w), key + ":answers", "other answers available", got=sorted(map(str, g[1])), want=sorted(map(str, w)))
                    for m in w:
                        rec.close(g[1][m], w[m], key, f"{m}: {who} gets another result than alone", tol, tol)
        rec.event("preemptions")
        if p.ran:
            rec.event("complete-in-between")
        rec.seen("preempted", key.split(":")[0], p.where, hashlib.sha1(repr(p.lines[:p.at]).encode()).hexdigest()[:8])


def judge(rec, sch, got, want, key, tol=1e-9):
    for k, (g, w) in enumerate(zip(got, want)):
        if g is None:
            rec.violate(key + ":stuck", "a thread did not finish", thread=k)
            continue
        if g[0] == "error":
            rec.violate(key + ":raises", f"works alone, fails next to other threads: {type(g[1]).__name__}: {str(g[1])[:200]}", thread=k)
            continue
        rec.must(set(g[1]) == set(w), key + ":answers", "other answers available", got=sorted(map(str, g[1])), want=sorted(map(str, w)))
        for m in w:
            rec.close(g[1][m], w[m], f"{key}", f"{m} differs from what the thread gets alone", tol, tol, thread=k)
        rec.event("concurrent-results", len(w))
    rec.event("function-entries", len(sch.log))
    rec.event("switches-observed", sch.overlaps)
    rec.seen("interleaving", sch.digest())


def jobs_pool(rng):
    """(name, function returning a fresh object, data, labels, keyword use)"""
    es = zoo.adapters() + zoo.da_estimators()
    e = es[int(rng.integers(len(es)))]
    if rng.random() < .45:
        fs = zoo.factories("clf")
        n = zoo.pick(rng, sorted(fs))
        return n, fs[n], gen.da(rng, "clf"), None, None
    if rng.random() < .2:
        d = gen.da(rng, "clf")
        mk = zoo.pick(rng, [lambda: make_da_pipeline(PerDomain(StandardScaler()), skada.CORALAdapter(reg=.1), LogisticRegression()),
                            lambda: make_da_pipeline(SelectSourceTarget(StandardScaler()), PCA(2), LogisticRegression(), default_selector=SelectSource),
                            lambda: make_da_pipeline(T.DomainSubsampler(10, random_state=1), skada.OTMappingAdapter(), LogisticRegression()),
                            lambda: make_da_pipeline(StandardScaler(), skada.DensityReweightAdapter(), LogisticRegression().set_fit_request(sample_weight=True))])
        return "pipeline", mk, d, None, None
    d = gen.da(rng, zoo.pick(rng, e.tasks), **({"labels": [0, 1]} if e.binary else {}))
    return e.name, e.make, d, (d.mask() if e.reads_target_y else d.y), e


def fit_and_ask(name, mk, d, y, e, Xn, sdn):
    o = mk() if callable(mk) else clone(mk)
    y = d.y if y is None else y
    if e is not None and e.kind == "labelprop":
        out = o.fit_transform(d.X, y, sample_domain=d.sd)
        return {"labels": np.asarray(out[1])}
    if e is not None and e.kind == "reweight":
        out = o.fit_transform(d.X, y, sample_domain=d.sd)
        return {"weights": np.asarray(out[-1]["sample_weight"])}
    o.fit(d.X, y, sample_domain=d.sd)
    return ask(o, e, Xn, sdn)


def ask(o, e, X, sd, which=METHODS):
    out = {}
    for m in methods(o, which):
        f = getattr(o, m)
        r = f(X) if e is not None and not e.domain_args else f(X, sample_domain=sd, allow_source=True)
        out[m] = np.array(r[0] if isinstance(r, tuple) else r)
    return out


def alone(job, name):
    try:
        return job()
    except Exception as ex:
        if name in ("DASVM", "Gradual", "JDOTClassifier", "JDOTClassifier-hinge", "pipeline") and collapsed(ex):
            raise Skip("collapsed")
        raise


@case("C34", quick=60, thorough=1500, requires=["concurrent-results", "switches-observed"])
def own_objects(rec, rng):
    """Each thread fits and asks its own component on its own data."""
    jobs, want, names = [], [], []
    for k in range(int(rng.integers(3, 7))):
        name, mk, d, y, e = jobs_pool(rng)
        Xn, sdn = gen.new_rows(rng, d)
        job = lambda a=(name, mk, d, y, e, Xn, sdn): fit_and_ask(*a)
        with rec.context(name=name):
            with rec.call(f"alone:{name}"):
                want.append(alone(job, name))
        jobs.append(job)
        names.append(name)
    with rec.context(names=names):
        sch = Schedule(int(rng.integers(1 << 30)))
        judge(rec, sch, sch.run(jobs), want, "own:" + "+".join(sorted(set(names)))[:60] if len(set(names)) == 1 else "own")
    rec.sample(kind="own", names=names, interleaving=sch.log[:60])


@case("C34", quick=70, thorough=1500, requires=["concurrent-results", "switches-observed"])
def same_template(rec, rng):
    """The threads copy one unfitted object and read the same arrays."""
    name, mk, d, y, e = jobs_pool(rng)
    key = f"template:{name}"
    Xn, sdn = gen.new_rows(rng, d)
    template = mk()
    attributes = set(vars(template))
    state = joblib.hash([d.X, d.y, d.sd])
    cuts = [np.sort(rng.permutation(len(Xn))[: max(2, len(Xn) - k)]) for k in range(4)]
    with rec.context(name=name):
        jobs = [lambda c=c: fit_and_ask(name, template, d, y, e, Xn[c], sdn[c]) for c in cuts]
        with rec.call(key + ":alone"):
            want = [alone(j, name) for j in jobs]
        sch = Schedule(int(rng.integers(1 << 30)))
        judge(rec, sch, sch.run(jobs), want, key)
        rec.equal(joblib.hash([d.X, d.y, d.sd]), state, key + ":data", "the shared arrays changed")
        rec.expect(set(vars(template)) == attributes, key + ":fitted", "the shared template became fitted", attributes=sorted(vars(template)))


@case("C34", quick=90, thorough=1500, requires=["concurrent-results", "switches-observed", "one-object"])
def shared_fitted(rec, rng):
    """One fitted object answers several threads at once, each asking about its own rows in its own order of methods."""
    name, mk, d, y, e = jobs_pool(rng)
    if e is not None and e.kind == "labelprop":
        raise Skip("nothing to ask")
    key = f"shared:{name}"
    pool, sdn = gen.new_rows(rng, d, 40)
    pool, sdn = np.concatenate([pool, d.X]), np.r_[sdn, d.sd]
    with rec.context(name=name):
        o = mk()
        with rec.call(key + ":fit"):
            alone(lambda: o.fit(d.X, d.y if y is None else y, sample_domain=d.sd), name)
        cuts = [rng.permutation(len(pool))[: int(rng.integers(1, len(pool)))] for _ in range(5)] + [np.arange(40, len(pool))]
        orders = [list(rng.permutation(METHODS)) for _ in cuts]
        jobs = [lambda c=c, w=w: ask(o, e, pool[c], sdn[c], w) for c, w in zip(cuts, orders)]
        with rec.call(key + ":alone"):
            want = [j() for j in jobs]
        for _ in range(2):
            sch = Schedule(int(rng.integers(1 << 30)), p=.15)
            judge(rec, sch, sch.run(jobs), want, key)
        rec.event("one-object", len(cuts))


def tool_jobs(rec, rng, what):
    """Jobs of several threads around one splitter, scorer, resampling step or data set."""
    key = f"tool:{what}"
    ds = [gen.da(rng, "clf", n_per=(12, 18)) for _ in range(4)]
    if what == "splitter":
        sp = zoo.pick(rng, [MS.SourceTargetShuffleSplit(n_splits=4, random_state=2), MS.StratifiedDomainShuffleSplit(n_splits=4, test_size=.4, random_state=2),
                            MS.DomainShuffleSplit(n_splits=4, random_state=2)])
        key += f":{type(sp).__name__}"
        jobs = [lambda d=d: {f"{k}{i}": np.array(v) for i, f in enumerate(sp.split(d.X, d.y, d.sd)) for k, v in zip(("train", "test"), f)} for d in ds]
    elif what == "scorer":
        sc = zoo.pick(rng, [M.ImportanceWeightedScorer(), M.PredictionEntropyScorer(), M.SoftNeighborhoodDensity(), M.CircularValidation(), M.MixValScorer(random_state=1), M.MaNoScorer(),
                            M.DeepEmbeddedValidation(random_state=1)])
        key += f":{type(sc).__name__}"
        jobs = []
        for d in ds:
            p = make_da_pipeline(StandardScaler(), LogisticRegression().set_fit_request(sample_weight=True).set_score_request(sample_weight=True))
            y = np.where(d.src, np.unique(d.y, return_inverse=True)[1], -1)
            p.fit(d.X, y, sample_domain=d.sd)
            jobs.append(lambda p=p, d=d, y=y: {"score": np.array(sc(p, d.X, y, sample_domain=d.sd))})
    elif what == "sampler":
        k = min(int(min(d.src.sum(), (~d.src).sum())) for d in ds) - 1
        s = zoo.pick(rng, [T.Subsampler(10, random_state=3), T.DomainSubsampler(k, random_state=3)])
        key += f":{type(s).__name__}"
        jobs = [lambda d=d: dict(zip("Xy", clone(s).fit_transform(d.X, d.y, sample_domain=d.sd)[:2])) for d in ds]
    elif what == "dataset":
        q = DomainAwareDataset()
        names = []
        d = ds[0]
        for s in d.sids + d.tids:
            names.append(f"n{s}")
            q.add_domain(d.X[d.sd == s], d.y[d.sd == s], names[-1])
        src, tgt = names[:len(d.sids)], names[len(d.sids):]
        jobs = [lambda a=a, b=b, m=m: dict(zip(("X", "y", "sd"), q.pack(as_sources=a, as_targets=b, mask_target_labels=m))) for a, b, m in
                ((src, tgt, True), (tgt, src, True), (src, tgt, False), (src[:1], tgt[:1], True))]
    else:
        from skada.deep.base import DeepDADataset
        d = ds[0]
        q = DeepDADataset(d.X.astype(np.float32), d.y, d.sd, rng.random(len(d.X)).astype(np.float32))
        def read(f):
            out = [f()[i] for i in range(5)]
            return {f"{i}{k}": np.asarray(v) for i, (x, _) in enumerate(out) for k, v in x.items()}
        jobs = [lambda f=f: read(f) for f in (q.select_source, q.select_target, lambda: q, lambda: q.select_domain(d.tids[0]), lambda: q.merge(q))]
    return key, jobs


TOOLS = ("splitter", "scorer", "sampler", "dataset", "deep-dataset")


@case("C34", quick=40, thorough=600, requires=["concurrent-results", "switches-observed"])
def shared_tools(rec, rng):
    """One splitter, scorer, resampling step or data set used by several threads at once."""
    what = TOOLS[rec.idx % 5]
    key, jobs = tool_jobs(rec, rng, what)
    with rec.context(what=what):
        with rec.call(key + ":alone"):
            want = [{m: np.asarray(v) for m, v in j().items()} for j in jobs]
        sch = Schedule(int(rng.integers(1 << 30)), p=.1)
        got = sch.run([lambda j=j: [j() for _ in range(3)][-1] for j in jobs])
        judge(rec, sch, got, want, key)
    rec.seen("tool", what, rec.idx)


@case("C34", quick=150, thorough=3000, requires=["preemptions", "complete-in-between"])
def preempted_object(rec, rng):
    """One fitted object, two threads: the first stops before a chosen line while the second asks everything, then goes on."""
    pool = [("zoo", e) for e in zoo.adapters() + zoo.da_estimators() if e.kind != "labelprop"] + [("factory", n) for n in sorted(zoo.factories("clf"))] + [("pipe", k) for k in range(5)]
    kind, e = pool[rec.idx % len(pool)]
    y = None
    if kind == "zoo":
        d = gen.da(rng, zoo.pick(rng, e.tasks), **({"labels": [0, 1]} if e.binary else {}))
        name, mk, y = e.name, e.make, d.mask() if e.reads_target_y else d.y
    elif kind == "factory":
        d, name, mk, e = gen.da(rng, "clf"), e, zoo.factories("clf")[e], None
    else:
        d, name, k, e = gen.da(rng, "clf"), f"pipe{e}", e, None
        mk = [lambda: make_da_pipeline(PerDomain(StandardScaler()), skada.CORALAdapter(reg=.1), LogisticRegression()),
              lambda: make_da_pipeline(SelectSourceTarget(StandardScaler()), PCA(2), LogisticRegression(), default_selector=SelectSource),
              lambda: make_da_pipeline(T.DomainSubsampler(10, random_state=1), skada.OTMappingAdapter(), LogisticRegression()),
              lambda: make_da_pipeline(StandardScaler(), skada.DensityReweightAdapter(), LogisticRegression().set_fit_request(sample_weight=True)),
              lambda: make_da_pipeline(PerDomain(PCA(2)), LogisticRegression())][k]
    key = f"preempted:{name}"
    rows, sdn = gen.new_rows(rng, d, 14)
    rows, sdn = np.concatenate([rows, d.X]), np.r_[sdn, d.sd]
    if name == "pipe4" or name == "pipe0":
        rows, sdn = d.X, d.sd
    with rec.context(name=name):
        o = mk()
        with rec.call(key + ":fit"):
            alone(lambda: o.fit(d.X, d.y if y is None else y, sample_domain=d.sd), name if name != "pipe2" else "pipeline")
        ca, cb = (rng.permutation(len(rows))[: int(rng.integers(len(rows) // 2, len(rows)))] for _ in range(2))
        have = list(methods(o))

        def weights_of(c):
            return {"weights": np.asarray(o.compute_weights(rows[c], sample_domain=sdn[c]))}
        weigh = e is not None and e.kind == "reweight" and hasattr(o, "compute_weights") and name != "MMDTarSReweight" and rng.random() < .7
        if not have and not weigh:
            raise Skip("nothing to ask")
        m = zoo.pick(rng, have) if have else None
        first = (lambda: weights_of(ca)) if weigh else (lambda: ask(o, e, rows[ca], sdn[ca], [m]))
        second = (lambda: weights_of(cb)) if weigh else (lambda: ask(o, e, rows[cb], sdn[cb]))
        with rec.call(key + ":alone"):
            try:
                want = [first(), second()]
            except ValueError as ex:
                if weigh:
                    raise Skip("no weights for these rows") from ex
                raise
        preemptions(rec, rng, first, second, want, key, 24, prefer=("_mapping.py", "_reweight.py", "_subspace.py", "_ot.py", "_self_labeling.py", "_gradual_da.py"))
    rec.sample(kind="preempted", name=name)


@case("C34", quick=60, thorough=1200, requires=["preemptions", "complete-in-between"])
def preempted_tool(rec, rng):
    """One splitter, scorer, resampling step or data set, two threads, one preemption at a chosen line."""
    what = TOOLS[(rec.idx // 4) % 5] if rec.idx % 4 == 0 else "scorer"
    key, jobs = tool_jobs(rec, rng, what)
    i, j = rng.permutation(len(jobs))[:2]
    key = "preempted-" + key
    with rec.context(what=what):
        with rec.call(key + ":alone"):
            want = [{m: np.asarray(v) for m, v in jobs[k]().items()} for k in (i, j)]
        preemptions(rec, rng, jobs[i], jobs[j], want, key, 24, prefer=("metrics.py", "model_selection.py", "transformers.py", "datasets/_base.py", "deep/base.py"))


@case("C34", quick=50, thorough=1000, requires=["preemptions", "complete-in-between"])
def preempted_fit(rec, rng):
    """Two threads, each with objects and data of its own (of the same kind or not); the first is preempted inside its fit or prediction."""
    a = jobs_pool(rng)
    b = jobs_pool(rng) if rng.random() < .4 else None
    jobs = []
    for q in (a, b):
        if q is None:       # the same component on other data
            name, mk, d, y, e = a
            d = gen.da(rng, d.task, **({"labels": [0, 1]} if e is not None and e.binary else {}))
            q = name, mk, d, None if y is None else (d.mask() if e.reads_target_y else d.y), e
        Xn, sdn = gen.new_rows(rng, q[2])
        jobs.append(lambda q=q, Xn=Xn, sdn=sdn: fit_and_ask(*q, Xn, sdn))
    key = "preempted-fit:" + a[0]
    with rec.context(names=(a[0], b and b[0])):
        with rec.call(key + ":alone"):
            want = [alone(j, n) for j, n in zip(jobs, (a[0], b[0] if b else a[0]))]
        preemptions(rec, rng, jobs[0], jobs[1], want, key, 10)


@case("C34", quick=24, thorough=400, requires=["concurrent-results", "switches-observed"])
def networks(rec, rng):
    """Trained networks asked from several threads: one each (copies of one net), or the classes and probabilities of a single one."""
    from . import c28
    name, base, net = c28.trained(rec, rng)
    n = int(rng.integers(8, 40))
    X = np.stack([rng.normal(size=n) * 2, rng.normal(size=n)], 1).astype(np.float32)
    sd = rng.choice([-1, -2, 3], n)
    shared = rec.idx % 2 == 0
    key = f"net:{name}:{'shared' if shared else 'own'}"
    net.set_params(batch_size=int(rng.integers(2, 9)))
    with rec.context(net=name, base=base, shared=shared):
        cuts = [rng.permutation(n)[: int(rng.integers(2, n))] for _ in range(4)]

        def answers(q, c):
            out = {"predict": np.asarray(q.predict(X[c], sd[c], allow_source=True)), "predict_proba": np.asarray(q.predict_proba(X[c], sd[c], allow_source=True))}
            if not shared:
                out["features"] = np.asarray(q.predict_features(X[c]))
            return out
        with rec.call(key + ":alone"):
            qs = [net if shared else pickle.loads(pickle.dumps(net)) for _ in cuts]
            jobs = [lambda q=q, c=c: answers(q, c) for q, c in zip(qs, cuts)]
            want = [answers(net, c) for c in cuts]
        sch = Schedule(int(rng.integers(1 << 30)), p=.1)
        judge(rec, sch, sch.run(jobs), want, key, 1e-6)


@case("C34", quick=4, thorough=10, requires=["plain-threads"])
def plain_thread(rec, rng):
    """A thread that merely uses skada (recorded finding: metadata routing is switched on in the importing thread only)."""
    d = gen.da(rng, "clf")
    job = lambda: fit_and_ask("p", lambda: make_da_pipeline(StandardScaler(), skada.CORALAdapter(reg=.1), LogisticRegression()), d, d.y, None, d.X, d.sd)
    with rec.call("plain:alone"):
        want = job()
    sch = Schedule(1)
    (got,) = sch.run([job], routing=False)
    rec.event("plain-threads")
    if got[0] == "error" and isinstance(got[1], ValueError) and "does not accept the sample_domain" in str(got[1]):
        rec.violate("pipelines-unusable-in-plain-threads", f"a pipeline fails in a thread other than the importing one: {got[1]}"[:200])
        return
    judge(rec, sch, [got], [want], "plain")
    rec.seen("plain", rec.idx)
