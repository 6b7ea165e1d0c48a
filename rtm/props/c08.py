"""C08: twin runs of every seeded component under scrambled process-wide generators, whose state is watched."""
import numpy as np
import torch
from sklearn.base import clone
from sklearn.linear_model import LogisticRegression
from sklearn.preprocessing import StandardScaler
from sklearn.svm import SVC

import skada
import skada.datasets as D
from skada import make_da_pipeline
from skada.deep.modules import ToyModule2D
from skada.deep.utils import SphericalKMeans, check_generator
from skada.metrics import (CircularValidation, DeepEmbeddedValidation, ImportanceWeightedScorer, MaNoScorer, MixValScorer,
                           PredictionEntropyScorer, SoftNeighborhoodDensity, SupervisedScorer)
from skada.model_selection import DomainShuffleSplit, LeaveOneDomainOut, SourceTargetShuffleSplit, StratifiedDomainShuffleSplit
from skada.transformers import DomainSubsampler, StratifiedDomainSubsampler, Subsampler
from skada.utils import source_target_split
import skada.deep as sd_deep

from .. import gen, watch, zoo
from ..core import Skip, case, digest
from ..probe import collapsed
from .c07 import behave, entries


def flat(o):
    """Any result as a list of plain values."""
    if isinstance(o, torch.Tensor):
        return [o.detach().numpy()]
    if isinstance(o, np.ndarray):
        return [o]
    if isinstance(o, dict):
        return [x for k in sorted(o, key=str) for x in [np.array(str(k))] + flat(o[k])]
    if isinstance(o, (list, tuple)):
        return [x for v in o for x in flat(v)]
    if type(o).__name__ == "DomainAwareDataset":
        return flat([list(o.domain_names_.items()), [tuple(d) for d in o.domains_]])
    return [np.array(o)]


def same(a, b, rtol=0.0, atol=0.0):
    a, b = flat(a), flat(b)
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x.shape != y.shape:
            return False
        if x.dtype.kind in "fc":
            if not np.allclose(x, y, rtol=rtol, atol=atol, equal_nan=True):
                return False
        elif not np.array_equal(x, y):
            return False
    return True


def twice(rec, rng, key, run, between=None, rtol=0.0, atol=0.0, **wit):
    """run() -> result; repeated under other global states, with other things having run before."""
    outs = []
    with rec.context(**wit):
        for i in range(3):
            watch.scramble(rng)
            if i == 2 and between is not None:
                between()
            before = watch.global_rng_state()
            with rec.call(key):
                outs.append(run())
            rec.event("runs-compared")
            rec.expect(watch.global_rng_state() == before, key + ":global-state", "the process-wide random generators were changed")
        rec.expect(same(outs[0], outs[1], rtol, atol), key, "result depends on the process-wide generators")
        rec.expect(same(outs[0], outs[2], rtol, atol), key + ":history", "result depends on what ran before")
    rec.seen("seeded", key, *flat(outs[0])[:4])
    return outs[0]


def seeds(rng):
    return zoo.pick(rng, [0, 1, 42, int(rng.integers(2**31 - 1)), np.int64(rng.integers(1000))])


def splitters(s, n=3):
    return {
        "SourceTargetShuffleSplit": lambda: SourceTargetShuffleSplit(n, test_size=.3, random_state=s),
        "DomainShuffleSplit": lambda: DomainShuffleSplit(n, test_size=.3, random_state=s),
        "DomainShuffleSplit-under": lambda: DomainShuffleSplit(n, test_size=.3, under_sampling=.6, random_state=s),
        "StratifiedDomainShuffleSplit": lambda: StratifiedDomainShuffleSplit(n, test_size=.4, random_state=s),
        "LeaveOneDomainOut": lambda: LeaveOneDomainOut(n, test_size=.3, random_state=s),
    }


@case("C08", quick=150, thorough=2000, requires=["runs-compared"])
def splits(rec, rng):
    d = gen.da(rng, "clf", ns=2, nt=2, p=2, labels=[0, 1])
    s = seeds(rng)
    m = splitters(s)
    n = sorted(m)[rec.idx % len(m)]
    if n == "LeaveOneDomainOut":  # every domain given both as a source and as a target
        a = np.abs(d.sd)
        d = gen.Data(d, X=np.r_[d.X, d.X], y=np.r_[d.y, d.y], sd=np.r_[a, -a])
    run = lambda o: [list(map(np.asarray, t)) for t in o.split(d.X, d.y, d.sd)]
    other = lambda: [run(f()) for k, f in m.items() if k != "LeaveOneDomainOut"]
    a = twice(rec, rng, f"split:{n}", lambda: run(m[n]()), other, seed=s)
    # one object, asked repeatedly
    o = m[n]()
    with rec.call(f"split:{n}:repeat"):
        r = [run(o), run(o)]
        it = iter(o.split(d.X, d.y, d.sd))  # two generators consumed alternately
        jt = iter(o.split(d.X, d.y, d.sd))
        z = []
        for x, y in zip(it, jt):
            z.append((x, y))
    rec.expect(same(r[0], a) and same(r[1], a), f"split:{n}:repeat", "the same splitter gives other splits the next time", seed=s)
    rec.expect(all(same(x, y) for x, y in z), f"split:{n}:interleaved", "interleaved passes differ", seed=s)
    b = run(splitters(np.random.RandomState(int(s)))[n]())
    c = run(splitters(np.random.RandomState(int(s)))[n]())
    rec.expect(same(b, c), f"split:{n}:instance", "equal generator instances give different splits", seed=s)


@case("C08", quick=90, thorough=1000, requires=["runs-compared"])
def resamplers(rec, rng):
    d = gen.da(rng, "clf", p=2, labels=[0, 1], ns=2, nt=2)
    s = seeds(rng)
    m = {"Subsampler": lambda: Subsampler(.5, random_state=s), "DomainSubsampler": lambda: DomainSubsampler(.5, random_state=s),
         "StratifiedDomainSubsampler": lambda: StratifiedDomainSubsampler(.5, random_state=s)}
    n = sorted(m)[rec.idx % 3]
    run = lambda o: o.fit_transform(d.X, d.y, sample_domain=d.sd)
    a = twice(rec, rng, f"resample:{n}", lambda: run(m[n]()), lambda: [run(f()) for f in m.values()], seed=s)
    o = m[n]()
    with rec.call(f"resample:{n}:repeat"):
        r = [run(o), run(o), run(clone(o))]
    rec.expect(all(same(x, a) for x in r), f"resample:{n}:repeat", "the same resampler gives other samples the next time", seed=s)
    # inside a pipeline
    mk = lambda: make_da_pipeline(m[n](), StandardScaler(), LogisticRegression())
    twice(rec, rng, f"resample:{n}:pipeline", lambda: mk().fit(d.X, d.y, sample_domain=d.sd).predict_proba(d.X, sample_domain=d.sd, allow_source=True),
          rtol=1e-9, atol=1e-9, seed=s)


def generators(rng, s):
    shift = zoo.pick(rng, ["covariate_shift", "target_shift", "conditional_shift", "subspace"])
    label = "binary" if shift == "subspace" else zoo.pick(rng, ["binary", "multiclass", "regression"])
    noise = zoo.pick(rng, [None, .1, (.1, .3)])
    ret = zoo.pick(rng, [dict(return_X_y=True), dict(return_X_y=False), dict(return_dataset=True)])
    cen = np.array([[0., 0.], [3., 3.]])
    return {
        "make_shifted_blobs": lambda s: D.make_shifted_blobs(20, centers=cen, noise=noise, random_state=s, **ret),
        "make_shifted_blobs-nc": lambda s: D.make_shifted_blobs(20, centers=3, noise=noise, random_state=s, **ret),
        "make_shifted_datasets": lambda s: D.make_shifted_datasets(6, 5, shift=shift, label=label, noise=noise, random_state=s, **ret),
        "make_dataset_from_moons_distribution": lambda s: D.make_dataset_from_moons_distribution(
            6, 5, noise=noise, pos_source=zoo.pick(np.random.default_rng(int(0)), [.1]), pos_target=[.2, .5], random_state=s, **ret),
        "make_variable_frequency_dataset": lambda s: D.make_variable_frequency_dataset(4, 3, n_channels=2, noise=noise, random_state=s, **ret),
    }


@case("C08", quick=100, thorough=1200, requires=["runs-compared"])
def datasets(rec, rng):
    s = seeds(rng)
    m = generators(rng, s)
    n = sorted(m)[rec.idx % len(m)]
    a = twice(rec, rng, f"generate:{n}", lambda: m[n](s), lambda: [f(3) for f in m.values()], seed=s)
    b, c = m[n](np.random.RandomState(int(s))), m[n](np.random.RandomState(int(s)))
    rec.expect(same(b, c), f"generate:{n}:instance", "equal generator instances give different data", seed=s)
    z = m[n](int(s) % (2**31 - 7) + 1)
    rec.event("seeds-differ", not same(a, z))


@case("C08", quick=222, thorough=2500, requires=["runs-compared"])
def components(rec, rng):
    """Adapters and estimators: seeded ones with their seed, the deterministic ones as they are."""
    es = entries()
    e = es[rec.idx % len(es)]
    kw = dict(labels=[0, 1]) if e.binary else {}
    if "hinge" in e.name:
        kw = dict(labels=[0, 1, 2])
    d = gen.da(rng, zoo.pick(rng, e.tasks), p=int(rng.integers(2, 5)), n_per=(10, 14), **kw)
    Xn, sdn = gen.new_rows(rng, d)
    mk = e.make
    if e.seeded or e.kind == "sub":
        s = seeds(rng)
        mk = lambda: e.make().set_params(random_state=s)
    if isinstance(getattr(e.make(), "base_estimator", None), SVC):  # libsvm's own seed
        mk = lambda: e.make().set_params(base_estimator__random_state=0)

    def run(o):
        try:
            return behave(e, o, d, Xn, sdn)
        except Exception as ex:
            if collapsed(ex):
                raise Skip(str(ex))
            raise
    other = lambda: zoo.pick(rng, zoo.reweighters()).make().fit_transform(d.X, d.y, sample_domain=d.sd)
    twice(rec, rng, f"component:{e.name}", lambda: run(mk()), other, rtol=1e-8, atol=1e-10, layout=d.kind)
    one = mk()
    twice(rec, rng, f"component:{e.name}:same-object", lambda: run(one), rtol=1e-8, atol=1e-10, layout=d.kind)


@case("C08", quick=60, thorough=600, requires=["runs-compared"])
def seeded_parameters(rec, rng):
    """Seeds at work: more samples than centers, randomised PCA, cross-validated bandwidth."""
    d = gen.da(rng, "clf", p=6, n_per=(20, 26), ns=2, nt=2, labels=[0, 1])
    s = seeds(rng)
    S = skada
    m = {"KLIEP-centers": lambda: S.KLIEPReweightAdapter(gamma=[.01, .1, 1.], cv=3, n_centers=7, random_state=s),
         "KLIEP-one": lambda: S.KLIEPReweightAdapter(gamma=.3, n_centers=5, random_state=s),
         "SubspaceAlignment": lambda: S.SubspaceAlignmentAdapter(n_components=3, random_state=s),
         "KLIEPReweight()": lambda: S.KLIEPReweight(LogisticRegression().set_fit_request(sample_weight=True), gamma=[.1, 1.], cv=3, n_centers=6, random_state=s),
         "SubspaceAlignment()": lambda: S.SubspaceAlignment(LogisticRegression(), n_components=3, random_state=s),
         "OTLabelProp": lambda: S.OTLabelPropAdapter()}
    n = sorted(m)[rec.idx % len(m)]

    def run():
        o = m[n]()
        if n.endswith("()"):
            return o.fit(d.X, d.y, sample_domain=d.sd).predict_proba(d.X[~d.src], sample_domain=d.sd[~d.src])
        return o.fit_transform(d.X, d.y, sample_domain=d.sd)
    twice(rec, rng, f"seeded:{n}", run, rtol=1e-8, atol=1e-10, seed=s)


@case("C08", quick=90, thorough=900, requires=["runs-compared"])
def scorers(rec, rng):
    d = gen.da(rng, "clf", p=3, ns=2, nt=2, labels=[0, 1], n_per=(14, 18))
    s = seeds(rng)
    with np.errstate(all="ignore"):
        p = make_da_pipeline(StandardScaler(), skada.CORALAdapter(reg=.1), LogisticRegression().set_score_request(sample_weight=True)).fit(d.X, d.y, sample_domain=d.sd)
    m = {"DeepEmbeddedValidation": lambda: DeepEmbeddedValidation(random_state=s), "MixVal": lambda: MixValScorer(random_state=s, ice_type="both"),
         "MixVal-intra": lambda: MixValScorer(random_state=s, ice_type="intra"), "MixVal-inter": lambda: MixValScorer(alpha=.4, random_state=s, ice_type="inter"),
         "ImportanceWeighted": lambda: ImportanceWeightedScorer(), "PredictionEntropy": lambda: PredictionEntropyScorer(),
         "SoftNeighborhoodDensity": lambda: SoftNeighborhoodDensity(), "CircularValidation": lambda: CircularValidation(),
         "MaNo": lambda: MaNoScorer(), "Supervised": lambda: SupervisedScorer()}
    n = sorted(m)[rec.idx % len(m)]
    kw = {"target_labels": d.y} if n == "Supervised" else {}
    y = d.mask() if n != "Supervised" and (rng.random() < .5 or n == "CircularValidation") else d.y
    twice(rec, rng, f"score:{n}", lambda: m[n]()(p, d.X, y, sample_domain=d.sd, **kw), rtol=1e-9, atol=1e-12, seed=s)
    o = m[n]()
    r = [o(p, d.X, y, sample_domain=d.sd, **kw) for _ in range(2)]
    rec.expect(same(r[0], r[1], 1e-9, 1e-12), f"score:{n}:repeat", "the same scorer gives another score the next time", scores=r)


@case("C08", quick=60, thorough=600, requires=["runs-compared"])
def deep_utils(rec, rng):
    s = seeds(rng)
    X = torch.as_tensor(rng.normal(size=(int(rng.integers(12, 40)), 4)).astype(np.float32))
    k = int(rng.integers(2, 5))

    def run():
        km = SphericalKMeans(n_clusters=k, random_state=s, n_init=3).fit(X)
        return [km.cluster_centers_, km.predict(X), km.inertia_ if hasattr(km, "inertia_") else 0.]
    twice(rec, rng, "SphericalKMeans", run, lambda: SphericalKMeans(n_clusters=2, random_state=5).fit(X), rtol=1e-6, atol=1e-7, seed=s)
    km = SphericalKMeans(n_clusters=k, random_state=s, n_init=2)
    a, b = km.fit(X).cluster_centers_.clone(), km.fit(X).cluster_centers_.clone()
    rec.expect(same(a, b, 1e-6, 1e-7), "SphericalKMeans:repeat", "the same clustering gives other centres the next time", seed=s)
    twice(rec, rng, "check_generator", lambda: torch.randn(5, generator=check_generator(s)), lambda: torch.randn(3, generator=check_generator(1)), seed=s)
    g = check_generator(None)
    rec.expect(g is torch.random.default_generator, "check_generator:none", "None is not the default generator")
    h = torch.Generator()
    rec.expect(check_generator(h) is h, "check_generator:instance", "an instance is not returned as is")
    rec.rejects("check_generator:bad", lambda: check_generator("seed"), ValueError, "a string as a seed")
    h.manual_seed(5)
    a = torch.randn(4, generator=check_generator(h))
    rec.expect(not torch.equal(a, torch.randn(4, generator=check_generator(h))), "check_generator:advances", "generator instance does not advance")


@case("C08", quick=40, thorough=400, requires=["runs-compared"])
def cdan_random_layer(rec, rng):
    """The randomised multilinear map is a function of its seed only, at every batch."""
    from skada.deep._adversarial import CDANModule
    from skada.deep.modules import DomainClassifier
    s = seeds(rng)
    F = int(rng.integers(3, 9))
    torch.manual_seed(7)
    base = ToyModule2D(n_classes=2, num_features=10).eval()
    dom = DomainClassifier(num_features=F).eval()
    X = torch.as_tensor(rng.normal(size=(8, 2)).astype(np.float32))
    sd = torch.as_tensor([1, 1, 1, 1, -2, -2, -2, -2])

    def run():
        m = CDANModule(base, "dropout", dom, max_features=F, random_state=s)
        m.base_module_ = getattr(m, "base_module_", base)
        m.eval()
        with torch.no_grad():
            a = m(X, sample_domain=sd, is_fit=True)
            b = m(X, sample_domain=sd, is_fit=True)
        return [a[0], a[1], b[1]]
    out = twice(rec, rng, "CDANModule", run, lambda: CDANModule(base, "dropout", dom, max_features=F, random_state=3), rtol=1e-5, atol=1e-6, seed=s, F=F)
    rec.expect(same(out[1], out[2], 1e-5, 1e-6), "CDANModule:batches", "the random map changes between batches", seed=s)


@case("C08", quick=22, thorough=220, requires=["runs-compared"])
def deep_training(rec, rng):
    """Training is a function of the data and of the (process-wide) torch seed set before it; CDAN's own seed is local."""
    n, m = int(rng.integers(16, 24)), int(rng.integers(16, 24))
    X = rng.normal(size=(n + m, 2)).astype(np.float32)
    sd = np.r_[np.ones(n, int), -2 * np.ones(m, int)]
    y = rng.integers(0, 2, n + m)
    from .c02 import nets
    names = sorted(nets())
    name = names[rec.idx % len(names)]

    def run():
        torch.manual_seed(11)
        np.random.seed(12)
        k = dict(max_features=4) if name == "CDAN" else {}
        net = nets()[name](**k)
        net.fit(X, y, sample_domain=sd)
        return net.predict_proba(X, sample_domain=sd, allow_source=True)
    outs = []
    with rec.call(f"train:{name}"):
        for _ in range(2):
            watch.scramble(rng)
            outs.append(run())
            rec.event("runs-compared")
    rec.expect(same(outs[0], outs[1], 1e-4, 1e-5), f"train:{name}", "training with the same torch seed gives other predictions")
    rec.seen("train", name, X)
