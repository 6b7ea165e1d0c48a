"""C28: predictions, features and scores of deep networks against a direct forward pass of the trained module."""
import pickle
import warnings

import joblib
import numpy as np
import torch
from scipy.special import softmax
from sklearn.preprocessing import FunctionTransformer
from skada import deep, make_da_pipeline
from skada.deep.base import DeepDADataset
from skada.deep.modules import ToyCNN, ToyModule2D
from skorch.dataset import Dataset

from .. import zoo
from ..core import Skip, case
from . import c26
from .c17 import Net
from .c25 import dataset

BASES = {"default": None, "ce": torch.nn.CrossEntropyLoss, "smooth": lambda: torch.nn.CrossEntropyLoss(label_smoothing=.3), "margin": torch.nn.MultiMarginLoss,
         "nll": torch.nn.NLLLoss}


class Squeeze(Net):
    """Gives log-probabilities."""

    def forward(self, X, sample_weight=None):
        return torch.log_softmax(super().forward(X), 1)


def digest(net):
    return joblib.hash([(k, v.numpy().copy()) for k, v in net.module_.state_dict().items()] + [(k, v.detach().numpy().copy()) for k, v in net.criterion_.state_dict().items()] +
                       [repr(net.optimizer_.state_dict()["param_groups"]), len(net.history)])


CONTAINERS = ["arrays", "tensors", "dict", "dataset", "skorch", "dict-in-dataset", "weighted", "keywords", "one-domain"]


def ask(net, method, kind, X, Y, sd, **kw):
    f = getattr(net, method)
    feats = method == "predict_features"
    T = torch.as_tensor
    if kind == "tensors":
        return f(T(X)) if feats else f(T(X), T(sd), **kw)
    if kind == "dict":
        return f(dict(X=X, sample_domain=sd), **kw)
    if kind == "dataset":
        return f(DeepDADataset(X, Y, sd), **kw)
    if kind == "skorch":
        return f(Dataset(dict(X=X, sample_domain=sd), Y), **kw)
    if kind == "dict-in-dataset":
        return f(DeepDADataset(dict(X=X, y=Y, sample_domain=sd, sample_weight=np.ones(len(X)))), **kw)
    if kind == "weighted":
        return f(DeepDADataset(X, Y, sd, np.linspace(.1, 2, len(X)).astype(np.float32))) if feats else f(X, sd, np.linspace(.1, 2, len(X)).astype(np.float32), **kw)
    if kind == "keywords":
        return f(X=X) if feats else f(X=X, sample_domain=sd, **kw)
    if kind == "one-domain" and (sd == sd[0]).all():
        return f(X) if feats else f(X, int(sd[0]), **kw)
    return f(X) if feats else f(X, sd, **kw)


def direct(net, X):
    """(module output, features) of the trained module in evaluation mode, without the network class."""
    import copy
    m = copy.deepcopy(net).module_.base_module_.eval()
    for mod in m.modules():
        mod._forward_hooks.clear()
    got = []
    m.get_submodule(net.module__layer_name).register_forward_hook(lambda mod, i, o: got.append(o.flatten(start_dim=1)))
    with torch.no_grad():
        out = m(torch.as_tensor(X))
    return out.numpy(), got[0].numpy()


def trained(rec, rng):
    name = sorted(c26.nets())[rec.idx % len(c26.nets())]
    base = zoo.pick(rng, ["default", "ce", "smooth", "margin", "nll"])
    ns, nt, b = int(rng.integers(12, 24)), int(rng.integers(12, 24)), int(rng.integers(4, 9))
    X, Y, sd, _ = dataset(rng, ns, nt, False)
    X[:, 0] = rng.permutation(len(X)) / 8 - 2
    Y[np.flatnonzero(sd >= 0)[:3]] = [0, 1, 2]
    if name == "SPA":
        sd[sd < 0] = -2
    kw = {} if base == "default" else dict(base_criterion=BASES[base]())
    torch.manual_seed(int(rng.integers(1 << 30)))
    net = c26.nets()[name]((Squeeze if base == "nll" else Net)(c26.K), max_epochs=1, batch_size=b, lr=.05, **kw)
    with rec.call("train"):
        net = c26.train(net, zoo.pick(rng, c26.FORMS), X, np.where(sd < 0, -1, Y) if name != "TargetOnly" else Y, sd)
    if any(not torch.isfinite(v).all() for v in net.module_.state_dict().values() if v.dtype.is_floating_point):
        raise Skip("training diverged")
    return name, base, net


@case("C28", quick=240, thorough=4800, requires=["probabilities", "classes", "features", "scores", "filtered-rows", "network-unchanged"])
def agreement(rec, rng):
    name, base, net = trained(rec, rng)
    ce = base not in ("margin", "nll")
    # data asked about: another mixture of domains, some never seen, any order
    n = int(zoo.pick(rng, [1, 2, 5, 17, 40, 150]))
    X = np.stack([rng.normal(size=n) * 2, rng.normal(size=n)], 1).astype(np.float32)
    sd = rng.choice(zoo.pick(rng, [[-1], [-2, 1], [0, -1], [-1, -2, -9, 0, 3, 7], [-4, -5], [2], [0, 5]]), n)
    Y = rng.integers(0, 3, n)
    net.set_params(batch_size=int(zoo.pick(rng, [1, 2, 7, 64, 1000])))
    with rec.context(net=name, base=base, n=n, batch_size=net.batch_size, domains=sorted(set(sd.tolist()))):
        out, feats = direct(net, X)
        proba = softmax(out, 1) if ce else out
        before = digest(net)
        for rep in range(4):
            allow = bool(rng.random() < .6) or not (sd < 0).any()
            rows = np.arange(n) if allow else np.flatnonzero(sd < 0)
            kind = zoo.pick(rng, CONTAINERS)
            kw = {} if not allow and rng.random() < .5 else dict(allow_source=allow)
            method = zoo.pick(rng, ["predict", "predict_proba", "predict_features", "score"]) if rep else "predict_proba"
            with rec.context(method=method, container=kind, allow_source=allow, target_rows=int((sd < 0).sum())):
                if method == "score":
                    f = lambda y, **k: ask_score(net, kind, X, y, sd, **k)
                    w = rng.uniform(.1, 2, n).astype(np.float32) if rng.random() < .4 else None
                    with rec.call("score"):
                        got = f(Y, **kw) if w is None else f(Y, sample_weight=w, **kw)
                    ok = proba.argmax(1)[rows] == Y[rows]
                    gap = np.sort(proba, 1)
                    if (gap[:, -1] - gap[:, -2]).min() > 1e-5:
                        rec.close(got, np.average(ok, weights=None if w is None else w[rows]), "score", "score is not the accuracy of the predictions on the requested rows", 1e-6, 1e-6, weighted=w is not None)
                    rec.event("scores")
                    continue
                with rec.call(method):
                    got = ask(net, method, kind, X, Y, sd, **({} if method == "predict_features" else kw))
                if method == "predict_features":
                    rec.must(got.shape == feats.shape, "features:rows", "features of other rows than requested", got=got.shape, want=feats.shape)
                    rec.close(got, feats, "features:values", "features differ from the layer's output, row by row", 1e-4, 1e-5)
                    rec.event("features", n)
                    continue
                rec.must(len(got) == len(rows), method + ":rows", "number of rows returned", got=len(got), want=len(rows))
                if len(rows) < n:
                    rec.event("filtered-rows", n - len(rows))
                if method == "predict_proba":
                    rec.close(got, proba[rows], "proba:values", "probabilities differ from the module's output, row by row", 1e-4, 1e-5)
                    if ce:
                        rec.expect((got >= 0).all() and np.allclose(got.sum(1), 1, atol=1e-5), "proba:valid", "not probabilities")
                    rec.event("probabilities", len(rows))
                else:
                    sure = np.diff(np.sort(proba[rows], 1)[:, -2:], axis=1).ravel() > 1e-5
                    rec.equal(got[sure], proba[rows].argmax(1)[sure], "predict:argmax", "predicted class is not the most probable one")
                    rec.event("classes", len(rows))
        rec.equal(digest(net), before, "network-changed", "predicting altered the network")
        rec.event("network-unchanged")
    rec.seen("agreement", name, base, n, sd, X)
    rec.sample(kind="agreement", net=name, base=base, n=n)


def ask_score(net, kind, X, y, sd, **kw):
    T = torch.as_tensor
    if kind == "tensors":
        return net.score(T(X), T(y), T(sd), **kw)
    if kind in ("dict", "dict-in-dataset"):
        return net.score(dict(X=X, sample_domain=sd), y, **kw)
    if kind in ("dataset", "skorch"):
        return net.score(DeepDADataset(X, y, sd), y, **kw)
    if kind == "keywords":
        return net.score(X=X, y=y, sample_domain=sd, **kw)
    return net.score(X, y, sd, **kw)


@case("C28", quick=40, thorough=600, requires=["only-sources"])
def only_sources(rec, rng):
    """Rows that are all sources have no answer unless sources are allowed."""
    name, base, net = trained(rec, rng)
    n = int(rng.integers(1, 20))
    X = rng.normal(size=(n, 2)).astype(np.float32)
    sd = rng.choice([0, 1, 4], n)
    Y = rng.integers(0, 3, n)
    kind = zoo.pick(rng, [k for k in CONTAINERS if k != "one-domain"])
    with rec.context(net=name, container=kind, n=n):
        for method in ("predict", "predict_proba"):
            for kw in (dict(), dict(allow_source=False)):
                try:
                    got = ask(net, method, kind, X, Y, sd, **kw)
                except Exception:
                    continue
                rec.expect(len(got) == 0, f"{method}:sources-answered", "predictions for source rows although sources are not allowed", got=len(got))
            with rec.call(method):
                got = ask(net, method, kind, X, Y, sd, allow_source=True)
            rec.equal(len(got), n, method + ":rows", "rows answered")
    rec.event("only-sources", n)
    rec.seen("sources", name, kind, n)


@case("C28", quick=120, thorough=2000, requires=["repeated-calls"])
def any_history(rec, rng):
    """Sequences of calls, other batch sizes, subsets and orders in between: each row keeps its answer."""
    name, base, net = trained(rec, rng)
    n = int(rng.integers(5, 40))
    X = rng.normal(size=(n, 2)).astype(np.float32)
    sd = rng.choice([-1, -2, 0, 3], n)
    sd[0] = -1
    with rec.context(net=name, base=base, n=n):
        with rec.call("history"):
            ref = dict(predict_proba=net.predict_proba(X, sd, allow_source=True), predict=net.predict(X, sd, allow_source=True), predict_features=net.predict_features(X))
        top = np.sort(ref["predict_proba"], 1)
        sure = top[:, -1] - top[:, -2] > 1e-5
        for _ in range(8):
            what = zoo.pick(rng, ["subset", "subset", "batch", "train-mode", "noise", "targets", "doubled", "pickle"])
            method = zoo.pick(rng, sorted(ref))
            rows = np.arange(n)
            kw = {} if method == "predict_features" else dict(allow_source=True)
            if what == "subset":
                rows = rng.permutation(n)[: int(rng.integers(1, n + 1))]
            elif what == "doubled":
                rows = rng.integers(0, n, 2 * n)
            elif what == "batch":
                net.set_params(batch_size=int(rng.integers(1, 50)))
            elif what == "train-mode":
                net.module_.train()
            elif what == "pickle":
                with rec.call("history"):
                    net = pickle.loads(pickle.dumps(net))
            elif what == "noise":
                with rec.call("history"):
                    net.predict(rng.normal(size=(9, 2)).astype(np.float32) * 50, np.full(9, -1))
            elif what == "targets" and method != "predict_features":
                kw = {}
                rows = np.flatnonzero(sd < 0)
            with rec.context(method=method, what=what):
                with rec.call("history"):
                    arg = (X, sd) if what == "targets" else (X[rows], sd[rows])
                    got = getattr(net, method)(*arg[: 1 if method == "predict_features" else 2], **kw)
                if what == "targets" and method == "predict_features":
                    rows = np.arange(n)
                rec.must(len(got) == len(rows), "history:rows", "number of rows", got=len(got), want=len(rows))
                want = ref[method][rows]
                if method == "predict":
                    rec.equal(got[sure[rows]], want[sure[rows]], "history:predict", "a row's class depends on the other rows, the batch size or earlier calls")
                else:
                    rec.close(got, want, "history:" + method, "a row's answer depends on the other rows, the batch size or earlier calls", 1e-4, 1e-5)
                rec.event("repeated-calls")
    rec.seen("history", name, base, X)


@case("C28", quick=60, thorough=900, requires=["images", "features"])
def other_modules(rec, rng):
    """Convolutional modules (flattened features), modules that give probabilities themselves, predict_nonlinearity."""
    which = zoo.pick(rng, ["cnn", "proba-module", "nonlinearity"])
    n = int(rng.integers(14, 24))
    sd = np.r_[np.full(n // 2, 1), np.full(n - n // 2, -2)][rng.permutation(n)]
    Y = rng.integers(0, 2, n)
    Y[np.flatnonzero(sd > 0)[:2]] = [0, 1]
    torch.manual_seed(int(rng.integers(1 << 30)))
    nonlin = None
    if which == "cnn":
        X = rng.normal(size=(n, 2, 12)).astype(np.float32)
        m, layer = ToyCNN(2, 12, 2, kernel_size=4, out_channels=3), "feature_extractor"
    else:
        X = rng.normal(size=(n, 2)).astype(np.float32)
        m, layer = ToyModule2D(num_features=5, proba=which == "proba-module"), "dropout"
    kw = dict(layer_name=layer, max_epochs=1, batch_size=4, train_split=None, verbose=0)
    if which == "nonlinearity":
        nonlin = zoo.pick(rng, [None, torch.sigmoid])
        kw["predict_nonlinearity"] = nonlin
    net = deep.DeepCoral(m, reg=1, **kw)
    with rec.context(which=which, n=n):
        with rec.call("other"):
            net.fit(X, np.where(sd > 0, Y, -1), sample_domain=sd)
            before = digest(net)
            p, c, f = net.predict_proba(X, sd, allow_source=True), net.predict(X, sd, allow_source=True), net.predict_features(X)
            pt = net.predict_proba(X, sd)
        out, feats = direct(net, X)
        want = softmax(out, 1) if which != "nonlinearity" else out if nonlin is None else 1 / (1 + np.exp(-out))
        rec.close(p, want, "other:proba", "probabilities differ from the module's output", 1e-4, 1e-5)
        rec.close(pt, want[sd < 0], "other:targets", "rows returned without sources", 1e-4, 1e-5)
        sure = np.abs(np.diff(want, axis=1)).ravel() > 1e-5
        rec.equal(c[sure], want.argmax(1)[sure], "other:predict", "predicted class is not the most probable one")
        rec.must(f.shape == feats.shape, "other:features-shape", "shape of the features", got=f.shape, want=feats.shape)
        rec.close(f, feats, "other:features", "features differ from the flattened layer output", 1e-4, 1e-5)
        rec.equal(digest(net), before, "network-changed", "predicting altered the network")
        rec.event("images" if which == "cnn" else "features", n)
    rec.seen("other", which, X)


@case("C28", quick=80, thorough=1200, requires=["pipelines"])
def in_pipeline(rec, rng):
    name = sorted(c26.nets())[rec.idx % len(c26.nets())]
    if name == "TargetOnly":
        name = "SourceOnly"
    ns, nt, b = int(rng.integers(12, 24)), int(rng.integers(12, 24)), int(rng.integers(4, 9))
    X, Y, sd, _ = dataset(rng, ns, nt, False)
    Y[np.flatnonzero(sd >= 0)[:3]] = [0, 1, 2]
    if name == "SPA":
        sd[sd < 0] = -2
    torch.manual_seed(int(rng.integers(1 << 30)))
    scale = lambda x: (x * .5 + 1).astype(np.float32)
    with rec.context(net=name):
        with rec.call("pipeline"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            pipe = make_da_pipeline(FunctionTransformer(scale), c26.nets()[name](Net(c26.K), max_epochs=1, batch_size=b, lr=.05)).fit(X, Y, sample_domain=sd)
            net = pipe[-1].base_estimator_
            n = int(rng.integers(3, 30))
            Z, q, z = rng.normal(size=(n, 2)).astype(np.float32), rng.choice([-1, -2, 0, 4], n), rng.integers(0, 3, n)
            q[0] = -1
            got = {(m, a): getattr(pipe, m)(Z, sample_domain=q, **(dict(allow_source=True) if a else {})) for m in ("predict", "predict_proba") for a in (0, 1)}
            sc = [pipe.score(Z, z, sample_domain=q), pipe.score(Z, z, sample_domain=q, allow_source=True)]
        p = softmax(direct(net, scale(Z))[0], 1)
        if not np.isfinite(p).all():
            raise Skip("training diverged")
        if np.diff(np.sort(p, 1)[:, -2:], axis=1).min() < 1e-5:
            raise Skip("tie")
        for a, rows in ((0, np.flatnonzero(q < 0)), (1, np.arange(n))):
            rec.must(len(got["predict", a]) == len(rows) == len(got["predict_proba", a]), "pipeline:rows", "rows returned by the pipeline", allow_source=a)
            rec.close(got["predict_proba", a], p[rows], "pipeline:proba", "probabilities of the pipeline", 1e-4, 1e-5, allow_source=a)
            rec.equal(got["predict", a], p[rows].argmax(1), "pipeline:predict", "classes of the pipeline", allow_source=a)
            rec.close(sc[a], (p[rows].argmax(1) == z[rows]).mean(), "pipeline:score", "score of the pipeline", 1e-6, 1e-6, allow_source=a)
        rec.event("pipelines")
    rec.seen("pipeline", name, Z)


@case("C28", quick=40, thorough=400, requires=["modules"])
def shipped_modules(rec, rng):
    """The ready-made modules: a row's output depends on that row only, probabilities are the soft-max of the logits."""
    from skada.deep.modules import MNISTtoUSPSNet, ToyCNN, ToyModule2D
    torch.manual_seed(int(rng.integers(1 << 30)))
    kind = zoo.pick(rng, ["2d", "2d", "cnn", "cnn", "digits"])
    n, k = int(rng.integers(2, 7)), int(rng.integers(2, 6))
    if kind == "2d":
        f = int(rng.integers(1, 12))
        logits, probs = ToyModule2D(n_classes=k, num_features=f, nonlin=torch.nn.Tanh()), ToyModule2D(n_classes=k, num_features=f, nonlin=torch.nn.Tanh(), proba=True)
        probs.load_state_dict(logits.state_dict())
        x, m = torch.randn(n, 2), logits.eval()
        with torch.no_grad(), rec.call("modules"):
            rec.close(probs.eval()(x).numpy(), torch.softmax(m(x), 1).numpy(), "modules:proba", "probabilities are not the soft-max of the logits", rtol=1e-5, atol=1e-6)
        layer = m.dense0
        width = f
    elif kind == "cnn":
        c, size = int(rng.integers(1, 4)), int(rng.integers(8, 40))
        ks, oc = int(rng.integers(1, 8)), int(rng.integers(1, 6))
        with rec.call("modules"):
            m = ToyCNN(n_channels=c, input_size=size, n_classes=k, kernel_size=ks, out_channels=oc)
        rec.expect(m.training and m.feature_extractor.training, "modules:mode", "a new module is not in training mode")
        m.eval()
        x, layer, width = torch.randn(n, c, size), m.feature_extractor, oc * (size - ks + 1)
        rec.expect(m.num_features == width, "modules:num_features", "announced number of features", got=m.num_features, want=width)
    else:
        m, k, n = MNISTtoUSPSNet().eval(), 10, min(n, 3)
        x, layer, width = torch.randn(n, 1, 28, 28), m.fc1, 128
    seen = []
    h = layer.register_forward_hook(lambda mod, i, o: seen.append(o.flatten(1).shape[1]))
    with torch.no_grad(), rec.call("modules"):
        out, again = m(x), m(x)
        w = m(x, sample_weight=torch.rand(n))
        single = torch.cat([m(x[i:i + 1]) for i in range(n)])
        perm = torch.as_tensor(rng.permutation(n))
        shuffled = m(x[perm])
    h.remove()
    rec.expect(tuple(out.shape) == (n, k), "modules:shape", "one row of scores per sample", got=tuple(out.shape))
    rec.expect(set(seen) == {width}, "modules:features", "width of the feature layer", got=set(seen), want=width)
    rec.equal(again.numpy(), out.numpy(), "modules:repeat", "evaluation is not deterministic")
    rec.equal(w.numpy(), out.numpy(), "modules:weight", "sample weights change the output")
    rec.close(single.numpy(), out.numpy(), "modules:companions", "the output of a row depends on the others", rtol=1e-4, atol=1e-5)
    rec.close(shuffled.numpy(), out[perm].numpy(), "modules:order", "rows come back in another order", rtol=1e-4, atol=1e-5)
    rec.event("modules")
    rec.seen("modules", kind, n, k, out.numpy())
