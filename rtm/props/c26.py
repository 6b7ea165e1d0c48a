"""C26: what the losses of a deep network receive while it is trained, and what the training depends on."""
import warnings

import numpy as np
import torch
from sklearn.preprocessing import FunctionTransformer
from skada import deep, make_da_pipeline
from skada.deep._baseline import DummyLoss
from skada.deep.base import BaseDALoss, DeepDADataset, DomainAwareCriterion, DomainAwareModule, DomainAwareNet, DomainBalancedDataLoader
from skorch.callbacks import Callback

from .. import zoo
from ..core import Skip, case
from .c17 import Net
from .c25 import dataset, index_in_domain

K, P = 3, 6


def nets():
    """name → function(module, **kwargs)"""
    kw = dict(layer_name="body", train_split=None, verbose=0)
    D = deep
    return {
        "SourceOnly": lambda m, **k: D.SourceOnly(m, **{**kw, **k}),
        "TargetOnly": lambda m, **k: D.TargetOnly(m, **{**kw, **k}),
        "DeepCoral": lambda m, **k: D.DeepCoral(m, **{**kw, "reg": .7, **k}),
        "DAN": lambda m, **k: D.DAN(m, **{**kw, "reg": .7, **k}),
        "DeepJDOT": lambda m, **k: D.DeepJDOT(m, **{**kw, **k}),
        "DANN": lambda m, **k: D.DANN(m, num_features=P, **{**kw, "reg": .7, **k}),
        "CDAN": lambda m, **k: D.CDAN(m, num_features=P, n_classes=K, **{**kw, "reg": .7, **k}),
        "CDAN-random": lambda m, **k: D.CDAN(m, num_features=P, n_classes=K, max_features=7, **{**kw, "reg": .7, **k}),
        "MDD": lambda m, **k: D.MDD(m, num_features=P, n_classes=K, **{**kw, "reg": .3, **k}),
        "MCC": lambda m, **k: D.MCC(m, **{**kw, "reg": .7, **k}),
        "CAN": lambda m, **k: D.CAN(m, class_threshold=1, **{**kw, "reg": .7, **k}),
        "SPA": lambda m, **k: D.SPA(m, num_features=P, **{**kw, **k}),
    }


UNSUPERVISED = [n for n in nets() if n != "TargetOnly"]


LOG = []


class Steps(Callback):
    """Losses of the training steps; the events of a step are closed at its end."""

    def on_batch_begin(self, net, batch=None, training=False, **kw):
        if training:
            LOG.append(dict(batch=batch))

    def on_batch_end(self, net, batch=None, training=False, loss=None, **kw):
        if training:
            LOG[-1]["loss"] = loss.detach().clone()


def observe(net):
    """Record the calls of module, feature layer, domain classifier and the two losses inside training steps."""
    def hook(name):
        def f(module, args, kwargs, out):
            if LOG and "loss" not in LOG[-1] and torch.is_grad_enabled():
                LOG[-1].setdefault(name, []).append((args, kwargs, out))
        return f
    m = net.module__base_module
    handles = [m.register_forward_hook(hook("module"), with_kwargs=True), m.body.register_forward_hook(hook("layer"), with_kwargs=True),
               net.criterion__base_criterion.register_forward_hook(hook("base"), with_kwargs=True),
               net.criterion__adapt_criterion.register_forward_hook(hook("adapt"), with_kwargs=True)]
    if getattr(net, "module__domain_classifier", None) is not None:
        handles.append(net.module__domain_classifier.register_forward_hook(hook("domain"), with_kwargs=True))
    return handles


def same(a, b):
    a, b = (t.detach().numpy() if torch.is_tensor(t) else np.asarray(t) for t in (a, b))
    return a.shape == b.shape and np.array_equal(a, b)


class Known(BaseDALoss):
    """A loss of the kind a user writes: its value is known and it depends on every argument it is documented to get."""

    def forward(self, y_s, y_pred_s, y_pred_t, domain_pred_s, domain_pred_t, features_s, features_t, sample_idx_s, sample_idx_t):
        return features_s.sum() * .01 - features_t.sum() * .02 + y_pred_t.square().mean()


def plain(m, **k):
    """Criterion and module assembled by hand."""
    return DomainAwareNet(DomainAwareModule, module__base_module=m, module__layer_name="body", iterator_train=DomainBalancedDataLoader,
                          criterion=DomainAwareCriterion, criterion__base_criterion=k.pop("base_criterion", None) or torch.nn.CrossEntropyLoss(),
                          criterion__adapt_criterion=Known(), criterion__reg=k.pop("reg", 1), train_split=None, verbose=0, **k)


def train(net, form, X, y, sd, w=None):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if form == "arrays":
            return net.fit(X, y, sample_domain=sd, sample_weight=w)
        if form == "dict":
            d = dict(X=X, sample_domain=sd)
            if w is not None:
                d["sample_weight"] = w
            return net.fit(d, y)
        if form == "dataset":
            return net.fit(DeepDADataset(X, y, sd, w), None)
        if form == "tensors":
            T = torch.as_tensor
            return net.fit(T(X), T(y), sample_domain=T(sd), sample_weight=None if w is None else T(w))
        return make_da_pipeline(FunctionTransformer(), net).fit(X, y, sample_domain=sd)[-1].base_estimator_


FORMS = ["arrays", "dict", "dataset", "tensors"]


def check_step(rec, step, X, Y, sd, w, name, reg, on_target):
    for k in ("module", "layer", "base", "adapt"):
        rec.must(len(step.get(k, [])) == 1, f"routing:{k}-calls", f"{k} called {len(step.get(k, []))} times in one training step", net=name)
    (xin,), mkw, out = step["module"][0][0][:1], step["module"][0][1], step["module"][0][2]
    ids = np.rint(xin.numpy()[:, 0] * 8).astype(int)
    src = sd[ids] >= 0
    layer = step["layer"][0][2].flatten(start_dim=1)
    _, a, _ = step["adapt"][0]
    (bp, by), _, bv = step["base"][0]
    # supervised part
    own = ~src if on_target else src
    rec.expect(same(bp, out[torch.as_tensor(own)]), "routing:supervised-predictions", "supervised loss on predictions of other samples", net=name, got=len(bp), want=int(own.sum()))
    rec.expect(same(by, Y[ids[own]]), "routing:supervised-labels", "supervised loss with labels of other samples", net=name, got=by, want=Y[ids[own]])
    rec.event("supervised-samples", int(own.sum()))
    if w is not None:
        rec.expect("sample_weight" in mkw and same(mkw["sample_weight"], w[ids]), "routing:module-weights", "module called with weights of other samples", net=name)
    # adaptation part
    s, t = torch.as_tensor(src), torch.as_tensor(~src)
    want = dict(y_s=Y[ids[src]], y_pred_s=out[s], y_pred_t=out[t], features_s=layer[s], features_t=layer[t],
                sample_idx_s=index_in_domain(sd)[ids[src]], sample_idx_t=index_in_domain(sd)[ids[~src]])
    if "domain" in step:
        (din, *_), _, dout = step["domain"][0]
        if name == "CDAN":
            mm = (out.unsqueeze(2) * layer.unsqueeze(1)).flatten(1)
            rec.expect(same(din, mm), "routing:conditional-map", "domain classifier of CDAN is not given the product of predictions and features", net=name)
        elif name != "CDAN-random":
            rec.expect(same(din, layer), "routing:domain-input", "domain classifier is not given the features", net=name)
        want.update(domain_pred_s=dout[s], domain_pred_t=dout[t])
        rec.event("domain-predictions")
    else:
        want.update(domain_pred_s=None, domain_pred_t=None)
    if set(a) != set(want):
        rec.violate("routing:adapt-arguments", "arguments of the adaptation loss", got=sorted(a), want=sorted(want))
    for k, v in want.items():
        ok = a.get(k) is None if v is None else a.get(k) is not None and same(a[k], v)
        rec.expect(ok, f"routing:adapt-{k}", f"adaptation loss received a wrong {k}", net=name, got=a.get(k), want=v)
    rec.event("adaptation-calls")
    # total
    av = step["adapt"][0][2]
    av = float(av)
    if w is None:
        want = float(bv.mean()) + reg * av
        rec.close(float(step["loss"]), want, "total", "training loss is not supervised + reg × adaptation", 2e-5, 2e-6)
        rec.event("totals")
    elif reg == 0 or av == 0:
        want = float((torch.as_tensor(w[ids[own]]) * bv.double()).mean())
        rec.close(float(step["loss"]), want, "total-weighted", "training loss is not the mean of weight × supervised loss", 2e-5, 2e-6)
        rec.event("weighted-totals")
    return ids


@case("C26", quick=240, thorough=3600, requires=["supervised-samples", "adaptation-calls", "domain-predictions", "totals", "weighted-totals"])
def routing(rec, rng):
    table = {**nets(), "custom": plain}
    name = sorted(table)[rec.idx % len(table)]
    ns, nt, b = int(rng.integers(12, 30)), int(rng.integers(12, 30)), int(rng.integers(4, 9))
    X, Y, sd, w = dataset(rng, ns, nt, False)
    Y[np.flatnonzero(sd >= 0)[:3]] = [0, 1, 2]
    if name != "TargetOnly":
        Y[sd < 0] = -1
    weighted = name in ("SourceOnly", "TargetOnly", "custom", "DeepCoral", "DAN", "MCC") and rng.random() < .45
    reg, kw = None, {}
    if name not in ("SourceOnly", "TargetOnly", "SPA", "DeepJDOT"):
        reg = kw["reg"] = float(zoo.pick(rng, [0., .25, 1., 3.])) if not weighted else 0.
    if name == "CAN":
        sd[sd >= 0] = 1   # any; keeps every class in the source
    base = zoo.pick(rng, ["ce", "smooth", "margin", "default"])
    if base != "default":
        kw["base_criterion"] = dict(ce=torch.nn.CrossEntropyLoss, smooth=lambda: torch.nn.CrossEntropyLoss(label_smoothing=.2), margin=torch.nn.MultiMarginLoss)[base]()
    if weighted:
        w = (rng.uniform(.1, 3, ns + nt) * zoo.pick(rng, [1, 1, 20.])).astype(np.float32)
        kw["criterion__reduction"] = "none"
    del LOG[:]
    torch.manual_seed(int(rng.integers(1 << 30)))
    module = Net(K)
    net = table[name](module, max_epochs=2, batch_size=b, callbacks=[("steps", Steps())], lr=1e-3, **kw)
    if reg is None:
        reg = dict(SourceOnly=0, TargetOnly=0).get(name, 1)
    observe(net)
    form = zoo.pick(rng, FORMS if weighted else FORMS + ["pipeline"])
    if form == "pipeline" and name == "TargetOnly":
        form = "arrays"
    with rec.context(net=name, ns=ns, nt=nt, batch_size=b, form=form, base=base, reg=reg, weighted=weighted):
        with rec.call("routing:" + name):
            net = train(net, form, X, Y, sd, w)
        rec.must(len(LOG) > 0, "routing:steps", "no training step seen")
        for step in LOG:
            check_step(rec, step, X, Y, sd, w, name, reg, name == "TargetOnly")
            rec.event("steps")
    rec.seen("routing", name, form, base, weighted, sd, Y)
    rec.sample(kind="routing", net=name, form=form, base=base, reg=reg, weighted=weighted, steps=len(LOG))


@case("C26", quick=40, thorough=400, requires=["rejections"])
def scalar_with_weights(rec, rng):
    """Weights together with a loss that cannot be weighted are refused, never ignored."""
    ns, nt, b = int(rng.integers(10, 20)), int(rng.integers(10, 20)), int(rng.integers(3, 8))
    X, Y, sd, w = dataset(rng, ns, nt, True)
    name = zoo.pick(rng, ["SourceOnly", "TargetOnly", "DeepCoral", "MCC"])
    net = nets()[name](Net(K), max_epochs=1, batch_size=b)
    form = zoo.pick(rng, FORMS)
    with rec.context(net=name, form=form):
        rec.rejects("weights-ignored", lambda: train(net, form, X, Y, sd, w.astype(np.float32)), ValueError, "training with weights and a scalar loss was accepted")
    rec.seen("scalar", name, form, b)


def learned(net):
    return {k: v.detach().clone().numpy() for k, v in net.module_.state_dict().items()}


def differ(a, b):
    return [k for k in a if a[k].shape != b[k].shape or not np.array_equal(a[k], b[k], equal_nan=True)]


def twin(name, seed, b, form, X, y, sd, epochs=2, **kw):
    torch.manual_seed(seed)
    net = nets()[name](Net(K), max_epochs=epochs, batch_size=b, lr=.05, **kw)
    return learned(train(net, form, X, y, sd))


@case("C26", quick=110, thorough=2200, requires=["twins", "labels-matter"])
def target_labels_unused(rec, rng):
    name = UNSUPERVISED[rec.idx % len(UNSUPERVISED)]
    ns, nt, b = int(rng.integers(14, 30)), int(rng.integers(14, 30)), int(rng.integers(5, 10))
    X, Y, sd, _ = dataset(rng, ns, nt, False)
    src = np.flatnonzero(sd >= 0)
    Y[src[:3]] = [0, 1, 2]
    seed, form = int(rng.integers(1 << 30)), zoo.pick(rng, FORMS + ["pipeline"])
    other = {"masked": np.where(sd < 0, -1, Y), "constant": np.where(sd < 0, 0, Y), "shifted": np.where(sd < 0, (Y + 1) % K, Y), "foreign": np.where(sd < 0, 7, Y)}
    with rec.context(net=name, form=form, ns=ns, nt=nt, batch_size=b):
        with rec.call("twin:" + name):
            ref = twin(name, seed, b, form, X, Y, sd)
        kinds = [zoo.pick(rng, list(other)), "masked"]
        for k in kinds:
            f = form if rng.random() < .6 else zoo.pick(rng, FORMS + ["pipeline"])
            with rec.call("twin:" + name):
                got = twin(name, seed, b, f, X, other[k], sd)
            d = differ(ref, got)
            rec.expect(not d, "target-labels", "the labels of target samples influence the trained parameters (or the container does)", labels=k, other_form=f, parameters=d)
            rec.event("twins")
        z = Y.copy()
        z[src] = (z[src] + 1) % K
        with rec.call("twin:" + name):
            got = twin(name, seed, b, form, X, z, sd)
        if not any(np.isnan(v).any() for v in ref.values()):
            rec.expect(differ(ref, got), "source-labels-unused", "training does not depend on the source labels")
            rec.event("labels-matter")
    rec.seen("twin", name, form, sd, Y)
    rec.sample(kind="twin", net=name, form=form)


@case("C26", quick=72, thorough=1440, requires=["relabelled"])
def any_domain_numbers(rec, rng):
    name = sorted(nets())[rec.idx % len(nets())]
    ns, nt, b = int(rng.integers(14, 26)), int(rng.integers(14, 26)), int(rng.integers(5, 10))
    X, Y, sd, _ = dataset(rng, ns, nt, False)
    src = np.flatnonzero(sd >= 0)
    Y[src[:3]] = [0, 1, 2]
    if name != "TargetOnly":
        Y[sd < 0] = -1
    if name == "SPA":
        sd[sd < 0] = -2     # its memory is numbered inside the target domain
    seed, form = int(rng.integers(1 << 30)), zoo.pick(rng, FORMS)
    tnum = [-1, -3, -8, -100]
    draw = lambda: np.where(sd >= 0, rng.choice([0, 0, 1, 3, 8, 100], len(sd)), zoo.pick(rng, tnum) if name == "SPA" else rng.choice(tnum, len(sd)))
    others = [np.where(sd >= 0, 0, -1), np.where(sd >= 0, 1, -2), draw()]
    with rec.context(net=name, form=form, ns=ns, nt=nt, batch_size=b):
        with rec.call("relabel:" + name):
            ref = twin(name, seed, b, form, X, Y, sd)
        for o in [zoo.pick(rng, others[:2]), others[2]]:
            with rec.call("relabel:" + name):
                d = differ(ref, twin(name, seed, b, form, X, Y, o))
            rec.expect(not d, "domain-numbers", "the trained parameters depend on which non-negative/negative numbers the domains carry", other=o, parameters=d)
            rec.event("relabelled")
    rec.seen("relabel", name, form, sd)


@case("C26", quick=120, thorough=2400, requires=["criteria"])
def criterion_alone(rec, rng):
    """The criterion on arbitrary mixtures of roles in a batch (any order, any proportion)."""
    n = int(rng.integers(2, 20))
    sd = rng.choice([-9, -2, -1, 0, 1, 5], n)
    sd[rng.permutation(n)[:2]] = [0, -1]
    T = torch.as_tensor
    out, y = T(rng.normal(size=(n, K)).astype(np.float32)), T(rng.integers(0, K, n))
    feats, idx = T(rng.normal(size=(n, 4)).astype(np.float32)), T(rng.integers(0, 50, n))
    dom = T(rng.random(n).astype(np.float32)) if rng.random() < .5 else None
    on_target = bool(rng.random() < .4)
    reg = float(zoo.pick(rng, [0, .5, 1, 10]))
    red = zoo.pick(rng, ["mean", "sum", "none"])
    got = {}

    class Base(torch.nn.CrossEntropyLoss):
        def forward(self, a, b):
            got["base"] = (a, b)
            return super().forward(a, b)

    class Adapt(BaseDALoss):
        def forward(self, **kw):
            got["adapt"] = kw
            return torch.tensor(2.5)
    has = dict(f=rng.random() < .8, i=rng.random() < .8)
    with rec.context(sd=sd, on_target=on_target, reg=reg, reduction=red):
        with rec.call("criterion"):
            c = DomainAwareCriterion(Base(), Adapt(), reg=reg, reduction=red, train_on_target=on_target)
            v = c((out, dom, feats if has["f"] else None, T(sd), idx if has["i"] else None), y)
        s = sd >= 0
        own = ~s if on_target else s
        rec.expect(same(got["base"][0], out[own]) and same(got["base"][1], y[own]), "criterion:supervised", "supervised loss on other samples")
        a = got["adapt"]
        for k, val, mask in [("y_s", y, s), ("y_pred_s", out, s), ("y_pred_t", out, ~s), ("domain_pred_s", dom, s), ("domain_pred_t", dom, ~s),
                             ("features_s", feats if has["f"] else None, s), ("features_t", feats if has["f"] else None, ~s),
                             ("sample_idx_s", idx if has["i"] else None, s), ("sample_idx_t", idx if has["i"] else None, ~s)]:
            ok = a[k] is None if val is None else same(a[k], val[mask])
            rec.expect(ok, "criterion:" + k, f"adaptation loss received a wrong {k}", got=a[k])
        want = torch.nn.functional.cross_entropy(out[own], y[own], reduction=red) + reg * 2.5
        rec.close(v.numpy(), want.numpy(), "criterion:value", "loss is not supervised + reg × adaptation", 1e-5, 1e-6)
        rec.event("criteria")
    rec.seen("criterion", sd, on_target, reg, red)


@case("C26", quick=60, thorough=1200, requires=["weighted-values"])
def weighted_loss(rec, rng):
    """get_loss with weights on arbitrary mixtures of roles."""
    n = int(rng.integers(3, 20))
    sd = rng.choice([-9, -2, 0, 1, 5], n)
    sd[rng.permutation(n)[:3]] = [0, -1, 4]
    on_target = bool(rng.random() < .5)
    X, Y, _, _ = dataset(rng, n, 0, False)
    w = rng.uniform(0, 3, n) * zoo.pick(rng, [1, .01, 30.])
    net = (nets()["TargetOnly"] if on_target else nets()["SourceOnly"])(Net(K), criterion__reduction="none").initialize()
    out = torch.as_tensor(rng.normal(size=(n, K)).astype(np.float32))
    T = torch.as_tensor
    own = sd < 0 if on_target else sd >= 0
    with rec.context(sd=sd, on_target=on_target):
        with rec.call("get_loss"):
            got = net.get_loss((out, None, None, T(sd), None), T(Y), dict(X=T(X), sample_domain=T(sd), sample_weight=T(w)))
            flat = net.get_loss((out, None, None, T(sd), None), T(Y), dict(X=T(X), sample_domain=T(sd)))
        ce = torch.nn.functional.cross_entropy(out, T(Y), reduction="none").numpy()
        rec.close(float(got), float((w[own] * ce[own]).mean()), "weighted", "loss is not the mean of weight × loss over the supervised samples", 1e-5, 1e-6)
        rec.close(float(flat), float(ce[own].mean()), "unweighted", "loss is not the mean over the supervised samples", 1e-5, 1e-6)
        rec.event("weighted-values")
    rec.seen("weighted", sd, on_target)
