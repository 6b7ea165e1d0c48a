"""C10: a decision table written from the documentation is compared with every accept/reject outcome observed."""
import itertools

import numpy as np
from sklearn.preprocessing import StandardScaler

import skada
from skada import make_da_pipeline
from skada.utils import check_X_domain, check_X_y_domain

from .. import gen, zoo
from ..core import case
from .c07 import behave, entries

FLAGS = ["allow_source", "allow_multi_source", "allow_target", "allow_multi_target", "allow_common_domain_idx", "allow_auto_sample_domain"]


def table(sd, f):
    """Accepted or not, from the permissions alone."""
    s, t = {int(x) for x in sd if x >= 0}, {int(x) for x in sd if x < 0}
    if not f["allow_source"] and s:
        return False
    if not f["allow_target"] and t:
        return False
    if not f["allow_multi_source"] and len(s) > 1:
        return False
    if not f["allow_multi_target"] and len(t) > 1:
        return False
    if not f["allow_common_domain_idx"] and {x for x in s} & {-x for x in t}:
        return False
    return True


def draw_sd(rng, n):
    k = int(rng.integers(6))
    pool = {0: [1], 1: [-2], 2: [1, -2], 3: [1, 2, -3], 4: [1, -1, -2], 5: [0, 3, -3, -7]}[k]
    if rng.random() < .25:  # labels beyond the small integer types
        big = rng.permutation([127, 128, 200, 255, 256, 32768, 40000, 65536, 70000, 10 ** 6])
        pool = [int(big[abs(v)]) * (1 if v >= 0 else -1) for v in pool]
    sd = rng.choice(pool, n)
    return sd


def decide(rec, key, fn, ok, **wit):
    """fn must return when ok, raise ValueError when not."""
    try:
        out = fn()
    except ValueError as e:
        rec.expect(not ok, key + ":refused", f"refused although permitted: {e}", **wit)
        rec.event("refused")
        return None
    except Exception as e:
        rec.expect(False, key + ":error", f"{type(e).__name__}: {e}", **wit)
        return None
    rec.expect(ok, key + ":accepted", "accepted although not permitted", **wit)
    rec.event("accepted")
    return out


@case("C10", quick=4000, thorough=60000, requires=["accepted", "refused"])
def validators(rec, rng):
    n = int(rng.integers(3, 14))
    p = int(rng.integers(1, 4))
    flags = {f: bool(rng.random() < .6) for f in FLAGS}
    X = rng.normal(size=(n, p))
    with_y = rng.random() < .5
    how = zoo.pick(rng, ["array", "array", "array", "list", "scalar", "scalar", "none", "short", "long", "float", "int8"])
    kind = zoo.pick(rng, ["clf", "reg", "clf+"])
    if kind == "reg":
        y = rng.normal(size=n)
    else:
        y = rng.integers(0, 3, n)
    masked = rng.random() < .7
    mask = rng.random(n) < .4
    if masked and with_y:
        y = y.astype(float) if kind == "reg" else y
        y[mask] = np.nan if kind == "reg" else -1
    if kind == "clf+" and rng.random() < .5:
        y = y.astype(float)
    sd = draw_sd(rng, n)
    given, eff = sd, sd
    length_ok = True
    if how == "list":
        given = [int(x) for x in sd]
    elif how == "float":
        given = sd.astype(float)
    elif how == "int8":
        given = sd.astype(np.min_scalar_type(-int(np.abs(sd).max()) - 1))
    elif how == "scalar":
        given = zoo.pick(rng, [int(sd[0]), np.int64(sd[0]), float(sd[0])])
        eff = np.full(n, sd[0])
        if with_y and kind != "reg" and not (masked and (y < 0).any()) and rng.random() < .8:
            # labels in an unsigned container say nothing about the domains
            y = (y - min(0, y.min())).astype(zoo.pick(rng, [np.uint8, np.uint16, np.int8]))
    elif how == "short":
        given, length_ok = sd[:-1], False
    elif how == "long":
        given, length_ok = np.r_[sd, sd[:1]], False
    elif how == "none":
        given = None
        if with_y:
            hidden = np.isnan(y) if kind == "reg" else (y == -1)
            eff = np.where(hidden, -2, 1)
        else:
            eff = np.full(n, -1)
    Xin = X.tolist() if rng.random() < .2 else X
    yin = y.tolist() if rng.random() < .2 else y
    ok = length_ok and table(eff, flags)
    if how == "none":
        ok = ok and flags["allow_auto_sample_domain"]
        if with_y:
            m = np.isnan(y) if kind == "reg" else (y == -1)
            ok = ok and bool(m.any())
    kw = dict(flags)
    dom = None
    if not with_y and rng.random() < .4:
        dom = set(rng.choice([0, 1, 2, 3, -1, -2, -3, -7], int(rng.integers(1, 6)), replace=False).tolist())
        if rng.random() < .3:
            dom |= {np.inf}
        if rng.random() < .3:
            dom |= {-np.inf}
        kw["allow_domains"] = dom
        known = all(int(x) in dom or (np.inf if x >= 0 else -np.inf) in dom for x in eff)
        ok = ok and known
    key = "check_X_y_domain" if with_y else "check_X_domain"
    with rec.context(flags=flags, sample_domain=given, how=how, y=y if with_y else None, allow_domains=sorted(dom) if dom else None):
        fn = (lambda: check_X_y_domain(Xin, yin, given, **kw)) if with_y else (lambda: check_X_domain(Xin, given, **kw))
        out = decide(rec, key, fn, ok)
        if out is not None and ok:
            rec.equal(out[0], X, key + ":X", "samples changed by validation")
            if with_y:
                rec.equal(np.asarray(out[1], float), np.asarray(y, float), key + ":y", "labels changed by validation")
            got = np.asarray(out[-1])
            rec.equal(got.astype(float), eff.astype(float), key + ":domains", "domain labels returned", how=how)
    rec.seen("validators", key, how, sorted(flags.items()), eff, masked)
    rec.sample(function=key, how=how, flags=flags, accepted=ok)


@case("C10", quick=128, thorough=128, requires=["accepted", "refused"])
def full_product(rec, rng):
    """Every combination of permissions against every small mixture of domains."""
    bits = rec.idx % 64
    with_y = rec.idx >= 64
    flags = {f: bool(bits >> i & 1) for i, f in enumerate(FLAGS)}
    for sd in itertools.chain.from_iterable(itertools.product([0, 1, 2, -1, -2], repeat=r) for r in (1, 2, 3)):
        sd = np.array(sd)
        n = len(sd)
        X, y = np.arange(2. * n).reshape(n, 2), np.arange(n) % 2
        fn = (lambda: check_X_y_domain(X, y, sd, **flags)) if with_y else (lambda: check_X_domain(X, sd, **flags))
        out = decide(rec, "product", fn, table(sd, flags), flags=flags, sample_domain=sd, with_y=with_y)
        if out is not None:
            rec.equal(out[-1], sd, "product:domains", "domain labels returned", flags=flags)
    for hidden in itertools.product([0, 1], repeat=3):
        for kind in ("clf", "reg"):
            h = np.array(hidden, bool)
            y = np.where(h, -1, [0, 1, 1]) if kind == "clf" else np.where(h, np.nan, [.1, .2, .3])
            X = np.arange(6.).reshape(3, 2)
            if with_y:
                eff = np.where(h, -2, 1)
                ok = flags["allow_auto_sample_domain"] and h.any() and table(eff, flags)
                out = decide(rec, "product-auto", lambda: check_X_y_domain(X, y, None, **flags), ok, flags=flags, y=y)
            else:
                eff = np.full(3, -1)
                ok = flags["allow_auto_sample_domain"] and table(eff, flags)
                out = decide(rec, "product-auto", lambda: check_X_domain(X, None, **flags), ok, flags=flags)
            if out is not None and ok:
                rec.equal(np.asarray(out[-1], float), eff.astype(float), "product-auto:domains", "derived domain labels", flags=flags, y=y)
    rec.seen("product", sorted(flags.items()), with_y)


@case("C10", quick=300, thorough=3000, requires=["accepted", "refused"])
def nd_and_masks(rec, rng):
    """Dimensions, finiteness and label masks."""
    n = int(rng.integers(3, 9))
    sd = np.where(rng.random(n) < .5, 1, -2)
    X3 = rng.normal(size=(n, 2, 3))
    X2 = X3[:, :, 0]
    y = rng.integers(0, 2, n)
    ym = np.where(sd < 0, np.nan, rng.normal(size=n))
    ym[0] = np.nan
    bad = X2.copy()
    bad[int(rng.integers(n)), int(rng.integers(2))] = zoo.pick(rng, [np.nan, np.inf])
    with rec.context(sample_domain=sd):
        for nd in (True, False):
            decide(rec, "nd", lambda: check_X_domain(X3, sd, allow_nd=nd), nd, allow_nd=nd)
            decide(rec, "nd-y", lambda: check_X_y_domain(X3, y, sd, allow_nd=nd), nd, allow_nd=nd)
            decide(rec, "2d", lambda: check_X_domain(X2, sd, allow_nd=nd), True, allow_nd=nd)
        decide(rec, "finite", lambda: check_X_domain(bad, sd), False)
        decide(rec, "finite-y", lambda: check_X_y_domain(bad, y, sd), False)
        for lm in (True, False):
            decide(rec, "label-masks", lambda: check_X_y_domain(X2, ym, sd, allow_label_masks=lm), lm, allow_label_masks=lm)
            decide(rec, "label-plain", lambda: check_X_y_domain(X2, y, sd, allow_label_masks=lm), True, allow_label_masks=lm)
        decide(rec, "y-length", lambda: check_X_y_domain(X2, y[:-1], sd), False)
        decide(rec, "1d", lambda: check_X_domain(X2[:, 0], sd), False)
        decide(rec, "unmasked", lambda: check_X_y_domain(X2, np.abs(y), None), False)
        decide(rec, "below-mask", lambda: check_X_y_domain(X2, np.r_[-2, -1, y[2:]], None), False)
    rec.seen("nd", sd, X2)


@case("C10", quick=222, thorough=2500, requires=["refusals", "uses"])
def components(rec, rng):
    """Components refuse mis-sized domain labels; adapters refuse source samples unless allowed."""
    # the multi-iteration linear TJM has no numerically stable eigenproblem on well separated data
    es = [e for e in entries() if not e.name.startswith("TransferJointMatching-lin")]
    e = es[rec.idx % len(es)]
    kw = dict(labels=[0, 1]) if e.binary else {}
    if "hinge" in e.name:
        kw = dict(labels=[0, 1, 2])
    d = gen.da(rng, zoo.pick(rng, e.tasks), p=3, n_per=(10, 14), sep=6., **kw)
    key = f"component:{e.name}"

    def refuse(k, fn, exc=(ValueError, IndexError)):
        rec.rejects(f"{key}:{k}", fn, exc, k)
        rec.event("refusals")
    fit = (lambda o, X, y, s: o.fit(X, y, sample_domain=s)) if e.kind == "est" else (lambda o, X, y, s: o.fit_transform(X, y, sample_domain=s))
    with rec.context(component=e.name, sample_domain=d.sd):
        if e.kind != "sub":
            refuse("fit-short", lambda: fit(e.make(), d.X, d.y, d.sd[:-1]))
            refuse("fit-long", lambda: fit(e.make(), d.X, d.y, np.r_[d.sd, d.sd[:1]]))
            if e.kind != "est":
                refuse("fit-nan", lambda: fit(e.make(), np.where(np.arange(d.X.size).reshape(d.X.shape) == 4, np.nan, d.X), d.y, d.sd))
        if e.kind in ("est", "sub", "labelprop"):
            rec.event("uses")
            return
        o = e.make()
        with rec.call(key + ":fit"):
            fit(o, d.X, d.y, d.sd)
        t = ~d.src
        refuse("transform-source", lambda: o.transform(d.X, sample_domain=d.sd))
        refuse("transform-one-source", lambda: o.transform(d.X[:1], sample_domain=np.array([d.sids[0]])))
        refuse("transform-explicit", lambda: o.transform(d.X, sample_domain=d.sd, allow_source=False))
        refuse("transform-short", lambda: o.transform(d.X[t], sample_domain=d.sd[t][:-1]))
        refuse("transform-long", lambda: o.transform(d.X[t], sample_domain=np.r_[d.sd[t], d.sd[t][:1]]))
        with rec.call(key + ":use"):
            o.transform(d.X[t], sample_domain=d.sd[t])
            o.transform(d.X, sample_domain=d.sd, allow_source=True)
            o.transform(d.X[t], sample_domain=list(d.sd[t]))
            rec.event("uses", 3)
            if "Multi" not in e.name:
                a = o.transform(d.X[t])
                b = o.transform(d.X[t], sample_domain=-5)
                rec.event("uses", 2)
                a, b = (x[0] if isinstance(x, tuple) else x for x in (a, b))
                rec.close(a, b, key + ":default-target", "absent domain labels do not mean targets", rtol=1e-6, atol=1e-8)
        # the same through a pipeline
        p = make_da_pipeline(StandardScaler(), e.make(), zoo.base_for(d.task, e.produces))
        with rec.call(key + ":pipeline"):
            p.fit(d.X, d.y, sample_domain=d.sd)
            p.predict(d.X[t], sample_domain=d.sd[t])
            p.predict(d.X, sample_domain=d.sd, allow_source=True)
            rec.event("uses", 2)
        refuse("pipeline-source", lambda: p.predict(d.X, sample_domain=d.sd))
        refuse("pipeline-source-false", lambda: p.predict(d.X, sample_domain=d.sd, allow_source=False))
        refuse("pipeline-short", lambda: p.predict(d.X[t], sample_domain=d.sd[t][:-1]))
    rec.seen("component", e.name, d.X)
