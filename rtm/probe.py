"""Observing a fitted object through its public prediction methods."""
import numpy as np

METHODS = ("predict", "predict_proba", "predict_log_proba", "decision_function", "transform")


def methods(est, which=METHODS):
    out = []
    for m in which:
        try:
            if hasattr(est, m):
                out.append(m)
        except Exception:
            pass
    return out


def probe(est, d, Xn=None, sdn=None, which=METHODS, sources=True):
    """Outputs of every prediction method on training targets, on the whole training set and on new rows."""
    out = {}
    t = ~d.src
    for m in methods(est, which):
        f = getattr(est, m)
        out[m, "train-targets"] = np.array(f(d.X[t], sample_domain=d.sd[t]))
        if sources:
            out[m, "train-all"] = np.array(f(d.X, sample_domain=d.sd, allow_source=True))
        if Xn is not None:
            tn = sdn < 0
            if tn.any():
                out[m, "new-targets"] = np.array(f(Xn[tn], sample_domain=sdn[tn]))
            if sources:
                out[m, "new-all"] = np.array(f(Xn, sample_domain=sdn, allow_source=True))
    return out


def flat_output(out):
    """(X, y, params) of an adapter's fit_transform."""
    if isinstance(out, tuple):
        if len(out) == 3:
            return np.asarray(out[0]), np.asarray(out[1]), dict(out[2])
        return np.asarray(out[0]), None, dict(out[1])
    return np.asarray(out), None, {}


def compare(rec, a, b, key, rtol=1e-9, atol=1e-9, **wit):
    rec.must(set(a) == set(b), key + ":methods", "different methods available", a=list(a), b=list(b), **wit)
    ok = True
    for k in a:
        ok &= rec.close(b[k], a[k], key, f"{k[0]} on {k[1]}", rtol=rtol, atol=atol, **wit)
    return ok


def probe_plain(est, d, Xn=None, sdn=None, which=METHODS):
    """Like probe, for estimators whose prediction methods take no domain labels."""
    out = {}
    for m in methods(est, which):
        f = getattr(est, m)
        out[m, "train-all"] = np.array(f(d.X))
        if Xn is not None:
            out[m, "new-all"] = np.array(f(Xn))
    return out


def collapsed(e):
    """A self-trained model whose pseudo-labels collapse to a single class is refused by the base estimator."""
    s = str(e)
    return isinstance(e, ValueError) and "class" in s and ("one class" in s or "1 class" in s or "at least 2 classes" in s
                                                        or "greater than one" in s)
