"""C23: numerical solvers."""
import itertools
import warnings

import numpy as np
import torch
from scipy.optimize import linprog
from skada.utils import frank_wolfe, qp_solve, torch_minimize

from .. import zoo
from ..core import Skip, case
from ..watch import unchanged


def objective(Q, c):
    c = np.zeros(len(Q)) if c is None else c
    return lambda x: .5 * x @ Q @ x + x @ c


def matrix(rng, d, kind):
    M = rng.normal(size=(d, d))
    if kind == "definite":
        Q = M @ M.T + .1 * np.eye(d)
    elif kind == "diagonal":
        Q = np.diag(rng.uniform(.1, 3, d))
    elif kind == "flat":
        M = rng.normal(size=(d, max(1, d // 2)))
        Q = M @ M.T
    elif kind == "kernel":
        x = rng.normal(size=(d, 2))
        Q = np.exp(-.5 * ((x[:, None] - x[None]) ** 2).sum(2))
    return (Q + Q.T) / 2


def enumerate_active_sets(Q, c, G, h, E, e):
    """Exact minimiser of a strictly convex program: the best feasible point over all active sets."""
    d = len(Q)
    f = objective(Q, c)
    c = np.zeros(d) if c is None else c
    best = None
    ne = len(E)
    for r in range(0, d - ne + 1):
        for act in itertools.combinations(range(len(G)), r):
            B = np.vstack([E, G[list(act)]]) if ne or r else np.zeros((0, d))
            rhs = np.r_[e, h[list(act)]]
            K = np.block([[Q, B.T], [B, np.zeros((len(B), len(B)))]])
            try:
                z = np.linalg.solve(K, np.r_[-c, rhs])[:d]
            except np.linalg.LinAlgError:
                continue
            if (G @ z <= h + 1e-9).all() and (not ne or np.abs(E @ z - e).max() < 1e-8):
                v = f(z)
                if best is None or v < best[1]:
                    best = z, v
    return best


def duality_gap(Q, c, x, G, h, E, e):
    """An upper bound of f(x) - min f for any convex program (None when the feasible set is unbounded in the descent direction)."""
    g = Q @ x + (0 if c is None else c)
    r = linprog(g, A_ub=G if len(G) else None, b_ub=h if len(G) else None, A_eq=E if len(E) else None, b_eq=e if len(E) else None,
                bounds=[(None, None)] * len(x), method="highs")
    return g @ x - r.fun if r.status == 0 else None


@case("C23", quick=1200, thorough=20000, requires=["feasible-points", "optimal-points", "bounds-used", "equalities-used", "inequalities-used", "stopped-early"])
def quadratic_general(rec, rng):
    """The general-purpose algorithm against exhaustive enumeration of the active sets."""
    d = int(rng.integers(1, 5))
    kind = zoo.pick(rng, ["definite", "definite", "diagonal", "flat", "kernel"])
    Q = matrix(rng, d, kind) * float(zoo.pick(rng, [1., 1., 10.]))
    c = None if rng.random() < .15 else rng.normal(size=d) * float(zoo.pick(rng, [1., 5.]))
    inside = rng.uniform(-1, 2, d)           # a point that satisfies every constraint
    kw, G, h, E, e = {}, np.zeros((0, d)), np.zeros(0), np.zeros((0, d)), np.zeros(0)
    if rng.random() < .5:
        A = rng.normal(size=(int(rng.integers(1, 4)), d))
        b = A @ inside + rng.exponential(.5, len(A)) * (rng.random(len(A)) < .8)
        kw.update(A=A, b=b)
        G, h = A, b
        rec.event("inequalities-used")
    if d > 1 and rng.random() < .4:
        E = rng.normal(size=(1, d))
        e = E @ inside
        kw.update(Aeq=E, beq=e)
        rec.event("equalities-used")
    box = zoo.pick(rng, ["", "lower", "upper", "both", "both"])
    lb, ub = inside - rng.exponential(.5, d), inside + rng.exponential(.5, d)
    if kind == "flat":
        box = "both"  # otherwise there may be no minimum
    open_ = rng.random(d) < .2 if kind != "flat" else np.zeros(d, bool)
    if box in ("lower", "both"):
        lb = np.where(open_, -np.inf, lb)
        kw["lb"] = lb
        G, h = np.vstack([G, -np.eye(d)[~open_]]), np.r_[h, -lb[~open_]]
    if box in ("upper", "both"):
        kw["ub"] = ub
        G, h = np.vstack([G, np.eye(d)]), np.r_[h, ub]
    if box:
        rec.event("bounds-used")
    if rng.random() < .4:
        kw["x0"] = rng.normal(size=d) * 2 if rng.random() < .5 else inside.copy()
    tol = float(zoo.pick(rng, [1e-6, 1e-6, 1e-9, 1e-3]))
    if tol != 1e-6 or rng.random() < .5:
        kw["tol"] = tol
    limit = int(zoo.pick(rng, [1000, 1000, 1000, 1, 2, 4]))
    if limit != 1000:
        kw["max_iter"] = limit
    log = rng.random() < .3
    f = objective(Q, c)
    with rec.context(d=d, kind=kind, tol=tol, max_iter=limit, given=sorted(kw)):
        args = (Q,) if c is None else (Q, c)
        with rec.call("qp"), unchanged(rec, "qp:arguments", program=(args, kw)), warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            out = qp_solve(*args, **kw, **(dict(log=True) if log else {}), **(dict(solver="scipy") if rng.random() < .5 else {}))
        rec.must(len(out) == 2 + log, "qp:outputs", "point, value and, if asked, the log", got=len(out))
        x, val = np.asarray(out[0]), float(out[1])
        rec.must(x.shape == (d,) and np.isfinite(x).all(), "qp:point", "not a point", got=x)
        rec.close(val, f(x), "qp:value", "reported value is not the objective at the point", rtol=1e-9, atol=1e-10)
        if log:
            rec.equal(np.asarray(out[2]["x"]), x, "qp:log", "the log is about another point")
        if ws:
            rec.event("stopped-early")
            return
        scale = 1 + np.abs(inside).max() + np.abs(x).max()
        if len(G):
            rec.expect((G @ x <= h + max(1e-6, tol) * scale).all(), "qp:inequality", "a constraint is violated", worst=float((G @ x - h).max()))
        if len(E):
            rec.expect(np.abs(E @ x - e).max() <= max(1e-6, tol) * scale, "qp:equality", "an equality is violated", worst=float(np.abs(E @ x - e).max()))
        rec.event("feasible-points")
        slack = 30 * tol + 1e-6 * (1 + abs(val))
        if kind in ("definite", "diagonal"):
            best = enumerate_active_sets(Q, c, G, h, E, e)
            rec.must(best is not None, "qp:reference", "no feasible point found by the reference")
            rec.expect(val <= best[1] + slack, "qp:optimal", "a better feasible point exists and no warning was given", value=val, best=best[1])
            slack += 30 * tol * (np.abs(Q).max() + (0 if c is None else np.abs(c).max())) * scale  # the constraints hold up to the tolerance
            rec.expect(val >= best[1] - slack, "qp:infeasible-value", "value below the constrained minimum", value=val, best=best[1])
        else:
            gap = duality_gap(Q, c, x, G, h, E, e)
            if gap is None:
                return
            rec.expect(gap <= 30 * slack * (1 + np.abs(Q).max()) or gap <= 50 * np.sqrt(tol), "qp:optimal", "the point is not optimal and no warning was given", gap=float(gap), value=val)
        rec.event("optimal-points")
    rec.seen("qp", Q, x)
    rec.sample(kind="qp", d=d, matrix=kind, value=val, constraints=[len(G), len(E)])


@case("C23", quick=150, thorough=2000, requires=["warned-infeasible"])
def quadratic_infeasible(rec, rng):
    """Contradicting constraints: never silent."""
    d = int(rng.integers(1, 5))
    Q, c = matrix(rng, d, "definite"), rng.normal(size=d)
    a = rng.normal(size=(1, d))
    how = zoo.pick(rng, ["ineq", "eq-ineq", "box"])
    kw = dict(A=np.vstack([a, -a]), b=np.array([-1., -1.])) if how == "ineq" else \
        dict(A=a, b=np.array([-1.]), Aeq=a, beq=np.array([1.])) if how == "eq-ineq" else \
        dict(A=np.ones((1, d)), b=np.array([-1.]), lb=np.zeros(d))
    with rec.context(how=how, d=d), warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            x, _ = qp_solve(Q, c, **kw)[:2]
        except ValueError:
            rec.event("warned-infeasible")
            return
    rec.expect(len(ws) > 0, "qp:silent-infeasible", "no constraint can hold, but nothing was said", how=how, x=x)
    rec.event("warned-infeasible")
    rec.seen("infeasible", Q, a)


@case("C23", quick=700, thorough=12000, requires=["frank-wolfe-points", "frank-wolfe-ranges", "negated-rows"])
def quadratic_frank_wolfe(rec, rng):
    d = int(rng.integers(1, 9))
    kind = zoo.pick(rng, ["definite", "diagonal", "flat", "kernel", "linear"])
    scale = float(zoo.pick(rng, [1., 10., 1., 10., 1e-4]))
    Q = (np.zeros((d, d)) if kind == "linear" else matrix(rng, d, kind)) * scale
    a = np.ones(d) if rng.random() < .3 else rng.uniform(.2, 3, d)
    hi = float(rng.uniform(.1, 4))
    lo = hi if rng.random() < .4 else float(zoo.pick(rng, [0., hi * rng.random(), -rng.random()]))
    # the unconstrained minimum is sometimes inside
    c = None if rng.random() < .1 else -Q @ (rng.uniform(0, 2, d) * hi / a / d) if rng.random() < .5 else rng.normal(size=d) * min(scale, 1.)
    f = objective(Q, c)
    kw = {}
    how = "function" if rng.random() < .25 else "eq" if lo == hi and rng.random() < .7 else "range"
    sign = -1. if rng.random() < .3 else 1.
    iters = int(zoo.pick(rng, [1000, 1000, 300, 50, 5, 2, 1]))
    if how == "eq":
        kw = dict(Aeq=sign * a[None], beq=np.array([sign * hi]))
    elif how == "range":
        kw = dict(A=np.stack([a, -a]), b=np.array([hi, -lo]))
        if sign < 0:
            kw = dict(A=kw["A"][::-1].copy(), b=kw["b"][::-1].copy())
    if sign < 0:
        rec.event("negated-rows")
    if rng.random() < .3:
        w = rng.dirichlet(np.ones(d))
        kw["x0"] = w * hi / a
    with rec.context(d=d, kind=kind, how=how, sign=sign, lo=lo, hi=hi, max_iter=iters, x0="x0" in kw):
        with rec.call("frank-wolfe"), unchanged(rec, "fw:arguments", program=(Q, c, a, kw)), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if how == "function":
                x = frank_wolfe(lambda v: Q @ v + (0 if c is None else c), sign * a, clb=min(sign * lo, sign * hi), cub=max(sign * lo, sign * hi), max_iter=iters,
                                **kw)
                val = f(x)
            else:
                x, val = qp_solve(Q, c, solver="frank-wolfe", max_iter=iters, **kw)[:2]
        x = np.asarray(x)
        rec.must(x.shape == (d,) and np.isfinite(x).all(), "fw:point", "not a point", got=x)
        rec.close(val, f(x), "fw:value", "reported value is not the objective at the point", rtol=1e-10, atol=1e-12)
        rec.expect((x >= -1e-12).all(), "fw:sign", "a coordinate is negative", worst=float(x.min()))
        s = float(a @ x)
        tol = 1e-9 * (1 + hi)
        rec.expect(max(lo, 0) - tol <= s <= hi + tol, "fw:constraint", "the linear constraint is violated", got=s)
        # convergence bound of the algorithm, against a lower bound of the minimum by linear programming at several points
        V = np.vstack([np.diag(hi / a), np.diag(max(lo, 0) / a)])
        W = np.vstack([V, np.zeros((1, d))])  # the default start may lie below the plane
        Df = W[:, None] - W[None]
        Cf = np.einsum("ijk,kl,ijl->ij", Df, Q, Df).max()
        best = lower_bound(f, Q, c, V, x)
        rec.expect(f(x) - best <= 2 * Cf / (iters + 2) + 1e-7 * (1 + abs(best)), "fw:converged", "farther from the minimum than the method guarantees after that many iterations",
                   value=float(f(x)), minimum_above=float(best), bound=float(2 * Cf / (iters + 2)))
        rec.event("frank-wolfe-points")
        if lo < hi:
            rec.event("frank-wolfe-ranges")
    rec.seen("fw", Q, a, hi, lo)
    rec.sample(kind="frank-wolfe", d=d, how=how, value=float(val), below=float(f(x) - best))


def lower_bound(f, Q, c, V, x):
    """The minimum over the hull of V, by an exact line-search pairwise Frank-Wolfe (value minus its own gap)."""
    c = np.zeros(len(Q)) if c is None else c
    w = np.zeros(len(V))
    w[np.argmin([f(v) for v in V])] = 1
    for _ in range(3000):
        y = w @ V
        g = Q @ y + c
        sc = V @ g
        i = np.argmin(sc)
        act = np.flatnonzero(w > 0)
        j = act[np.argmax(sc[act])]
        gap = g @ y - sc[i]
        if gap < 1e-10:
            break
        dvec = V[i] - V[j]
        curv = dvec @ Q @ dvec
        step = w[j] if curv <= 1e-15 else min(w[j], (sc[j] - sc[i]) / curv)
        w[i] += step
        w[j] -= step
        if w[j] < 1e-15:
            w[j] = 0
    y = w @ V
    return f(y) - max(gap, 0)


@case("C23", quick=150, thorough=1500, requires=["rejections"])
def refusals(rec, rng):
    """Programs an algorithm does not handle are refused."""
    d = int(rng.integers(2, 6))
    Q, c = matrix(rng, d, "definite"), rng.normal(size=d)
    a = rng.uniform(.2, 2, (1, d))
    one = np.array([1.])
    fw = dict(solver="frank-wolfe")
    bad = {
        "no-constraint": dict(fw),
        "two-equalities": dict(fw, Aeq=rng.uniform(.2, 2, (2, d)), beq=np.ones(2)),
        "three-rows": dict(fw, A=rng.uniform(.2, 2, (3, d)), b=np.ones(3)),
        "not-opposite": dict(fw, A=np.vstack([a, a]), b=np.ones(2)),
        "empty-range": dict(fw, A=np.vstack([a, -a]), b=np.array([1., -1.5])),
        "mixed-signs": dict(fw, Aeq=a * np.r_[-1, np.ones(d - 1)], beq=one),
        "negative-sum": dict(fw, Aeq=a, beq=-one),
        "unknown": dict(solver="Scipy" if rng.random() < .5 else "cvx", Aeq=a, beq=one),
    }
    name = list(bad)[rec.idx % len(bad)]
    rec.rejects("qp:accepts:" + name, lambda: qp_solve(Q, c, **bad[name]), ValueError, "a program the algorithm cannot solve was accepted")
    rec.seen("refused", name, Q)


FUNCTIONS = {
    "quadratic": lambda p: (lambda x: .5 * x @ p["Q"] @ x + p["c"] @ x),
    "wells": lambda p: (lambda x: ((x ** 2 - 1) ** 2).sum() + torch.sin(3 * x[0])),
    "valley": lambda p: (lambda x: (1 - x[0]) ** 2 + 20 * ((x[1:] - x[:-1] ** 2) ** 2).sum()),
    "softmax": lambda p: (lambda x: torch.logsumexp(torch.cat([x, -x]), 0) + .1 * ((x - 1) ** 2).sum()),
    "waves": lambda p: (lambda x: torch.sin(5 * x).sum() + (x ** 2).sum()),
}


@case("C23", quick=700, thorough=10000, requires=["minimised", "converged", "stopped-early-warned", "several-variables"])
def gradient_minimiser(rec, rng):
    n = int(rng.integers(1, 6))
    kind = zoo.pick(rng, list(FUNCTIONS))
    p = dict(Q=torch.tensor(matrix(rng, n, "definite")), c=torch.tensor(rng.normal(size=n)))
    flat = FUNCTIONS[kind](p)
    scale = float(zoo.pick(rng, [.1, 1., 10.]))
    x0 = rng.normal(size=n) * scale
    form = zoo.pick(rng, ["array", "tensor", "matrix", "list", "tuple"])
    cut = int(rng.integers(1, n)) if n > 1 else 0
    if form in ("list", "tuple") and n > 1:
        def loss(u, v):
            return flat(torch.cat([u, v.flatten()]))
        start = (x0[:cut].copy(), x0[cut:, None].copy())
        start = list(start) if form == "list" else start
        rec.event("several-variables")
    elif form == "matrix":
        def loss(u):
            return flat(u.flatten())
        start = x0[:, None].copy()
    else:
        loss = flat
        start = torch.tensor(x0) if form == "tensor" else x0.copy()
    tol = float(zoo.pick(rng, [1e-6, 1e-3, 1e-9]))
    limit = int(zoo.pick(rng, [1000, 1000, 20, 3, 1]))
    with rec.context(kind=kind, form=form, n=n, tol=tol, max_iter=limit):
        with rec.call("minimise"), unchanged(rec, "min:arguments", start=start), warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            sol, val = torch_minimize(loss, start, tol=tol, max_iter=limit)
        several = isinstance(start, (list, tuple))
        if several:
            rec.must(isinstance(sol, (list, tuple)) and [np.shape(v) for v in sol] == [np.shape(v) for v in start], "min:shape", "the solution has other shapes than the start",
                     got=[np.shape(v) for v in sol])
        else:
            rec.must(np.shape(sol) == tuple(start.shape), "min:shape", "the solution has another shape than the start", got=np.shape(sol))
        parts = [torch.tensor(np.asarray(v), requires_grad=True) for v in (sol if several else [sol])]
        out = loss(*parts)
        out.backward()
        g = max(v.grad.abs().max().item() for v in parts)
        rec.close(val, out.item(), "min:value", "reported value is not the objective at the point", rtol=1e-12, atol=1e-14)
        f0 = flat(torch.tensor(x0)).item()
        rec.expect(val <= f0 + 1e-12 * (1 + abs(f0)), "min:ascent", "the objective is larger than at the start", start=f0, end=val)
        warned = any("onverge" in str(w.message) for w in ws)
        rec.expect(warned == (g > tol) or abs(g - tol) < 1e-6 * tol, "min:warning", "stopping before convergence and warning must coincide", gradient=g, warned=warned)
        rec.event("stopped-early-warned" if warned else "converged")
        if kind == "quadratic" and not warned:
            best = np.linalg.solve(p["Q"].numpy(), -p["c"].numpy())
            rec.expect(val <= flat(torch.tensor(best)).item() + n * tol ** 2 / .1 + 1e-10, "min:optimal", "not the minimum", value=val)
        if limit >= 1000 and tol >= 1e-6 and kind != "waves":
            rec.expect(g <= 1e-2, "min:progress", "with a thousand iterations the gradient is still large", gradient=g)
        rec.event("minimised")
    rec.seen("min", kind, x0, form)
    rec.sample(kind="minimise", function=kind, start=f0, end=val, gradient=g)


@case("C23", quick=20, thorough=100, requires=["finding-inputs"])
def recorded_findings(rec, rng):
    """Two documented inputs the Frank-Wolfe algorithm does not handle (recorded, exercised on every run)."""
    Q, c = np.array([[2., .5], [.5, 1.]]), np.array([1., 1.])
    x, _ = qp_solve(Q, c, A=np.array([[1., 1.]]), b=np.array([1.]), solver="frank-wolfe")
    rec.expect(objective(Q, c)(x) <= 1e-2, "fw-single-inequality-taken-as-equality", "x = 0 is feasible and better", x=x)
    x, _ = qp_solve(Q, c, Aeq=np.array([[1., 1.]]), beq=np.array([1.]), ub=np.array([1., .5]), solver="frank-wolfe")
    rec.expect(x[1] <= .5 + 1e-6, "fw-ignores-bounds", "the bound that was given is violated", x=x)
    rec.event("finding-inputs")
    rec.seen("finding", rec.idx)
