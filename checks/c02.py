"""Spline arguments outside the table are rejected, never read past it."""
import numpy as np
from vlib.gen import spline_table, spline_points, hermite
from vlib.runner import Job

LEVEL = "exploration"
RULE = ("random tables; negative arguments (from a hair below zero to far), arguments at the last node (exactly representable grids), "
        "a hair beyond it, one to many intervals beyond, and huge; every rejected call is followed by a valid one compared with a fresh "
        "object; non-trivial = distinct (object kind, nodes, set size, argument class)")
ASSUMPTIONS = ["on grids whose last node is not exactly representable, arguments within relative 1e-14 of it are not judged",
               "NaN and infinities are not claimed: the project compiles with -ffast-math"]
MIN_DISTINCT = 60


def jobs(tier):
    k = 1 if tier == "quick" else 12
    return [Job("domain", n=1200 * k), Job("domain", flavour="asan", n=320 * k, timeout=400)]


def bad_points(rng, h, n, exact):
    end = (n - 1) * h
    pts = [("just below zero", -h * 10 ** rng.uniform(-250 if rng.random() < .3 else -16, -2)), ("inside (-h,0)", -h * rng.uniform(0.01, 0.99)),
           ("minus one interval", -h * rng.uniform(1, 1.5)), ("far negative", -end * rng.uniform(1, 50) - h),
           ("just beyond", end * (1 + 10 ** rng.uniform(-14, -4))), ("one interval beyond", end + h * rng.uniform(0.01, 1)),
           ("few beyond", end + h * rng.uniform(1, 8)), ("far beyond", end + h * rng.uniform(10, 1000)),
           ("very far beyond", end * rng.uniform(1e3, 1e4) + h * 1e4),
           ("beyond 32 bits", h * (2.0 ** int(rng.choice([31, 32, 33, 40])) * (-1) ** int(rng.integers(2)) + rng.uniform(0, n - 1)))]
    if exact:
        pts += [("exactly the last node", end), ("last node plus one interval", end + h)]
    return pts


def domain(ctx, i):
    import symmetrix as S
    rng = ctx.rng
    exact = bool(rng.random() < 0.6)
    n = int(rng.choice([2, 3, 5, 20, 33, 256])) if rng.random() < .5 else int(rng.integers(2, 60))
    m = int(rng.choice([1, 2, 3, 8, 17, 40]))
    h, v, d, kind = spline_table(rng, m, n, kind=int(rng.choice([0, 1, 3])))
    if exact:
        hn = 2.0 ** rng.integers(-10, 4)
        d = d * (h / hn)
        h = hn
    ctx.desc = dict(h=h, n=n, m=m, exact=exact)
    one = ctx.call(S.CubicSpline, h, v[0].tolist(), d[0].tolist(), what="CubicSpline")
    st = ctx.call(S.CubicSplineSet, h, v.tolist(), d.tolist(), what="CubicSplineSet")
    good = spline_points(rng, h, n, 4)
    want = [one.evaluate(x) for x in good]
    wantd = []
    for x in good:
        a, b = np.zeros(m), np.zeros(m)
        st.evaluate_derivs(x, a, b)
        wantd.append((a, b))
    pts = bad_points(rng, h, n, exact)
    if i < 4:
        pts += [("huge", 1e12 * h), ("huge negative", -1e12 * h)]
    rng.shuffle(pts)
    for name, x in pts:
        x = float(x)
        ctx.desc["r"] = x
        calls = [(one.evaluate, (x,), "evaluate"), (one.evaluate_deriv, (x,), "evaluate_deriv"),
                 (one.evaluate_deriv_divided, (x,), "evaluate_deriv_divided"),
                 (st.evaluate, (x, np.zeros(m)), "set evaluate"),
                 (st.evaluate_derivs, (x, np.zeros(m), np.zeros(m)), "set evaluate_derivs")]
        for f, args, what in calls:
            ctx.expect_raise(ValueError, f, *args, what=f"{what} {name}", key=f"accepted:{what}")
            ctx.seen(what, n, m, name)
        # the rejected calls left no trace
        q = int(rng.integers(len(good)))
        ctx.same(one.evaluate(good[q]), want[q], "valid call changed after a rejected one")
        a, b = np.zeros(m), np.zeros(m)
        st.evaluate_derivs(good[q], a, b)
        ctx.same((a, b), wantd[q], "valid set call changed after a rejected one")
        ctx.event("rejected calls", 5)
    f, g, sf, sg = hermite(h, v, d, good)
    ctx.close(want, f[0], sf[0], "valid points are still evaluated", tol=1e-10)
    ctx.sample(dict(h=h, nodes=n, members=m, argument_classes=[p[0] for p in pts][:4]))
