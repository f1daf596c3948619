"""Spline tables reproduce their cubic Hermite interpolant and its derivative."""
import numpy as np
from vlib.gen import spline_table, spline_points, hermite
from vlib.runner import Job

LEVEL = "exploration"
RULE = ("random uniform-grid tables (2..100003 nodes, 1..400 splines, 5 data styles, spacings over 16 decades); arguments at nodes, "
        "one ulp beside nodes, at any distance from one, interval interiors and both ends; non-trivial = distinct (nodes, set size, data style) "
        "whose returned values are not all zero")
ASSUMPTIONS = ["arguments within relative 1e-13 of the last node are excluded (see C02)",
               "reference interpolant computed independently in 80-bit arithmetic from the Hermite basis"]
MIN_DISTINCT = 60


def jobs(tier):
    k = 1 if tier == "quick" else 12
    return [Job("single", n=400 * k), Job("setcase", n=500 * k), Job("continuity", n=150 * k),
            Job("single", flavour="asan", n=40 * k, chunks=2), Job("setcase", flavour="asan", n=60 * k, chunks=2)]


def single(ctx, i):
    import symmetrix as S
    rng = ctx.rng
    h, v, d, kind = spline_table(rng, 1)
    n = v.shape[1]
    ctx.desc = dict(h=h, n=n, kind=kind)
    spl = ctx.call(S.CubicSpline, h, v[0].tolist(), d[0].tolist(), what="CubicSpline")
    r = spline_points(rng, h, n, 120)
    f, g, sf, sg = hermite(h, v, d, r)
    got = np.array([ctx.call(spl.evaluate, x, what="evaluate") for x in r])
    both = np.array([ctx.call(spl.evaluate_deriv, x, what="evaluate_deriv") for x in r])
    ctx.close(got, f[0], sf[0], "value", r=r.tolist()[:3])
    ctx.close(both[:, 0], f[0], sf[0], "value-with-deriv")
    ctx.close(both[:, 1], g[0], sg[0], "deriv")
    rp = r[r > h * 1e-6]
    _, gp, _, sp = hermite(h, v, d, rp)
    div = np.array([ctx.call(spl.evaluate_deriv_divided, x, what="evaluate_deriv_divided") for x in rp])
    fp, _, sfp, _ = hermite(h, v, d, rp)
    ctx.close(div[:, 0], fp[0], sfp[0], "value-with-divided")
    ctx.close(div[:, 1], gp[0] / rp, sp[0] / rp, "deriv-divided")
    for q in rng.integers(0, len(rp), 30) if len(rp) else []:
        u = rng.random()
        if u < .34:
            ctx.close(ctx.call(spl.evaluate, rp[q], what="evaluate"), fp[0, q], sfp[0, q], "value-mixed-order")
        else:
            a, b = ctx.call(spl.evaluate_deriv if u < .67 else spl.evaluate_deriv_divided, rp[q], what="evaluate_deriv")
            ctx.close([a, b * (1 if u < .67 else rp[q])], [fp[0, q], gp[0, q]], [sfp[0, q], sp[0, q]], "deriv-mixed-order")
    ctx.event("spline evaluations", 3 * len(r) + 30)
    ctx.event("points exactly on a node", int(np.sum(r == np.round(r / h) * h)))
    if np.any(got != 0):
        ctx.seen("single", n, kind)
    ctx.sample(dict(h=h, nodes=n, style=kind, r=float(r[5]), value=float(got[5]), reference=float(f[0, 5])))


def setcase(ctx, i):
    import symmetrix as S
    rng = ctx.rng
    m = int(rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 127, 128, 130])) if rng.random() < .6 \
        else int(rng.integers(1, 40))
    n = None if m < 20 else int(rng.integers(2, 40))
    if rng.random() < .02:
        m, n = int(rng.choice([200, 257, 400])), int(rng.integers(150, 300))
    h, v, d, kind = spline_table(rng, m, n)
    n = v.shape[1]
    ctx.desc = dict(h=h, n=n, m=m, kind=kind)
    spl = ctx.call(S.CubicSplineSet, h, v.tolist(), d.tolist(), what="CubicSplineSet")
    r = spline_points(rng, h, n, 40)
    f, g, sf, sg = hermite(h, v, d, r)
    A, B, D = np.empty((m, len(r))), np.empty((m, len(r))), np.empty((m, len(r)))
    for q, x in enumerate(r):
        a = np.full(m, 7.5); b = np.full(m, -3.25); e = np.full(m, 1e9)
        ctx.call(spl.evaluate, x, a, what="set evaluate")
        ctx.call(spl.evaluate_derivs, x, b, e, what="set evaluate_derivs")
        A[:, q], B[:, q], D[:, q] = a, b, e
    ctx.close(A, f, sf, "set-value")
    ctx.close(B, f, sf, "set-value-with-deriv")
    ctx.close(D, g, sg, "set-deriv")
    # the same points again, methods and points in random order
    for q in rng.integers(0, len(r), 30):
        a, b = np.full(m, 4.5), np.full(m, -1e9)
        if rng.random() < .5:
            ctx.call(spl.evaluate, r[q], a, what="set evaluate")
        else:
            ctx.call(spl.evaluate_derivs, r[q], a, b, what="set evaluate_derivs")
            ctx.close(b, g[:, q], sg[:, q], "set-deriv-mixed-order")
        ctx.close(a, f[:, q], sf[:, q], "set-value-mixed-order")
    ctx.event("set evaluations", 2 * len(r) + 30)
    ctx.event("member values compared", 3 * m * len(r))
    if np.any(A != 0):
        ctx.seen("set", n, m, kind)
    ctx.sample(dict(h=h, nodes=n, splines=m, style=kind, r=float(r[5]), values=A[:3, 5].tolist()))


def continuity(ctx, i):
    """Value and slope continuous across every node; node data reproduced; set member == single spline."""
    import symmetrix as S
    rng = ctx.rng
    n = int(rng.integers(3, 60))
    h, v, d, kind = spline_table(rng, 3, n)
    ctx.desc = dict(h=h, n=n, kind=kind)
    one = [ctx.call(S.CubicSpline, h, v[j].tolist(), d[j].tolist(), what="CubicSpline") for j in range(3)]
    st = ctx.call(S.CubicSplineSet, h, v.tolist(), d.tolist(), what="CubicSplineSet")
    amp = 10 * (np.abs(v).max() + h * np.abs(d).max())
    for q in range(n - 1):
        for x in ([q * h] if q == 0 else [q * h * (1 - 1e-15), q * h, q * h * (1 + 1e-15)]):
            a, b = np.zeros(3), np.zeros(3)
            ctx.call(st.evaluate_derivs, x, a, b, what="set evaluate_derivs")
            ctx.close(a, v[:, q], amp, "node-value", tol=1e-10)
            ctx.close(b, d[:, q], amp / h, "node-slope", tol=1e-10)
            for j in range(3):
                f, g = ctx.call(one[j].evaluate_deriv, x, what="evaluate_deriv")
                ctx.close([f, g], [a[j], b[j]], [amp, amp / h], "set-equals-single", tol=1e-12)
    ctx.event("nodes checked from both sides", n - 1)
    ctx.seen("cont", n, kind)
