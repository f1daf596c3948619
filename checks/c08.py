"""ZBL pair repulsion follows its formula, with an exact slope and smooth cutoff."""
import numpy as np
from vlib.gen import zbl_params, zbl_ref, envelope_ref
from vlib.runner import Job

LEVEL = "exploration"
RULE = ("random parameter sets (published and random coefficients, radii, exponents p 1..12); every ordered element pair 1..118 in each 'allpairs' "
        "case, distances from 1e-4 of the cutoff to far beyond, at it and one ulp either side; non-trivial = distinct (element pair) or (p, distance class)")
ASSUMPTIONS = ["reference in 80-bit arithmetic from the published screening exponents, Coulomb constant 14.3996 and Bohr radius 0.529",
               "distances are positive"]
MIN_DISTINCT = 1000


def jobs(tier):
    k = 1 if tier == "quick" else 10
    return [Job("allpairs", n=24 * k), Job("distances", n=500 * k), Job("envelope", n=400 * k), Job("slope", n=60 * k), Job("short", n=60 * k), Job("short", flavour="asan", n=60 * k, chunks=2),
            Job("distances", flavour="asan", n=60 * k, chunks=2), Job("envelope", flavour="asan", n=40 * k, chunks=2)]


def make(ctx, par):
    import symmetrix as S
    a_exp, a_pre, c, radii, p = par
    ctx.desc = dict(a_exp=a_exp, a_pre=a_pre, c=list(c), p=p)
    return ctx.call(S.ZBL, a_exp, a_pre, list(c), list(radii), p, what="ZBL")


def allpairs(ctx, i):
    rng = ctx.rng
    par = zbl_params(rng)
    z = make(ctx, par)
    U, V = np.meshgrid(np.arange(1, 119), np.arange(1, 119), indexing="ij")
    U, V = U.ravel(), V.ravel()
    rm = par[3][U] + par[3][V]
    r = rm * np.where(rng.random(len(U)) < 0.85, rng.uniform(0.02, 1.0, len(U)), rng.uniform(1.0, 1.2, len(U)))
    E, G, sE, sG, _ = zbl_ref(par, U, V, r)
    got = np.array([ctx.call(z.compute, int(u), int(v), float(x), what="compute") for u, v, x in zip(U, V, r)])
    grd = np.array([ctx.call(z.compute_gradient, int(u), int(v), float(x), what="compute_gradient") for u, v, x in zip(U, V, r)])
    ctx.close(got, E, sE, "energy")
    ctx.close(grd, G, sG, "slope")
    swp = np.array([ctx.call(z.compute, int(v), int(u), float(x), what="compute") for u, v, x in zip(U, V, r)])
    swg = np.array([ctx.call(z.compute_gradient, int(v), int(u), float(x), what="compute_gradient") for u, v, x in zip(U, V, r)])
    ctx.close(swp, got, sE, "symmetry", tol=1e-12)
    ctx.close(swg, grd, sG, "slope-symmetry", tol=1e-12)
    out = r >= par[3][U] + par[3][V]
    ctx.true(np.all(got[out] == 0) and np.all(grd[out] == 0), "nonzero-beyond-cutoff", "repulsion beyond the sum of radii")
    ctx.event("element pairs evaluated", len(U))
    ctx.event("pairs beyond cutoff", int(out.sum()))
    for u, v in zip(U[::37], V[::37]):
        ctx.seen("pair", int(u), int(v))
    ctx.sample(dict(p=par[4], Z=[int(U[7]), int(V[7])], r=float(r[7]), energy=float(got[7]), reference=float(E[7])))


def distances(ctx, i):
    rng = ctx.rng
    par = zbl_params(rng)
    z = make(ctx, par)
    u, v = int(rng.integers(1, 119)), int(rng.integers(1, 119))
    rm = float(par[3][u] + par[3][v])
    r = np.concatenate([rm * 10 ** rng.uniform(-4, 0, 30), rm * rng.uniform(0.2, 1, 30), rm * (1 - 10 ** rng.uniform(-14, -1, 20)),
                        [np.nextafter(rm, 0)]])
    r = r[r < rm]
    ctx.desc.update(Zu=u, Zv=v)
    E, G, sE, sG, _ = zbl_ref(par, np.full(len(r), u), np.full(len(r), v), r)
    ctx.close([ctx.call(z.compute, u, v, float(x), what="compute") for x in r], E, sE, "energy")
    ctx.close([ctx.call(z.compute_gradient, u, v, float(x), what="compute_gradient") for x in r], G, sG, "slope")
    for x in [rm, np.nextafter(rm, 9), rm * (1 + 1e-9), rm + 0.5, rm * 3, 100.0, 1e4]:
        ctx.true(ctx.call(z.compute, u, v, float(x), what="compute") == 0, "nonzero-beyond-cutoff", f"energy at r={x!r} (cutoff {rm!r})")
        ctx.true(ctx.call(z.compute_gradient, u, v, float(x), what="compute_gradient") == 0, "nonzero-slope-beyond-cutoff",
                 f"slope at r={x!r} (cutoff {rm!r})")
        ctx.event("evaluations at or beyond the cutoff")
    # a second object with other parameters, used alternately with the first
    par2 = zbl_params(rng)
    z2 = make(ctx, par2)
    for _ in range(20):
        w, o = (par, z) if rng.random() < .5 else (par2, z2)
        a, b = (u, v) if rng.random() < .7 else (int(rng.integers(1, 119)), int(rng.integers(1, 119)))
        x = float((w[3][a] + w[3][b]) * rng.uniform(.05, 1.1))
        if rng.random() < .2:
            o.compute_envelope(x, 2.0, 3)
        e0, g0, s0, t0, _ = zbl_ref(w, a, b, x)
        if rng.random() < .5:
            ctx.close(ctx.call(o.compute, a, b, x, what="compute"), e0, s0, "energy-two-objects")
        else:
            ctx.close(ctx.call(o.compute_gradient, a, b, x, what="compute_gradient"), g0, t0, "slope-two-objects")
    ctx.event("distances", len(r))
    ctx.seen("dist", par[4], u, v)


def envelope(ctx, i):
    rng = ctx.rng
    z = make(ctx, zbl_params(rng))
    p = int(rng.integers(1, 13))
    rm = float(10 ** rng.uniform(-2, 2))
    r = np.concatenate([rm * rng.uniform(1e-6, 1, 40), rm * (1 - 10 ** rng.uniform(-15, -1, 15)), [rm, np.nextafter(rm, 1e9), 2 * rm, 50 * rm]])
    f, g, sf, sg = envelope_ref(r, rm, p)
    ctx.desc.update(p=p, r_max=rm)
    got = np.array([ctx.call(z.compute_envelope, float(x), rm, p, what="compute_envelope") for x in r])
    grd = np.array([ctx.call(z.compute_envelope_gradient, float(x), rm, p, what="compute_envelope_gradient") for x in r])
    ctx.close(got, f.astype(float), sf.astype(float), "envelope")
    ctx.close(grd, g.astype(float), sg.astype(float), "envelope-slope")
    ctx.true(np.all(got[r >= rm] == 0) and np.all(grd[r >= rm] == 0), "envelope-beyond-cutoff", "envelope beyond cutoff")
    ctx.close(ctx.call(z.compute_envelope, rm * 1e-9, rm, p, what="compute_envelope"), 1.0, p * p * 1e5, "envelope-at-zero", tol=1e-11)
    ctx.event("envelope evaluations", 2 * len(r))
    ctx.seen("env", p, round(np.log10(rm), 1))


def short(ctx, i):
    """a radius table that ends with the last element used"""
    rng = ctx.rng
    a_exp, a_pre, c, radii, p = zbl_params(rng)
    n = int(rng.integers(2, 20)) if rng.random() < .6 else int(rng.integers(2, 119))
    par = a_exp, a_pre, c, radii[:n], p
    z = make(ctx, par)
    ctx.desc.update(elements=n - 1)
    for u, v in [(n - 1, n - 1), (1, n - 1), (n - 1, 1)] + [(int(rng.integers(1, n)), int(rng.integers(1, n))) for _ in range(5)]:
        x = float((radii[u] + radii[v]) * rng.uniform(.05, 1.1))
        e0, g0, s0, t0, _ = zbl_ref(par, u, v, x)
        ctx.close(ctx.call(z.compute, u, v, x, what="compute"), e0, s0, "energy-short-table")
        ctx.close(ctx.call(z.compute_gradient, u, v, x, what="compute_gradient"), g0, t0, "slope-short-table")
    ctx.event("tables ending with the last element used")
    ctx.seen("short", n, p)


def slope(ctx, i):
    """the slope belongs to the energy the object itself reports"""
    rng = ctx.rng
    par = zbl_params(rng)
    z = make(ctx, par)
    u, v = int(rng.integers(1, 119)), int(rng.integers(1, 119))
    rm = float(par[3][u] + par[3][v])
    for x in rm * rng.uniform(0.15, 0.98, 10):
        a = par[1] * 0.529 / (u ** par[0] + v ** par[0])
        e = min(1e-3 * a, 1e-3 * x, 0.2 * (rm - x))
        f = lambda t: ctx.call(z.compute, u, v, float(x + t), what="compute")
        d = (8 * (f(e) - f(-e)) - (f(2 * e) - f(-2 * e))) / (12 * e)
        _, G, sE, sG, _ = zbl_ref(par, u, v, x)
        ctx.close(d, ctx.call(z.compute_gradient, u, v, float(x), what="compute_gradient"), sG + sE / e * 1e-6, "finite-difference", tol=1e-6)
    ctx.event("finite differences", 10)
