"""Polynomial evaluation equals the sum of its terms on every path."""
import numpy as np
from vlib.gen import poly_random, poly_ref, batch_sizes, magnitudes
from vlib.runner import Job

LEVEL = "exploration"
RULE = ("random term lists (1..300 variables, 1..500 terms, degree 1..12; sorted, unsorted, pure powers, shared sub-products, repeated terms, "
        "shuffled), points with zeros and mixed signs and sizes, every batch size 1..260; non-trivial = distinct "
        "(variables, terms, degree profile, has auxiliary products / repeats, batch size) with a non-zero value")
ASSUMPTIONS = ["terms have degree one or higher and name existing variables", "reference summed term by term in 80-bit arithmetic"]
MIN_DISTINCT = 300
GRAD = False


def jobs(tier):
    k = 1 if tier == "quick" else 12
    return [Job("poly", n=2400 * k), Job("sweep", n=260), Job("mace_like", n=30 * k), Job("large", n=60 * k),
            Job("poly", flavour="asan", n=200 * k, chunks=4)]


def points(rng, b, nv):
    u = rng.random()
    X = rng.standard_normal((b, nv))
    if u < 0.2:
        X = np.where(rng.random((b, nv)) < 0.4, 0.0, X)
    elif u < 0.4:
        X = magnitudes(rng, (b, nv), -1.5, 1.5)
    elif u < 0.5:
        X = np.round(X * 3)
    elif u < 0.6:
        X = X * 10.0 ** rng.uniform(-20, 20)
    elif u < 0.65:
        X = np.repeat(X[:, :1], nv, axis=1)
    return X


def check_poly(ctx, nv, c, mons, X, b, grad):
    import symmetrix as S
    ctx.desc = dict(nv=nv, coefficients=c, monomials=mons, x0=X[0].tolist(), batch=b)
    P = ctx.call(S.MultivariatePolynomial, nv, c, mons, what="MultivariatePolynomial")
    f, g, sf, sg = poly_ref(nv, c, mons, X)
    sf, sg = sf * 4, sg * 4
    for q in range(min(len(X), 4)):
        x = X[q].tolist()
        if not grad:
            ctx.close(ctx.call(P.evaluate, x, what="evaluate"), f[q], sf[q], "value")
            ctx.close(ctx.call(P.evaluate_simple, x, what="evaluate_simple"), f[q], sf[q], "value-simple")
            ctx.close(ctx.call(P.evaluate_gradient, x, what="evaluate_gradient")[0], f[q], sf[q], "value-with-gradient")
            ctx.close(ctx.call(P.evaluate_gradient_simple, x, what="evaluate_gradient_simple")[0], f[q], sf[q],
                      "value-simple-with-gradient")
        else:
            ctx.close(ctx.call(P.evaluate_gradient, x, what="evaluate_gradient")[1], g[q], sg[q], "gradient")
            ctx.close(ctx.call(P.evaluate_gradient_simple, x, what="evaluate_gradient_simple")[1], g[q], sg[q], "gradient-simple")
    F, G = ctx.call(P.evaluate_batch, X.ravel().tolist(), len(X), what="evaluate_batch")
    if not grad:
        ctx.close(F, f, sf, "batch-value")
        ctx.close(ctx.call(P.evaluate, X[-1].tolist(), what="evaluate"), f[-1], sf[-1], "value-after-batch")
    else:
        ctx.close(G, g.ravel(), sg.ravel(), "batch-gradient")
        ctx.close(ctx.call(P.evaluate_gradient, X[-1].tolist(), what="evaluate_gradient")[1], g[-1], sg[-1], "gradient-after-batch")
    # all paths in random order on the same object, with smaller batches after larger ones
    for _ in range(int(ctx.rng.integers(2, 7))):
        u, q = ctx.rng.random(), int(ctx.rng.integers(len(X)))
        x = X[q].tolist()
        if u < .5:
            k = int(ctx.rng.integers(0, len(X) + 1))
            sel = ctx.rng.permutation(len(X))[:k]
            F, G = ctx.call(P.evaluate_batch, X[sel].ravel().tolist(), k, what="evaluate_batch")
            ctx.close(G if grad else F, g[sel].ravel() if grad else f[sel], sg[sel].ravel() if grad else sf[sel], "batch-mixed-order")
        elif u < .8:
            r = ctx.call(P.evaluate_gradient if u < .65 else P.evaluate_gradient_simple, x, what="evaluate_gradient")
            ctx.close(r[1] if grad else r[0], g[q] if grad else f[q], sg[q] if grad else sf[q], "gradient-mixed-order")
        else:
            r = ctx.call(P.evaluate if u < .9 else P.evaluate_simple, x, what="evaluate")
            if not grad:
                ctx.close(r, f[q], sf[q], "value-mixed-order")
    ctx.event("points evaluated", len(X) + min(len(X), 4) * 4 + 1)
    s = set(map(tuple, mons))
    rep = len(s) < len(mons)
    aux = any(len(m) > 2 and tuple(m[:-1]) not in s for m in mons)
    ctx.event("polynomials needing intermediate products", int(aux))
    ctx.event("polynomials with repeated terms", int(rep))
    if np.any((g if grad else f) != 0):
        ctx.seen(nv, len(mons), tuple(sorted(len(m) for m in mons))[-8:], rep, aux, b)
    ctx.sample(dict(variables=nv, monomials=mons[:5], coefficients=c[:5], batch=len(X), value=float(f[0]), gradient=g[0][:3].tolist()))


def poly(ctx, i, grad=None):
    rng = ctx.rng
    nv, c, mons = poly_random(rng, big=bool(rng.random() < 0.3))
    b = batch_sizes(rng) if rng.random() < 0.4 else int(rng.integers(1, 10))
    check_poly(ctx, nv, c, mons, points(rng, b, nv), b, GRAD if grad is None else grad)


def sweep(ctx, i, grad=None):
    rng = ctx.rng
    nv, c, mons = poly_random(rng)
    ctx.event("distinct batch sizes swept")
    check_poly(ctx, nv, c, mons, points(rng, i + 1, nv), i + 1, GRAD if grad is None else grad)


def large(ctx, i, grad=None):
    """many variables and terms, or high degrees"""
    rng = ctx.rng
    if i % 2:
        nv, nt, deg = int(rng.choice([20, 33, 64, 65, 100, 129, 257, 300])), int(rng.integers(60, 500)), 4
    else:
        nv, nt, deg = int(rng.integers(1, 30)), int(rng.integers(1, 7)), int(rng.integers(7, 12))
    mons = [[int(q) for q in rng.integers(0, nv, int(rng.integers(1, deg + 1)))] for _ in range(nt)]
    if rng.random() < .5:
        mons = [sorted(m) for m in mons]
    c = magnitudes(rng, nt, -1, 1).tolist()
    check_poly(ctx, nv, c, mons, points(rng, batch_sizes(rng) if rng.random() < .3 else int(rng.integers(1, 9)), nv), -2, GRAD if grad is None else grad)


def mace_like(ctx, i, grad=None):
    """the shape the potential uses: 16 variables, all sorted products up to degree 3 that survive a random sparsity"""
    import itertools
    rng = ctx.rng
    nv = 16
    keep = 10 ** rng.uniform(-2, -0.3)
    mons = [[a] for a in range(nv) if rng.random() < .7]
    for deg in (2, 3):
        mons += [list(m) for m in itertools.combinations_with_replacement(range(nv), deg) if rng.random() < keep]
    mons = mons or [[3]]
    rng.shuffle(mons)
    mons = [list(map(int, m)) for m in mons]
    c = rng.standard_normal(len(mons)).tolist()
    check_poly(ctx, nv, c, mons, points(rng, int(rng.integers(1, 70)), nv), -1, GRAD if grad is None else grad)
