"""A uniform view of the evaluators for history workloads: specs, operations, references."""
import numpy as np
from .gen import (spline_table, spline_points, mlp_random, poly_random, zbl_params, batch_sizes, hermite, mlp_ref, poly_ref, zbl_ref)


def make_spec(rng, kind=None, big=False):
    big = big or rng.random() < .08
    kind = kind or str(rng.choice(["spline", "set", "mlp", "poly", "zbl"], p=[.15, .2, .25, .3, .1]))
    if kind == "spline":
        h, v, d, _ = spline_table(rng, 1, int(rng.integers(2, 60)))
        return (kind, h, v, d)
    if kind == "set":
        h, v, d, _ = spline_table(rng, int(rng.integers(1, 20)) if not big else int(rng.choice([31, 32, 33, 64, 65, 128, 200])), int(rng.integers(2, 40)))
        return (kind, h, v, d)
    if kind == "mlp":
        return (kind,) + mlp_random(rng, big=big)
    if kind == "poly":
        return (kind,) + poly_random(rng, big=big)
    return (kind,) + zbl_params(rng)


def sibling(rng, spec):
    """another object of the same kind and sizes that differs in some of its numbers"""
    k = spec[0]
    def shake(x):
        x = np.array(x, float)
        if x.size > 2 and rng.random() < .6:        # not the first, not the last
            q = tuple(int(rng.integers(1, max(2, s - 1))) if s > 1 else 0 for s in x.shape)
            x[q] = -x[q] + np.abs(x).max()
        else:
            x = x * rng.uniform(.3, .9, x.shape)
        return x
    if k in ("spline", "set"):
        return (k, spec[1], shake(spec[2]), spec[3]) if rng.random() < .5 else (k, spec[1], spec[2], shake(spec[3]))
    if k == "mlp":
        w = list(spec[2])
        q = int(rng.integers(len(w)))
        w[q] = shake(w[q])
        return (k, spec[1], w, spec[3]) if rng.random() < .8 else (k, spec[1], spec[2], spec[3] * .5 + .1)
    if k == "poly":
        if rng.random() < .5 or spec[1] == 1:
            return k, spec[1], [float(x) for x in shake(spec[2])], spec[3]
        p = rng.permutation(spec[1])
        return k, spec[1], spec[2], [[int(p[v]) for v in m] for m in spec[3]]
    a_exp, a_pre, c, radii, p = spec[1:]
    u = int(rng.integers(5))
    return k, a_exp * (.7 if u == 0 else 1), a_pre * (.7 if u == 1 else 1), shake(c) if u == 2 else c, radii * rng.uniform(.7, 1.2, len(radii)) if u == 3 else radii, p % 8 + 1 if u == 4 else p


def construct(S, spec):
    k = spec[0]
    if k == "spline":
        return S.CubicSpline(spec[1], spec[2][0].tolist(), spec[3][0].tolist())
    if k == "set":
        return S.CubicSplineSet(spec[1], spec[2].tolist(), spec[3].tolist())
    if k == "mlp":
        return S.MultilayerPerceptron(spec[1], [w.ravel().tolist() for w in spec[2]], spec[3])
    if k == "poly":
        return S.MultivariatePolynomial(spec[1], spec[2], spec[3])
    return S.ZBL(spec[1], spec[2], list(spec[3]), list(spec[4]), spec[5])


def rand_op(rng, spec, batch=None, empty_ok=True):
    """-> (method, args)"""
    k = spec[0]
    if k in ("spline", "set"):
        n = spec[2].shape[1]
        r = float(spline_points(rng, spec[1], n, 1)[3])
        if k == "spline":
            m = str(rng.choice(["evaluate", "evaluate_deriv", "evaluate_deriv_divided"]))
            return m, (max(r, spec[1] * 1e-6) if m.endswith("divided") else r,)
        return str(rng.choice(["evaluate", "evaluate_derivs"])), (r,)
    b = batch if batch is not None else (0 if empty_ok and rng.random() < .12 else batch_sizes(rng) if rng.random() < .5 else int(rng.integers(1, 6)))
    if k == "mlp":
        n = spec[1][0]
        m = str(rng.choice(["evaluate", "evaluate_gradient", "evaluate_batch", "evaluate_gradient_batch"]))
        x = rng.standard_normal((b if "batch" in m else 1, n)).clip(-3, 3)
        return m, ((x.ravel().tolist(), b) if "batch" in m else (x[0].tolist(),))
    if k == "poly":
        n = spec[1]
        m = str(rng.choice(["evaluate", "evaluate_simple", "evaluate_gradient", "evaluate_gradient_simple", "evaluate_batch", "evaluate_batch"]))
        x = rng.standard_normal((b if "batch" in m else 1, n))
        return m, ((x.ravel().tolist(), b) if "batch" in m else (x[0].tolist(),))
    m = str(rng.choice(["compute", "compute_gradient", "compute_envelope", "compute_envelope_gradient"]))
    if m.startswith("compute_env"):
        return m, (float(rng.uniform(0.1, 3)), float(rng.uniform(0.5, 3)), int(rng.integers(1, 9)))
    u, v = int(rng.integers(1, 119)), int(rng.integers(1, 119))
    return m, (u, v, float(rng.uniform(0.1, 1.1) * (spec[4][u] + spec[4][v])))


def apply(obj, spec, op):
    m, args = op
    if spec[0] == "set":
        n = spec[2].shape[0]
        a, b = np.full(n, 5.5), np.full(n, -5.5)
        if m == "evaluate":
            obj.evaluate(args[0], a)
            return [a]
        obj.evaluate_derivs(args[0], a, b)
        return [a, b]
    r = getattr(obj, m)(*args)
    return r


def flat(res):
    if isinstance(res, (list, tuple)):
        return np.concatenate([np.atleast_1d(flat(x)) for x in res]) if len(res) and isinstance(res[0], (list, tuple, np.ndarray)) or \
            (isinstance(res, tuple)) else np.asarray(res, float)
    return np.atleast_1d(np.asarray(res, float))


def reference(spec, op):
    """-> (flat expected, flat scale), independent of the code under test"""
    k, (m, args) = spec[0], op
    if k in ("spline", "set"):
        f, g, sf, sg = hermite(spec[1], spec[2], spec[3], np.array([args[0]]))
        f, g, sf, sg = f[:, 0], g[:, 0], sf[:, 0], sg[:, 0]
        if m == "evaluate":
            return f, sf
        if m.endswith("divided"):
            return np.concatenate([f, g / args[0]]), np.concatenate([sf, sg / args[0]])
        return np.concatenate([f, g]), np.concatenate([sf, sg])
    if k == "mlp":
        X = np.array(args[0], float).reshape(-1, spec[1][0])
        Y, J, SY, SJ = mlp_ref(spec[1], spec[2], spec[3], X)
        if "gradient" in m:
            return np.concatenate([Y.ravel(), J.ravel()]), np.concatenate([SY.ravel(), SJ.ravel()])
        return Y.ravel(), SY.ravel()
    if k == "poly":
        X = np.array(args[0], float).reshape(-1, spec[1])
        f, g, sf, sg = poly_ref(spec[1], spec[2], spec[3], X)
        if m in ("evaluate", "evaluate_simple"):
            return f, 4 * sf
        return np.concatenate([f, g.ravel()]), 4 * np.concatenate([sf, sg.ravel()])
    if m.startswith("compute_env"):
        from .gen import envelope_ref
        f, g, sf, sg = envelope_ref(args[0], args[1], args[2])
        return (np.atleast_1d(float(g)), np.atleast_1d(float(sg))) if m.endswith("gradient") else (np.atleast_1d(float(f)), np.atleast_1d(float(sf)))
    E, G, sE, sG, _ = zbl_ref(spec[1:], args[0], args[1], args[2])
    return (np.atleast_1d(G), np.atleast_1d(sG)) if m.endswith("gradient") else (np.atleast_1d(E), np.atleast_1d(sE))


def near_op(rng, spec, op):
    """the call op again, or one that differs from it in one number or in its kind only"""
    m, a = op
    other, b = rand_op(rng, spec, batch=a[1] if "batch" in m else None)
    if rng.random() < .5:
        m2 = m
    else:
        m2 = other if len(b) == len(a) and ("batch" in other) == ("batch" in m) and other.startswith("compute_env") == m.startswith("compute_env") else m
    a = list(a)
    u = rng.random()
    if spec[0] in ("mlp", "poly") and a[0]:
        x = list(a[0])
        if u < .6:
            k = int(rng.integers(1, len(x) - 1)) if len(x) > 2 else int(rng.integers(len(x)))
            x[k] = float(rng.choice([-x[k], x[k] * 1.25, 0.5]))
        elif u < .7:
            x = x[::-1]
        a[0] = x
    elif spec[0] == "zbl" and u < .6 and not m2.startswith("compute_env"):
        if u < .3:
            a[0], a[1] = a[1], a[0]
        else:
            k = int(rng.integers(2))
            a[k] = a[k] % 118 + 1
    elif spec[0] in ("spline", "set") and u < .3:
        a[0] = a[0] * (1 - 1e-9)
    if m2.endswith("divided"):
        a[0] = max(a[0], spec[1] * 1e-6)
    return m2, tuple(a)
