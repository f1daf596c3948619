"""Shared pieces of the Kokkos checks: run-time choices of the stand-in, adapters to the Kokkos classes."""
import json
import os

import numpy as np

from . import evals


def mode(rng, threads=True):
    """one setting of everything a Kokkos backend may choose"""
    t = int(rng.choice([1, 1, 2, 3, 4])) if threads else 1
    m = dict(threads=t, team=int(rng.choice([1, 1, 2, 3, 4])) if threads else 1,
             order=str(rng.choice(["up", "down", "random"])), map=str(rng.choice(["stride", "block", "random"])),
             defer=int(rng.integers(2)), separate=int(rng.integers(2)), seed=int(rng.integers(1 << 30)))
    if rng.random() < .2:
        m = dict(threads=1, team=1, order="up", map="stride", defer=0, separate=0, seed=0)
    return m


def setting(m):
    return ",".join(f"{k}={v}" for k, v in m.items())


def use(ctx, m):
    os.environ["VKOKKOS"] = setting(m)
    ctx.desc["vkokkos"] = os.environ["VKOKKOS"]
    return tag(m)


def tag(m):
    return (min(m["threads"], 2), min(m["team"], 2), m["order"], m["defer"], m["separate"])


def start(vh=False):
    import symmetrix as S
    if not S._kokkos_is_initialized():
        S._init_kokkos()
    if vh:
        import vh as V
        V.init()
        return S, V
    return S


_stats = {}


def stats(ctx):
    """what the stand-in saw since the last call"""
    import ctypes
    import symmetrix.symmetrix as M
    if "f" not in _stats:
        f = ctypes.CDLL(M.__file__).vkokkos_stats
        f.restype = ctypes.c_char_p
        _stats["f"] = f
    d = json.loads(_stats["f"]())
    for k, v in d.items():
        if k != "labels" and v:
            ctx.event("kokkos " + k, v)
    return d


# ---------------------------------------------------------------- adapters
def construct(S, spec):
    k = spec[0]
    if k == "spline":
        return S.CubicSplineKokkos(spec[1], spec[2][0].tolist(), spec[3][0].tolist())
    if k == "set":
        return S.CubicSplineSetKokkos(spec[1], spec[2].tolist(), spec[3].tolist())
    if k == "mlp":
        return S.MultilayerPerceptronKokkos(spec[1], [w.ravel().tolist() for w in spec[2]], spec[3])
    if k == "poly":
        return S.MultivariatePolynomialKokkos(spec[1], spec[2], spec[3])
    return S.ZBLKokkos(spec[1], spec[2], list(spec[3]), list(spec[4]), spec[5])


def rand_op(rng, spec):
    m, args = evals.rand_op(rng, spec)
    if spec[0] == "mlp":
        m = str(rng.choice(["evaluate_batch", "evaluate_gradient_batch"]))
        b = 0 if rng.random() < .08 else int(rng.integers(1, 8)) if rng.random() < .7 else int(rng.integers(1, 70))
        return m, (rng.standard_normal((b, spec[1][0])).clip(-3, 3).ravel().tolist(), b)
    if spec[0] == "poly" and m == "evaluate_batch":
        return "evaluate_gradient", (rng.standard_normal(spec[1]).tolist(),)
    return m, args


def near_op(rng, spec, op):
    """op again, or with one number changed"""
    m, args = op
    if spec[0] == "mlp":
        x = list(args[0])
        if x and rng.random() < .7:
            k = int(rng.integers(len(x)))
            x[k] = float(rng.choice([-x[k], x[k] * 1.25, .5]))
        return (m if rng.random() < .5 else str(rng.choice(["evaluate_batch", "evaluate_gradient_batch"]))), (x, args[1])
    m2, a2 = evals.near_op(rng, spec, op)
    return (m, a2) if m2 == "evaluate_batch" else (m2, a2)


def apply(obj, spec, op):
    """-> flat results in the order of reference()"""
    m, args = op
    if spec[0] == "mlp":
        x = np.array(args[0], float).reshape(args[1], spec[1][0])
        f = np.full(args[1], 3.5)
        if "gradient" in m:
            g = np.full((args[1], spec[1][0]), -3.5)
            obj.evaluate_gradient(x, f, g)
            return np.concatenate([f, g.ravel()])
        obj.evaluate(x, f)
        return f
    if spec[0] == "poly":
        x = np.array(args[0], float)
        if "gradient" in m:
            g = np.full(spec[1], 7.5)
            f = getattr(obj, m)(x, g)
            return np.concatenate([[f], g])
        return np.array([getattr(obj, m)(x)])
    return evals.flat(evals.apply(obj, spec, op))


def reference(spec, op):
    if spec[0] == "mlp":
        m, (x, b) = op
        X = np.array(x, float).reshape(b, spec[1][0])
        from .gen import mlp_ref
        Y, J, SY, SJ = mlp_ref(spec[1], spec[2], spec[3], X)
        if "gradient" in m:
            return np.concatenate([Y[:, 0], J[:, 0].ravel()]), np.concatenate([SY[:, 0], SJ[:, 0].ravel()])
        return Y[:, 0], SY[:, 0]
    return evals.reference(spec, op)
