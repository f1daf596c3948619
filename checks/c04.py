"""Perceptron gradients are the exact Jacobian of the computed function."""
import numpy as np
from vlib.gen import mlp_random, mlp_ref, batch_sizes
from vlib.runner import Job
from checks.c03 import inputs, bounded

LEVEL = "exploration"
RULE = ("random networks as in C03; the full Jacobian (all outputs by all inputs) of every input compared with an independent 80-bit "
        "forward-mode derivative, single and batched, plus a complex-step-free finite-difference cross-check on a sample; every batch size "
        "1..260; non-trivial = distinct (shape, scale sign, batch size) with a non-zero Jacobian")
ASSUMPTIONS = ["weights and inputs are finite (the project compiles with -ffast-math)"]
MIN_DISTINCT = 200


def jobs(tier):
    k = 1 if tier == "quick" else 12
    return [Job("net", n=1600 * k), Job("sweep", n=260), Job("wide", n=24 * k), Job("fd", n=80 * k),
            Job("net", flavour="asan", n=160 * k, chunks=4)]


def check_net(ctx, shape, w, scale, X, b):
    import symmetrix as S
    ctx.desc = dict(shape=shape, scale=scale, batch=b)
    net = ctx.call(S.MultilayerPerceptron, shape, [x.ravel().tolist() for x in w], scale, what="MultilayerPerceptron")
    Y, J, SY, SJ = mlp_ref(shape, w, scale, X)
    for x, j, s in list(zip(X, J, SJ))[:5]:
        g = ctx.call(net.evaluate_gradient, x.tolist(), what="evaluate_gradient")[1]
        ctx.close(g, j.ravel(), s.ravel(), "jacobian")
    g = ctx.call(net.evaluate_gradient_batch, X.ravel().tolist(), len(X), what="evaluate_gradient_batch")[1]
    ctx.close(g, J.ravel(), SJ.ravel(), "batch-jacobian")
    x, j, s = X[-1], J[-1], SJ[-1]
    g = ctx.call(net.evaluate_gradient, x.tolist(), what="evaluate_gradient")[1]
    ctx.close(g, j.ravel(), s.ravel(), "jacobian-after-batch")
    k = int(ctx.rng.integers(0, len(X)))
    sel = ctx.rng.permutation(len(X))[:k]
    g = ctx.call(net.evaluate_gradient_batch, X[sel].ravel().tolist(), k, what="smaller batch")[1]
    ctx.close(g, J[sel].ravel(), SJ[sel].ravel(), "smaller-batch-jacobian")
    ctx.event("jacobians compared", len(X) + 6 + k)
    ctx.event("jacobian entries compared", int(J.size))
    if np.any(J != 0):
        ctx.seen(tuple(shape), np.sign(scale), b)
    ctx.sample(dict(shape=shape, scale=scale, batch=len(X), jacobian_row=J[0][0][:4].tolist()))
    return net, Y, J


def net(ctx, i):
    rng = ctx.rng
    shape, w, scale = mlp_random(rng, big=bool(rng.random() < 0.2))
    b = batch_sizes(rng) if rng.random() < 0.5 else int(rng.integers(1, 12))
    check_net(ctx, shape, w, scale, bounded(rng, shape, w, inputs(rng, b, shape[0])), b)


def sweep(ctx, i):
    rng = ctx.rng
    shape, w, scale = mlp_random(rng, max_layers=4)
    ctx.event("distinct batch sizes swept")
    check_net(ctx, shape, w, scale, bounded(rng, shape, w, inputs(rng, i + 1, shape[0])), i + 1)


def wide(ctx, i):
    rng = ctx.rng
    n = int(rng.choice([96, 127, 128, 129, 200, 256]))
    shape = [n, int(rng.choice([16, 64, 65])), 1 + int(rng.integers(3))] if rng.random() < .5 else \
        [int(rng.integers(1, 9)), n, int(rng.integers(1, 70)), int(rng.choice([1, 2, 33]))]
    w = [rng.standard_normal((shape[l + 1], shape[l])) / np.sqrt(shape[l]) for l in range(len(shape) - 1)]
    check_net(ctx, shape, w, 1.679, inputs(rng, int(rng.integers(1, 10)), shape[0]).clip(-5, 5), -1)


def fd(ctx, i):
    """the gradient belongs to the function the object itself computes"""
    rng = ctx.rng
    shape, w, scale = mlp_random(rng)
    X = np.clip(bounded(rng, shape, w, rng.standard_normal((2, shape[0]))), -3, 3)
    net, Y, J = check_net(ctx, shape, w, scale, X, 2)
    e = 1e-4
    for k in range(shape[0]):
        def f(t):
            x = X[0].copy(); x[k] += t
            return np.array(ctx.call(net.evaluate, x.tolist(), what="evaluate"))
        d = (8 * (f(e) - f(-e)) - (f(2 * e) - f(-2 * e))) / (12 * e)
        amp = np.max(np.abs(Y[0])) + np.max(np.abs(J[0])) + np.prod([np.abs(x).sum(axis=1).max() * (1.2 * abs(scale) + 1) for x in w])
        ctx.close(d, J[0][:, k], amp, "finite-difference", tol=1e-5)
    ctx.event("finite-difference columns", shape[0])
