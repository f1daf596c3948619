"""The perceptron computes its defined layered function, one by one or in batch."""
import numpy as np
from vlib.gen import mlp_random, mlp_ref, batch_sizes
from vlib.runner import Job

LEVEL = "exploration"
RULE = ("random networks (2..6 layers, widths 1..70, 1..n outputs, sparse and dense weights, scales of both signs and zero), inputs of "
        "mixed size and sign incl. zeros and saturating ones, every batch size 1..260 at least once; non-trivial = distinct "
        "(shape, scale sign, batch size) with non-zero output")
ASSUMPTIONS = ["weights and inputs are finite (the project compiles with -ffast-math)",
               "reference computed layer by layer in 80-bit arithmetic"]
MIN_DISTINCT = 200


def jobs(tier):
    k = 1 if tier == "quick" else 12
    return [Job("net", n=1600 * k), Job("sweep", n=260, args={}), Job("wide", n=24 * k),
            Job("net", flavour="asan", n=160 * k, chunks=4)]


def inputs(rng, b, n):
    u = rng.random()
    X = rng.standard_normal((b, n))
    if u < 0.25:
        X *= 10.0 ** rng.uniform(-6, 1.5, (b, 1))
    elif u < 0.4:
        X = np.where(rng.random((b, n)) < 0.5, 0.0, X)
    elif u < 0.5:
        X *= 30
    return X


def bounded(rng, shape, w, X):
    """scale the input down so that few units are far in saturation, most of the time"""
    if rng.random() < .07:
        return X * 10 ** rng.uniform(1, 5)
    m = np.max(np.abs(X)) if X.size else 0
    for W in w:
        m = m * np.max(np.abs(W).sum(axis=1)) * 10
    return X if m < 600 else X * (600 / m) if m < 1e6 else X * 1e-3 * (600 / m) ** 0.5


def check_net(ctx, shape, w, scale, X, bsz):
    import symmetrix as S
    ctx.desc = dict(shape=shape, scale=scale, batch=bsz)
    net = ctx.call(S.MultilayerPerceptron, shape, [x.ravel().tolist() for x in w], scale, what="MultilayerPerceptron")
    Y, J, SY, SJ = mlp_ref(shape, w, scale, X)
    one = np.array([ctx.call(net.evaluate, x.tolist(), what="evaluate") for x in X[:6]])
    ctx.close(one, Y[:6], SY[:6], "value")
    for x, y, s in zip(X[:3], Y, SY):
        ctx.close(ctx.call(net.evaluate_gradient, x.tolist(), what="evaluate_gradient")[0], y, s, "value-with-gradient")
    got = ctx.call(net.evaluate_batch, X.ravel().tolist(), len(X), what="evaluate_batch")
    ctx.close(got, Y.ravel(), SY.ravel(), "batch-value")
    got = ctx.call(net.evaluate_gradient_batch, X.ravel().tolist(), len(X), what="evaluate_gradient_batch")[0]
    ctx.close(got, Y.ravel(), SY.ravel(), "batch-value-with-gradient")
    # and once more single, after the batch
    q = len(X) - 1
    ctx.close(ctx.call(net.evaluate, X[q].tolist(), what="evaluate"), Y[q], SY[q], "value-after-batch")
    # a smaller batch after a larger one, in another order
    k = int(ctx.rng.integers(0, len(X)))
    sel = ctx.rng.permutation(len(X))[:k]
    for f in (net.evaluate_batch, net.evaluate_gradient_batch) if ctx.rng.random() < .5 else (net.evaluate_gradient_batch, net.evaluate_batch):
        got = ctx.call(f, X[sel].ravel().tolist(), k, what="smaller batch")
        ctx.close(got[0] if isinstance(got, tuple) else got, Y[sel].ravel(), SY[sel].ravel(), "smaller-batch-value")
    ctx.event("inputs evaluated", 2 * len(X) + 10 + 2 * k)
    if np.any(Y != 0):
        ctx.seen(tuple(shape), np.sign(scale), bsz)
    ctx.sample(dict(shape=shape, scale=scale, batch=len(X), input=X[0][:4].tolist(), output=Y[0][:4].tolist()))


def net(ctx, i):
    rng = ctx.rng
    shape, w, scale = mlp_random(rng, big=bool(rng.random() < 0.2))
    b = batch_sizes(rng) if rng.random() < 0.5 else int(rng.integers(1, 12))
    X = bounded(rng, shape, w, inputs(rng, b, shape[0]))
    check_net(ctx, shape, w, scale, X, b)


def sweep(ctx, i):
    """every batch size from 1 to 260"""
    rng = ctx.rng
    shape, w, scale = mlp_random(rng, max_layers=4)
    X = bounded(rng, shape, w, inputs(rng, i + 1, shape[0]))
    ctx.event("distinct batch sizes swept")
    check_net(ctx, shape, w, scale, X, i + 1)


def wide(ctx, i):
    rng = ctx.rng
    n = int(rng.choice([96, 127, 128, 129, 200, 256, 257, 300]))
    shape = [n, int(rng.choice([16, 64, 65, 130])), 1 + int(rng.integers(3))] if rng.random() < .5 else \
        [int(rng.integers(1, 9)), n, int(rng.integers(1, 70)), int(rng.choice([1, 2, 33]))]
    w = [rng.standard_normal((shape[l + 1], shape[l])) / np.sqrt(shape[l]) for l in range(len(shape) - 1)]
    check_net(ctx, shape, w, 1.679, inputs(rng, int(rng.integers(1, 40)), shape[0]).clip(-5, 5), -1)
