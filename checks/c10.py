"""Evaluations depend only on the object and the arguments, not on call history."""
import copy
import numpy as np
from vlib import evals
from vlib.runner import Job

LEVEL = "exploration"
RULE = ("random interleaved call histories (30..80 events) over up to 8 live objects of 5 kinds: create, destroy, replace by one that differs in a few numbers, single/gradient/batch calls with "
        "growing, shrinking and empty batches, calls that differ from an earlier one in one number, rejected calls; the recorded event log is then replayed call by call on fresh objects and compared, and "
        "each event also with the reference model; non-trivial = distinct (object kind, previous method+batch, method+batch) transitions")
ASSUMPTIONS = ["comparison with the fresh object is bitwise in the strict (sanitizer) build and to 1e-13 of the term scale in the release build, where BLAS may "
               "order sums by buffer alignment"]
MIN_DISTINCT = 300


def jobs(tier):
    k = 1 if tier == "quick" else 12
    return [Job("history", n=480 * k), Job("batch_walk", n=240 * k), Job("copies", n=200 * k, vh=True),
            Job("history", flavour="asan", n=96 * k), Job("batch_walk", flavour="asan", n=48 * k), Job("copies", flavour="asan", n=40 * k, vh=True, chunks=4)]


def strict():
    import os
    return "libasan" in os.environ.get("LD_PRELOAD", "")


def verify_log(ctx, S, log, rng):
    """offline checker: every recorded event, alone on a fresh object, must give the recorded result"""
    order = rng.permutation(len(log))
    for q in order:
        spec, op, res, snap = log[q]
        ctx.desc = dict(kind=spec[0], op=op[0], event=int(q), shape=str(spec[1])[:80])
        ctx.same(evals.flat(res), snap, "an earlier result changed afterwards")
        fresh = evals.construct(S, spec)
        again = evals.flat(evals.apply(fresh, spec, op))
        want, scale = evals.reference(spec, op)
        if strict():
            ctx.same(again, snap, f"history-dependent:{spec[0]}.{op[0]}", "result on a fresh object differs")
        else:
            ctx.close(snap, again, scale + np.abs(again), f"history-dependent:{spec[0]}.{op[0]}", tol=1e-13)
        ctx.close(snap, want, scale, f"wrong-in-history:{spec[0]}.{op[0]}")
        ctx.event("events replayed on fresh objects")


def record(ctx, objs, spec, obj, op, log):
    args0 = copy.deepcopy(op[1])
    res = ctx.call(evals.apply, obj, spec, op, what=f"{spec[0]}.{op[0]}")
    ctx.true(op[1] == args0, "arguments modified")
    log.append((spec, op, res, evals.flat(res).copy()))
    ctx.event("events")


def bclass(op):
    return op[0] + (str(min(op[1][1], 9)) if len(op[1]) > 1 and isinstance(op[1][1], int) and "batch" in op[0] else "")


def history(ctx, i):
    import symmetrix as S
    rng = ctx.rng
    objs, log, last, past = [], [], {}, {}
    twin = rng.random() < .5
    for step in range(int(rng.integers(30, 80))):
        u = rng.random()
        if not objs or (u < .12 and len(objs) < 8):
            spec = evals.make_spec(rng) if not (twin and objs and rng.random() < .5) else objs[rng.integers(len(objs))][0]
            if twin and objs and rng.random() < .4:
                spec = evals.sibling(rng, objs[rng.integers(len(objs))][0])
            ctx.desc = dict(kind=spec[0])
            objs.append((spec, ctx.call(evals.construct, S, spec, what="construct " + spec[0])))
            continue
        q = int(rng.integers(len(objs)))
        spec, obj = objs[q]
        if u < .15:         # replaced by one of the same sizes, which may come to lie at the same address; then the same call again
            op = past.get(id(spec), (0, None))[1] or evals.rand_op(rng, spec)
            record(ctx, objs, spec, obj, op, log)
            spec = evals.sibling(rng, spec)
            objs[q] = obj = None
            objs[q] = spec, ctx.call(evals.construct, S, spec, what="construct " + spec[0])
            record(ctx, objs, spec, objs[q][1], op, log)
            past[id(spec)] = spec, op
            ctx.event("objects replaced")
            ctx.seen("replaced", spec[0], op[0])
            continue
        if u < .17 and len(objs) > 1:
            objs.pop(q)
            last = {}
            ctx.event("objects destroyed")
            continue
        if u < .24:
            reject(ctx, rng, spec, obj)
            continue
        op = evals.near_op(rng, spec, past[id(spec)][1]) if id(spec) in past and rng.random() < .4 else evals.rand_op(rng, spec)
        past[id(spec)] = spec, op      # keeps the spec alive: its id stays its own
        record(ctx, objs, spec, obj, op, log)
        k = (spec[0], last.get(q), bclass(op))
        ctx.seen(*k)
        last[q] = bclass(op)
    verify_log(ctx, S, log, rng)
    ctx.sample([f"{s[0]}.{bclass(o)}" for s, o, _, _ in log[:12]])


def reject(ctx, rng, spec, obj):
    """a call that fails; must not disturb anything (checked by the log)"""
    try:
        if spec[0] == "spline":
            obj.evaluate(float(spec[1] * spec[2].shape[1] * rng.uniform(1, 3)))
        elif spec[0] == "set":
            n = spec[2].shape[0]
            obj.evaluate_derivs(float(-spec[1] * rng.uniform(.1, 3)), np.zeros(n), np.zeros(n))
        elif spec[0] in ("mlp", "poly"):
            obj.evaluate("not numbers")
        else:
            obj.compute(1, 2)
    except (ValueError, TypeError):
        ctx.event("rejected calls")
        return
    ctx.fail("accepted", f"bad call on {spec[0]} accepted")


def batch_walk(ctx, i):
    """one perceptron and one polynomial walked through growing and shrinking batch sizes, including zero"""
    import symmetrix as S
    rng = ctx.rng
    log = []
    for kind in ("mlp", "poly"):
        spec = evals.make_spec(rng, kind)
        obj = ctx.call(evals.construct, S, spec, what="construct")
        b, prev = int(rng.integers(1, 40)), None
        for step in range(14):
            b = int(rng.choice([0, 1, 1, 2, b + 1, max(0, b - 1), 2 * b + 1, b // 2, int(rng.integers(1, 150))]))
            b = min(b, 300)
            op = evals.rand_op(rng, spec, batch=b)
            record(ctx, None, spec, obj, op, log)
            ctx.seen(kind, prev, bclass(op))
            prev = bclass(op)
    verify_log(ctx, S, log, rng)


def copies(ctx, i):
    """value semantics of copies at the C++ level"""
    import vh
    rng = ctx.rng
    sp = evals.make_spec(rng, "mlp")
    x, y = rng.standard_normal(sp[1][0]).tolist(), rng.standard_normal(sp[1][0]).tolist()
    r = ctx.call(vh.mlp_copies, sp[1], [w.ravel().tolist() for w in sp[2]], sp[3], x, y, what="mlp copies")
    wx, sx = evals.reference(sp, ("evaluate", (x,)))
    wy, sy = evals.reference(sp, ("evaluate_gradient", (y,)))
    for q, (w, s) in zip(r, [(wx, sx), (wy, sy), (wx, sx), (wy, sy), (wy, sy)]):
        ctx.close(evals.flat(q), w, s, "copy-interferes:mlp")
    sp = evals.make_spec(rng, "poly")
    x, y = rng.standard_normal(sp[1]).tolist(), rng.standard_normal(sp[1]).tolist()
    r = ctx.call(vh.poly_copies, sp[1], sp[2], sp[3], x, y, what="poly copies")
    wx, sx = evals.reference(sp, ("evaluate_gradient", (x,)))
    wy, sy = evals.reference(sp, ("evaluate_gradient", (y,)))
    for q, (w, s) in zip(r, [(wx, sx), (wy, sy), (wx, sx), (wy, sy), (wy, sy)]):
        ctx.close(evals.flat(q), w, s, "copy-interferes:poly")
    ctx.event("copied objects exercised", 6)
    ctx.seen("copies", tuple(map(len, sp[3][:4])), sp[1])
