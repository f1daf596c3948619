"""A MACE object gives the same answer whatever it computed before."""
import numpy as np
from vlib import macegen as G, mc
from vlib.runner import Job

LEVEL = "exploration"
TECHNIQUE = "offline checker over recorded evaluation histories, each event replayed on a fresh object"
RULE = ("histories of 8..16 evaluations on one to three live MACE objects (same or different files), with growing, shrinking, empty and isolated structures, changing composition, structures that differ from the previous one in a single vector, type or index, one-call and "
        "stage-by-stage evaluations mixed, and evaluations cut short after a random stage; every recorded result is compared with a fresh object's and with the independent energy; non-trivial = "
        "distinct (previous evaluation class, this evaluation class, way of evaluation)")
ASSUMPTIONS = ["stage-by-stage evaluation calls the stages in the order and with the flags of the one-call evaluation; the pair repulsion has no stage of its own in the Python interface, so staged "
               "runs use models without it"]
MIN_DISTINCT = 60
FACTOR = 2


def jobs(tier):
    k = 1 if tier == "quick" else 20
    return [Job("history", part="mace", n=120 * k), Job("staged", part="mace", n=160 * k), Job("wide", part="mace", n=10 * k), Job("history", part="mace", flavour="asan", n=24 * k), Job("staged", part="mace", flavour="asan", n=24 * k)]


def cls(L):
    b = lambda n: 0 if n == 0 else 1 if n == 1 else 2 if n < 6 else 3 if n < 20 else 4
    return b(L.n), b(len(L.idx)), 0 in L.num_neigh


def stages(ev, m, L, stop=None):
    """the published stages in the order of the one-call evaluation; stop: how many of them to run"""
    n, t, nn, idx, nt, xyz, r = L.args()
    ev.node_energies = np.zeros(n)
    ev.node_forces = np.zeros(len(xyz))
    todo = [lambda: ev.compute_Y(xyz), lambda: ev.compute_R0(n, t, nn, nt, r), lambda: ev.compute_A0(n, t, nn, nt), lambda: ev.compute_A0_scaled(n, t, nn, nt, r),
            lambda: ev.compute_M0(n, t), lambda: ev.compute_H1(n), lambda: ev.compute_R1(n, t, nn, nt, r), lambda: ev.compute_Phi1(n, nn, idx), lambda: ev.compute_A1(n),
            lambda: ev.compute_A1_scaled(n, t, nn, nt, r), lambda: ev.compute_M1(n, t), lambda: ev.compute_H2(n, t), lambda: ev.compute_readouts(n, t),
            lambda: ev.reverse_H2(n, t, False), lambda: ev.reverse_M1(n, t), lambda: ev.reverse_A1_scaled(n, t, nn, nt, xyz, r), lambda: ev.reverse_A1(n),
            lambda: ev.reverse_Phi1(n, nn, idx, xyz, r, False, False), lambda: ev.reverse_H1(n), lambda: ev.reverse_M0(n, t),
            lambda: ev.reverse_A0_scaled(n, t, nn, nt, xyz, r), lambda: ev.reverse_A0(n, t, nn, nt, xyz, r)]
    for q in todo[:stop]:
        q()


def structure(rng, m):
    u = rng.random()
    if u < .1:
        return G.Lists([], [], [], np.zeros((0, 3)))
    if u < .3:
        return G.random_lists(rng, m, n=int(rng.integers(1, 3)), max_neigh=2)
    if u < .5:
        return G.random_lists(rng, m, n=int(rng.integers(10, 30)), max_neigh=9)
    return mc.any_lists(rng, m)


def history(ctx, i):
    import symmetrix as S
    rng = ctx.rng
    models = [G.Model(rng, symmetric=bool(rng.random() < .5)) for _ in range(int(rng.integers(1, 3)))]
    objs = [(m, mc.load(ctx, S, m)) for m in models]
    objs.append((models[0], mc.load(ctx, S, models[0])))
    log, prev, past = [], {}, {}
    for step in range(int(rng.integers(8, 17))):
        k = int(rng.integers(len(objs)))
        m, ev = objs[k]
        L = mc.near(rng, m, past[id(m)]) if id(m) in past and rng.random() < .45 else structure(rng, m)
        past[id(m)] = L
        ctx.desc = dict(mc.describe(m, L), step=step)
        how = "call"
        if not m.has_zbl and rng.random() < .3:
            how = "stages"
            if rng.random() < .4:
                ctx.call(stages, ev, m, L, int(rng.integers(1, 22)), what="stages")
                ctx.event("evaluations cut short")
                prev[k] = ("cut", cls(L))
                continue
            ctx.call(stages, ev, m, L, what="stages")
            e, f = np.array(ev.node_energies, float), np.array(ev.node_forces, float).reshape(-1, 3)
            ctx.event("staged evaluations")
        else:
            e, f = mc.run(ctx, ev, L)
        log.append((m, L, how, e, f, step))
        ctx.seen(prev.get(k), cls(L), how)
        prev[k] = (how, cls(L))
        if rng.random() < .08 and len(objs) > 1:
            objs.pop(k)
            prev = {}
            ctx.event("objects destroyed")
    for m, L, how, e, f, step in log:
        ctx.desc = dict(mc.describe(m, L), step=step, how=how)
        e2, f2 = mc.run(ctx, mc.load(ctx, S, m), L)
        want, size = mc.ref(m, L)
        sc = mc.fscale(m, L, size)
        if mc.strict() and how == "call":
            ctx.same(e, e2, "history-dependent energies")
            ctx.same(f, f2, "history-dependent forces")
        ctx.close(e, e2, size, "history-dependent energies", tol=1e-12)
        ctx.close(f, f2, sc, "history-dependent forces", tol=1e-12)
        ctx.close(e, want, size, "wrong energies in a history", tol=mc.TIGHT)
        ctx.event("results compared with a fresh object")
    ctx.sample([(how, L.n, len(L.idx)) for _, L, how, _, _, _ in log])


def wide(ctx, i):
    """large models and lists after small ones and back"""
    import symmetrix as S
    rng = ctx.rng
    m, L = mc.wide(rng, i)
    ev = mc.load(ctx, S, m)
    fresh = mc.load(ctx, S, m)
    few = G.random_lists(rng, m, n=2, max_neigh=3)
    want = {}
    for q in (0, 1, 2, 1, 0):
        l = (few, L, mc.near(rng, m, L))[q]
        ctx.desc = mc.describe(m, l)
        e, f = mc.run(ctx, ev, l)
        w, size = mc.ref(m, l)
        ctx.close(e, w, size, "energies in a history", tol=mc.TIGHT)
        e2, f2 = want[q] if q in want else mc.run(ctx, fresh if q == 0 else mc.load(ctx, S, m), l) if q < 2 else (e, f)
        want[q] = e2, f2
        ctx.close(e, e2, size, "history-dependent energies", tol=1e-12)
        ctx.close(f, f2, mc.fscale(m, l, size), "history-dependent forces", tol=1e-12)
    ctx.event("large structures between small ones")
    ctx.seen("wide", i % len(mc.WIDE), m.L_max)


def staged(ctx, i):
    """one call and stages agree on the same object, in either order"""
    import symmetrix as S
    rng = ctx.rng
    v = dict(mc.VARIANTS[i % len(mc.VARIANTS)], zbl=False)
    m = G.Model(rng, symmetric=bool(rng.random() < .5), **v)
    ev = mc.load(ctx, S, m)
    last = L = None
    for _ in range(4):
        L = mc.near(rng, m, L) if L is not None and rng.random() < .4 else structure(rng, m)
        ctx.desc = mc.describe(m, L)
        order = ["call", "stages"] if rng.random() < .5 else ["stages", "call"]
        res = {}
        for how in order:
            if how == "call":
                res[how] = mc.run(ctx, ev, L)
            else:
                ctx.call(stages, ev, m, L, what="stages")
                res[how] = np.array(ev.node_energies, float), np.array(ev.node_forces, float).reshape(-1, 3)
        _, size = mc.ref(m, L)
        ctx.close(res["stages"][0], res["call"][0], size, "stages and one call differ: energies", tol=1e-12)
        ctx.close(res["stages"][1], res["call"][1], mc.fscale(m, L, size), "stages and one call differ: forces", tol=1e-12)
        ctx.event("staged evaluations")
        ctx.seen("staged", last, cls(L), order[0], m.l_max, m.L_max, m.scaled)
        last = cls(L)
