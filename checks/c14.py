"""MACE forces are exactly minus the derivative of the MACE energy."""
import numpy as np
from vlib import macegen as G, mc
from vlib.runner import Job

LEVEL = "exploration"
TECHNIQUE = "differential monitor: reported pair forces against complex-step derivatives of an independent energy, plus conservation of momentum"
RULE = ("random model files and neighbour lists as in C13; the reported pair forces, contracted with dense random directions and with single-neighbour directions, compared with the complex-step "
        "derivative (exact to rounding) of the independently evaluated energy; the pair forces also against central differences of the real code's own energy; atomic forces assembled from "
        "symmetric lists sum to zero and equal minus the position gradient; non-trivial = distinct (model shape, list shape) pairs")
ASSUMPTIONS = ["allowed error 1e-11 of the term size over the smallest length in the problem (table spacing, shortest distance)"]
MIN_DISTINCT = 150
FACTOR = 4


def jobs(tier):
    k = 1 if tier == "quick" else 20
    return [Job("slopes", part="mace", n=520 * k), Job("variants", part="mace", n=160 * k), Job("wide", part="mace", n=20 * k), Job("self_consistent", part="mace", n=160 * k),
            Job("slopes", part="mace", flavour="asan", n=40 * k)]


def compare(ctx, m, ev, L, singles=3):
    rng = ctx.rng
    ctx.desc = mc.describe(m, L)
    _, size = mc.ref(m, L)
    _, f = mc.run(ctx, ev, L)
    E = len(L.idx)
    sc = mc.fscale(m, L, size)
    ctx.true(bool(np.isfinite(f).all()), "force-not-finite")
    for q in range(2 + singles):
        d = rng.standard_normal((E, 3))
        if q >= 2:
            if not E:
                break
            e = int(rng.integers(E))
            d[np.arange(E) != e] = 0
        ctx.close((f * d).sum(), -mc.slope(m, L, d), sc * max(1.0, np.sqrt(E)), "force", tol=mc.TIGHT)
        ctx.event("directional derivatives")
    ctx.seen(*mc.shape_of(m, L))
    return f, sc


def slopes(ctx, i):
    import symmetrix as S
    m = G.Model(ctx.rng, symmetric=bool(ctx.rng.random() < .5))
    ev = mc.load(ctx, S, m)
    for _ in range(2):
        compare(ctx, m, ev, mc.any_lists(ctx.rng, m))
    ctx.sample(ctx.desc)


def variants(ctx, i):
    import symmetrix as S
    m = G.Model(ctx.rng, symmetric=bool((i // len(mc.VARIANTS)) % 2), **mc.VARIANTS[i % len(mc.VARIANTS)])
    ev = mc.load(ctx, S, m)
    t, p = G.cluster(ctx.rng, m, n=int(ctx.rng.integers(2, 8)))
    L = G.build_lists(t, p, m.r_cut)
    f, sc = compare(ctx, m, ev, L)
    F = G.atom_forces(L, f)
    # assembled: minus the gradient with respect to positions, total zero
    ctx.close(F.sum(0), np.zeros(3), sc * np.sqrt(max(1, len(L.idx))), "forces-do-not-cancel", tol=mc.TIGHT)
    D = ctx.rng.standard_normal(p.shape)
    d = D[L.idx] - D[L.i] if len(L.idx) else np.zeros((0, 3))
    ctx.close((F * D).sum(), -mc.slope(m, L, d), sc * np.sqrt(max(1, len(L.idx))), "atomic-force", tol=mc.TIGHT)


def wide(ctx, i):
    import symmetrix as S
    m, L = mc.wide(ctx.rng, i)
    compare(ctx, m, mc.load(ctx, S, m), L, singles=1)


def self_consistent(ctx, i):
    """forces against differences of the code's own energies, independent of the reference"""
    import symmetrix as S
    rng = ctx.rng
    m = G.Model(rng, symmetric=bool(rng.random() < .5), nodes=24, r_cut=4.0, small=True)
    ev = mc.load(ctx, S, m)
    L = G.random_lists(rng, m, n=int(rng.integers(1, 6)), max_neigh=5, rmin=.8)
    if not len(L.idx):
        return
    ctx.desc = mc.describe(m, L)
    _, f = mc.run(ctx, ev, L)
    _, size = mc.ref(m, L)
    for _ in range(3):
        d = rng.standard_normal(L.xyz.shape)
        d /= np.abs(d).max()
        # keep every distance inside its table interval, so that the energy is smooth along the path
        fr = L.r / m.h - np.floor(L.r / m.h)
        room = m.h * np.minimum(fr, 1 - fr)
        ok = room > 1e-3
        d[~ok] = 0
        def E(t):
            return mc.run(ctx, ev, G.Lists(L.types, L.num_neigh, L.idx, L.xyz + t * d))[0].sum()
        h = 2e-4
        num = (8 * (E(h) - E(-h)) - (E(2 * h) - E(-2 * h))) / (12 * h)
        sc = size * np.sqrt(len(L.idx)) * 10
        ctx.close((f * d).sum(), -num, sc, "force-vs-own-energy", tol=1e-7)
        ctx.event("own-energy differences")
    ctx.seen("own", *mc.shape_of(m, L))
