"""The MACE potential returns the energy its model file defines."""
import numpy as np
from vlib import macegen as G, mc
from vlib.runner import Job

LEVEL = "exploration"
TECHNIQUE = "differential monitor: every per-atom energy compared with an independent evaluation of the model file"
RULE = ("random model files (1..4, 7 or 11 elements in any order, 1..8 or 16..128 channels, l_max 0..3, L_max 0..2, with and without density scaling and repulsion, equivariant or arbitrary "
        "polynomials and radial tables) evaluated on random neighbour lists (clusters, crystals, self images, one-sided lists, isolated atoms, no atoms at all); every per-atom energy "
        "compared with an independent numpy evaluation of the file; non-trivial = distinct (model shape, list shape) pairs")
ASSUMPTIONS = ["sphericart is replaced by a stand-in with its documented conventions (real harmonics, order l*l+l+m, normalised by the vector length)",
               "allowed error 1e-11 of the largest intermediate quantity"]
MIN_DISTINCT = 150
FACTOR = 4


def jobs(tier):
    k = 1 if tier == "quick" else 20
    return [Job("energies", part="mace", n=640 * k), Job("variants", part="mace", n=240 * k), Job("wide", part="mace", n=20 * k), Job("energies", part="mace", flavour="asan", n=48 * k)]


def compare(ctx, S, m, ev, L):
    ctx.desc = mc.describe(m, L)
    want, size = mc.ref(m, L)
    got, _ = mc.run(ctx, ev, L)
    ctx.close(got, want, size, "energy", tol=mc.TIGHT)
    iso = np.array(L.num_neigh, int) == 0
    if iso.any():
        lone = m.reference([0], [0], [], np.zeros((0, 3)))[0]
        ctx.event("isolated energies compared", int(iso.sum()))
        t = np.array(L.types)[iso]
        one = np.array([m.reference([q], [0], [], np.zeros((0, 3)))[0] for q in t])
        ctx.close(got[iso], one, size, "isolated-energy", tol=mc.TIGHT)
    if len(got):
        ctx.peak("energy error / size", float(np.abs(got - want).max() / size))
    ctx.seen(*mc.shape_of(m, L))
    ctx.sample(dict(ctx.desc, energy=float(got.sum()), reference=float(np.sum(want))))


def energies(ctx, i):
    import symmetrix as S
    rng = ctx.rng
    m = G.Model(rng, symmetric=bool(rng.random() < .5))
    ev = mc.load(ctx, S, m)
    ctx.true([int(z) for z in ev.atomic_numbers] == m.Z and ev.r_cut == m.r_cut, "model data", "atomic numbers or cutoff differ from the file")
    for _ in range(3):
        compare(ctx, S, m, ev, mc.any_lists(rng, m))


def variants(ctx, i):
    import symmetrix as S
    v = mc.VARIANTS[i % len(mc.VARIANTS)]
    m = G.Model(ctx.rng, symmetric=bool((i // len(mc.VARIANTS)) % 2), **v)
    compare(ctx, S, m, mc.load(ctx, S, m), mc.any_lists(ctx.rng, m))
    ctx.event(f"l_max={m.l_max} L_max={m.L_max}")


def wide(ctx, i):
    import symmetrix as S
    m, L = mc.wide(ctx.rng, i)
    compare(ctx, S, m, mc.load(ctx, S, m), L)
    ctx.seen("wide", i % len(mc.WIDE), m.L_max, L.n > 20, max(L.num_neigh, default=0) > 32)
