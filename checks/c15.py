"""Energies are invariant and forces covariant under E(3) and atom exchange."""
import numpy as np
from vlib import macegen as G, mc
from vlib.runner import Job

LEVEL = "exploration"
TECHNIQUE = "metamorphic monitor: the real evaluator against itself on transformed structures"
RULE = ("random equivariant model files; clusters, crystals and structures with bonds exactly along axes, face and body diagonals, transformed by random and by special (axis-permuting, "
        "quarter-turn, inverting) isometries, long translations, atom relabelling and neighbour-list reordering, alone and combined; energies and pair forces of the same evaluator compared "
        "after undoing the transformation; non-trivial = distinct (transformation, model shape, list shape)")
ASSUMPTIONS = ["models are equivariant by construction (Gaunt couplings); the comparison is of the real code with itself"]
MIN_DISTINCT = 150
FACTOR = 4


def jobs(tier):
    k = 1 if tier == "quick" else 20
    return [Job("isometry", part="mace", n=360 * k), Job("relabel", part="mace", n=280 * k), Job("isometry", part="mace", flavour="asan", n=24 * k), Job("relabel", part="mace", flavour="asan", n=24 * k)]


def structure(rng, m):
    """-> types, pos, cell or None"""
    u = rng.random()
    if u < .5:
        t, p = G.cluster(rng, m, n=int(rng.integers(1, 9)))
        return t, p, None
    if u < .75:
        L = mc.periodic(rng, m)
        return np.array(L.types), np.array(L.pos), L.cell
    a = m.r_cut * float(rng.uniform(.45, .8))
    g = np.stack(np.meshgrid(*[np.arange(2)] * 3, indexing="ij"), -1).reshape(-1, 3) * a
    keep = rng.permutation(8)[:int(rng.integers(2, 9))]
    return rng.integers(0, m.N, len(keep)), g[keep] + rng.integers(-2, 3, 3), None


def special(rng):
    P = np.eye(3)[rng.permutation(3)] * rng.choice([-1., 1.], (1, 3))
    return P


def lists(m, t, p, cell):
    return G.build_lists(t, p, m.r_cut, cell, (True,) * 3 if cell is not None else (False,) * 3)


def isometry(ctx, i):
    import symmetrix as S
    rng = ctx.rng
    m = G.Model(rng, symmetric=True)
    ev = mc.load(ctx, S, m)
    t, p, cell = structure(rng, m)
    L = lists(m, t, p, cell)
    _, size = mc.ref(m, L)
    e, f = mc.run(ctx, ev, L)
    F = G.atom_forces(L, f)
    sc = mc.fscale(m, L, size)
    for name in ("translate", "rotate", "special", "invert", "both"):
        Q, s = np.eye(3), np.zeros(3)
        if name in ("rotate", "both"):
            Q = G.rotation(rng)
            if rng.random() < .5:
                Q = Q if np.linalg.det(Q) > 0 else -Q
        if name == "special":
            Q = special(rng)
        if name == "invert":
            Q = -np.eye(3)
        if name in ("translate", "both"):
            s = rng.standard_normal(3) * float(rng.choice([1, 30]))
        L2 = lists(m, t, p @ Q.T + s, None if cell is None else cell @ Q.T)
        ctx.desc = dict(mc.describe(m, L), op=name)
        e2, f2 = mc.run(ctx, ev, L2)
        # translations of size 30 move distances by ~1e-14; slopes turn that into energy
        ctx.close(e2, e, size + sc * 1e-2, "energy-not-invariant:" + name, tol=1e-10)
        ctx.close(G.atom_forces(L2, f2) @ Q, F, sc * max(1, len(L.idx)) * (1 + 1e-2 / m.h), "forces-not-covariant:" + name, tol=1e-10)
        ctx.seen(name, *mc.shape_of(m, L))
        ctx.event("isometries")
    ctx.sample(ctx.desc)


def relabel(ctx, i):
    import symmetrix as S
    rng = ctx.rng
    m = G.Model(rng, symmetric=bool(rng.random() < .5))
    ev = mc.load(ctx, S, m)
    L = mc.any_lists(rng, m)
    _, size = mc.ref(m, L)
    e, f = mc.run(ctx, ev, L)
    sc = mc.fscale(m, L, size)
    start = np.concatenate([[0], np.cumsum(L.num_neigh)]).astype(int)
    for name in ("neighbour order", "atom order", "both"):
        perm = rng.permutation(L.n) if name != "neighbour order" else np.arange(L.n)      # new position k holds old atom perm[k]
        inv = np.argsort(perm)
        edges = []
        for a in perm:
            b = np.arange(start[a], start[a + 1])
            edges.append(rng.permutation(b) if name != "atom order" else b)
        edges = np.concatenate(edges).astype(int) if len(edges) else np.zeros(0, int)
        L2 = G.Lists(np.array(L.types, int)[perm], np.array(L.num_neigh, int)[perm], inv[np.array(L.idx, int)[edges]] if len(edges) else [], L.xyz[edges])
        ctx.desc = dict(mc.describe(m, L), op=name)
        e2, f2 = mc.run(ctx, ev, L2)
        ctx.close(e2[inv], e, size, "energy-depends-on-order:" + name, tol=mc.TIGHT)
        back = np.empty_like(f2)
        back[edges] = f2
        ctx.close(back, f, sc, "forces-depend-on-order:" + name, tol=mc.TIGHT)
        ctx.seen(name, *mc.shape_of(m, L))
        ctx.event("reorderings")
