"""Interactions are strictly local, additive and vanish smoothly at the cutoff."""
import numpy as np
from vlib import macegen as G, mc
from vlib.runner import Job

LEVEL = "exploration"
TECHNIQUE = "metamorphic monitor over fragments, far moves and neighbours walked through the cutoff, under release and ASan builds"
RULE = ("random model files whose tables end with zero value and slope; (a) separated fragments, in blocks or with interleaved indices, against each fragment alone; (b) atoms outside an atom's "
        "two-step reach moved, removed or replaced by another element; (c) one neighbour walked to the cutoff from both sides down to one rounding step, its contribution bounded by the distance "
        "to the cutoff; (d) neighbours listed at and beyond the cutoff contribute nothing; non-trivial = distinct (workload, model shape, list shape)")
ASSUMPTIONS = ["repulsion radii smaller than half the cutoff, as in any trained model", "distances between the last table node and the cutoff (1e-12 of it) count as the cutoff"]
MIN_DISTINCT = 150
FACTOR = 4


def jobs(tier):
    k = 1 if tier == "quick" else 20
    return [Job("fragments", part="mace", n=240 * k), Job("reach", part="mace", n=160 * k), Job("walk", part="mace", n=200 * k), Job("beyond", part="mace", n=280 * k),
            Job("walk", part="mace", flavour="asan", n=24 * k), Job("beyond", part="mace", flavour="asan", n=40 * k)]


def model(rng, **kw):
    m = G.Model(rng, symmetric=bool(rng.random() < .5), **kw)
    if m.has_zbl:
        m.zbl["radii"] = np.minimum(m.zbl["radii"], .45 * m.r_cut)
    return m


def fragments(ctx, i):
    import symmetrix as S
    rng = ctx.rng
    m = model(rng)
    ev = mc.load(ctx, S, m)
    k = int(rng.integers(2, 4))
    parts = [G.cluster(rng, m, n=int(rng.integers(1, 6))) for _ in range(k)]
    pos, types, own, off = [], [], [], 0.0
    for q, (t, p) in enumerate(parts):
        p = p - p.min(0)
        p[:, 0] += off
        off = p[:, 0].max() + m.r_cut * float(rng.choice([1.0, 1.0 + 1e-12, 1.01, 2.5]))
        pos.append(p); types.append(t); own += [q] * len(t)
    pos, types, own = np.concatenate(pos), np.concatenate(types), np.array(own)
    mix = rng.permutation(len(own)) if rng.random() < .7 else np.arange(len(own))
    pos, types, own = pos[mix], types[mix], own[mix]
    L = G.build_lists(types, pos, m.r_cut)
    ctx.desc = dict(mc.describe(m, L), fragments=[int((own == q).sum()) for q in range(k)])
    _, size = mc.ref(m, L)
    e, f = mc.run(ctx, ev, L)
    F = G.atom_forces(L, f)
    sc = mc.fscale(m, L, size)
    for q in range(k):
        w = np.flatnonzero(own == q)
        Lq = G.build_lists(types[w], pos[w], m.r_cut)
        eq, fq = mc.run(ctx, ev, Lq)
        ctx.close(e[w], eq, size, "fragment-energy", tol=mc.TIGHT)
        ctx.close(F[w], G.atom_forces(Lq, fq), sc, "fragment-forces", tol=mc.TIGHT)
        ctx.event("fragments compared")
    ctx.seen("fragments", k, *mc.shape_of(m, L))
    ctx.sample(ctx.desc)


def reach(ctx, i):
    """what happens outside two steps of an atom's neighbourhood does not change it"""
    import symmetrix as S
    rng = ctx.rng
    m = model(rng, small=True)
    ev = mc.load(ctx, S, m)
    n = int(rng.integers(5, 14))
    pos = np.zeros((n, 3))
    pos[:, 0] = np.cumsum(rng.uniform(.5, .95, n) * m.r_cut)
    pos[:, 1:] = rng.uniform(-.1, .1, (n, 2)) * m.r_cut
    order = rng.permutation(n)
    pos = pos[order]
    types = rng.integers(0, m.N, n)
    L = G.build_lists(types, pos, m.r_cut)
    ctx.desc = mc.describe(m, L)
    _, size = mc.ref(m, L)
    e, f = mc.run(ctx, ev, L)
    F = G.atom_forces(L, f)
    sc = mc.fscale(m, L, size)
    A = np.zeros((n, n), bool)
    if len(L.idx):
        A[L.i, L.idx] = True
    A = A | A.T | np.eye(n, dtype=bool)
    two, four = (A.astype(int) @ A > 0), (np.linalg.matrix_power(A.astype(int), 4) > 0)
    a = int(rng.integers(n))
    types2, pos2 = types.copy(), pos.copy()
    if rng.random() < .5:
        types2[a] = rng.integers(0, m.N)
    pos2[a] += rng.uniform(-.03, .03, 3) * m.r_cut
    L2 = G.build_lists(types2, pos2, m.r_cut)
    B = np.zeros((n, n), bool)
    if len(L2.idx):
        B[L2.i, L2.idx] = True
    B = B | B.T | np.eye(n, dtype=bool)
    e2, f2 = mc.run(ctx, ev, L2)
    F2 = G.atom_forces(L2, f2)
    far = ~two[a] & ~(B.astype(int) @ B > 0)[a]
    ctx.close(e2[far], e[far], size, "far atom changes an energy", tol=mc.TIGHT)
    farf = ~four[a] & ~(np.linalg.matrix_power(B.astype(int), 4) > 0)[a]
    ctx.close(F2[farf], F[farf], sc, "far atom changes a force", tol=mc.TIGHT)
    ctx.event("atoms out of reach compared", int(far.sum()))
    ctx.seen("reach", *mc.shape_of(m, L), int(far.sum()), int(farf.sum()))


def walk(ctx, i):
    import symmetrix as S
    rng = ctx.rng
    m = model(rng)
    ev = mc.load(ctx, S, m)
    L = G.random_lists(rng, m, n=int(rng.integers(1, 6)), max_neigh=5)
    a = int(rng.integers(L.n)) if L.n else 0
    at = int(sum(L.num_neigh[:a])) + int(rng.integers(0, L.num_neigh[a] + 1))
    j = int(rng.integers(L.n))
    u = rng.standard_normal(3)
    u /= np.linalg.norm(u)
    if rng.random() < .3:
        u = np.eye(3)[int(rng.integers(3))] * float(rng.choice([-1, 1]))

    def with_neighbour(r):
        nn = list(L.num_neigh); nn[a] += 1
        return G.Lists(L.types, nn, L.idx[:at] + [j] + L.idx[at:], np.insert(L.xyz, at, u * r, axis=0))
    ctx.desc = mc.describe(m, L)
    _, size = mc.ref(m, with_neighbour(.9 * m.r_cut))
    e0, f0 = mc.run(ctx, ev, L)
    sc = mc.fscale(m, L, size)
    ctx.seen("walk", *mc.shape_of(m, L))
    end = m.h * (m.nodes - 1)
    rs = [m.r_cut - 10.0 ** -k for k in range(1, 15)] + [end, np.nextafter(end, 0), np.nextafter(end, 9), m.r_cut, np.nextafter(m.r_cut, 0), np.nextafter(m.r_cut, 9)] \
        + [m.r_cut + 10.0 ** -k for k in range(1, 15)]
    for r in [float(q) for q in rs if q > 0]:
        L1 = with_neighbour(r)
        ctx.desc["r-r_cut"] = r - m.r_cut
        e, f = mc.run(ctx, ev, L1)
        real = float(L1.r[at])
        d = max(0.0, (end - real) / m.h)                # table intervals from the end
        if d > 1:
            continue
        fo = np.delete(f, at, axis=0)
        ctx.close(e, e0, size * 40 * d * d + size * 1e-11, "energy jumps at the cutoff", tol=1)
        ctx.close(fo, f0, sc * 40 * d * d + sc * 1e-11, "other forces jump at the cutoff", tol=1)
        ctx.close(f[at], np.zeros(3), sc * 40 * d + (sc * 1e-11 if real < m.r_cut else 0), "force does not vanish at the cutoff", tol=1)
        want, s2 = mc.ref(m, L1)
        ctx.close(e, want, s2, "energy near the cutoff", tol=mc.TIGHT)
        ctx.event("steps through the cutoff")
        if real >= m.r_cut:
            ctx.event("steps at or beyond the cutoff")


def pad(rng, m, L):
    """the lists with extra neighbours at and beyond the cutoff; mine: index of each neighbour in L, -1 for the extra ones"""
    nn, idx, xyz, mine = [], [], [], []
    s = 0
    for a in range(L.n):
        own = [(L.idx[q], L.xyz[q], q) for q in range(s, s + L.num_neigh[a])]
        s += L.num_neigh[a]
        for _ in range(int(rng.integers(0, 4))):
            u = rng.standard_normal(3); u /= np.linalg.norm(u)
            if rng.random() < .3:
                u = np.eye(3)[int(rng.integers(3))]
            r = float(rng.choice([m.r_cut * (1 + 1e-15), m.r_cut * (1 + 1e-9), m.r_cut * 1.1, m.r_cut + m.h * rng.uniform(0, 3), 10 * m.r_cut, 1e6, 1e12]))
            own.insert(int(rng.integers(0, len(own) + 1)), (int(rng.integers(L.n)), u * r, -1))
        nn.append(len(own))
        for j, x, q in own:
            idx.append(j); xyz.append(x); mine.append(q)
    L1 = G.Lists(L.types, nn, idx, np.array(xyz).reshape(-1, 3))
    return L1, np.array(mine, int)


def beyond(ctx, i):
    """a list padded with neighbours at and beyond the cutoff (a skin)"""
    import symmetrix as S
    rng = ctx.rng
    m = model(rng)
    ev = mc.load(ctx, S, m)
    L = mc.any_lists(rng, m)
    if L.n == 0:
        return
    e0, f0 = mc.run(ctx, ev, L)
    _, size = mc.ref(m, L)
    L1, mine = pad(rng, m, L)
    ctx.desc = mc.describe(m, L1)
    e, f = mc.run(ctx, ev, L1)
    sc = mc.fscale(m, L, size)
    ctx.close(e, e0, size, "neighbour beyond the cutoff changes an energy", tol=mc.TIGHT)
    ctx.close(f[mine >= 0], f0[mine[mine >= 0]], sc, "neighbour beyond the cutoff changes a force", tol=mc.TIGHT)
    ctx.true(bool((f[mine < 0] == 0).all()), "force from a neighbour beyond the cutoff")
    ctx.event("neighbours beyond the cutoff", int((mine < 0).sum()))
    ctx.seen("beyond", *mc.shape_of(m, L1))
