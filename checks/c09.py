"""ZBL over a neighbour list adds exactly each pair's energy and force."""
import numpy as np
from vlib.gen import zbl_params, zbl_ref
from vlib.runner import Job

LEVEL = "exploration"
RULE = ("random neighbour lists (0..600 nodes, 0..40 neighbours each, empty nodes, asymmetric and symmetric lists, 1..118 elements in any order) with "
        "accumulators pre-filled and padded; non-trivial = distinct (nodes, elements, number of empty nodes, number of interacting pairs)")
ASSUMPTIONS = ["distances are positive and consistent with the vectors"]
MIN_DISTINCT = 100


def jobs(tier):
    k = 1 if tier == "quick" else 12
    return [Job("lists", n=600 * k, vh=True), Job("symmetric", n=200 * k, vh=True),
            Job("lists", flavour="asan", n=200 * k, chunks=4, vh=True)]


LIVE = {}     # one object per parameter set, used for several lists


def call(ctx, par, nn, nt, ne, nty, Zs, r, xyz, e, f):
    import vh
    a_exp, a_pre, c, radii, p = par
    key = (a_exp, a_pre, tuple(c), tuple(radii), p)
    if LIVE.get("key") != key:
        LIVE.update(key=key, obj=vh.Repulsion(a_exp, a_pre, list(c), list(radii), p))
    out = ctx.call(LIVE["obj"].list, nn, [int(x) for x in nt], [int(x) for x in ne],
                   [int(x) for x in nty], [int(x) for x in Zs], [float(x) for x in r], [float(x) for x in np.ravel(xyz)],
                   [float(x) for x in e], [float(x) for x in np.ravel(f)], what="compute_ZBL")
    E, F = np.array(out[0]), np.array(out[1])
    for name, a, b in (("node_types", out[2], nt), ("num_neigh", out[3], ne), ("neigh_types", out[4], nty),
                       ("atomic_numbers", out[5], Zs), ("r", out[6], r), ("xyz", out[7], np.ravel(xyz))):
        ctx.true(np.array_equal(np.asarray(a, float), np.asarray(b, float)), "input-modified", name)
    return E, F


def lists(ctx, i):
    par = zbl_params(ctx.rng)
    for _ in range(3):
        one_list(ctx, i, par)


def one_list(ctx, i, par):
    rng = ctx.rng
    nn = int(rng.integers(0, 61)) if rng.random() < .5 else int(rng.integers(1, 6))
    nel = int(rng.integers(1, 10))
    if rng.random() < .03:
        nn, nel = int(rng.integers(200, 600)), int(rng.integers(10, 119))
    Zs = rng.choice(np.arange(1, 119), nel, replace=False)
    nt = rng.integers(0, nel, nn)
    ne = rng.integers(0, int(rng.choice([2, 8, 41])), nn)
    ne = np.where(rng.random(nn) < 0.25, 0, ne)
    P = int(ne.sum())
    nty = rng.integers(0, nel, P)
    ii = np.repeat(np.arange(nn), ne)
    d = rng.standard_normal((P, 3)); d /= np.linalg.norm(d, axis=1, keepdims=True)
    rm = par[3][Zs[nt[ii]]] + par[3][Zs[nty]]
    r = rm * rng.uniform(0.1, 1.25, P)
    if P and rng.random() < .3:
        r[rng.integers(P)] = rm[rng.integers(P)]
    xyz = d * r[:, None]
    pad = int(rng.integers(0, 4))
    e0 = rng.standard_normal(nn + pad) * 10; f0 = rng.standard_normal((P + pad, 3)) * 10
    if rng.random() < .2:
        e0[:] = 0; f0[:] = 0
    ctx.desc = dict(nodes=nn, neigh=ne.tolist(), Zs=Zs.tolist(), p=par[4])
    E, F = call(ctx, par, nn, nt, ne, nty, Zs, r, xyz, e0, f0)
    en, gr, sE, sG, _ = zbl_ref(par, Zs[nt[ii]], Zs[nty], r)
    we = e0.copy(); np.add.at(we, ii, en)
    se = np.abs(e0); np.add.at(se, ii, sE)
    ctx.close(E, we, se + 1e-30, "node-energy")
    wf = f0.copy(); sf = np.abs(f0) + 1e-30
    if P:
        wf[:P] -= gr[:, None] * xyz / r[:, None]
        sf[:P] += sG[:, None]
    ctx.close(F.reshape(-1, 3), wf, sf, "pair-force")
    if pad:
        ctx.same(E[nn:], e0[nn:], "entries beyond the list changed")
        ctx.same(F.reshape(-1, 3)[P:], f0[P:], "force entries beyond the list changed")
    beyond = r >= par[3][Zs[nt[ii]]] + par[3][Zs[nty]] if P else np.zeros(0, bool)
    ctx.same(F.reshape(-1, 3)[:P][beyond], f0[:P][beyond], "a pair beyond the cutoff changed its force entry")
    empty = ne == 0
    ctx.same(E[:nn][empty], e0[:nn][empty], "energy of a node without neighbours changed")
    ctx.event("pairs", P); ctx.event("nodes without neighbours", int(empty.sum())); ctx.event("pairs beyond cutoff", int(beyond.sum()))
    # order of neighbours within nodes does not matter
    if P:
        perm = np.concatenate([rng.permutation(np.flatnonzero(ii == q)) for q in range(nn)]).astype(int)
        E2, F2 = call(ctx, par, nn, nt, ne, nty[perm], Zs, r[perm], xyz[perm], e0, np.concatenate([f0[:P][perm], f0[P:]]))
        ctx.close(E2, E, se + 1e-30, "order-energy", tol=1e-12)
        ctx.close(F2.reshape(-1, 3)[:P], F.reshape(-1, 3)[:P][perm], sf[:P][perm], "order-force", tol=1e-12)
        ctx.seen(nn, nel, int(empty.sum()), int((~beyond).sum()))
    ctx.sample(dict(nodes=nn, neighbours=ne.tolist()[:10], elements=Zs.tolist(), energies=E[:3].tolist()))


def symmetric(ctx, i):
    """all pairs of a random cluster: forces cancel, energy counts each bond as two halves"""
    rng = ctx.rng
    par = zbl_params(rng)
    n = int(rng.integers(2, 14)); nel = int(rng.integers(1, 5))
    Zs = rng.choice(np.arange(1, 119), nel, replace=False)
    t = rng.integers(0, nel, n)
    x = rng.uniform(0, 1.2 * n ** (1 / 3), (n, 3))
    nt, ne, nty, r, xyz, jj = t, [], [], [], [], []
    for a in range(n):
        nb = [b for b in rng.permutation(n) if b != a]
        ne.append(len(nb)); jj += nb
        for b in nb:
            v = x[b] - x[a]; xyz.append(v); r.append(np.linalg.norm(v)); nty.append(t[b])
    E, F = call(ctx, par, n, nt, ne, nty, Zs, r, xyz, np.zeros(n), np.zeros((len(r), 3)))
    F = F.reshape(-1, 3)
    f = np.zeros((n, 3)); ii = np.repeat(np.arange(n), ne)
    np.add.at(f, jj, F); np.add.at(f, ii, -F)
    tot = np.abs(F).sum() + 1e-30
    ctx.close(f.sum(axis=0), np.zeros(3), tot, "net-force", tol=1e-12)
    torque = np.cross(x, f).sum(axis=0)
    ctx.close(torque, np.zeros(3), tot * (1 + np.abs(x).max()), "net-torque", tol=1e-12)
    # energy relabelling
    A, B = np.triu_indices(n, 1)
    rr = np.linalg.norm(x[A] - x[B], axis=1)
    e, _, se, _, _ = zbl_ref(par, Zs[t[A]], Zs[t[B]], rr)
    ctx.close(E.sum(), 2 * e.sum(), 2 * se.sum(), "total-energy")
    ctx.event("clusters"); ctx.event("pairs", len(r))
    ctx.seen("sym", n, nel, int((e != 0).sum()))
