"""Shared pieces of the MACE checks."""
import os

import numpy as np

from . import macegen as G

TIGHT = 1e-11


def strict():
    return "libasan" in os.environ.get("LD_PRELOAD", "")


def load(ctx, S, m, cls="MACE", *extra, **edit):
    p = m.write(**edit)
    try:
        return ctx.call(getattr(S, cls), p, *extra, what=cls + "(file)")
    finally:
        os.unlink(p)


def run(ctx, ev, L):
    """one evaluation of the real potential; checks the shape of what it returns"""
    ctx.call(ev.compute_node_energies_forces, *L.args(), what="compute_node_energies_forces")
    e = np.array(ev.node_energies, float)
    f = np.array(ev.node_forces, float)
    ctx.event("evaluations")
    ctx.event("atoms", L.n)
    ctx.event("neighbours", len(L.idx))
    ctx.event("atoms without neighbours", int(np.sum(np.array(L.num_neigh, int) == 0)))
    ctx.true(len(e) >= L.n and len(f) >= 3 * len(L.idx), "results missing", f"{len(e)} energies for {L.n} atoms, {len(f)} force entries for {len(L.idx)} neighbours")
    return e[:L.n], f[:3 * len(L.idx)].reshape(-1, 3)


def ref(m, L):
    parts = {}
    return m.reference(L.types, L.num_neigh, L.idx, L.xyz, parts=parts), m.size(parts)


def fscale(m, L, size):
    """size of derivatives of terms of that size"""
    r = L.r
    return size * 10 * (1 / m.h + 1 / max(1e-3, float(r.min()) if len(r) else 1.0))


def slope(m, L, d):
    """derivative of the reference total energy along d[n_edges,3]"""
    return float(m.reference(L.types, L.num_neigh, L.idx, L.xyz + 1e-30j * d).sum().imag / 1e-30)


def describe(m, L=None):
    d = dict(K=m.K, N=m.N, l_max=m.l_max, L_max=m.L_max, zbl=m.has_zbl, scaled=m.scaled, nodes=m.nodes, r_cut=m.r_cut, Z=m.Z)
    if L is not None:
        d.update(atoms=L.n, num_neigh=L.num_neigh[:12])
    return d


def shape_of(m, L):
    b = lambda n: n if n < 3 else (3 if n < 8 else 8 if n < 30 else 30)
    return (m.K, m.N, m.l_max, m.L_max, m.has_zbl, m.scaled, b(L.n), b(len(L.idx)), 0 in L.num_neigh)


def any_lists(rng, m, size="small"):
    """a neighbour list of one of several kinds"""
    u = rng.random()
    if u < .40:
        return G.random_lists(rng, m, n=int(rng.integers(1, 9)), max_neigh=int(rng.integers(0, 10)))
    if u < .65:
        t, p = G.cluster(rng, m, n=int(rng.integers(1, 10)))
        return G.build_lists(t, p, m.r_cut)
    if u < .80:
        return periodic(rng, m)
    if u < .88:                                     # nothing but isolated atoms
        n = int(rng.integers(0, 6))
        return G.Lists(rng.integers(0, m.N, n), [0] * n, [], np.zeros((0, 3)))
    if u < .94:
        return lattice(rng, m)
    return G.random_lists(rng, m, n=int(rng.integers(20, 60)), max_neigh=6)


def periodic(rng, m, n=None):
    n = n or int(rng.integers(1, 5))
    a = m.r_cut * rng.uniform(.55, 1.1)
    cell = np.eye(3) * a + rng.uniform(-.25, .25, (3, 3)) * a
    pos = []
    inv = np.linalg.inv(cell)
    while len(pos) < n:
        p = rng.uniform(0, 1, 3) @ cell
        ok = True
        for q in pos:
            s = (p - q) @ inv
            s -= np.round(s)
            ok &= np.linalg.norm(s @ cell) > .4
        if ok:
            pos.append(p)
    L = G.build_lists(rng.integers(0, m.N, n), pos, m.r_cut, cell, (True,) * 3)
    L.cell = cell
    return L


def lattice(rng, m):
    """simple cubic: every neighbour on an axis, a face or a body diagonal, many at equal distances"""
    a = m.r_cut * float(rng.choice([.5, .7, .99, 1 / np.sqrt(2) + 1e-9]))
    n = int(rng.integers(1, 3))
    g = np.stack(np.meshgrid(*[np.arange(n)] * 3, indexing="ij"), -1).reshape(-1, 3) * a
    return G.build_lists(rng.integers(0, m.N, len(g)), g, m.r_cut, np.eye(3) * n * a, (True,) * 3)


VARIANTS = [dict(l_max=l, L_max=q, zbl=z, scaled=s) for l in range(4) for q in range(min(2, l) + 1) for z in (False, True) for s in (False, True)]


def near(rng, m, L):
    """a list that differs from L in one respect, or in none"""
    t, nn, idx, xyz = list(L.types), list(L.num_neigh), list(L.idx), L.xyz.copy()
    e, n = len(idx), len(t)
    if n == 0:
        return L
    u = int(rng.integers(10))
    if u == 0:
        pass
    elif u == 1:
        t[int(rng.integers(n))] = int(rng.integers(m.N))
    elif e == 0:
        pass
    elif u in (2, 3):                       # one neighbour moves, not the first nor the last if possible
        k = int(rng.integers(1, e - 1)) if e > 2 else int(rng.integers(e))
        if u == 2:
            d = rng.standard_normal(3)
            xyz[k] = d / np.linalg.norm(d) * np.linalg.norm(xyz[k])
        else:
            xyz[k] *= rng.uniform(.4, .95 * m.r_cut) / np.linalg.norm(xyz[k])
    elif u == 4:
        idx[int(rng.integers(e))] = int(rng.integers(n))
    elif u == 5:                            # the vectors change places
        xyz = xyz[rng.permutation(e)]
    elif u == 6:                            # the first atom gives a neighbour to the last
        have = [k for k in range(n) if nn[k]]
        a, b = have[0], n - 1
        nn[a] -= 1
        nn[b] += 1
    elif u == 7:
        k = int(rng.integers(e))
        xyz[k] = -xyz[k]
    elif u == 8:
        xyz = xyz @ G.rotation(rng)
    else:                                   # atoms in another order of types
        t = [t[int(q)] for q in rng.permutation(n)]
    return G.Lists(t, nn, idx, xyz)


WIDE = [dict(K=64, N=1, l_max=2, nodes=12), dict(K=33, N=2, l_max=2, nodes=12), dict(K=16, N=2, l_max=3, nodes=16), dict(K=17, N=3, l_max=2, nodes=9), dict(K=3, N=7, l_max=2, nodes=8),
        dict(K=2, N=11, l_max=1, nodes=10), dict(K=128, N=1, l_max=1, nodes=8), dict(K=2, N=1, l_max=3, nodes=300), dict(K=4, N=5, l_max=2, nodes=6), dict(K=1, N=2, l_max=2, nodes=20)]


def wide(rng, i):
    """channel counts, numbers of elements, table lengths or coordination numbers of real models -> model, list"""
    m = G.Model(rng, symmetric=bool(rng.random() < .5), **WIDE[i % len(WIDE)])
    u = rng.random()
    if u < .4:
        L = G.random_lists(rng, m, n=int(rng.integers(2, 6)), max_neigh=120)
    elif u < .7:
        L = G.random_lists(rng, m, n=int(rng.integers(30, 140)), max_neigh=7)
    else:
        t, p = G.cluster(rng, m, n=int(rng.integers(12, 40)))
        L = G.build_lists(t, p, m.r_cut)
    return m, L
