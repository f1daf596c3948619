"""Atoms objects for the calculator checks, and the independent answer for them."""
import logging
import os

import numpy as np

from . import macegen as G

logging.disable(logging.CRITICAL)


def model(rng, **kw):
    kw.setdefault("symmetric", True)
    return G.Model(rng, r_cut=float(np.round(rng.uniform(2, 3.5), 3)), small=True, **kw)


def calculator(ctx, m, how=None, **kw):
    from symmetrix import Symmetrix
    p = m.write()
    how = dict(use_kokkos=False) if how is None else how
    try:
        return ctx.call(lambda: Symmetrix(p, **how, **kw), what="Symmetrix(model)")
    finally:
        os.unlink(p)


def kokkos(rng):
    """ways of asking for the Kokkos evaluator -> (options, tolerance or None)"""
    how = [dict(), dict(use_kokkos=True), dict(dtype="float64"), dict(dtype="float32"), dict(dtype="float32", use_kokkos=True)][int(rng.integers(5))]
    return how, (1e-5 if how.get("dtype") == "float32" else None)


def atoms(rng, m, n=None, kind=None):
    from ase import Atoms
    kind = kind or str(rng.choice(["molecule", "molecule", "boxed", "bulk", "slab", "wire", "tiny"]))
    n = n if n is not None else int(rng.integers(1, 8 if kind != "tiny" else 3))
    r = m.r_cut
    L = dict(bulk=1.5, slab=1.6, wire=2., tiny=.8, boxed=3., molecule=2.2)[kind] * r * float(rng.uniform(.8, 1.3)) * max(1, n / 4) ** (1 / 3)
    cell = np.eye(3) * L
    if kind in ("bulk", "slab", "tiny", "wire") and rng.random() < .6:
        cell = cell + rng.uniform(-.3, .3, (3, 3)) * L
    pbc = dict(molecule=(0, 0, 0), boxed=(0, 0, 0), bulk=(1, 1, 1), tiny=(1, 1, 1), slab=(1, 1, 0), wire=(0, 0, 1))[kind]
    if kind in ("slab", "wire") and rng.random() < .5:
        q = rng.permutation(3)
        cell, pbc = cell[q], tuple(np.array(pbc)[q])
    pos, inv, tries = [], np.linalg.inv(cell), 0
    while len(pos) < n:
        p = rng.uniform(0, 1, 3) @ cell
        s = np.array([(p - q) @ inv for q in pos]).reshape(-1, 3)
        s -= np.where(np.array(pbc, bool), np.round(s), 0)
        if all(np.linalg.norm(s @ cell, axis=1) > .5) or tries > 400:
            pos.append(p)
        tries += 1
    pos = np.array(pos).reshape(-1, 3)
    z = np.array(m.Z)[rng.integers(0, m.N, n)]
    if rng.random() < .35 and n:                # an isolated atom at any place in the list
        k = int(rng.integers(n + 1))
        far = pos.mean(0) + rng.choice([-1., 1.], 3) * (50 + np.abs(cell).sum())
        free = [q for q in range(3) if not pbc[q]]
        if free:
            pos = np.insert(pos, k, far, axis=0)
            z = np.insert(z, k, int(rng.choice(m.Z)))
    if rng.random() < .3:                       # atoms outside the cell
        pos = pos + (rng.integers(-2, 3, pos.shape) * np.array(pbc)) @ cell
    if kind == "molecule":
        cell = None
        pos = pos + rng.uniform(-20, 20, 3)
    elif kind in ("slab", "wire") and rng.random() < .4:
        cell = cell.copy()
        cell[[q for q in range(3) if not pbc[q]]] = 0
    a = Atoms(numbers=z, positions=pos, cell=cell, pbc=np.array(pbc, bool))
    a.info["kind"] = kind
    return a


def answer(m, a, some=None):
    """-> dict(energies, forces, stress or None, size, scale); some: the atoms whose forces are wanted"""
    n = len(a)
    t = [m.Z.index(int(q)) for q in a.numbers]
    cell = np.array(a.cell)
    full = a.cell.rank == 3
    if a.pbc.any():
        cell = np.array(a.cell.complete())
    L = G.build_lists(t, a.positions, m.r_cut, cell if a.pbc.any() else None, tuple(bool(q) for q in a.pbc))
    parts = {}
    e = m.reference(t, L.num_neigh, L.idx, L.xyz, parts=parts)
    size = m.size(parts)
    F = np.zeros((n, 3))
    E = len(L.idx)
    f = np.zeros((E, 3))
    st = None
    idx, i = np.array(L.idx, int), L.i
    if E:
        for a_ in range(n) if some is None else some:
            for c in range(3):
                d = np.zeros((E, 3))
                d[idx == a_, c] += 1
                d[i == a_, c] -= 1
                F[a_, c] = -m.reference(t, L.num_neigh, L.idx, L.xyz + 1e-30j * d).sum().imag / 1e-30
    if full:
        st = np.zeros(6)
        if E:
            for k, (p, q) in enumerate([(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]):
                d = np.zeros((E, 3))
                d[:, p] += .5 * L.xyz[:, q]
                d[:, q] += .5 * L.xyz[:, p]
                st[k] = m.reference(t, L.num_neigh, L.idx, L.xyz + 1e-30j * d).sum().imag / 1e-30
        st = st / a.get_volume()
    rmin = float(L.r.min()) if E else 1.0
    return dict(energies=e, forces=F, stress=st, size=size, fscale=size * 10 * (1 / m.h + 1 / max(rmin, 1e-3)) * max(1, E) ** .5,
                sscale=size * 10 * (1 / m.h + 1 / max(rmin, 1e-3)) * max(1, E) * m.r_cut / (a.get_volume() if full else 1), pairs=E, L=L)


def isolated(a, m):
    return int((np.array(answer(m, a)["L"].num_neigh) == 0).sum())
