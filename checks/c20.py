"""The ASE calculator reports consistent energy, forces and stress for any Atoms."""
import numpy as np
from vlib import asegen as A
from vlib.runner import Job

LEVEL = "exploration"
TECHNIQUE = "differential monitor (independent neighbour search, energies, complex-step forces and strain derivatives) and metamorphic monitor (order, wrapping, replication) on the real calculator"
RULE = ("Atoms of 0..9 atoms, and some of up to 130: molecules without cell, boxed molecules, slabs, wires, bulk and cells smaller than the cutoff, skewed cells, cells with empty vectors along open directions, atoms outside "
        "the cell, isolated atoms at any place in the list; every property of the calculator compared with an independent neighbour search and complex-step derivatives; then permuted, wrapped, "
        "shifted by lattice vectors and replicated; with the serial evaluator, the Kokkos one and the single-precision one; non-trivial = distinct (evaluator, kind, atoms, periodicity, isolated atoms, transformation)")
ASSUMPTIONS = ["equivariant models (a stress tensor is defined only for those)", "the Kokkos evaluators run on a stand-in for the Kokkos library"]
MIN_DISTINCT = 120
FACTOR = 2


def jobs(tier):
    k = 1 if tier == "quick" else 15
    return [Job("consistent", part="mace", n=480 * k), Job("transformed", part="mace", n=320 * k), Job("consistent", part="mace", flavour="asan", n=40 * k), Job("on_kokkos", part="kokkos", n=120 * k), Job("larger", part="mace", n=24 * k)]


def props(ctx, calc, a, order=None):
    ctx.event("structures")
    out = {}
    for p in order or ("energy", "free_energy", "energies", "forces", "stress"):
        if p == "stress" and a.cell.rank < 3:
            continue
        out[p] = np.array(ctx.call(calc.get_property, p, a, what="get_property(" + p + ")"), float)
    return out


def compare(ctx, m, a, got, key="", tol=None):
    w = A.answer(m, a)
    t = dict(tol=tol) if tol else {}
    n = len(a)
    ctx.true(got["energies"].shape == (n,) and got["forces"].shape == (n, 3), "shape" + key, f"{got['energies'].shape} energies, {got['forces'].shape} forces for {n} atoms")
    ctx.close(got["energies"], w["energies"], w["size"], "energies" + key, **t)
    ctx.close(got["energy"], w["energies"].sum(), w["size"] * max(1, n), "energy" + key, **t)
    ctx.close(got["free_energy"], got["energy"], 1e-300, "free_energy" + key)
    ctx.close(got["forces"], w["forces"], w["fscale"], "forces" + key, **t)
    if w["stress"] is not None:
        ctx.close(got["stress"], w["stress"], w["sscale"], "stress" + key, **t)
        ctx.event("stresses")
    ctx.event("isolated atoms", int((np.array(w["L"].num_neigh, int) == 0).sum()))
    ctx.event("neighbour pairs", w["pairs"])
    return w


def on_kokkos(ctx, i):
    """the same with the evaluator the calculator uses by default"""
    consistent(ctx, i, A.kokkos(ctx.rng))


def consistent(ctx, i, kokkos=(None, None)):
    rng = ctx.rng
    m = A.model(rng)
    calc = A.calculator(ctx, m, kokkos[0])
    for _ in range(3):
        a = A.atoms(rng, m)
        if rng.random() < .04:
            a = a[:0]
        ctx.desc = dict(kind=a.info["kind"], n=len(a), pbc=a.pbc.tolist(), cell=np.array(a.cell).round(3).tolist(), r_cut=m.r_cut)
        w = compare(ctx, m, a, props(ctx, calc, a), tol=kokkos[1])
        ctx.seen(str(kokkos[0]), a.info["kind"], len(a), tuple(a.pbc), (np.array(w["L"].num_neigh) == 0).tolist(), a.cell.rank)
    ctx.sample(ctx.desc)


def larger(ctx, i):
    """as many atoms as fit; forces on some of them"""
    rng = ctx.rng
    m = A.model(rng)
    calc = A.calculator(ctx, m)
    n = int(rng.choice([15, 16, 17, 31, 33, 64, 65, 100, 130]))
    for kind in ("bulk", "molecule") if i % 2 else ("slab",):
        a = A.atoms(rng, m, n=n, kind=kind)
        n = len(a)
        ctx.desc = dict(kind=kind, n=n, pbc=a.pbc.tolist(), cell=np.array(a.cell).round(3).tolist(), r_cut=m.r_cut)
        some = [int(q) for q in {0, n - 1, int(rng.integers(n)), int(rng.integers(n))}]
        got = props(ctx, calc, a)
        w = A.answer(m, a, some)
        ctx.close(got["energies"], w["energies"], w["size"], "energies-larger")
        ctx.close(got["energy"], w["energies"].sum(), w["size"] * n, "energy-larger")
        ctx.close(got["forces"][some], w["forces"][some], w["fscale"], "forces-larger")
        ctx.close(got["forces"].sum(0), np.zeros(3), w["fscale"] * n, "forces-do-not-cancel")
        if w["stress"] is not None:
            ctx.close(got["stress"], w["stress"], w["sscale"], "stress-larger")
        ctx.event("atoms in larger structures", n)
        ctx.seen("larger", kind, n)


def transformed(ctx, i):
    rng = ctx.rng
    m = A.model(rng)
    calc = A.calculator(ctx, m)
    a = A.atoms(rng, m, n=int(rng.integers(1, 6)))
    ctx.desc = dict(kind=a.info["kind"], n=len(a), pbc=a.pbc.tolist(), cell=np.array(a.cell).round(3).tolist(), r_cut=m.r_cut)
    g = props(ctx, calc, a)
    w = A.answer(m, a)
    n = len(a)
    # order
    p = rng.permutation(n)
    h = props(ctx, calc, a[p])
    ctx.close(h["energies"], g["energies"][p], w["size"], "order:energies")
    ctx.close(h["forces"], g["forces"][p], w["fscale"], "order:forces")
    ctx.seen("order", a.info["kind"], n)
    # lattice shifts, wrapping, rigid shift
    b = a.copy()
    full = np.array(a.cell.complete())
    b.positions += (rng.integers(-3, 4, (n, 3)) * a.pbc) @ full
    if rng.random() < .5:
        b.wrap()
    b.positions += rng.uniform(-2, 2, 3)
    h = props(ctx, calc, b)
    sl = 1 + 1e-3 / m.h
    ctx.close(h["energies"], g["energies"], w["size"] + w["fscale"] * 1e-2, "wrap:energies")
    ctx.close(h["forces"], g["forces"], w["fscale"] * sl * 10, "wrap:forces")
    if "stress" in g:
        ctx.close(h["stress"], g["stress"], w["sscale"] * sl * 10, "wrap:stress")
    ctx.seen("wrap", a.info["kind"], n, tuple(a.pbc))
    # replication of periodic directions
    rep = [int(rng.integers(1, 3)) if q else 1 for q in a.pbc]
    c = a.repeat(rep)
    k = int(np.prod(rep))
    if k > 1 and n * k <= 24:
        h = props(ctx, calc, c)
        ctx.close(h["energies"], np.tile(g["energies"], k), w["size"] + w["fscale"] * 1e-2, "replicate:energies")
        ctx.close(h["energy"], g["energy"] * k, (w["size"] + w["fscale"] * 1e-2) * n * k, "replicate:energy")
        ctx.close(h["forces"], np.tile(g["forces"], (k, 1)), w["fscale"] * sl * 10, "replicate:forces")
        if "stress" in g:
            ctx.close(h["stress"], g["stress"], w["sscale"] * sl * 10, "replicate:stress")
        ctx.seen("replicate", a.info["kind"], n, tuple(rep))
        ctx.event("replicated structures")
    ctx.close(g["forces"].sum(0), np.zeros(3), w["fscale"] * max(1, n), "forces-do-not-cancel")
