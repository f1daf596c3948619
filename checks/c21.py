"""The ASE calculator always answers for the current Atoms and configuration."""
import os
import sys
import types
import numpy as np
from vlib import asegen as A
from vlib.runner import Job
from checks import c20

LEVEL = "exploration"
TECHNIQUE = "history monitor: after every change each property is compared with a fresh calculator and an independent answer, with snapshots of the Atoms around every call"
RULE = ("sequences of 10..20 changes (positions, one coordinate, cell, strain, periodicity, species, appended, removed and swapped atoms, replacement by a copy, irrelevant annotations) on one to three "
        "Atoms sharing one calculator, with properties asked in random order, sometimes through the Atoms and sometimes through the calculator, returned arrays scribbled over, failing requests (unknown "
        "element, missing stress) in between; plus refused options and models converted on load; non-trivial = distinct (previous change, change, property asked first)")
ASSUMPTIONS = ["the torch extraction that converts foreign model files is replaced by a stub returning the same data"]
MIN_DISTINCT = 100
FACTOR = 2


def jobs(tier):
    k = 1 if tier == "quick" else 15
    return [Job("history", part="mace", n=200 * k), Job("options", part="mace", n=64 * k), Job("options", part="core", n=16 * k), Job("history", part="mace", flavour="asan", n=24 * k), Job("on_kokkos", part="kokkos", n=40 * k), Job("options", part="kokkos", n=16 * k)]


CHANGES = ["move", "nudge", "cell", "strain", "pbc", "species", "append", "remove", "swap", "copy", "annotate", "none"]


def change(rng, m, a):
    """-> (name, Atoms)"""
    k = str(rng.choice(CHANGES))
    n = len(a)
    if k == "move":
        a.positions += rng.uniform(-.1, .1, (n, 3))
    elif k == "nudge" and n:
        a.positions[int(rng.integers(n)), int(rng.integers(3))] += float(rng.choice([1e-3, 1e-6, .05]))
    elif k == "cell" and a.cell.rank == 3:
        a.set_cell(np.array(a.cell) * rng.uniform(.95, 1.1), scale_atoms=bool(rng.random() < .5))
    elif k == "strain" and a.cell.rank == 3:
        a.set_cell(np.array(a.cell) @ (np.eye(3) + rng.uniform(-.05, .05, (3, 3))), scale_atoms=True)
    elif k == "pbc" and a.cell.rank == 3:
        a.pbc = rng.random(3) < .5
    elif k == "species" and n:
        a.numbers[int(rng.integers(n))] = int(rng.choice(m.Z))
    elif k == "append":
        from ase import Atom
        a.append(Atom(int(rng.choice(m.Z)), a.positions.mean(0) + rng.uniform(-2, 2, 3) * m.r_cut if n else rng.uniform(0, 1, 3)))
    elif k == "remove" and n > 1:
        del a[int(rng.integers(n))]
    elif k == "swap" and n > 1:
        p, q = rng.permutation(n)[:2]
        a.positions[[p, q]] = a.positions[[q, p]]
    elif k == "copy":
        c = a.calc
        a = a.copy()
        a.calc = c
    elif k == "annotate":
        a.info["note"] = float(rng.random())
        a.set_tags(rng.integers(0, 5, n))
        if rng.random() < .5:
            a.set_initial_magnetic_moments(rng.uniform(-1, 1, n))
    return k, a


def snap(a):
    return (a.positions.tobytes(), np.array(a.cell).tobytes(), a.pbc.tobytes(), a.numbers.tobytes(), sorted((k, v.tobytes()) for k, v in a.arrays.items()), repr(sorted(a.info.items(), key=str)))


def scribble(x):
    if isinstance(x, np.ndarray) and x.flags.writeable:
        x[...] = 1e33


def too_close(m, a):
    w = A.answer(m, a)
    return w["L"].r.min() < .25 if w["pairs"] else False


def on_kokkos(ctx, i):
    """the same with the evaluator the calculator uses by default, and changing backend choices"""
    from vlib import kk
    kk.use(ctx, kk.mode(ctx.rng))
    history(ctx, i, A.kokkos(ctx.rng))


def history(ctx, i, kokkos=(None, None)):
    rng = ctx.rng
    how, tol = kokkos
    m = A.model(rng)
    calc = A.calculator(ctx, m, how)
    pool = [A.atoms(rng, m, n=int(rng.integers(1, 6))) for _ in range(int(rng.integers(1, 4)))]
    for a in pool:
        a.calc = calc
    prev = {}
    for step in range(int(rng.integers(10, 21))):
        k = int(rng.integers(len(pool)))
        old = pool[k].copy()
        name, a = change(rng, m, pool[k])
        if too_close(m, a) or len(a) > 9:
            old.calc = calc
            name, a = "undo", old
        pool[k] = a
        ctx.desc = dict(step=step, change=name, n=len(a), pbc=a.pbc.tolist(), kind=a.info.get("kind"), shared=len(pool))
        if rng.random() < .1:
            unknown(ctx, rng, m, calc, a)
        order = [str(q) for q in rng.permutation(["energy", "free_energy", "energies", "forces", "stress"])]
        ctx.seen(prev.get(k), name, order[0])
        prev[k] = name
        before = snap(a)
        got = {}
        for p in order:
            if p == "stress" and a.cell.rank < 3:
                try:
                    a.get_stress()
                except Exception:
                    ctx.event("stress without a cell refused")
                    continue
                ctx.fail("stress without a cell", "a stress was reported for atoms without a cell")
            f = dict(energy=a.get_potential_energy, forces=a.get_forces, stress=a.get_stress, energies=a.get_potential_energies, free_energy=lambda: a.get_potential_energy(force_consistent=True))[p]
            if rng.random() < .3:
                f = lambda p=p: calc.get_property(p, a)
            r = ctx.call(f, what=p)
            got[p] = np.array(r, float)
            if rng.random() < .4:
                scribble(r)
                r2 = ctx.call(f, what=p)
                ctx.close(np.array(r2, float), got[p], 1e-300, "returned array shared with the calculator: " + p)
        ctx.true(snap(a) == before, "structure modified")
        c20.compare(ctx, m, a, got, " after " + name, tol=tol)
        if rng.random() < .15:              # the calculation asked for directly
            b = A.atoms(rng, m, n=int(rng.integers(1, 6))) if rng.random() < .5 else a
            before = snap(b)
            ctx.call(lambda: calc.calculate(b) if rng.random() < .5 else calc.calculate(b, ["forces"], ["positions", "numbers", "cell", "pbc"]), what="calculate")
            ctx.true(snap(b) == before, "structure modified")
            r = dict(calc.results)
            if "free_energy" in r and "energies" in r and "forces" in r and "energy" in r:
                c20.compare(ctx, m, b, dict({k: np.array(r[k], float) for k in r}, **({} if "stress" in r else dict(stress=np.array(A.answer(m, b)["stress"] if b.cell.rank == 3 else 0.)))), " of calculate", tol=tol)
            ctx.event("calculations asked for directly")
        if rng.random() < .3:
            fresh = A.calculator(ctx, m, how)
            for p, v in c20.props(ctx, fresh, a.copy()).items():
                w = A.answer(m, a)
                ctx.close(got[p], v, dict(forces=w["fscale"], stress=w["sscale"]).get(p, w["size"] * max(1, len(a))), tol=tol or 1e-11, key="differs from a fresh calculator: " + p)
            ctx.event("fresh calculators compared")
    ctx.sample(ctx.desc)


def unknown(ctx, rng, m, calc, a):
    b = a.copy()
    if not len(b):
        return
    z = [q for q in range(1, 119) if q not in m.Z]
    b.numbers[int(rng.integers(len(b)))] = int(rng.choice(z))
    p = str(rng.choice(["energy", "forces", "energies"]))
    before = snap(b)
    ctx.expect_raise(Exception, calc.get_property, p, b, what="an element the model does not have", key="unknown element accepted")
    ctx.true(snap(b) == before, "structure modified by a failed request")
    b.calc = calc
    ctx.expect_raise(Exception, b.get_potential_energy, what="an element the model does not have", key="unknown element accepted")


def options(ctx, i):
    import symmetrix
    from symmetrix import Symmetrix
    rng = ctx.rng
    m = A.model(rng)
    p = m.write()
    try:
        bad = [dict(dtype="float16", use_kokkos=False), dict(dtype="double", use_kokkos=False), dict(dtype="", use_kokkos=False), dict(dtype=None, use_kokkos=False),
               dict(dtype="float32", use_kokkos=False), dict(dtype="float16")]
        sub = getattr(symmetrix, "symmetrix", symmetrix)
        if not hasattr(sub, "MACEKokkos"):
            bad += [dict(), dict(use_kokkos=True), dict(dtype="float32", use_kokkos=True), dict(dtype="float64")]
        for kw in bad:
            ctx.desc = dict(options=kw)
            ctx.expect_raise(Exception, lambda: Symmetrix(p, **kw), what=f"options {kw}", key="unsupported options accepted")
            ctx.seen("option", sorted(kw.items(), key=str))
        if not hasattr(sub, "MACE"):
            return
        ctx.expect_raise(Exception, lambda: Symmetrix(p + ".missing", use_kokkos=False), what="a missing model file", key="missing model accepted")
        # a foreign file is converted; the answers are those of the data the conversion returns
        asked = {}
        stub = types.ModuleType("symmetrix.extract_mace_data")

        def extract_mace_data(model, species=None, head=None, num_spline_points=256):
            asked.update(model=str(model), species=species, head=head, points=num_spline_points)
            return m.json()
        stub.extract_mace_data = extract_mace_data
        q = p + ".model"
        with open(q, "wb") as f:
            f.write(b"PK\x03\x04" + bytes(rng.integers(0, 256, 300).astype(np.uint8)))
        sys.modules["symmetrix.extract_mace_data"] = stub
        try:
            kw = dict(species=[int(z) for z in m.Z])
            if rng.random() < .5:
                kw["head"] = "Default"
            if rng.random() < .5:
                kw["num_spline_points"] = 100
            ctx.desc = dict(options=kw)
            calc = ctx.call(lambda: Symmetrix(q, use_kokkos=False, **kw), what="Symmetrix(converted model)")
        finally:
            del sys.modules["symmetrix.extract_mace_data"]
            os.unlink(q)
        ctx.true(asked == dict(model=q, species=kw["species"], head=kw.get("head"), points=kw.get("num_spline_points", 256)), "conversion options", f"conversion was asked for {asked}")
        a = A.atoms(rng, m)
        c20.compare(ctx, m, a, c20.props(ctx, calc, a), " of a converted model")
        ctx.event("converted models")
        ctx.seen("converted", m.N, "head" in kw, "num_spline_points" in kw)
    finally:
        os.unlink(p)
