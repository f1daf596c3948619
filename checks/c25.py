"""Kokkos MACE agrees with serial MACE."""
import numpy as np
from vlib import kk, macegen as G, mc
from vlib.runner import Job
from checks import c17

LEVEL = "exploration"
TECHNIQUE = "differential monitor of the real Kokkos potential, run on an instrumented stand-in for the Kokkos library, against an independent energy, complex-step slopes and the serial potential"
RULE = ("random model files of every variant (angular orders, repulsion, scaled densities, monomials of degree up to four), double and single precision; structures of 0..30 atoms, growing, shrinking and "
        "empty on one object, lists padded with neighbours at and beyond the cutoff, one-call, staged and cut-short evaluations, a fresh set of backend choices (threads, team size, order, deferral, "
        "separate memory) for every evaluation; the stand-in reports out-of-range views, missing fences and dead views and fills fresh memory with NaN; non-trivial = distinct (model shape, list shape, "
        "precision, backend choice)")
ASSUMPTIONS = ["the stand-in Kokkos implements the documented Kokkos semantics of the constructs the library uses; vector lanes of one thread run one after the other",
               "single precision is compared at 1e-5 of the sizes entering the sums (rounding observed: below 1e-6)"]
MIN_DISTINCT = 150
FACTOR = 2
FLOAT = 1e-5


def jobs(tier):
    k = 1 if tier == "quick" else 25
    return [Job("variants", part="kokkos", n=240 * k), Job("history", part="kokkos", n=96 * k), Job("padded", part="kokkos", n=80 * k), Job("wide", part="kokkos", n=20 * k),
            Job("variants", part="kokkos", flavour="asan", n=48 * k), Job("history", part="kokkos", flavour="asan", n=16 * k), Job("padded", part="kokkos", flavour="asan", n=16 * k)]


def pick(rng):
    return ("MACEKokkosFloat", FLOAT) if rng.random() < .3 else ("MACEKokkos", mc.TIGHT)


def run(ctx, rng, ev, L, how="call", m=None):
    t = kk.use(ctx, kk.mode(rng))
    if how == "stages":
        ctx.call(c17.stages, ev, m, L, what="stages")
        e, f = np.array(ev.node_energies, float)[:L.n], np.array(ev.node_forces, float)[:3 * len(L.idx)].reshape(-1, 3)
        ctx.event("staged evaluations")
    else:
        e, f = mc.run(ctx, ev, L)
    kk.stats(ctx)
    return e, f, t


def check(ctx, S, m, L, e, f, cls, tol, serial, key=""):
    want, size = mc.ref(m, L)
    sc = mc.fscale(m, L, size)
    ctx.close(e, want, size, cls + ":energies" + key, tol=tol)
    e2, f2 = mc.run(ctx, serial, L)
    ctx.close(f, f2, sc, cls + ":forces" + key, tol=tol)
    if len(L.idx):
        d = ctx.rng.standard_normal((len(L.idx), 3))
        s = mc.slope(m, L, d)
        ctx.close(-(f * d).sum(), s, sc * np.abs(d).sum(), cls + ":slope" + key, tol=tol)
    return size, sc


def variants(ctx, i):
    S = kk.start()
    rng = ctx.rng
    m = G.Model(rng, symmetric=bool(rng.random() < .4), **mc.VARIANTS[i % len(mc.VARIANTS)])
    cls, tol = pick(rng)
    kk.use(ctx, kk.mode(rng))
    ev = mc.load(ctx, S, m, cls)
    serial = mc.load(ctx, S, m)
    ctx.true(abs(ev.r_cut - m.r_cut) <= 1e-15 * m.r_cut and list(ev.atomic_numbers) == list(m.Z), "model data")
    for _ in range(3):
        L = mc.any_lists(rng, m)
        ctx.desc = dict(mc.describe(m, L), cls=cls)
        e, f, t = run(ctx, rng, ev, L)
        check(ctx, S, m, L, e, f, cls, tol, serial)
        ctx.seen(cls, *mc.shape_of(m, L), *t)
    ctx.sample(ctx.desc)


def wide(ctx, i):
    S = kk.start()
    rng = ctx.rng
    m, L = mc.wide(rng, i)
    cls, tol = pick(rng)
    ev = mc.load(ctx, S, m, cls)
    serial = mc.load(ctx, S, m)
    for l in (L, G.random_lists(rng, m, n=2, max_neigh=3), mc.near(rng, m, L)):
        ctx.desc = dict(mc.describe(m, l), cls=cls)
        e, f, t = run(ctx, rng, ev, l)
        check(ctx, S, m, l, e, f, cls, tol, serial)
        ctx.seen("wide", cls, i % len(mc.WIDE), l is L, *t)


def history(ctx, i):
    S = kk.start()
    rng = ctx.rng
    models = [G.Model(rng, symmetric=bool(rng.random() < .4), small=True) for _ in range(int(rng.integers(1, 3)))]
    objs = []
    for m in models + models[:1]:
        cls, tol = pick(rng)
        objs.append((m, mc.load(ctx, S, m, cls), cls, tol, mc.load(ctx, S, m)))
    prev, past = {}, {}
    for step in range(int(rng.integers(6, 13))):
        k = int(rng.integers(len(objs)))
        m, ev, cls, tol, serial = objs[k]
        L = mc.near(rng, m, past[id(m)]) if id(m) in past and rng.random() < .45 else c17.structure(rng, m)
        past[id(m)] = L
        ctx.desc = dict(mc.describe(m, L), step=step, cls=cls)
        how = "call"
        if not m.has_zbl and rng.random() < .3:
            how = "stages"
            if rng.random() < .4:
                kk.use(ctx, kk.mode(rng))
                ctx.call(c17.stages, ev, m, L, int(rng.integers(1, 22)), what="stages")
                ctx.event("evaluations cut short")
                prev[k] = ("cut", c17.cls(L))
                continue
        e, f, t = run(ctx, rng, ev, L, how, m)
        size, sc = check(ctx, S, m, L, e, f, cls, tol, serial, " in a history")
        if rng.random() < .25:
            e2, f2, _ = run(ctx, rng, mc.load(ctx, S, m, cls), L)
            ctx.close(e, e2, size, cls + ":history-dependent energies", tol=tol)
            ctx.close(f, f2, sc, cls + ":history-dependent forces", tol=tol)
            ctx.event("results compared with a fresh object")
        ctx.seen(prev.get(k), c17.cls(L), how, cls)
        prev[k] = (how, c17.cls(L))
        if rng.random() < .06 and len(objs) > 1:
            objs.pop(k)
            prev = {}
            ctx.event("objects destroyed")


def padded(ctx, i):
    """neighbours listed at and beyond the cutoff contribute nothing"""
    S = kk.start()
    rng = ctx.rng
    from checks import c16
    m = c16.model(rng)
    cls, tol = pick(rng)
    ev = mc.load(ctx, S, m, cls)
    for _ in range(2):
        L = mc.any_lists(rng, m)
        if L.n == 0:
            continue
        L1, mine = c16.pad(rng, m, L)
        ctx.desc = dict(mc.describe(m, L1), cls=cls)
        e0, f0, _ = run(ctx, rng, ev, L)
        e, f, t = run(ctx, rng, ev, L1)
        want, size = mc.ref(m, L)
        sc = mc.fscale(m, L, size)
        ctx.close(e, want, size, cls + ":neighbour beyond the cutoff changes an energy", tol=tol)
        ctx.close(f[mine >= 0], f0[mine[mine >= 0]], sc, cls + ":neighbour beyond the cutoff changes a force", tol=tol)
        ctx.true(bool((f[mine < 0] == 0).all()), cls + ":force from a neighbour beyond the cutoff")
        ctx.event("neighbours beyond the cutoff", int((mine < 0).sum()))
        ctx.seen("padded", cls, *mc.shape_of(m, L1), *t)
