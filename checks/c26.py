"""Kokkos kernels are race-free for any thread count and schedule."""
import os
import numpy as np
from vlib import build, kk, macegen as G, mc
from vlib.runner import Job, ProgJob
from checks import c18, c22, c25

LEVEL = "exploration"
TECHNIQUE = "ThreadSanitizer over the real kernels on a stand-in Kokkos with real threads and teams, and a differential monitor against the single-threaded schedule"
RULE = ("the Kokkos potential (double and single precision) and the Kokkos evaluators run with 2..5 host threads and teams of 1..4 real threads, iterations dealt out by stride, block or at random and "
        "run upwards, downwards or shuffled, kernels immediate or deferred to the next fence, host and device copies shared or separate; ThreadSanitizer watches every access; the same case is run on one "
        "thread in order and compared; neighbour lists in which many atoms share a neighbour; the LAMMPS Kokkos pair styles' own kernels and message packing run the same way; non-trivial = distinct (evaluator or model shape, threads, team, order, mapping, deferral)")
ASSUMPTIONS = ["the stand-in Kokkos maps thread and team parallelism to host threads; lanes of a vector range inside one team thread run one after the other",
               "ThreadSanitizer judges happens-before in the executed schedules"]
MIN_DISTINCT = 120
FACTOR = 1
SEED = int(os.environ.get("VERIF_SEED", "1"))
MODELS = f"{build.BUILD}/models26-{os.getpid()}"


def prepare(jobs):
    for fl in {j.flavour for j in jobs if isinstance(j, ProgJob)}:
        build.program("kokkos_threads", "kokkos", fl, ["kokkos_threads.cpp"])
    c18.write_models(MODELS, SEED + 7, 24)
    c22.prepare([j for j in jobs if getattr(j, "fn", "") == "styles"])


def jobs(tier):
    k = 1 if tier == "quick" else 20
    B = build.BUILD + "/bin/kokkos_threads-kokkos-"
    out = [ProgJob("kokkos_threads", [B + "tsan", MODELS + "/models.txt", str(SEED), str(c * 100000), str(60 * k)], "tsan", timeout=800, label=f"chunk {c}") for c in range(8)]
    out += [Job("schedules", part="kokkos", n=240 * k), Job("styles", part="kokkos", flavour="tsan", n=48 * k)]
    return out


def styles(ctx, i):
    """the LAMMPS pair styles' own kernels"""
    c22.kokkos(ctx, i)


def schedules(ctx, i):
    """one structure, many schedules"""
    S = kk.start()
    rng = ctx.rng
    m = G.Model(rng, symmetric=bool(rng.random() < .4), **mc.VARIANTS[i % len(mc.VARIANTS)])
    cls, tol = c25.pick(rng)
    ev = mc.load(ctx, S, m, cls)
    L = mc.any_lists(rng, m)
    _, size = mc.ref(m, L)
    sc = mc.fscale(m, L, size)
    kk.use(ctx, dict(threads=1, team=1, order="up", map="stride", defer=0, separate=0, seed=0))
    e0, f0 = mc.run(ctx, ev, L)
    for _ in range(5):
        mode = kk.mode(rng)
        mode["threads"] = int(rng.choice([1, 2, 3, 5, 8]))
        t = kk.use(ctx, mode)
        ctx.desc.update(mc.describe(m, L), cls=cls)
        e, f = mc.run(ctx, ev, L)
        ctx.close(e, e0, size, cls + ": the schedule changes an energy", tol=tol)
        ctx.close(f, f0, sc, cls + ": the schedule changes a force", tol=tol)
        ctx.seen(cls, *t, mode["map"], m.l_max, m.L_max)
        ctx.event("schedules compared")
    kk.stats(ctx)
    ctx.sample(ctx.desc)
