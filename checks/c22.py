"""LAMMPS results do not depend on mode, process count or domain layout."""
import numpy as np
from vlib import asegen, build, kk, lmp, macegen as G, mc
from vlib.runner import Job

LEVEL = "exploration"
TECHNIQUE = ("differential monitor of the real LAMMPS pair styles, run on an instrumented stand-in for LAMMPS (ranks, ghosts, messages, neighbour lists), against the library on the full system; "
             "conservation monitors on forces and tallies; ASan/UBSan")
RULE = ("random model files; molecules, wires, slabs, bulk and cells smaller than the cutoff; 1..8 ranks on regular grids with ghosts of ghosts or with atoms dealt out at random, ranks without atoms; all "
        "modes; neighbour lists with skin, in any order, with LAMMPS' flag bits set; positions moved between list builds; the order in which ranks run drawn at random; serial, Kokkos double and Kokkos "
        "single styles, device and host packing; non-trivial = distinct (style, mode, ranks, layout, periodicity, model shape, backend choice)")
ASSUMPTIONS = ["the stand-in for LAMMPS implements the documented contract of the calls the pair styles make (CommBrick exchange order, full lists, newton on)",
               "the styles get neighbour lists whose ilist is in index order, as LAMMPS builds full lists"]
MIN_DISTINCT = 120
FACTOR = 2
FLOAT = 1e-5


def prepare(jobs):
    for part, flavour in sorted({(j.part, j.flavour) for j in jobs}):
        build.lammps(part, flavour)


def jobs(tier):
    k = 1 if tier == "quick" else 25
    return [Job("serial", part="mace", n=160 * k), Job("serial", part="mace", flavour="asan", n=40 * k),
            Job("kokkos", part="kokkos", n=100 * k), Job("kokkos", part="kokkos", flavour="asan", n=16 * k)]


def ranks(rng, mode):
    return 1 if mode == lmp.MODES[0] else int(rng.choice([1, 2, 2, 3, 4, 6, 8]))


def judge(ctx, H, S, m, s, tol, out, ev=None):
    """results of the pair style against the library on the full system"""
    L = s.lists(m, H.elem)
    e, F, W = lmp.library(ctx, S, m, L, ev)
    want, size = mc.ref(m, L)
    sc = mc.fscale(m, L, size) * max(1, len(L.idx)) ** .5
    E, f, w, ea = out
    k = H.style + "/" + H.effective()
    if E is not None:
        ctx.close(E, e.sum(), size * max(1, s.n), k + ":energy", tol=tol)
    ctx.close(f, F, sc, k + ":forces", tol=tol)
    ctx.close(f.sum(0), np.zeros(3), sc * max(1, s.n), k + ":forces do not sum to zero", tol=tol)
    if w is not None:
        ctx.close(w, W, sc * m.r_cut * max(1, len(L.idx)) ** .5, k + ":virial", tol=tol)
    if ea is not None:
        ctx.close(ea, e, size, k + ":per-atom energies", tol=tol)
        if E is not None:
            ctx.close(ea.sum(), E, size * max(1, s.n), k + ":per-atom energies do not add up", tol=tol)
    ctx.event("neighbours", len(L.idx))
    return L


def story(ctx, rng, S, V, style, tol, order, eflags=(1,), vflags=(1, 2)):
    m = asegen.model(rng, symmetric=bool(rng.random() < .6))
    elem = lmp.mapping(rng, m)
    mode = str(rng.choice(lmp.MODES))
    P = ranks(rng, mode)
    if mode != lmp.MODES[2] and rng.random() < .15:
        mode, P = None, int(rng.choice([1, 2, 4]))
    kok = style.endswith("kk")
    sep, t = int(rng.integers(2)), ()
    if kok:
        t = kk.use(ctx, dict(kk.mode(rng), separate=sep))
    cg = float(rng.choice([0., 0., 1.5, 2., 2.1, 3.])) * m.r_cut
    H = lmp.Host(ctx, rng, m, style, P, mode, elem, V, cutghost=cg, map_style=int(rng.integers(1, 3)), device=bool(rng.random() < .6))
    ev = mc.load(ctx, S, m)
    ctx.true(abs(H.cut - m.r_cut) <= 1e-12, "cutoff")
    for rebuild in range(int(rng.integers(1, 4))):
        if rebuild and rng.random() < .3:
            H.script(ctx, rng)
            if H.m is not m:
                m = H.m
                ev = mc.load(ctx, S, m)
            elem, mode = H.elem, H.mode
            ctx.desc = dict(mc.describe(m), style=style, mode=mode, ranks=P, elem=elem)
        eff = H.effective()
        for _, fl in H.h.requests():
            ctx.true(fl & 1 and (fl & 2 or eff != lmp.MODES[2]), "neighbour list request", f"{eff} requests flags {fl}")
        if eff == lmp.MODES[2]:
            ctx.true(min(H.h.comm_cutoff()) >= 2 * m.r_cut + H.skin - 1e-6, "communication cutoff too short", str(H.h.comm_cutoff()))
        s = lmp.system(rng, m, elem, n=0 if rng.random() < .03 else None)
        H.setup(ctx, s, order)
        for step in range(int(rng.integers(1, 3))):
            if step:
                d = rng.standard_normal((s.n, 3))
                if s.n and rng.random() < .4:       # one atom only
                    d *= np.arange(s.n)[:, None] == int(rng.integers(s.n))
                d *= (rng.uniform(0, .499, (s.n, 1)) * H.skin) / np.maximum(1e-12, np.linalg.norm(d, axis=1, keepdims=True))
                s = lmp.System(s.pos + d, s.types, s.cell, s.pbc, s.tags)
                H.move(s)
                ctx.event("steps on an old neighbour list")
            e, v = int(rng.choice(eflags)), int(rng.choice(vflags))
            ctx.desc = dict(mc.describe(m), style=style, mode=mode, ranks=P, scheme=H.scheme, skin=H.skin, atoms=s.n, pbc=s.pbc, local=H.L.nlocal, step=(rebuild, step), eflag=e, vflag=v, elem=elem)
            if kok:
                t = kk.use(ctx, dict(kk.mode(rng), separate=sep))
            out = H.compute(ctx, e, v)
            L = judge(ctx, H, S, m, s, tol, out, ev)
            ctx.seen(style, eff, P, rebuild, H.scheme, s.pbc, m.l_max, m.L_max, m.has_zbl, m.scaled, min(s.n, 3), step > 0, t)
            if P > 1 and H.order:
                ctx.seen("order of ranks", P, H.order)
    ctx.sample(ctx.desc)


def serial(ctx, i):
    import symmetrix as S
    import vl as V
    story(ctx, ctx.rng, S, V, "symmetrix/mace", mc.TIGHT, "identity")


def kokkos(ctx, i):
    S = kk.start()
    import vl as V
    V.init()
    style, tol = ("symmetrix/mace/float32/kk", FLOAT) if ctx.rng.random() < .3 else ("symmetrix/mace/kk", mc.TIGHT)
    story(ctx, ctx.rng, S, V, style, tol, "identity")
