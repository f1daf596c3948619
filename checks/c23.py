"""LAMMPS per-atom tallies and element mapping follow the input script."""
import os
import tempfile

import numpy as np
from vlib import asegen, build, kk, lmp, macegen as G, mc
from vlib.runner import Job
from checks import c22

LEVEL = "exploration"
TECHNIQUE = ("conservation monitor over the per-atom and global tallies of the real LAMMPS pair styles, run on an instrumented stand-in for LAMMPS, with sentinel-filled tallies; rejection monitor over "
             "input commands; ASan/UBSan")
RULE = ("as C22, with every combination of energy and virial requests in any order on one pair style, tallies filled with sentinels before each step; type-to-element maps in any order, with repeated and "
        "unused elements; commands with unknown modes, too many arguments, elements that do not exist or are not in the model, missing or surplus elements, missing maps, newton off, per-atom virials, "
        "unreadable models; after a refused command the style is used again; non-trivial = distinct (style, mode, requests, map shape, refused command)")
ASSUMPTIONS = c22.ASSUMPTIONS
MIN_DISTINCT = 100
FACTOR = 2
prepare = c22.prepare


def jobs(tier):
    k = 1 if tier == "quick" else 25
    return [Job("serial", part="mace", n=120 * k), Job("serial", part="mace", flavour="asan", n=24 * k),
            Job("kokkos", part="kokkos", n=80 * k), Job("kokkos", part="kokkos", flavour="asan", n=10 * k),
            Job("refused", part="mace", n=80 * k, args=dict(kok=False)), Job("refused", part="mace", flavour="asan", n=32 * k, args=dict(kok=False)),
            Job("refused", part="kokkos", n=48 * k, args=dict(kok=True)), Job("refused", part="kokkos", flavour="asan", n=16 * k, args=dict(kok=True))]


def tallies(ctx, rng, S, V, style, tol):
    m = asegen.model(rng, symmetric=bool(rng.random() < .5))
    elem = lmp.mapping(rng, m)
    mode = str(rng.choice(lmp.MODES))
    P = c22.ranks(rng, mode)
    kok = style.endswith("kk")
    sep = int(rng.integers(2))
    if kok:
        kk.use(ctx, dict(kk.mode(rng), separate=sep))
    H = lmp.Host(ctx, rng, m, style, P, mode, elem, V, map_style=int(rng.integers(1, 3)), device=bool(rng.random() < .6))
    ev = mc.load(ctx, S, m)
    f = H.h.flags(0)
    ctx.true(f["one_coeff"] == 1 and f["single_enable"] == 0 and f["restartinfo"] == 0 and f["manybody_flag"] == 1 and f["no_virial_fdotr_compute"] == 1, "pair flags", str(f))
    s = None
    for step in range(int(rng.integers(3, 7))):
        if s is None or rng.random() < .4:
            s = lmp.system(rng, m, elem)
            H.setup(ctx, s)
        e, v = int(rng.integers(0, 4)), int(rng.choice([0, 1, 2]))
        ctx.desc = dict(mc.describe(m), style=style, mode=mode, ranks=P, scheme=H.scheme, skin=H.skin, atoms=s.n, pbc=s.pbc, local=H.L.nlocal, step=step, eflag=e, vflag=v, elem=elem)
        if kok:
            t = kk.use(ctx, dict(kk.mode(rng), separate=sep))
        c22.judge(ctx, H, S, m, s, tol, H.compute(ctx, e, v), ev)
        ctx.seen(style, mode, P, e, v, len(elem) - m.N, elem == sorted(elem), H.scheme)
        if rng.random() < .1:                       # per-atom virials are not supported: refused, not zero
            ctx.expect_raise(Exception, H.h.compute, e, int(rng.choice([4, 5, 6])), what="compute with per-atom virial")
            ctx.event("per-atom virial refused")
    ctx.sample(ctx.desc)


def serial(ctx, i):
    import symmetrix as S
    import vl as V
    tallies(ctx, ctx.rng, S, V, "symmetrix/mace", mc.TIGHT)


def kokkos(ctx, i):
    S = kk.start()
    import vl as V
    V.init()
    style, tol = ("symmetrix/mace/float32/kk", c22.FLOAT) if ctx.rng.random() < .3 else ("symmetrix/mace/kk", mc.TIGHT)
    tallies(ctx, ctx.rng, S, V, style, tol)


def refused(ctx, i, kok=False):
    rng = ctx.rng
    if kok:
        S = kk.start()
    else:
        import symmetrix as S
    import vl as V
    if kok:
        V.init()
    style = str(rng.choice(["symmetrix/mace/kk", "symmetrix/mace/float32/kk"])) if kok else "symmetrix/mace"
    tol = c22.FLOAT if "float" in style else mc.TIGHT
    m = asegen.model(rng)
    elem = lmp.mapping(rng, m)
    sym = [lmp.SYM[m.Z[e] - 1] for e in elem]
    P = int(rng.choice([1, 2, 4]))
    if kok:
        kk.use(ctx, kk.mode(rng))
    h = ctx.call(V.Host, style, P, what=style)
    env = lambda mu=1, newton=1, skin=.3: h.environment(len(elem), mu, 1, newton, skin, 0., bool(rng.random() < .5))
    env()
    good = str(rng.choice([q for q in lmp.MODES if P == 1 or q != lmp.MODES[0]]))
    path = m.write()
    notmodel = tempfile.NamedTemporaryFile("w", suffix=".json", delete=False)
    notmodel.write('{"num_elements": 1}'); notmodel.close()
    what = ["mode", "two modes", "nodd", "element", "foreign", "few", "many", "none", "map", "newton", "file", "notmodel", "order"][i % 13]
    ctx.desc = dict(mc.describe(m), style=style, ranks=P, refused=what, mode=good)
    no = lambda f, *a, w: ctx.expect_raise(Exception, f, *a, what=w)
    try:
        if what == "mode":
            bad = str(rng.choice(["", "no_domain_decompositio", "mpi", "MPI_message_passing", "no_mpi_message_passing ", "off"]))
            no(h.settings, [bad], w="pair_style with mode '%s'" % bad)
        if what == "two modes":
            no(h.settings, [good, good], w="pair_style with two arguments")
        if what == "nodd":
            h2 = V.Host(style, int(rng.choice([2, 3])))
            h2.environment(len(elem), 1, 1, 1, .3, 0., True)
            no(h2.settings, [lmp.MODES[0]], w="no_domain_decomposition on several processes")
        ctx.call(h.settings, [good], what="pair_style")
        args = lambda s, f=path: ["*", "*", f] + list(s)
        k = int(rng.integers(len(sym)))
        if what == "element":
            bad = str(rng.choice(["Xx", "h", "HE", "NULL", "", "119", "Uuo", "H "]))
            no(h.coeff, args(sym[:k] + [bad] + sym[k + 1:]), w="pair_coeff with element '%s'" % bad)
        if what == "foreign":
            z = int(rng.choice([z for z in range(1, 119) if z not in m.Z]))
            no(h.coeff, args(sym[:k] + [lmp.SYM[z - 1]] + sym[k + 1:]), w="pair_coeff with element absent from the model")
        if what == "few":
            no(h.coeff, args(sym[:-1]), w="pair_coeff with too few elements")
        if what == "many":
            no(h.coeff, args(sym + sym[:1]), w="pair_coeff with too many elements")
        if what == "none":
            no(h.coeff, ["*", "*", path][:int(rng.integers(2, 4))], w="pair_coeff without elements")
        if what == "file":
            no(h.coeff, args(sym, path + ".absent"), w="pair_coeff with a missing file")
        if what == "notmodel":
            no(h.coeff, args(sym, notmodel.name), w="pair_coeff with a file that is no model")
        if what in ("element", "foreign", "few", "many", "none") and rng.random() < .5:
            h = ctx.call(V.Host, style, P, what=style)
            env()
            ctx.call(h.settings, [good], what="pair_style")
        if what == "order":
            no(h.init, w="run before pair_coeff")
        ctx.call(h.coeff, args(sym), what="pair_coeff")
        if what == "map":
            env(mu=0)
            no(h.init, w="run without an atom map")
        if what == "newton":
            env(newton=0)
            no(h.init, w="run with newton off")
        env()
        # after that the style works
        H = lmp.Host.__new__(lmp.Host)
        H.m, H.P, H.mode, H.elem, H.style, H.rng, H.skin, H.h = m, P, good, elem, style, rng, .3, h
        H.cut = ctx.call(h.init, what="init_style")
        s = lmp.system(rng, m, elem, n=int(rng.integers(1, 5)))
        H.setup(ctx, s)
        c22.judge(ctx, H, S, m, s, tol, H.compute(ctx, 3, 1))
        ctx.seen("refused", what, style, good, P)
        ctx.event("refused commands")
    finally:
        os.unlink(path); os.unlink(notmodel.name)
