"""Model extraction writes exactly the model that was trained."""
import contextlib
import io
import json
import logging
import os
import shutil
import sys
import tempfile

import numpy as np
from vlib import macegen as G, mc
from vlib.runner import Job

LEVEL = "exploration"
TECHNIQUE = ("differential monitor: the real extraction and command line tool run on synthetic trained models (stand-ins for torch, e3nn and mace), the written file evaluated by the real potential and every "
             "energy and force compared with a layer-by-layer evaluation of the trained model; rejection monitor for unsupported models")
RULE = ("trained models of 1..5 elements, 1..4 channels, L_max 0..2, with and without density blocks, repulsion and several heads, weights in either stored layout; extracted for any subset and order of elements "
        "given as numbers, strings or symbols, with any number of table points; the dictionary, the file of the command line tool and the calculator's own conversion evaluated on random structures; radial "
        "functions either reproduced exactly by cubic tables (allowed error 1e-9 of the largest term) or general; non-trivial = distinct (model shape, selection, route)")
ASSUMPTIONS = ["torch, e3nn and mace are replaced by stand-ins with their documented layouts and normalisations (weights over sqrt of the fan-in, (l, channel, m) order, uvu products)",
               "with torch's default single precision the tables carry single precision, so the allowed error is 2e-5"]
MIN_DISTINCT = 60
FACTOR = 2


def jobs(tier):
    k = 1 if tier == "quick" else 20
    return [Job("extracted", part="mace", n=96 * k, timeout=840), Job("tool", part="mace", n=48 * k, timeout=840), Job("refused", part="mace", n=48 * k),
            Job("general", part="mace", n=24 * k, timeout=840), Job("smooth", part="mace", n=24 * k, timeout=840), Job("calculator", part="mace", n=24 * k, timeout=840)]


def start():
    from vlib import torchgen as T
    import symmetrix
    logging.disable(logging.CRITICAL)
    return T, symmetrix


def pick(rng, m, T):
    """elements asked for -> (argument, atomic numbers)"""
    from ase.data import chemical_symbols
    Z = [int(z) for z in np.asarray(m.atomic_numbers)]
    if rng.random() < .15:
        return ([] if rng.random() < .5 else None), sorted(Z), "all"
    k = int(rng.integers(1, len(Z) + 1))
    s = [Z[q] for q in rng.permutation(len(Z))[:k]]
    how = str(rng.choice(["int", "str", "symbol", "mixed", "numpy"]))
    f = dict(int=int, str=str, symbol=lambda z: chemical_symbols[z], numpy=np.int64,
             mixed=lambda z: [z, str(z), chemical_symbols[z]][int(rng.integers(3))])[how]
    return [f(z) for z in s], sorted(s), how


def judge(ctx, rng, S, T, m, Z, path, tol, n=3, key=""):
    """evaluate the file with the real potential and compare with the trained model"""
    ev = ctx.call(S.MACE, path, what="MACE(extracted file)")
    same_file(ctx, rng, S, T, m, Z, ev, tol, n, key)


def same_file(ctx, rng, S, T, m, Z, ev, tol, n=3, key=""):
    ctx.true(sorted(int(z) for z in ev.atomic_numbers) == Z, "elements of the extracted model", f"{list(ev.atomic_numbers)} instead of {Z}")
    r_cut = float(np.asarray(m.r_max))
    ctx.true(abs(ev.r_cut - r_cut) < 1e-6, "cutoff of the extracted model", f"{ev.r_cut} instead of {r_cut}")
    order = [int(z) for z in ev.atomic_numbers]
    ref = T.Reference(m, order)
    shape = G.Model.__new__(G.Model)
    shape.N, shape.r_cut = len(order), r_cut
    for q in range(n):
        L = lists(rng, shape, q)
        want = ref(L.types, L.num_neigh, L.idx, L.xyz)
        size = ref.size
        e, f = mc.run(ctx, ev, L)
        ctx.close(e, want, size, key + "energy", tol=tol)
        if len(L.idx):
            d = rng.standard_normal(L.xyz.shape)
            got = float((f * d).sum())
            sl = float(ref(L.types, L.num_neigh, L.idx, L.xyz + 1e-30j * d).sum().imag / 1e-30)
            # pair forces: the change of the energy with each edge vector
            scale = size * 20 * len(L.idx) * (1 / r_cut + 1 / max(.05, float(L.r.min())))
            ctx.close(got, -sl, scale, key + "force", tol=tol * 10)
            ctx.event("force directions compared")


def lists(rng, m, q):
    if q == 0:
        t = np.arange(m.N)                              # every element, alone and as neighbour of every other
        i, j = np.meshgrid(t, t, indexing="ij")
        L = G.random_lists(rng, m, n=m.N, max_neigh=m.N)
        u = rng.standard_normal((m.N * m.N, 3)); u /= np.linalg.norm(u, axis=1)[:, None]
        return G.Lists(t, [m.N] * m.N, j.ravel(), u * rng.uniform(.6, m.r_cut * .98, (m.N * m.N, 1)))
    return mc.any_lists(rng, m) if q == 1 else G.random_lists(rng, m, n=int(rng.integers(1, 6)), max_neigh=6, rmin=.6)


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="verif-c29-")
    old = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d)


def trained(ctx, rng, T, kind="cubic", **k):
    heads = int(rng.choice([1, 1, 1, 2, 3]))
    m = T.model(rng, kind, heads=heads, **k)
    if rng.random() < .4:                               # stored in single precision, as most models are
        m.to(T.torch.float32)
    T.torch.set_default_dtype(T.torch.float64)
    return m, heads


def precision(ctx, rng, T):
    """-> tolerance; torch's own default is single precision"""
    if rng.random() < .25:
        T.torch.set_default_dtype(T.torch.float32)
        ctx.event("extractions with single precision default")
        return 2e-5
    T.torch.set_default_dtype(T.torch.float64)
    return 1e-9


def one_head(m, rng, heads, cli=False):
    """-> head argument, the model it selects"""
    if heads == 1:
        return (None if rng.random() < .7 else "Default"), m
    if rng.random() < .3:
        return None, m.single_head(next(i for i, h in enumerate(m.heads) if h != "pt_head"))
    i = int(rng.integers(heads))
    return m.heads[i], m.single_head(i)


def describe(m, heads, Z, how, **k):
    return dict(K=m.K, N=m.N, L_max=m.L_max, density=m.dens, zbl=hasattr(m, "pair_repulsion_fn"), heads=heads, elements=[int(z) for z in np.asarray(m.atomic_numbers)], extracted=Z, given_as=how, **k)


def double(m, T):
    import copy
    return copy.deepcopy(m).to(T.torch.float64)


def extracted(ctx, i, kind="cubic"):
    T, S = start()
    from symmetrix.extract_mace_data import extract_mace_data
    rng = ctx.rng
    m, heads = trained(ctx, rng, T, kind)
    tol = precision(ctx, rng, T)
    head, one = one_head(double(m, T), rng, heads)
    arg, Z, how = pick(rng, m, T)
    pts = int(rng.choice([4, 5, 17, 64, 100])) if kind == "cubic" else int(rng.choice([400, 601]))
    given = rng.random() < .8 if kind == "cubic" else True
    ctx.desc = describe(m, heads, Z, how, head=head, points=pts if given else None, kind=kind)
    with scratch() as d:
        p = os.path.join(d, str(rng.choice(["a.model", "model", "my-mace.pt"])))
        T.torch.save(m, p)
        before = open(p, "rb").read()
        a = [p, arg] + ([head, pts] if given else ([head] if head is not None else []))
        import pathlib
        if rng.random() < .3:
            a[0] = pathlib.Path(p)
        data = ctx.call(extract_mace_data, *a, what="extract_mace_data")
        ctx.true(open(p, "rb").read() == before and os.listdir(d) == [os.path.basename(p)], "extraction changes files")
        with open("m.json", "w") as f:
            json.dump(data, f)
        n = pts if given else 256
        ctx.true(len(data["radial_spline_values_0"][0][0]) == n and len(data["radial_spline_values_1"][0][0]) == n, "table points", f"{len(data['radial_spline_values_0'][0][0])} instead of {n}")
        judge(ctx, rng, S, T, one, Z, "m.json", tol if kind == "cubic" else 2e-5)
    ctx.event("extractions"); ctx.event("extractions for %d of %d elements" % (len(Z), m.N))
    ctx.seen("extract", m.K, m.N, m.L_max, m.dens, hasattr(m, "pair_repulsion_fn"), heads, len(Z), how, kind)
    ctx.sample(ctx.desc)


def general(ctx, i):
    extracted(ctx, i, "general")


def smooth(ctx, i):
    """coarse tables still end at zero with zero slope"""
    T, S = start()
    from symmetrix.extract_mace_data import extract_mace_data
    rng = ctx.rng
    m = T.model(rng, "general")
    T.torch.set_default_dtype(T.torch.float64)
    Z = [int(z) for z in np.asarray(m.atomic_numbers)]
    pts = int(rng.choice([6, 9, 16, 25]))
    ctx.desc = describe(m, 1, Z, "int", points=pts)
    with scratch():
        T.torch.save(m, "x.model")
        data = ctx.call(extract_mace_data, "x.model", Z, None, pts, what="extract_mace_data")
        with open("m.json", "w") as f:
            json.dump(data, f)
        ev = ctx.call(S.MACE, "m.json", what="MACE(extracted file)")
    r = float(np.asarray(m.r_max))
    n = len(Z)
    t = np.repeat(np.arange(n), n), np.tile(np.arange(n), n)
    for a, b in zip(*t):
        d = np.array([r * (1 - 1e-9), 0, 0]) if rng.random() < .5 else np.array([0, .6 * r, .8 * r]) * (1 - 1e-9)
        # a third atom gives the features of a and b something to differ by
        c = rng.standard_normal(3); c *= rng.uniform(.6, .9) * .5 * r / np.linalg.norm(c)
        one = G.build_lists([a, a], [np.zeros(3), c], 0.999 * r)
        two = G.build_lists([a, a, b], [np.zeros(3), c, d], r) if np.linalg.norm(d - c) > r * 1.001 else None
        if two is None:
            two = G.build_lists([a, a, b], [np.zeros(3), -c, d], r)
            one = G.build_lists([a, a], [np.zeros(3), -c], 0.999 * r)
            if np.linalg.norm(d + c) <= r * 1.001:
                continue
        lone = G.Lists([b], [0], [], np.zeros((0, 3)))
        e2, f2 = mc.run(ctx, ev, two); F2 = G.atom_forces(two, f2)
        e1, f1 = mc.run(ctx, ev, one); F1 = G.atom_forces(one, f1)
        e0, _ = mc.run(ctx, ev, lone)
        ref = T.Reference(m, [int(z) for z in ev.atomic_numbers])
        ref(two.types, two.num_neigh, two.idx, two.xyz)
        ctx.close(e2, np.concatenate([e1, e0]), ref.size, "energy at the cutoff", tol=1e-7)
        ctx.close(F2, np.concatenate([F1, np.zeros((1, 3))]), ref.size * 20 / r, "force at the cutoff", tol=1e-6)
        ctx.event("pairs at the cutoff")
    ctx.seen("smooth", n, pts, m.K)


def run_cli(argv):
    from symmetrix.cli import extract_mace
    old, sys.argv = sys.argv, ["symmetrix_extract_mace"] + argv
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            extract_mace.main()
    finally:
        sys.argv = old


def tool(ctx, i):
    T, S = start()
    from symmetrix.extract_mace_data import extract_mace_data
    from ase.data import chemical_symbols
    rng = ctx.rng
    m, heads = trained(ctx, rng, T)
    tol = precision(ctx, rng, T)
    head, one = one_head(double(m, T), rng, heads)
    Zs = [int(z) for z in np.asarray(m.atomic_numbers)]
    s = [Zs[q] for q in rng.permutation(len(Zs))[:int(rng.integers(1, len(Zs) + 1))]]
    sym = bool(rng.random() < .5)
    names = [chemical_symbols[z] if sym else str(z) for z in s]
    stem, ext = str(rng.choice(["my-mace", "a.b", "mace_2024"])), str(rng.choice([".model", ".pt"]))
    if stem == "my-mace" and rng.random() < .3:
        ext = ""
    out = str(rng.choice(["out.json", "sub/x"])) if rng.random() < .4 else None
    ctx.desc = describe(m, heads, sorted(s), "symbols" if sym else "numbers", head=head, file=stem + ext, output=out)
    with scratch() as d:
        sub = rng.random() < .5
        os.mkdir("sub"); os.mkdir("in")
        p = ("in/" if sub else "") + stem + ext
        T.torch.save(m, p)
        argv = [[str(rng.choice(["--model", "-m"])), p],
                [str(rng.choice(["--chemical-symbols", "-s"] if sym else ["--atomic-numbers", "-Z", "-z"]))] + names]
        if head is not None:
            argv.append([str(rng.choice(["--head", "-H"])), head])
        if out:
            argv.append([str(rng.choice(["--output", "-o"])), out])
        argv = [q for k in rng.permutation(len(argv)) for q in argv[k]]
        ctx.desc["argv"] = argv
        try:
            run_cli(argv)
        except (Exception, SystemExit) as e:
            ctx.fail("tool failed", f"symmetrix_extract_mace {' '.join(argv)} ended with {type(e).__name__}: {e}")
        new = sorted(os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs if os.path.relpath(os.path.join(r, f), d) != p)
        if out:
            ok = [out]
        else:                                           # documented: my-mace-1-8.json; the order of 8 and 10 is not
            ok = [stem + "-" + "-".join(q) + ".json" for q in (sorted(names), [x for _, x in sorted(zip(s, names))])]
        ctx.true(len(new) == 1 and new[0] in ok, "file written by the tool", f"{new} instead of {ok[0]}")
        data = json.load(open(new[0]))
        T.torch.set_default_dtype(T.torch.float64 if tol < 1e-6 else T.torch.float32)
        want = extract_mace_data(p, names, head)
        ctx.true(data == json.loads(json.dumps(want)), "contents of the file", "the file differs from the extracted data")
        judge(ctx, rng, S, T, one, sorted(s), new[0], tol, n=2, key="tool ")
    ctx.event("files written by the tool")
    ctx.seen("tool", m.N, len(s), sym, head is None, stem + ext, bool(out))


def calculator(ctx, i):
    """the calculator converts a trained model by itself"""
    T, S = start()
    rng = ctx.rng
    m, heads = trained(ctx, rng, T)
    tol = precision(ctx, rng, T)
    head, one = one_head(double(m, T), rng, heads)
    arg, Z, how = pick(rng, m, T)
    kw = dict(species=arg)
    if head is not None:
        kw["head"] = head
    if rng.random() < .5:
        kw["num_spline_points"] = int(rng.choice([8, 33, 128]))
    ctx.desc = describe(m, heads, Z, how, head=head, kw=str(kw))
    with scratch():
        T.torch.save(m, "x.model")
        c = ctx.call(lambda: S.Symmetrix("x.model", use_kokkos=False, **kw), what="Symmetrix(torch model)")
        same_file(ctx, rng, S, T, one, Z, c.evaluator, tol, key="calculator ")
        ctx.true(os.listdir(".") == ["x.model"], "conversion leaves files")
    ctx.event("conversions by the calculator")
    ctx.seen("calculator", m.N, len(Z), how, heads)


ODD = [("three layers", dict(layers=3)), ("one layer", dict(layers=1)), ("first block", dict(block0=1)), ("second block", dict(block1=1)), ("l_max 2", dict(l_max=2)),
       ("pair repulsion", dict(pair=1, zbl=True)), ("correlation 2", dict(corr0=2, corr1=2)), ("correlation 2 in layer 1", dict(corr0=2)), ("correlation 2 in layer 2", dict(corr1=2)),
       ("correlation 4 in layer 2", dict(corr1=4)), ("hidden width", dict(hidden=8)), ("gate", dict(gate=1)), ("singular weights", dict(rank=1)),
       ("element", None), ("symbol", None), ("head", None)]


def refused(ctx, i):
    T, S = start()
    from symmetrix.extract_mace_data import extract_mace_data
    rng = ctx.rng
    what, odd = ODD[i % len(ODD)]
    tol = precision(ctx, rng, T)
    m = T.model(rng, K=int(rng.integers(1, 4)), N=int(rng.integers(1, 4)), heads=2 if what == "head" else 1, **(odd or {}))
    Z = [int(z) for z in np.asarray(m.atomic_numbers)]
    sp, head = list(Z), None
    k = int(rng.integers(len(Z) + 1))
    if what == "element":
        sp.insert(k, int(rng.choice([z for z in range(1, 119) if z not in Z])))
    if what == "symbol":
        sp.insert(k, str(rng.choice(["Qq", "h", "HE", "", "H2O", "1.5"])))
    if what == "head":
        head = "nosuchhead"
    ctx.desc = dict(refused=what, elements=Z, species=[str(q) for q in sp])
    with scratch():
        T.torch.save(m, "x.model")
        ctx.expect_raise(Exception, extract_mace_data, "x.model", sp, head, what="extraction of a model with unsupported " + what, key="accepted: " + what)
        if rng.random() < .5:
            try:
                run_cli(["-m", "x.model", "-s"] + [str(q) for q in sp] + (["-H", head] if head else []) + ["-o", "y.json"])
                ctx.fail("accepted by the tool: " + what, "the tool wrote a file for a model with unsupported " + what)
            except (Exception, SystemExit) as e:
                if type(e).__name__ == "Violation":
                    raise
            ctx.true(not os.path.exists("y.json"), "file left by a refused extraction")
    ctx.event("refusals"); ctx.seen("refused", what, m.N, m.K)
