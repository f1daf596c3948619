"""Kokkos evaluators agree with the serial ones."""
import numpy as np
from vlib import evals, gen, kk
from vlib.runner import Job
from checks.c02 import bad_points

LEVEL = "exploration"
RULE = ("the real Kokkos sources on a monitoring stand-in for Kokkos (views with range checks, separate host and device copies, deferred kernels, "
        "several threads, teams and iteration orders, all switched at random between calls): histories over up to 6 live objects of 5 kinds compared call by call with "
        "independent references and with the serial class, out-of-table arguments, spline sets built from device views, radial tables and repulsion over "
        "neighbour lists; non-trivial = distinct (object kind, previous method, method, stand-in setting)")
ASSUMPTIONS = ["Kokkos is a stand-in written for these checks (standins/kokkos): it executes the programming model on host threads, not a GPU back end",
               "a perceptron's Kokkos class returns its first output only; that output is compared",
               "within relative 1e-11 of the last node either answer (value or rejection) is accepted on grids that do not represent it exactly"]
MIN_DISTINCT = 150


def jobs(tier):
    k = 1 if tier == "quick" else 10
    P = dict(part="kokkos", vh=True)
    return [Job("history", n=160 * k, **P), Job("domain", n=80 * k, **P), Job("tables", n=80 * k, **P), Job("repulsion", n=120 * k, **P),
            Job("history", flavour="asan", n=32 * k, chunks=4, **P), Job("tables", flavour="asan", n=24 * k, chunks=4, **P),
            Job("domain", flavour="asan", n=24 * k, chunks=4, **P), Job("repulsion", flavour="asan", n=24 * k, chunks=4, **P)]


def history(ctx, i):
    rng = ctx.rng
    S = kk.start()
    objs, last, past = [], {}, {}
    t = kk.use(ctx, kk.mode(rng))
    for step in range(int(rng.integers(15, 45))):
        if rng.random() < .3:
            t = kk.use(ctx, kk.mode(rng))
        if not objs or (rng.random() < .2 and len(objs) < 6):
            spec = evals.make_spec(rng) if not objs or rng.random() < .7 else evals.sibling(rng, objs[int(rng.integers(len(objs)))][0])
            ctx.desc.update(kind=spec[0], shape=str(spec[1])[:80])
            objs.append((spec, ctx.call(kk.construct, S, spec, what="construct " + spec[0]), evals.construct(S, spec)))
            continue
        if rng.random() < .06 and len(objs) > 1:
            objs.pop(int(rng.integers(len(objs))))
            last = {}
            ctx.event("objects destroyed")
            continue
        q = int(rng.integers(len(objs)))
        spec, obj, serial = objs[q]
        op = kk.near_op(rng, spec, past[id(spec)][1]) if id(spec) in past and rng.random() < .4 else kk.rand_op(rng, spec)
        past[id(spec)] = spec, op      # keeps the spec alive: its id stays its own
        ctx.desc.update(kind=spec[0], op=op[0], shape=str(spec[1])[:80], terms=str(spec[3])[:200] if spec[0] == "poly" else None)
        got = ctx.call(kk.apply, obj, spec, op, what=f"{spec[0]}.{op[0]}")
        want, scale = kk.reference(spec, op)
        ctx.close(got, want, scale, f"{spec[0]}.{op[0]}")
        if spec[0] in ("spline", "set", "zbl"):
            ctx.close(got, evals.flat(evals.apply(serial, spec, op)), scale, f"serial {spec[0]}.{op[0]}")
        ctx.event("calls compared")
        ctx.seen(spec[0], last.get(q), op[0], t)
        last[q] = op[0]
    d = kk.stats(ctx)
    ctx.sample(dict(setting=ctx.desc.get("vkokkos"), objects=[o[0][0] for o in objs], kernels=d["labels"]))


def domain(ctx, i):
    rng = ctx.rng
    S, V = kk.start(True)
    exact = bool(rng.random() < 0.6)
    n = int(rng.integers(2, 40))
    m = int(rng.choice([1, 2, 3, 8, 17]))
    h, v, d, kind = gen.spline_table(rng, m, n, kind=int(rng.choice([0, 1, 3])))
    if exact:
        hn = 2.0 ** rng.integers(-10, 4)
        d = d * (h / hn)
        h = hn
    t = kk.use(ctx, kk.mode(rng))
    ctx.desc.update(h=h, n=n, m=m, exact=exact)
    one = ctx.call(S.CubicSplineKokkos, h, v[0].tolist(), d[0].tolist(), what="CubicSplineKokkos")
    st = ctx.call(S.CubicSplineSetKokkos, h, v.tolist(), d.tolist(), what="CubicSplineSetKokkos")
    many = ctx.call(V.SetFromViews, h, v.tolist(), d.tolist(), True, what="CubicSplineSetKokkos(views)")
    pts = bad_points(rng, h, n, exact)
    if i < 4:
        pts += [("huge", 1e12 * h), ("huge negative", -1e12 * h)]
    rng.shuffle(pts)
    good = gen.spline_points(rng, h, n, 4)
    for name, x in pts:
        x = float(x)
        ctx.desc["r"] = x
        for f, args, what in [(one.evaluate, (x,), "evaluate"), (one.evaluate_deriv, (x,), "evaluate_deriv"),
                              (one.evaluate_deriv_divided, (x,), "evaluate_deriv_divided"),
                              (st.evaluate, (x, np.zeros(m)), "set evaluate"), (st.evaluate_derivs, (x, np.zeros(m), np.zeros(m)), "set evaluate_derivs")]:
            ctx.expect_raise(ValueError, f, *args, what=f"{what} {name}", key=f"accepted:{what}")
            ctx.seen(what, name, t)
        ctx.event("rejected calls", 5)
        mixed = good.tolist() + [x]
        ctx.expect_raise(ValueError, many.evaluate_derivs_many, [mixed[q] for q in rng.permutation(len(mixed))], what=f"evaluate_derivs(many) {name}",
                         key="accepted:evaluate_derivs(many)")
        x = good[rng.integers(len(good))]
        f, g, sf, sg = gen.hermite(h, v, d, np.array([x]))
        ctx.close(ctx.call(one.evaluate, x, what="evaluate"), f[0, 0], sf[0, 0], "valid call after a rejected one")
        a, b = np.zeros(m), np.zeros(m)
        ctx.call(st.evaluate_derivs, x, a, b, what="set evaluate_derivs")
        ctx.close([a, b], [f[:, 0], g[:, 0]], [sf[:, 0], sg[:, 0]], "valid set call after a rejected one")
    kk.stats(ctx)


def tables(ctx, i):
    """splines and sets built from device views, many arguments at once, radial tables by pair of types"""
    rng = ctx.rng
    S, V = kk.start(True)
    t = kk.use(ctx, kk.mode(rng))
    m = int(rng.choice([1, 2, 3, 5, 8, 16, 17, 33, 70])) if rng.random() < .5 else int(rng.integers(1, 20))
    n = int(rng.integers(2, 50))
    h, v, d, kind = gen.spline_table(rng, m, n)
    ctx.desc.update(h=h, n=n, m=m, kind=kind)
    one = ctx.call(V.SplineFromViews, h, v[0].tolist(), d[0].tolist(), what="CubicSplineKokkos(views)")
    st = ctx.call(V.SetFromViews, h, v.tolist(), d.tolist(), bool(rng.integers(2)), what="CubicSplineSetKokkos(views)")
    for rep in range(3):
        t = kk.use(ctx, kk.mode(rng))
        r = gen.spline_points(rng, h, n, int(rng.choice([0, 1, 5, 30])))
        r = r[rng.permutation(len(r))]
        if rng.random() < .1:
            r = r[:0]
        f, g, sf, sg = gen.hermite(h, v, d, r)
        a, b = ctx.call(st.evaluate_derivs_many, r.tolist(), what="evaluate_derivs(many)")
        ctx.close(np.array(a).reshape(len(r), m), f.T, sf.T, "many-values")
        ctx.close(np.array(b).reshape(len(r), m), g.T, sg.T, "many-derivs")
        for q in rng.integers(0, len(r), 4) if len(r) else []:
            ctx.close(ctx.call(st.evaluate, r[q], what="evaluate"), f[:, q], sf[:, q], "set-value")
            ctx.close(ctx.call(st.evaluate_derivs, r[q], what="evaluate_derivs"), [f[:, q], g[:, q]], [sf[:, q], sg[:, q]], "set-derivs")
            ctx.close(ctx.call(one.evaluate_deriv, r[q], what="evaluate_deriv"), [f[0, q], g[0, q]], [sf[0, q], sg[0, q]], "spline-derivs")
        ctx.seen("set", m, n, kind, t)
        ctx.event("arguments", len(r))
    # radial functions: one table per unordered pair of types
    N = int(rng.integers(1, 5))
    npair = N * (N + 1) // 2
    n = int(rng.integers(2, 30))
    nf = int(rng.choice([1, 2, 3, 7, 16, 33]))
    T = [gen.spline_table(rng, nf, n, kind=int(rng.choice([0, 4]))) for _ in range(npair)]
    h = T[0][0]
    val = np.array([x[1] * (1 if np.abs(x[1]).max() < 1e6 else 1 / np.abs(x[1]).max()) for x in T])
    der = np.array([rng.standard_normal((nf, n)) / h for x in T])
    objs = [(ctx.call(V.Radial, h, val.tolist(), der.tolist(), what="RadialFunctionSetKokkos"), 1e-11),
            (ctx.call(V.RadialFloat, h, val.tolist(), der.tolist(), what="RadialFunctionSetKokkos<float>"), 3e-6)]
    for rep in range(4):
        t = kk.use(ctx, kk.mode(rng))
        nodes = int(rng.integers(0, 8))
        nt = rng.integers(0, N, nodes)
        nn = rng.integers(0, 6, nodes) * (rng.random(nodes) < .8)
        ne = int(nn.sum())
        et = rng.integers(0, N, ne)
        r = gen.spline_points(rng, h, n, ne + 3)[rng.permutation(ne + 3)[:ne]]
        out = rng.random(ne) < .15                      # neighbours beyond the table: no contribution
        r = np.where(out, h * (n - 1) * (1 + rng.choice([1e-9, .01, .3, 5], ne)), r)
        ti = np.repeat(nt, nn)
        lo, hi = np.minimum(ti, et), np.maximum(ti, et)
        pair = lo * (2 * N - lo - 1) // 2 + hi
        W, WD, SW, SD = (np.zeros((ne, nf)) for _ in range(4))
        for q in range(ne):
            if not out[q]:
                a, b, sa, sb = gen.hermite(h, val[pair[q]], der[pair[q]], r[q:q + 1])
                W[q], WD[q], SW[q], SD[q] = a[:, 0], b[:, 0], sa[:, 0], sb[:, 0]
        o, tol = objs[rep % 2]
        ctx.desc.update(types=N, nodes=nodes, num_neigh=nn.tolist(), functions=nf, r=r.tolist()[:8], h=h, n=n)
        a, b = ctx.call(o.evaluate, nodes, nt.tolist(), nn.tolist(), et.tolist(), r.tolist(), nf, what="RadialFunctionSetKokkos.evaluate")
        ctx.close(np.array(a).reshape(ne, nf), W, SW, "radial-values", tol=tol)
        ctx.close(np.array(b).reshape(ne, nf), WD, SD, "radial-derivs", tol=tol)
        ctx.seen("radial", N, nodes, nf, t)
        ctx.event("radial rows", ne)
        ctx.event("rows beyond the table", int(out.sum()))


def repulsion(ctx, i):
    """lists: accumulates onto what is there, skips nothing"""
    rng = ctx.rng
    S, V = kk.start(True)
    par = gen.zbl_params(rng)
    z = ctx.call(V.Repulsion, par[0], par[1], list(par[2]), list(par[3]), par[4], what="ZBLKokkos")
    for rep in range(5):
        t = kk.use(ctx, kk.mode(rng))
        N = int(rng.integers(1, 5))
        Z = rng.integers(1, 119, N)
        n = int(rng.choice([0, 1, 2, 3, 9, 30]))
        nn = rng.integers(0, 7, n) * (rng.random(n) < .75)
        ne = int(nn.sum())
        nt, et = rng.integers(0, N, n), rng.integers(0, N, ne)
        zi, zj = Z[np.repeat(nt, nn)], Z[et]
        r = rng.uniform(.1, 1.2, ne) * (par[3][zi] + par[3][zj])
        u = rng.standard_normal((ne, 3))
        u /= np.linalg.norm(u, axis=1)[:, None] if ne else 1
        xyz = u * r[:, None]
        e0, f0 = rng.standard_normal(n), rng.standard_normal((ne, 3))
        ctx.desc.update(n=n, num_neigh=nn.tolist())
        E, G, sE, sG, _ = gen.zbl_ref(par, zi, zj, r)
        we, se = e0.copy(), np.abs(e0)
        np.add.at(we, np.repeat(np.arange(n), nn), E)
        np.add.at(se, np.repeat(np.arange(n), nn), sE)
        e, f = ctx.call(z.list, n, nt.tolist(), nn.tolist(), et.tolist(), Z.tolist(), r.tolist(), xyz.ravel().tolist(), e0.tolist(), f0.ravel().tolist(),
                        what="compute_ZBL")
        ctx.close(e, we, se, "repulsion-energies")
        ctx.close(np.array(f).reshape(ne, 3), f0 - G[:, None] * u, np.abs(f0) + sG[:, None], "repulsion-forces")
        ctx.seen("zbl", n, min(ne, 20), t)
        ctx.event("pairs", ne)
