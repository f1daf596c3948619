"""Every stage of the potential computes its formula, every reverse stage its exact adjoint."""
import numpy as np
from vlib import kk, macegen as G, mc
from vlib.runner import Job
from vlib.stages import Stages

LEVEL = "exploration"
TECHNIQUE = "online monitor of every published stage against an independent formula (values) and complex-step directional derivatives of it (adjoints), on inputs set from outside"
RULE = ("stages of MACE, MACEKokkos and MACEKokkosFloat called one at a time on arbitrary inputs and arbitrary output adjoints set from outside, in random order on one object; nodes followed by 0..12 ghost "
        "rows that only neighbour lists refer to, as in the LAMMPS styles; empty lists, isolated nodes, neighbours beyond the cutoff; accumulation flags on and off with nonzero earlier contents; zeros, ones and whole constant rows among the numbers; up to 128 channels, 11 elements, 140 nodes, 90 neighbours; "
        "directional derivatives in dense, single-row and single-entry directions; non-trivial = distinct (class, stage, previous stage, model variant, list class, flags)")
ASSUMPTIONS = ["inputs are bounded (about 1 to 10 in size) so that rounding stays far from the tolerances"]
MIN_DISTINCT = 300
FACTOR = 2
TOL = dict(MACE=1e-11, MACEKokkos=1e-11, MACEKokkosFloat=3e-5)


def jobs(tier):
    k = 1 if tier == "quick" else 20
    return [Job("serial", part="mace", n=360 * k), Job("kokkos", part="kokkos", n=360 * k), Job("serial", part="mace", flavour="asan", n=48 * k), Job("kokkos", part="kokkos", flavour="asan", n=48 * k)]


def serial(ctx, i):
    import symmetrix as S
    one(ctx, S, i, "MACE")


def kokkos(ctx, i):
    S = kk.start()
    kk.use(ctx, kk.mode(ctx.rng))
    one(ctx, S, i, "MACEKokkosFloat" if ctx.rng.random() < .3 else "MACEKokkos")
    kk.stats(ctx)


def lists(rng, m, wide):
    """nodes, ghost rows, and a list whose indices may refer to either"""
    n = int(rng.choice([1, 1, 2, 3, 5, 8, 14]))
    ghosts = int(rng.choice([0, 0, 1, 3, 12]))
    top = int(rng.choice([0, 1, 4, 9]))
    if wide:
        n, top = (int(rng.integers(30, 140)), 4) if rng.random() < .5 else (3, 90)
    types = rng.integers(0, m.N, n + ghosts)
    if rng.random() < .2:
        types[:] = types[0]
    nn = rng.integers(0, top + 1, n)
    e = int(nn.sum())
    idx = rng.integers(0, n + ghosts, e)
    if rng.random() < .3:
        idx[:] = rng.integers(0, n + ghosts)            # everyone's neighbour
    u = rng.standard_normal((e, 3))
    if rng.random() < .2 and e:
        u[rng.random(e) < .5] = np.eye(3)[int(rng.integers(3))] * rng.choice([-1, 1])
    u /= np.linalg.norm(u, axis=1)[:, None]
    r = rng.uniform(.3, 1, e) * m.r_cut
    out = rng.random(e) < .1
    r[out] = m.r_cut * rng.uniform(1.001, 2, int(out.sum()))
    return G.Lists(types[:n], nn, idx, u * r[:, None]), types


def values(rng, shape):
    """dense numbers, or many zeros and ones, or whole rows of them"""
    a = rng.standard_normal(shape) * float(rng.choice([.3, 1, 3]))
    u = rng.random()
    if u < .15:
        a[rng.random(shape) < .5] = float(rng.choice([0, 1, -1]))
    elif u < .3 and a.size:
        a[rng.random(shape[0]) < .5] = float(rng.choice([0, 1, -1]))
    elif u < .35:
        a[:] = float(rng.choice([0, 1]))
    elif u < .4:
        a *= 1e-6
    return a


def directions(rng, shape):
    d = [rng.standard_normal(shape)]
    size = int(np.prod(shape))
    if size:
        s = np.zeros(shape)
        s[int(rng.integers(shape[0]))] = rng.standard_normal(shape[1:])
        d.append(s)
        for _ in range(2):
            s = np.zeros(size)
            s[int(rng.integers(size))] = 1
            d.append(s.reshape(shape))
    return d


def one(ctx, S, i, cls):
    rng = ctx.rng
    wide = i % 12 == 11
    v = mc.WIDE[i // 12 % len(mc.WIDE)] if wide else mc.VARIANTS[i % len(mc.VARIANTS)]
    m = G.Model(rng, symmetric=bool(rng.random() < .3), **dict(v, zbl=False))
    ev = mc.load(ctx, S, m, cls)
    tol = TOL[cls]
    prev = None
    for _ in range(2):
        L, row_types = lists(rng, m, wide)
        rows = len(row_types)
        st = Stages(m, L, row_types)
        n, nn, idx = L.n, np.array(L.num_neigh, np.int32), np.array(L.idx, np.int32)
        t, nt = np.array(L.types, np.int32), np.array(st.tj, np.int32)
        xyz, r = L.xyz.ravel().copy(), L.r
        e = len(L.idx)
        K = m.K
        ctx.desc = dict(mc.describe(m, L), cls=cls, rows=rows)
        call = lambda name, *a: ctx.call(getattr(ev, name), *a, what=name)
        rnd = lambda *s: values(rng, s)
        get = lambda name, *s: np.array(getattr(ev, name), float)[:int(np.prod(s))].reshape(s)
        f32 = cls == "MACEKokkosFloat"
        val = lambda a: a.astype(np.float32).astype(float) if f32 else a

        def put(name, a):
            setattr(ev, name, a.astype(np.float32).ravel() if f32 and name not in ("node_forces", "node_energies") else a.ravel())

        def slope(key, got, ref, u, x, sign=1):
            """<got, d> must be the derivative of <u, ref(x)> along d"""
            big = max(1.0, float(np.abs(got).max()) if got.size else 0) * max(1.0, float(np.abs(u).max()) if u.size else 0)
            for d in directions(rng, x.shape):
                w = float((u * ref(x + 1e-30j * d)).sum().imag / 1e-30)
                ctx.close(sign * float((got * d).sum()), w, big * max(1.0, float(np.abs(d).sum())) * 10, key, tol=tol)
                ctx.event("directional derivatives")

        def value(key, got, want):
            ctx.close(got, want, max(1.0, float(np.abs(want).max()) if want.size else 0) * 10, key, tol=tol)
            ctx.event("stage results")

        def forces(key, ref, u, start):
            F = get("node_forces", e, 3)
            ctx.true(len(np.array(ev.node_forces)) >= 3 * e, key + ": missing", "fewer force entries than neighbours")
            slope(key, F - start, ref, u, L.xyz, sign=-1)

        call("compute_R0", n, t, nn, nt, r)
        call("compute_R1", n, t, nn, nt, r)
        call("compute_Y", xyz)
        if e:
            if cls == "MACE":                           # the Kokkos potential folds weights into this table
                value("R0", get("R0", e, m.l_max + 1, K), st.R0(L.xyz))
            value("R1", get("R1", e, len(m.path), K), st.R1(L.xyz))

        def A0():
            call("compute_A0", n, t, nn, nt)
            value("A0", get("A0", n, m.num_lm, K), st.A0(L.xyz))
            u, F = val(rnd(n, m.num_lm, K)), rnd(e, 3)
            put("A0_adj", u)
            put("node_forces", F)
            call("reverse_A0", n, t, nn, nt, xyz, r)
            forces("reverse_A0", st.A0, u, F)

        def scaled(q):
            A, u = val(rnd(n, m.num_lm, K)), val(rnd(n, m.num_lm, K))
            F = rnd(e, 3) if q == 0 else np.zeros((e, 3))
            put(f"A{q}", A)
            call(f"compute_A{q}_scaled", n, t, nn, nt, r)
            value(f"A{q}_scaled", get(f"A{q}", n, m.num_lm, K), st.scaled(q, A, L.xyz))
            put(f"A{q}_adj", u)
            put("node_forces", F)
            call(f"reverse_A{q}_scaled", n, t, nn, nt, xyz, r)
            slope(f"reverse_A{q}_scaled:A", get(f"A{q}_adj", n, m.num_lm, K), lambda x: st.scaled(q, x, L.xyz), u, A)
            forces(f"reverse_A{q}_scaled:xyz", lambda x: st.scaled(q, A, x), u, F)

        def M0():
            A, u = val(rnd(n, m.num_lm, K)), val(rnd(n, m.num_LM, K))
            put("A0", A)
            call("compute_M0", n, t)
            value("M0", get("M0", n, m.num_LM, K), st.M0(A))
            put("M0_adj", u)
            call("reverse_M0", n, t)
            slope("reverse_M0", get("A0_adj", n, m.num_lm, K), st.M0, u, A)

        def H1():
            M, u = val(rnd(n, m.num_LM, K)), val(rnd(rows, m.num_LM, K))
            put("M0", M)
            call("compute_H1", n)
            value("H1", get("H1", n, m.num_LM, K), st.H1(M))
            put("H1_adj", u)
            call("reverse_H1", n)
            slope("reverse_H1", get("M0_adj", n, m.num_LM, K), st.H1, u[:n], M)

        def Phi1():
            H, u = val(rnd(rows, m.num_LM, K)), val(rnd(n, m.num_lme, K))
            put("H1", H)
            call("compute_Phi1", n, nn, idx)
            value("Phi1", get("Phi1", n, m.num_lme, K), st.Phi1(H, L.xyz))
            F, B = rnd(e, 3), val(rnd(rows, m.num_LM, K))
            put("Phi1_adj", u)
            put("node_forces", F)
            put("H1_adj", B)
            z = bool(rng.random() < .5), bool(rng.random() < .5)
            call("reverse_Phi1", n, nn, idx, xyz, r, *z)
            forces("reverse_Phi1:xyz", lambda x: st.Phi1(H, x), u, 0 * F if z[0] else F)
            slope("reverse_Phi1:H1", get("H1_adj", rows, m.num_LM, K) - (0 if z[1] else B), lambda x: st.Phi1(x, L.xyz), u, H)
            return z

        def A1():
            P, u = val(rnd(n, m.num_lme, K)), val(rnd(n, m.num_lm, K))
            put("Phi1", P)
            call("compute_A1", n)
            value("A1", get("A1", n, m.num_lm, K), st.A1(P))
            put("A1_adj", u)
            call("reverse_A1", n)
            slope("reverse_A1", get("Phi1_adj", n, m.num_lme, K), st.A1, u, P)

        def M1():
            A, u = val(rnd(n, m.num_lm, K)), val(rnd(n, K))
            put("A1", A)
            call("compute_M1", n, t)
            value("M1", get("M1", n, K), st.M1(A))
            put("M1_adj", u)
            call("reverse_M1", n, t)
            slope("reverse_M1", get("A1_adj", n, m.num_lm, K), st.M1, u, A)

        def H2():
            H, M, u, B = val(rnd(rows, m.num_LM, K)), val(rnd(n, K)), val(rnd(n, K)), val(rnd(rows, m.num_LM, K))
            put("H1", H)
            put("M1", M)
            call("compute_H2", n, t)
            value("H2", get("H2", n, K), st.H2(H, M))
            put("H2_adj", u)
            put("H1_adj", B)
            z = bool(rng.random() < .5)
            call("reverse_H2", n, t, z)
            slope("reverse_H2:H1", get("H1_adj", rows, m.num_LM, K) - (0 if z else B), lambda x: st.H2(x, M), u, H)
            slope("reverse_H2:M1", get("M1_adj", n, K), lambda x: st.H2(H, x), u, M)
            return z

        def readouts():
            H, Q, E = val(rnd(rows, m.num_LM, K)), val(rnd(n, K)), rnd(n)
            put("H1", H)
            put("H2", Q)
            put("node_energies", E)
            call("compute_readouts", n, t)
            value("energies", get("node_energies", n) - E, st.readouts(H, Q))
            u = np.ones(n)
            slope("readouts:H1", get("H1_adj", rows, m.num_LM, K), lambda x: st.readouts(x, Q), u, H)
            slope("readouts:H2", get("H2_adj", n, K), lambda x: st.readouts(H, x), u, Q)

        todo = [A0, lambda: scaled(0), M0, H1, Phi1, A1, lambda: scaled(1), M1, H2, readouts]
        names = ["A0", "A0_scaled", "M0", "H1", "Phi1", "A1", "A1_scaled", "M1", "H2", "readouts"]
        for q in rng.permutation(len(todo)):
            ctx.desc["stage"] = names[q]
            flags = todo[q]()
            ctx.seen(cls, names[q], prev, m.l_max, m.L_max, m.scaled, n > 3, rows > n, e == 0, flags)
            prev = names[q]
    ctx.sample(ctx.desc)
