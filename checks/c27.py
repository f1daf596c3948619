"""Spherical harmonics obey their definition and identities."""
import math
import numpy as np
from vlib import macegen as G, mc
from vlib.runner import Job

LEVEL = "exploration"
TECHNIQUE = "differential and metamorphic monitor: independent definition, identities and cross-agreement of all forms, and of what reaches the potential"
RULE = ("degrees 0..16 (library forms) and 0..8 (sphericart forms), every order, directions random, exactly on axes and planes (with signed zeros), within 1e-3..1e-12 of the poles, vector lengths "
        "1e-6..1e6; values compared with an independent definition, forms with each other, conjugation, addition theorem for pairs of directions, length independence; the harmonics used by the "
        "potential read back through its first-layer features; non-trivial = distinct (form, degree, order sign, direction class)")
ASSUMPTIONS = ["forms that go through an angle lose up to sqrt(machine epsilon) within that distance of the poles; the allowance is eps/sin(polar) capped there",
               "the zero vector has no direction and is not used", "sphericart is replaced by a stand-in with its documented conventions"]
MIN_DISTINCT = 120
FACTOR = 2


def jobs(tier):
    k = 1 if tier == "quick" else 20
    return [Job("definition", part="mace", n=400 * k), Job("identities", part="mace", n=160 * k), Job("potential", part="mace", n=120 * k),
            Job("definition", part="mace", flavour="asan", n=40 * k), Job("potential", part="mace", flavour="asan", n=16 * k)]


def direction(rng):
    u = rng.random()
    if u < .35:
        v = rng.standard_normal(3)
        return "generic", v / np.linalg.norm(v)
    if u < .6:
        v = np.eye(3)[int(rng.integers(3))] * float(rng.choice([-1., 1.]))
        if rng.random() < .5:
            v = np.where(v == 0, -0.0, v)
        return "axis", v
    if u < .8:
        v = rng.standard_normal(3)
        v[int(rng.integers(3))] = float(rng.choice([0.0, -0.0]))
        return "plane", v / np.linalg.norm(v)
    t = 10.0 ** -rng.uniform(3, 12)
    a = rng.uniform(0, 2 * np.pi)
    return "pole", np.array([t * np.cos(a), t * np.sin(a), float(rng.choice([-1, 1]))])


def real_ref(l, u):
    u = u / np.linalg.norm(u)
    return G.real_sph(l, u[None, :])[0, l * l:(l + 1) ** 2]


def complex_ref(l, u):
    r = real_ref(l, u)
    out = np.zeros(2 * l + 1, complex)
    for m in range(-l, l + 1):
        if m < 0:
            out[l + m] = (r[l - m] - 1j * r[l + m]) / math.sqrt(2)
        elif m == 0:
            out[l] = r[l]
        else:
            out[l + m] = (-1) ** m * (r[l + m] + 1j * r[l - m]) / math.sqrt(2)
    return out


def angular_tol(l, u):
    u = u / np.linalg.norm(u)
    s = max(float(np.hypot(u[0], u[1])), 1e-8)
    return (2 * l + 1) * (1e-12 * (l + 1) ** 2 + 4e-16 * (l + 1) ** 2 / s)


def cclose(ctx, got, want, tol, key):
    ctx.close([got.real, got.imag], [want.real, want.imag], 1.0, key, tol=tol)


def definition(ctx, i):
    import symmetrix as S
    rng = ctx.rng
    kind, u = direction(rng)
    s = float(10.0 ** rng.choice([0, rng.uniform(-6, 6)]))
    x, y, z = (float(q) for q in u * s)
    polar, az = math.atan2(math.hypot(u[0], u[1]), u[2]), math.atan2(u[1], u[0]) + float(rng.choice([0, 2, -4])) * math.pi
    for l in [int(q) for q in rng.integers(0, 17, 3)] + [int(q) for q in rng.integers(0, 9, 3)]:
        R, C = real_ref(l, u), complex_ref(l, u)
        tol = angular_tol(l, u)
        for m in range(-l, l + 1):
            ctx.desc = dict(l=l, m=m, xyz=(x, y, z), direction=kind)
            cclose(ctx, ctx.call(S.sph_harm, l, m, polar, az), C[l + m], tol, "sph_harm")
            cclose(ctx, ctx.call(S.sph_harm_xyz, l, m, x, y, z), C[l + m], tol, "sph_harm_xyz")
            ctx.close(ctx.call(S.real_sph_harm, l, m, polar, az), R[l + m], 1.0, "real_sph_harm", tol=tol)
            ctx.close(ctx.call(S.real_sph_harm_xyz, l, m, x, y, z), R[l + m], 1.0, "real_sph_harm_xyz", tol=tol)
            ctx.seen("lib", l, int(np.sign(m)), kind)
            if l <= 8:
                t = 1e-12 * (l + 1) ** 2
                ctx.close(ctx.call(S.sphericart_real_sph_harm, l, m, x, y, z), R[l + m], 1.0, "sphericart_real_sph_harm", tol=t)
                cclose(ctx, ctx.call(S.sphericart_sph_harm, l, m, x, y, z), C[l + m], t, "sphericart_sph_harm")
                ctx.seen("sphericart", l, int(np.sign(m)), kind)
    l_max, n = int(rng.integers(0, 9)), int(rng.integers(1, 5))
    U = [direction(rng)[1] for _ in range(n)]
    out = np.array(ctx.call(S.sphericart_complex, l_max, np.concatenate(U).tolist(), what="sphericart_complex"))
    want = np.concatenate([np.concatenate([complex_ref(l, v) for l in range(l_max + 1)]) for v in U])
    ctx.desc = dict(l_max=l_max, n=n)
    ctx.close(out.real, want.real, 1.0, "sphericart_complex", tol=1e-12 * (l_max + 1) ** 2)
    ctx.close(out.imag, want.imag, 1.0, "sphericart_complex", tol=1e-12 * (l_max + 1) ** 2)
    ctx.seen("complex", l_max, n)
    ctx.sample(dict(direction=kind, xyz=(x, y, z)))


def identities(ctx, i):
    """relations between the code's own values"""
    import symmetrix as S
    rng = ctx.rng
    (k1, u), (k2, v) = direction(rng), direction(rng)
    u, v = u / np.linalg.norm(u), v / np.linalg.norm(v)
    for l in [int(q) for q in rng.integers(0, 17, 4)]:
        ctx.desc = dict(l=l, u=u.tolist(), v=v.tolist())
        f = lambda w, s=1.0: np.array([S.sph_harm_xyz(l, m, *[float(q * s) for q in w]) for m in range(-l, l + 1)])
        a, b = ctx.call(f, u), ctx.call(f, v)
        tol = angular_tol(l, u) + angular_tol(l, v)
        for m in range(1, l + 1):
            cclose(ctx, a[l - m], (-1) ** m * np.conj(a[l + m]), tol, "conjugation")
        P = np.polynomial.legendre.legval(float(u @ v), [0] * l + [1])
        cclose(ctx, complex((a * np.conj(b)).sum()), complex((2 * l + 1) / (4 * np.pi) * P), tol * (2 * l + 1), "addition theorem")
        ctx.close((np.abs(a) ** 2).sum(), (2 * l + 1) / (4 * np.pi), 1.0, "norm", tol=tol * (2 * l + 1))
        r = np.array([S.real_sph_harm_xyz(l, m, *map(float, u)) for m in range(-l, l + 1)])
        ctx.close((r ** 2).sum(), (2 * l + 1) / (4 * np.pi), 1.0, "norm of the real form", tol=tol * (2 * l + 1))
        s = float(10.0 ** rng.uniform(-6, 6))
        c = f(u, s)
        ctx.close(np.abs(c - a), np.zeros(2 * l + 1), 1.0, "length", tol=tol)
        ctx.seen("identity", l, k1, k2)
        ctx.event("addition theorems")


def potential(ctx, i):
    """first-layer features of a model with unit tables and weights are the harmonics themselves"""
    import symmetrix as S
    rng = ctx.rng
    m = G.Model(rng, symmetric=True, K=1, N=1, l_max=int(rng.integers(0, 4)), zbl=False, scaled=False, nodes=4, loose_end=True, r_cut=5.0)
    m.R0 = (np.ones_like(m.R0[0]), np.zeros_like(m.R0[1]))
    m.H0[:] = 1
    m.A0w[:] = 1
    ev = mc.load(ctx, S, m)
    n = int(rng.integers(1, 7))
    U = np.array([direction(rng)[1] for _ in range(n)])
    U /= np.sqrt((U ** 2).sum(1, keepdims=True))
    r = rng.uniform(.2, 4.5, n)
    xyz = U * r[:, None]
    L = G.Lists([0] * n, [1] * n, [int(q) for q in rng.integers(0, n, n)], xyz)
    ctx.desc = dict(l_max=m.l_max, xyz=xyz.tolist())
    mc.run(ctx, ev, L)
    got = np.array(ev.A0, float)[:n * m.num_lm].reshape(n, m.num_lm)
    # e3nn axes: the potential's z is the vector's y
    for q in range(n):
        x, y, z = (float(a) for a in U[q][[2, 0, 1]])
        want = np.concatenate([[2 * math.sqrt(math.pi) * S.real_sph_harm_xyz(l, k, x, y, z) for k in range(-l, l + 1)] for l in range(m.l_max + 1)])
        tol = 4 * angular_tol(m.l_max, np.array([x, y, z]))
        ctx.close(got[q], want, 1.0, "harmonics of the potential", tol=tol)
    ctx.close(got, G.Y_of(m.l_max, xyz, L.r), 1.0, "harmonics of the potential", tol=1e-11)
    ctx.seen("potential", m.l_max, n, i % 40)
    ctx.event("neighbour vectors", n)
