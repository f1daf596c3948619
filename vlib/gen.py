"""Shared generators (boundary-biased) and reference models. Pure numpy; independent of /repo."""
import numpy as np

LD = np.longdouble


# ---------------------------------------------------------------- numbers
def magnitudes(rng, size, lo=-3, hi=3, zero=0.05):
    """reals of widely different size and sign, with some exact zeros"""
    v = rng.standard_normal(size) * 10.0 ** rng.uniform(lo, hi, size)
    return np.where(rng.random(size) < zero, 0.0, v)


def pick_size(rng, small, large, edge=()):
    """sizes: mostly small, sometimes large, sometimes an edge value"""
    u = rng.random()
    if edge and u < 0.25:
        return int(edge[rng.integers(len(edge))])
    if u < 0.8:
        return int(rng.integers(small[0], small[1] + 1))
    return int(rng.integers(large[0], large[1] + 1))


# ---------------------------------------------------------------- splines
def spline_table(rng, n_splines=1, n=None, kind=None):
    """-> h, values[n_splines][n], derivs[n_splines][n], kind"""
    if n is None:
        n = pick_size(rng, (2, 40), (41, 700), (2, 3, 4, 5, 9, 17, 33, 65, 129, 256, 257, 513, 1025, 2000))
        if n_splines == 1 and rng.random() < .01:
            n = int(rng.choice([20001, 32769, 65537, 100003]))
    kind = kind if kind is not None else int(rng.integers(5))
    u = rng.random()
    if u < 0.3:
        h = 2.0 ** rng.integers(-10, 5)
    elif u < 0.5:
        h = (10 ** rng.uniform(0, 1) - 1e-12) / (n - 1)
    elif u < 0.9:
        h = 10.0 ** rng.uniform(-4, 3)
    else:
        h = 10.0 ** rng.uniform(-9, 7)
    if kind == 0:      # unrelated slopes
        v = rng.standard_normal((n_splines, n)); d = rng.standard_normal((n_splines, n)) / h
    elif kind == 1:    # wild magnitudes
        v = magnitudes(rng, (n_splines, n)); d = magnitudes(rng, (n_splines, n)) / h
    elif kind == 2:    # one-hot: shows which node is used
        v = np.zeros((n_splines, n)); d = np.zeros((n_splines, n))
        for j in range(n_splines):
            (v if rng.random() < 0.5 else d)[j, rng.integers(n)] = 1.0 + j
        d /= h
    elif kind == 3:    # cubic: interpolation is exact
        c = rng.standard_normal((n_splines, 4)) ; t = np.arange(n) / max(n - 1, 1)
        v = sum(c[:, [k]] * t ** k for k in range(4))
        d = sum(k * c[:, [k]] * t ** (k - 1) for k in range(1, 4)) / (h * max(n - 1, 1))
    else:              # identifies spline and node
        v = (1 + np.arange(n_splines))[:, None] * 1000.0 + np.arange(n)[None, :]
        d = -(1 + np.arange(n_splines))[:, None] * np.arange(n)[None, :] / h
    if rng.random() < 0.25:    # tables far from unit size
        k = 10.0 ** rng.uniform(-60, 60)
        v, d = v * k, d * k
    return float(h), v, d, kind


def spline_points(rng, h, n, m):
    """arguments in [0, (n-1)h): nodes, one ulp beside nodes, interiors, both ends"""
    end = (n - 1) * h
    i = rng.integers(0, n - 1, m)
    u = rng.random(m)
    kind = rng.integers(0, 9, m)
    r = np.where(kind == 0, i * h, (i + u) * h)
    r = np.where(kind == 1, np.nextafter(i * h, -1), r)
    r = np.where(kind == 2, np.nextafter(i * h, end * 2), r)
    r = np.where(kind == 3, (i + 0.5) * h, r)
    r = np.where(kind == 4, (n - 2 + u) * h, r)     # last interval
    r = np.where(kind == 5, u * h, r)               # first interval
    near = h * 10.0 ** rng.uniform(-13, -1, m)      # at any distance from a node
    r = np.where(kind == 6, i * h + near, r)
    r = np.where(kind == 7, (i + 1) * h - near, r)
    r = np.where(kind == 8, near, r)
    r = np.concatenate([[0.0, end * (1 - 1e-13), h * 1e-9], r])
    return np.clip(r, 0.0, end * (1 - 1e-13))


def hermite(h, v, d, r):
    """values, derivatives and error scales of the Hermite interpolant; v,d [..., n], r [m] -> [..., m]"""
    n = v.shape[-1]
    H = LD(h)
    R = np.asarray(r, LD)
    i = np.clip(np.floor(R / H).astype(int), 0, n - 2)
    x = (R - H * i) / H
    v0, v1 = np.asarray(v[..., i], LD), np.asarray(v[..., i + 1], LD)
    d0, d1 = np.asarray(d[..., i], LD) * H, np.asarray(d[..., i + 1], LD) * H
    f = v0 * (1 + 2 * x) * (1 - x) ** 2 + d0 * x * (1 - x) ** 2 + v1 * x * x * (3 - 2 * x) + d1 * x * x * (x - 1)
    g = (v0 * (6 * x * x - 6 * x) + d0 * (3 * x * x - 4 * x + 1) + v1 * (6 * x - 6 * x * x) + d1 * (3 * x * x - 2 * x)) / H
    # neighbours' data enter the scale: at a node either interval may be used
    def amp(a, b):
        lo, hi = np.clip(i - 1, 0, n - 1), np.clip(i + 2, 0, n - 1)
        return (np.abs(a[..., i]) + np.abs(a[..., i + 1]) + np.abs(a[..., lo]) + np.abs(a[..., hi])
                + h * (np.abs(b[..., i]) + np.abs(b[..., i + 1]) + np.abs(b[..., lo]) + np.abs(b[..., hi])))
    s = 10 * amp(v, d) * (1 + 1e-4 * np.asarray(R / H, float))
    return np.asarray(f, float), np.asarray(g, float), s, s / h


# ---------------------------------------------------------------- perceptrons
def mlp_random(rng, big=False, max_layers=6):
    nl = int(rng.integers(2, max_layers + 1))
    hi = 70 if big else 12
    shape = [int(rng.integers(1, hi + 1)) for _ in range(nl)]
    if rng.random() < 0.3:
        shape[-1] = 1
    if rng.random() < 0.15:
        shape[rng.integers(nl)] = int(rng.choice([1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65]))
    gain = 10.0 ** rng.uniform(-1, 0.7)
    w = [gain * rng.standard_normal((shape[l + 1], shape[l])) / np.sqrt(shape[l]) for l in range(nl - 1)]
    if rng.random() < 0.15:    # first layer tiny: all units near zero
        w[0] = w[0] * 10.0 ** rng.uniform(-20, -2)
    if rng.random() < 0.15:    # last layer far from unit size
        w[-1] = w[-1] * 10.0 ** rng.uniform(-30, 30)
    if rng.random() < 0.2:
        w = [np.where(rng.random(x.shape) < 0.5, 0.0, x) for x in w]
    u = rng.random()
    scale = 1.0 if u < 0.15 else (0.0 if u < 0.2 else (-1.3 if u < 0.35 else float(10 ** rng.uniform(-1, 1))))
    if 0.35 < u < 0.5:
        scale = 1.6791767923989418
    return shape, w, float(scale)


def mlp_ref(shape, w, scale, X):
    """X [b, n0] -> Y [b, m], J [b, m, n0], scales for both"""
    A = np.asarray(X, LD)
    b = A.shape[0]
    SA = np.abs(A)                              # magnitude propagation
    J = np.broadcast_to(np.eye(shape[0], dtype=LD), (b, shape[0], shape[0])).copy()
    SJ = np.abs(J)
    sc = LD(scale)
    for l in range(len(shape) - 1):
        W = np.asarray(w[l], LD)
        Z, SZ = A @ W.T, SA @ np.abs(W.T)
        JZ, SJZ = np.einsum("oi,bij->boj", W, J), np.einsum("oi,bij->boj", np.abs(W), SJ)
        if l < len(shape) - 2:
            with np.errstate(over="ignore"):
                sg = 1 / (1 + np.exp(-Z))
            A = sc * Z * sg
            da = sc * sg * (1 + Z * (1 - sg))
            SA = abs(sc) * 1.2 * SZ
            J = da[:, :, None] * JZ
            # error of da: second derivative of SiLU is bounded by 0.5
            SJ = abs(sc) * (1.2 * SJZ + 0.5 * SZ[:, :, None] * SJZ)
        else:
            A, SA, J, SJ = Z, SZ, JZ, SJZ
    return np.asarray(A, float), np.asarray(J, float), np.asarray(SA, float), np.asarray(SJ, float)


# ---------------------------------------------------------------- polynomials
def poly_random(rng, big=False):
    nv = int(rng.integers(1, 17 if big else 9))
    maxdeg = int(rng.integers(1, 7))
    nt = int(rng.integers(1, 60 if big else 16))
    style = int(rng.integers(5))
    mons = []
    for _ in range(nt):
        deg = int(rng.integers(1, maxdeg + 1)) if style != 1 else maxdeg
        if style == 3 and mons and rng.random() < 0.6:      # extend an existing term: shared sub-products
            m = list(mons[rng.integers(len(mons))]) + [int(rng.integers(nv))]
            m = m[-7:]
        elif style == 4:
            m = [int(rng.integers(nv))] * deg               # pure powers
        else:
            m = [int(q) for q in rng.integers(0, nv, deg)]
        if style in (0, 1, 3):
            m = sorted(m)
        mons.append(m)
    if rng.random() < 0.8:      # distinct terms only
        seen, out = set(), []
        for m in mons:
            if tuple(m) not in seen:
                seen.add(tuple(m)); out.append(m)
        mons = out
    if rng.random() < 0.5:
        rng.shuffle(mons)
    mons = [list(map(int, m)) for m in mons]
    c = magnitudes(rng, len(mons), -2, 2, zero=0.05)
    if rng.random() < 0.2:     # coefficients far from unit size
        c = c * 10.0 ** rng.uniform(-40, 40)
    return nv, [float(x) for x in c], mons


def poly_ref(nv, c, mons, X):
    """X [b, nv] -> f [b], g [b, nv], scales"""
    X = np.asarray(X, LD)
    b = X.shape[0]
    f, sf = np.zeros(b, LD), np.zeros(b, LD)
    g, sg = np.zeros((b, nv), LD), np.zeros((b, nv), LD)
    for ci, m in zip(c, mons):
        F = X[:, m]
        t = LD(ci) * np.prod(F, axis=1)
        f += t; sf += np.abs(t)
        for k in range(len(m)):
            d = LD(ci) * np.prod(np.delete(F, k, axis=1), axis=1)
            g[:, m[k]] += d; sg[:, m[k]] += np.abs(d)
    return np.asarray(f, float), np.asarray(g, float), np.asarray(sf, float), np.asarray(sg, float)


def batch_sizes(rng):
    u = rng.random()
    if u < 0.35:
        return int(rng.integers(1, 9))
    if u < 0.7:
        k = 2 ** int(rng.integers(2, 9))
        return max(1, k + int(rng.integers(-1, 2)))
    if u < 0.97:
        return int(rng.integers(1, 140))
    return int(rng.choice([511, 512, 513, 767, 1000, 1023, 1024, 1025, 2048, 2049]))


# ---------------------------------------------------------------- ZBL
ZBL_EXP = np.array([-3.2, -0.9423, -0.4028, -0.2016])
ZBL_PRE = 14.3996
ZBL_A0 = 0.529


def zbl_params(rng):
    u = rng.random()
    if u < 0.3:
        a_exp, a_pre, c = 0.3, 0.4543, np.array([0.1818, 0.5099, 0.2802, 0.02817])
    else:
        a_exp, a_pre = float(rng.uniform(0.0, 0.8)), float(10 ** rng.uniform(-1, 0.5))
        c = rng.uniform(0.01, 1.0, 4) * (1 if u < 0.8 else np.sign(rng.standard_normal(4)))
    radii = np.concatenate([[0.2], rng.uniform(0.2, 2.6, 118)])
    if rng.random() < 0.2:
        radii[:] = float(rng.uniform(0.3, 2))
    p = int(rng.choice([1, 2, 3, 4, 5, 6, 6, 6, 7, 8, 12]))
    return a_exp, a_pre, c, radii, p


def envelope_ref(r, rm, p):
    r, rm = np.asarray(r, LD), np.asarray(rm, LD)
    x = r / rm
    t = [np.ones_like(x), -LD((p + 1.0) * (p + 2.0) / 2) * x ** p, LD(p * (p + 2.0)) * x ** (p + 1),
         -LD(p * (p + 1.0) / 2) * x ** (p + 2)]
    d = [-LD((p + 1.0) * (p + 2.0) / 2) * p * x ** (p - 1), LD(p * (p + 2.0)) * (p + 1) * x ** p,
         -LD(p * (p + 1.0) / 2) * (p + 2) * x ** (p + 1)]
    inside = r < rm
    z = np.zeros_like(x)
    f = np.where(inside, sum(t), z)
    g = np.where(inside, sum(d) / rm, z)
    sf = np.where(inside, sum(abs(q) for q in t), z)
    sg = np.where(inside, sum(abs(q) for q in d) / rm, z)
    return f, g, sf, sg


def zbl_ref(par, Zu, Zv, r):
    """-> energy, slope, scales; arrays"""
    a_exp, a_pre, c, radii, p = par
    Zu, Zv = np.asarray(Zu), np.asarray(Zv)
    r = np.asarray(r, LD)
    zu, zv = np.asarray(Zu, LD), np.asarray(Zv, LD)
    a = LD(a_pre) * LD(ZBL_A0) / (zu ** LD(a_exp) + zv ** LD(a_exp))
    x = r / a
    e = [LD(c[k]) * np.exp(LD(ZBL_EXP[k]) * x) for k in range(4)]
    phi, sphi = sum(e), sum(abs(q) for q in e) * (1 + 4 * x * LD(1e-2))
    dphi = sum(LD(ZBL_EXP[k]) * e[k] for k in range(4)) / a
    sdphi = sum(abs(LD(ZBL_EXP[k]) * e[k]) for k in range(4)) / a * (1 + 4 * x * LD(1e-2))
    q = LD(ZBL_PRE) * zu * zv
    v, sv = q / r * phi, q / r * sphi
    dv, sdv = q * (r * dphi - phi) / (r * r), q * (r * sdphi + sphi) / (r * r)
    rm = np.asarray(radii, LD)[Zu] + np.asarray(radii, LD)[Zv]
    f, g, sf, sg = envelope_ref(r, rm, p)
    E, dE = v * f / 2, (v * g + dv * f) / 2
    sE, sdE = sv * sf / 2, (sv * sg + sdv * sf) / 2
    F = lambda y: np.asarray(y, float)
    return F(E), F(dE), F(sE), F(sdE), F(rm)
