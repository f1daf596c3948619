"""Synthetic MACE model files, structures, and an independent reference of the model formula.

The reference is plain numpy over complex or real numbers, so that a complex step through it gives
derivatives exact to rounding.  Independent of /repo."""
import functools
import json
import os
import tempfile

import numpy as np

CE = (-3.2, -0.9423, -0.4028, -0.2016)          # ZBL screening exponents
VPRE = 14.3996


# ------------------------------------------------------------ spherical harmonics
@functools.lru_cache(None)
def _legendre(l, m):
    """coefficients (ascending) of d^m/dz^m P_l, times the normalisation of the real harmonic"""
    from math import factorial
    p = np.polynomial.legendre.leg2poly([0] * l + [1])
    if m:
        p = np.polynomial.polynomial.polyder(p, m)
    n = np.sqrt((2 * l + 1) / (4 * np.pi) * factorial(l - m) / factorial(l + m))
    return np.asarray(p, float) * n * (np.sqrt(2) if m else 1.0)


def real_sph(l_max, u):
    """real spherical harmonics (order l*l+l+m, no Condon-Shortley phase) of unit vectors u[n,3]; analytic in u"""
    x, y, z = u[:, 0], u[:, 1], u[:, 2]
    w = x + 0 * z
    c, s = [np.ones_like(w)], [np.zeros_like(w)]
    for m in range(1, l_max + 1):
        c.append(x * c[-1] - y * s[-1])
        s.append(x * s[m - 1] + y * c[m - 1])
    out = np.empty((len(u), (l_max + 1) ** 2), dtype=w.dtype)
    for l in range(l_max + 1):
        for m in range(l + 1):
            p = np.zeros_like(z)
            for q in _legendre(l, m)[::-1]:
                p = p * z + q
            out[:, l * l + l + m] = p * c[m]
            if m:
                out[:, l * l + l - m] = p * s[m]
    return out


def Y_of(l_max, xyz, r):
    """what the potential uses: e3nn axes and normalisation"""
    u = xyz / r[:, None]
    return 2 * np.sqrt(np.pi) * real_sph(l_max, u[:, [2, 0, 1]])


@functools.lru_cache(None)
def _gaunt_grid():
    z, wz = np.polynomial.legendre.leggauss(20)
    ph = (np.arange(40) + .5) * 2 * np.pi / 40
    Z, P = np.meshgrid(z, ph, indexing="ij")
    s = np.sqrt(1 - Z ** 2)
    u = np.stack([s * np.cos(P), s * np.sin(P), Z], -1).reshape(-1, 3)
    return real_sph(6, u), np.repeat(wz, 40) * 2 * np.pi / 40


@functools.lru_cache(None)
def coupling(l1, l2, l):
    """equivariant map (l1 x l2 -> l), [2l1+1, 2l2+1, 2l+1]; None unless the triangle and parity allow it"""
    if not abs(l1 - l2) <= l <= l1 + l2 or (l1 + l2 + l) % 2:
        return None
    Y, w = _gaunt_grid()
    a, b, c = (Y[:, q * q:(q + 1) ** 2] for q in (l1, l2, l))
    g = np.einsum("p,pi,pj,pk->ijk", w, a, b, c)
    g[np.abs(g) < 1e-13] = 0
    return g * np.sqrt((2 * l + 1) / np.sum(g ** 2))


# ------------------------------------------------------------ models
def _paths(l_max, L_max):
    """(l, l1, l2) sorted by l"""
    return sorted((l, l1, l2) for l1 in range(l_max + 1) for l2 in range(L_max + 1) for l in range(l_max + 1)
                  if coupling(l1, l2, l) is not None)


def _invariant_terms(rng, l_max, L, n_paths, max_deg):
    """-> list of [2L+1] dicts monomial -> coefficient, one list entry per path"""
    out = []
    cand = [(1, (L,))] if L <= l_max else []
    if max_deg >= 2:
        cand += [(2, (a, b)) for a in range(l_max + 1) for b in range(a, l_max + 1) if coupling(a, b, L) is not None]
    if max_deg >= 3:
        cand += [(3, (a, b, t, c)) for a in range(l_max + 1) for b in range(a, l_max + 1) for t in range(2 * l_max + 1) for c in range(l_max + 1)
                 if t <= 3 and coupling(a, b, t) is not None and coupling(t, c, L) is not None]
    rng.shuffle(cand)
    keep = cand[:n_paths]
    if L <= l_max and rng.random() < .8 and (1, (L,)) not in keep:
        keep.append((1, (L,)))
    for deg, p in keep:
        comp = [dict() for _ in range(2 * L + 1)]
        if deg == 1:
            for m in range(2 * L + 1):
                comp[m][(L * L + m,)] = 1.0
        else:
            if deg == 2:
                ls, C = p, coupling(p[0], p[1], L)
            else:
                a, b, t, c = p
                ls, C = (a, b, c), np.einsum("ijt,tkm->ijkm", coupling(a, b, t), coupling(t, c, L))
            for ix in np.argwhere(np.abs(C) > 1e-12):
                key = tuple(sorted(int(ls[q] ** 2 + ix[q]) for q in range(len(ls))))
                comp[ix[-1]][key] = comp[ix[-1]].get(key, 0.0) + float(C[tuple(ix)])
        out.append(comp)
    return out


def _poly_sym(rng, l_max, L_max, K, N, n_paths, max_deg, scale):
    """equivariant polynomials -> monomials {lm: [..]}, weights[a][lm][k] arrays"""
    mono, wts = {}, [dict() for _ in range(N)]
    for L in range(L_max + 1):
        terms = _invariant_terms(rng, l_max, L, n_paths, max_deg)
        w = rng.standard_normal((N, K, len(terms))) * scale
        for m in range(2 * L + 1):
            keys = {}
            for t in terms:
                for k in t[m]:
                    keys.setdefault(k, len(keys))
            U = np.zeros((len(terms), len(keys)))
            for ti, t in enumerate(terms):
                for k, v in t[m].items():
                    U[ti, keys[k]] = v
            ks = list(keys)
            mono[L * L + m] = [list(k) for k in ks]
            for a in range(N):
                wts[a][L * L + m] = w[a] @ U
    return mono, wts


def _poly_any(rng, l_max, L_max, K, N, n_mono, max_deg, scale):
    mono, wts = {}, [dict() for _ in range(N)]
    for lm in range((L_max + 1) ** 2):
        n = int(rng.integers(1, n_mono + 1))
        ms = [[int(q) for q in rng.integers(0, (l_max + 1) ** 2, int(rng.integers(1, max_deg + 1)))] for _ in range(n)]
        if rng.random() < .7:
            ms = [list(q) for q in dict.fromkeys(tuple(sorted(q)) for q in ms)]
        mono[lm] = ms
        for a in range(N):
            wts[a][lm] = rng.standard_normal((K, len(ms))) * scale
    return mono, wts


def _smooth(rng, x, x0, n):
    """random smooth curves on nodes x, value and slope vanishing at x0"""
    w = np.pi / x0
    v = np.zeros((n, len(x))); d = np.zeros((n, len(x)))
    t = x / x0
    env, denv = (1 - t) ** 2 * (1 + 2 * t), -6 * t * (1 - t) / x0
    for q in range(1, 4):
        a = rng.standard_normal((n, 1)); ph = rng.uniform(0, 2 * np.pi, (n, 1))
        f, g = np.cos(q * w * x + ph), -q * w * np.sin(q * w * x + ph)
        v += a * f * env; d += a * (g * env + f * denv)
    v[:, -1] = 0; d[:, -1] = 0
    return v / 2, d / 2


def spelled(f, how):
    """the same model written differently: order of keys, whole numbers without a point, keys nobody asked for"""
    if how > 3:
        return f
    whole = lambda v: ([whole(q) for q in v] if isinstance(v, list) else {k: whole(v[k]) for k in reversed(v)} if isinstance(v, dict)
                       else int(v) if isinstance(v, float) and v.is_integer() and abs(v) < 1e9 else v)
    f = {k: whole(v) for k, v in f.items()}
    keys = list(f)
    np.random.default_rng(how).shuffle(keys)
    out = {"_comment": "written by another tool", "version": [1, {"minor": None}]} if how % 2 else {}
    out.update({k: f[k] for k in keys})
    return out


class Model:
    """one synthetic model: numpy arrays, the JSON the loader reads, and the reference formula"""
    def __init__(self, rng, symmetric=True, K=None, N=None, l_max=None, L_max=None, zbl=None, scaled=None, nodes=None, r_cut=None,
                 loose_end=False, small=False, hidden=16):
        ri = lambda a, b: int(rng.integers(a, b + 1))
        self.K = K or (ri(1, 3) if small else int(rng.choice([1, 2, 3, 4, 5, 8])))
        self.N = N or ri(1, 3 if small else 4)
        self.l_max = l_max if l_max is not None else int(rng.choice([0, 1, 2, 3] if not small else [0, 1, 2]))
        self.L_max = L_max if L_max is not None else ri(0, min(2, self.l_max))
        K, N, lm_, Lm_ = self.K, self.N, self.l_max, self.L_max
        self.num_lm, self.num_LM = (lm_ + 1) ** 2, (Lm_ + 1) ** 2
        self.r_cut = r_cut or float(np.round(rng.uniform(2, 6), 3))
        self.nodes = nodes or ri(6, 48)
        self.h = float((self.r_cut - 1e-12) / (self.nodes - 1))
        self.Z = [int(q) for q in rng.choice(np.arange(1, 119), N, replace=False)]
        if rng.random() < .7:
            self.Z.sort()
        self.E0 = rng.standard_normal(N) * float(rng.choice([0, 1, 10]))
        self.pairs = N * (N + 1) // 2
        g = lambda *s: rng.standard_normal(s)
        self.has_zbl = bool(rng.random() < .4) if zbl is None else zbl
        if self.has_zbl:
            self.zbl = dict(a_exp=float(rng.uniform(.2, .4)), a_pre=float(rng.uniform(.3, .6)), c=np.abs(g(4)) * .1,
                            radii=rng.uniform(.3, self.r_cut * .6, 120), p=ri(3, 7))
        x = np.arange(self.nodes) * self.h
        self.path = _paths(lm_, Lm_)
        n0, n1 = (lm_ + 1) * K, len(self.path) * K

        def table(n):
            if rng.random() < .7:
                v, d = zip(*[_smooth(rng, x, x[-1], n) for _ in range(self.pairs)])
                v, d = np.array(v), np.array(d)
            else:
                v, d = g(self.pairs, n, self.nodes) * .5, g(self.pairs, n, self.nodes) / self.h * .3
            if not loose_end:
                v[..., -1] = 0; d[..., -1] = 0
            return v, d
        self.R0, self.R1 = table(n0), table(n1)
        self.H0 = g(N, K)
        self.A0w = g(N, lm_ + 1, K, K) / np.sqrt(K) / 2
        s = (bool(rng.random() < .5), bool(rng.random() < .5)) if scaled is None else (scaled, scaled)
        self.scaled = s
        self.sc = []
        for on in s:
            v, d = np.abs(g(self.pairs, self.nodes)) * .4, g(self.pairs, self.nodes) / self.h * .1
            v[:, -1] = 0; d[:, -1] = 0
            self.sc.append((v, d))
        if symmetric:
            self.M0 = _poly_sym(rng, lm_, Lm_, K, N, ri(1, 5), 3, .5)
            self.M1 = _poly_sym(rng, lm_, 0, K, N, ri(1, 6), 3, .5)
        else:
            self.M0 = _poly_any(rng, lm_, Lm_, K, N, 9, 3, .5)
            self.M1 = _poly_any(rng, lm_, 0, K, N, 14, 4 if rng.random() < .2 else 3, .5)
        self.H1w = g(Lm_ + 1, K, K) / np.sqrt(K)
        # Phi1: layout of outputs (l, m, e) and of products (path, m1, m2)
        self.num_e = [sum(1 for p in self.path if p[0] == l) for l in range(lm_ + 1)]
        off = np.cumsum([0] + [(2 * l + 1) * self.num_e[l] for l in range(lm_ + 1)])
        poff = np.cumsum([0] + [(2 * p[1] + 1) * (2 * p[2] + 1) for p in self.path])
        cg = []
        e_of = {}
        for ip, (l, l1, l2) in enumerate(self.path):
            e = e_of.get(l, 0); e_of[l] = e + 1
            C = coupling(l1, l2, l)
            for m1, m2, m in np.argwhere(np.abs(C) > 1e-12):
                cg.append((int(off[l] + m * self.num_e[l] + e), float(C[m1, m2, m]), int(poff[ip] + m1 * (2 * l2 + 1) + m2)))
        if rng.random() < .6:
            cg.sort(key=lambda q: q[2])
        else:
            cg = [cg[q] for q in rng.permutation(len(cg))]
        self.cg = cg
        self.num_lme, self.num_prod = int(off[-1]), int(poff[-1])
        self.A1w = [g(self.num_e[l] * K, K) / np.sqrt(self.num_e[l] * K) for l in range(lm_ + 1)]
        self.H2h, self.H2m = g(N, K, K) / np.sqrt(K), g(K, K) / np.sqrt(K)
        self.r1 = g(K) / np.sqrt(K)
        self.w1, self.w2 = g(hidden, K) / np.sqrt(K), g(hidden) / np.sqrt(hidden)
        self.act = float(rng.choice([1.0, 1.679177, rng.uniform(.5, 3)]))
        self.spelling = ri(0, 11)               # how the file is written

    # ---------------------------------------------------- file
    def json(self):
        K, N = self.K, self.N
        f = dict(num_elements=N, num_channels=K, r_cut=self.r_cut, l_max=self.l_max, L_max=self.L_max, atomic_numbers=self.Z,
                 atomic_energies=self.E0.tolist(), has_zbl=self.has_zbl, radial_spline_h=self.h)
        if self.has_zbl:
            z = self.zbl
            f.update(zbl_a_exp=z["a_exp"], zbl_a_prefactor=z["a_pre"], zbl_c=z["c"].tolist(), zbl_covalent_radii=z["radii"].tolist(), zbl_p=z["p"])
        for n, t in ((0, self.R0), (1, self.R1)):
            f[f"radial_spline_values_{n}"] = t[0].tolist()
            f[f"radial_spline_derivs_{n}"] = t[1].tolist()
        f["H0_weights"] = self.H0.ravel().tolist()
        f["A0_weights"] = self.A0w.reshape(N, self.l_max + 1, K * K).tolist()
        for q in (0, 1):
            f[f"A{q}_scaled"] = self.scaled[q]
            if self.scaled[q]:
                f[f"A{q}_spline_h"] = self.h
                f[f"A{q}_spline_values"] = self.sc[q][0].tolist()
                f[f"A{q}_spline_derivs"] = self.sc[q][1].tolist()
        m0, w0 = self.M0
        f["M0_weights"] = {str(a): {str(lm): {str(k): w0[a][lm][k].tolist() for k in range(K)} for lm in w0[a]} for a in range(N)}
        f["M0_monomials"] = {str(lm): m for lm, m in m0.items()}
        f["H1_weights"] = self.H1w.ravel().tolist()
        f["Phi1_l"], f["Phi1_l1"], f["Phi1_l2"] = ([int(p[q]) for p in self.path] for q in range(3))
        f["Phi1_lme"] = [c[0] for c in self.cg]
        f["Phi1_clebsch_gordan"] = [c[1] for c in self.cg]
        f["Phi1_lelm1lm2"] = [c[2] for c in self.cg]
        f["A1_weights"] = [w.ravel().tolist() for w in self.A1w]
        m1, w1 = self.M1
        f["M1_weights"] = {str(a): {str(k): w1[a][0][k].tolist() for k in range(K)} for a in range(N)}
        f["M1_monomials"] = m1[0]
        f["H2_weights_for_H1"] = self.H2h.reshape(N, K * K).tolist()
        f["H2_weights_for_M1"] = self.H2m.ravel().tolist()
        f["readout_1_weights"] = self.r1.tolist()
        f["readout_2_weights_1"] = self.w1.ravel().tolist()
        f["readout_2_weights_2"] = self.w2.tolist()
        f["readout_2_scale_factor"] = self.act
        return f

    def write(self, d=None, **edit):
        f = self.json()
        f.update(edit)
        fd, path = tempfile.mkstemp(suffix=".json", dir=d)
        with os.fdopen(fd, "w") as o:
            json.dump(spelled(f, self.spelling), o, indent=(1, None)[self.spelling % 2] if self.spelling < 4 else None)
        return path

    # ---------------------------------------------------- reference
    def pair(self, ti, tj):
        a, b = np.minimum(ti, tj), np.maximum(ti, tj)
        return a * self.N - a * (a - 1) // 2 + b - a

    def _spline(self, tab, pair, r):
        """tab values[pair][..][node]; zero beyond the table"""
        v, d = tab
        n = np.floor(r.real / self.h).astype(int)
        inside = (n >= 0) & (n < self.nodes - 1)
        n = np.clip(n, 0, self.nodes - 2)
        t = (r - n * self.h) / self.h
        if v.ndim == 3:
            v0, v1, d0, d1 = v[pair, :, n], v[pair, :, n + 1], d[pair, :, n], d[pair, :, n + 1]
            t = t[:, None]; inside = inside[:, None]
        else:
            v0, v1, d0, d1 = v[pair, n], v[pair, n + 1], d[pair, n], d[pair, n + 1]
        y = (v0 * (1 + 2 * t) * (1 - t) ** 2 + d0 * self.h * t * (1 - t) ** 2
             + v1 * t * t * (3 - 2 * t) + d1 * self.h * t * t * (t - 1))
        return np.where(inside, y, 0)

    def zbl_edges(self, zi, zj, r):
        z = self.zbl
        a = z["a_pre"] * 0.529 / (zi ** z["a_exp"] + zj ** z["a_exp"])
        phi = sum(z["c"][q] * np.exp(CE[q] * r / a) for q in range(4))
        rm = z["radii"][zi] + z["radii"][zj]
        p, t = z["p"], r / rm
        env = 1 - (p + 1) * (p + 2) / 2 * t ** p + p * (p + 2) * t ** (p + 1) - p * (p + 1) / 2 * t ** (p + 2)
        env = np.where(r.real < rm, env, 0)
        return .5 * VPRE * zi * zj / r * phi * env

    def reference(self, types, num_neigh, idx, xyz, idx_types=None, parts=None):
        """per-atom energies; xyz[n_edges,3] may be complex.  parts, if a dict, receives intermediates."""
        types, num_neigh, idx = (np.asarray(q, int) for q in (types, num_neigh, idx))
        n, K, lm_, Lm_ = len(types), self.K, self.l_max, self.L_max
        xyz = np.asarray(xyz).reshape(-1, 3)
        i = np.repeat(np.arange(n), num_neigh)
        tj = types[idx] if idx_types is None else np.asarray(idx_types, int)
        ti = types[i]
        r = np.sqrt((xyz * xyz).sum(1))
        dt = np.result_type(xyz.dtype, float)
        E = np.zeros(n, dt)
        if self.has_zbl and len(i):
            Z = np.array(self.Z)
            np.add.at(E, i, self.zbl_edges(Z[ti].astype(int), Z[tj].astype(int), r))
        pr = self.pair(ti, tj)
        Y = Y_of(lm_, xyz, r) if len(i) else np.zeros((0, self.num_lm))
        ls = np.repeat(np.arange(lm_ + 1), 2 * np.arange(lm_ + 1) + 1)
        R0 = self._spline(self.R0, pr, r).reshape(len(i), lm_ + 1, K)
        Phi0 = np.zeros((n, self.num_lm, K), dt)
        np.add.at(Phi0, i, R0[:, ls, :] * Y[:, :, None] * self.H0[tj][:, None, :])
        A0 = np.einsum("amk,amkq->amq", Phi0, self.A0w[types][:, ls])
        dens = []
        for q in (0, 1):
            s = np.ones(n, dt)
            if self.scaled[q]:
                np.add.at(s, i, self._spline(self.sc[q], pr, r))
            dens.append(s)
        A0 = A0 / dens[0][:, None, None]
        M0 = np.zeros((n, self.num_LM, K), dt)
        for lm in range(self.num_LM):
            M0[:, lm, :] = self._poly(A0, types, self.M0[0][lm], [w[lm] for w in self.M0[1]])
        Ls = np.repeat(np.arange(Lm_ + 1), 2 * np.arange(Lm_ + 1) + 1)
        H1 = np.einsum("amk,mkq->amq", M0, self.H1w[Ls])
        R1 = self._spline(self.R1, pr, r).reshape(len(i), len(self.path), K)
        prod = []
        for ip, (l, l1, l2) in enumerate(self.path):
            e = (R1[:, ip, None, None, :] * Y[:, l1 * l1:(l1 + 1) ** 2, None, None] * H1[idx][:, None, l2 * l2:(l2 + 1) ** 2, :])
            prod.append(e.reshape(len(i), (2 * l1 + 1) * (2 * l2 + 1), K))
        prod = np.concatenate(prod, 1)
        Pr = np.zeros((n, self.num_prod, K), dt)
        np.add.at(Pr, i, prod)
        Phi1 = np.zeros((n, self.num_lme, K), dt)
        for o, c, p in self.cg:
            Phi1[:, o] += c * Pr[:, p]
        A1, o = [], 0
        for l in range(lm_ + 1):
            w = (2 * l + 1) * self.num_e[l]
            A1.append(Phi1[:, o:o + w].reshape(n, 2 * l + 1, self.num_e[l] * K) @ self.A1w[l])
            o += w
        A1 = np.concatenate(A1, 1) / dens[1][:, None, None]
        M1 = self._poly(A1, types, self.M1[0][0], [w[0] for w in self.M1[1]])
        H2 = np.einsum("ak,akq->aq", H1[:, 0], self.H2h[types]) + M1 @ self.H2m
        z = H2 @ self.w1.T
        lo = z.real < -600                      # exp would overflow; the function is zero there
        zs = np.where(lo, 0, z)
        E2 = (self.act * np.where(lo, 0, zs / (1 + np.exp(-zs)))) @ self.w2
        E1 = H1[:, 0] @ self.r1
        if parts is not None:
            parts.update(R0=R0, Y=Y, A0=A0, M0=M0, H1=H1, R1=R1, Phi1=Phi1, A1=A1, M1=M1, H2=H2, dens=dens, zbl=E.copy(), E1=E1, E2=E2)
        return E + self.E0[types] + E1 + E2

    def _poly(self, A, types, mono, w):
        out = np.zeros((A.shape[0], A.shape[2]), A.dtype)
        W = np.array(w)[types]                  # [node, K, mono]
        deg = np.array([len(m) for m in mono])
        for d in sorted(set(deg.tolist())):
            sel = np.flatnonzero(deg == d)
            ix = np.array([mono[q] for q in sel])
            t = A[:, ix[:, 0], :]
            for c in range(1, d):
                t = t * A[:, ix[:, c], :]
            out += np.einsum("amk,akm->ak", t, W[:, :, sel])
        return out

    def size(self, parts):
        """a bound on the size of the terms summed in the energies (for tolerances), per atom"""
        s = 1 + np.abs(parts["zbl"]).real + np.abs(self.E0).max()
        for k in ("A0", "M0", "H1", "Phi1", "A1", "M1", "H2"):
            a = np.abs(parts[k])
            s = s + (a.reshape(len(a), -1).max(1) if a.size else 0)
        return float(np.max(s)) if np.size(s) else 1.0


# ------------------------------------------------------------ structures
class Lists:
    """types[n], num_neigh[n], idx[e], xyz[e,3] (neighbour minus node)"""
    def __init__(self, types, num_neigh, idx, xyz, pos=None):
        self.types, self.num_neigh = [int(t) for t in types], [int(q) for q in num_neigh]
        self.idx = [int(q) for q in idx]
        self.xyz = np.array(xyz, float).reshape(-1, 3)
        self.pos = pos

    @property
    def n(self):
        return len(self.types)

    @property
    def r(self):
        return np.sqrt((self.xyz ** 2).sum(1))

    @property
    def i(self):
        return np.repeat(np.arange(self.n), self.num_neigh).astype(int)

    def neigh_types(self):
        return [self.types[q] for q in self.idx]

    def args(self):
        return (self.n, self.types, self.num_neigh, self.idx, self.neigh_types(), self.xyz.ravel(), self.r)


def random_lists(rng, model, n=None, max_neigh=8, rmin=.3):
    """any neighbour list: not symmetric, self images, empty nodes"""
    n = n if n is not None else int(rng.integers(1, 8))
    types = rng.integers(0, model.N, n)
    nn = rng.integers(0, max_neigh + 1, n)
    nn[rng.random(n) < .15] = 0
    e = int(nn.sum())
    u = rng.standard_normal((e, 3))
    if e and rng.random() < .3:                      # axis-aligned directions
        k = rng.random(e) < .4
        u[k] = np.eye(3)[rng.integers(0, 3, int(k.sum()))] * rng.choice([-1., 1.], (int(k.sum()), 1))
    u /= np.sqrt((u ** 2).sum(1, keepdims=True))
    r = rng.uniform(rmin, model.r_cut * .999, e)
    return Lists(types, nn, rng.integers(0, max(n, 1), e), u * r[:, None])


def build_lists(types, pos, r_cut, cell=None, pbc=(False,) * 3, extra=0.0):
    """all neighbours within r_cut(+extra), nodes in order"""
    pos = np.asarray(pos, float).reshape(-1, 3)
    n = len(pos)
    shifts = np.zeros((1, 3))
    if cell is not None and any(pbc):
        cell = np.asarray(cell, float)
        rec = np.linalg.inv(cell).T
        rng_ = []
        span = (pos @ np.linalg.inv(cell)) if n else np.zeros((1, 3))
        spread = np.ptp(span, axis=0) if n else np.zeros(3)
        for q in range(3):
            m = int(np.ceil((r_cut + extra) * np.linalg.norm(rec[q]) + spread[q])) if pbc[q] else 0
            rng_.append(np.arange(-m, m + 1))
        g = np.stack(np.meshgrid(*rng_, indexing="ij"), -1).reshape(-1, 3)
        shifts = g @ cell
    nn, idx, vec = [], [], []
    for a in range(n):
        d = pos[None, :, :] + shifts[:, None, :] - pos[a]
        r2 = (d ** 2).sum(-1)
        s, j = np.nonzero((r2 < (r_cut + extra) ** 2) & (r2 > 1e-16))
        nn.append(len(j)); idx += j.tolist(); vec.append(d[s, j])
    return Lists(types, nn, idx, np.concatenate(vec) if vec else np.zeros((0, 3)), pos)


def cluster(rng, model, n=None, spread=None, dmin=.5):
    """random positions with a minimum distance"""
    n = n if n is not None else int(rng.integers(1, 8))
    L = spread or float(rng.uniform(.6, 1.6)) * model.r_cut * max(1, n) ** (1 / 3) * .7
    pos = []
    while len(pos) < n:
        p = rng.uniform(0, L, 3)
        if all(np.linalg.norm(p - q) > dmin for q in pos):
            pos.append(p)
        else:
            L *= 1.02
    return rng.integers(0, model.N, n), np.array(pos).reshape(-1, 3)


def evaluate(ev, L):
    """run the real evaluator -> per-atom energies, pair forces"""
    ev.compute_node_energies_forces(*L.args())
    e = np.array(ev.node_energies, float)[:L.n]
    f = np.array(ev.node_forces, float)[:3 * len(L.idx)].reshape(-1, 3)
    return e, f


def atom_forces(L, f):
    F = np.zeros((L.n, 3))
    if len(L.idx):
        np.add.at(F, np.array(L.idx, int), f)
        np.subtract.at(F, L.i, f)
    return F


def virial(L, f):
    return f.T @ L.xyz if len(L.idx) else np.zeros((3, 3))


def rotation(rng):
    q, r = np.linalg.qr(rng.standard_normal((3, 3)))
    q = q * np.sign(np.diag(r))
    return q
