"""The formula of every published stage of the potential, for arbitrary (real or complex) inputs.

Independent of /repo; a complex step through a stage gives its directional derivative to rounding."""
import numpy as np

from . import macegen as G


class Stages:
    """one model, one neighbour list over `rows` rows (the first L.n of them nodes, the rest ghosts)"""
    def __init__(self, m, L, row_types):
        self.m, self.L = m, L
        self.types = np.asarray(L.types, int)
        self.idx = np.asarray(L.idx, int)
        self.i = L.i
        self.tj = np.asarray(row_types, int)[self.idx] if len(self.idx) else np.zeros(0, int)
        self.rows = len(row_types)
        self.pr = m.pair(self.types[self.i], self.tj)
        self.ls = np.repeat(np.arange(m.l_max + 1), 2 * np.arange(m.l_max + 1) + 1)
        self.Ls = np.repeat(np.arange(m.L_max + 1), 2 * np.arange(m.L_max + 1) + 1)

    def r(self, xyz):
        return np.sqrt((xyz * xyz).sum(1))

    def Y(self, xyz):
        return G.Y_of(self.m.l_max, xyz, self.r(xyz)) if len(xyz) else np.zeros((0, self.m.num_lm))

    def R0(self, xyz):
        return self.m._spline(self.m.R0, self.pr, self.r(xyz)).reshape(len(xyz), self.m.l_max + 1, self.m.K)

    def R1(self, xyz):
        return self.m._spline(self.m.R1, self.pr, self.r(xyz)).reshape(len(xyz), len(self.m.path), self.m.K)

    def A0(self, xyz):
        m = self.m
        P = np.zeros((self.L.n, m.num_lm, m.K), xyz.dtype)
        np.add.at(P, self.i, self.R0(xyz)[:, self.ls, :] * self.Y(xyz)[:, :, None] * m.H0[self.tj][:, None, :])
        return np.einsum("amk,amkq->amq", P, m.A0w[self.types][:, self.ls])

    def dens(self, q, xyz):
        s = np.ones(self.L.n, xyz.dtype)
        if self.m.scaled[q]:
            np.add.at(s, self.i, self.m._spline(self.m.sc[q], self.pr, self.r(xyz)))
        return s

    def scaled(self, q, A, xyz):
        return A / self.dens(q, xyz)[:, None, None]

    def M0(self, A):
        m = self.m
        return np.stack([m._poly(A, self.types, m.M0[0][lm], [w[lm] for w in m.M0[1]]) for lm in range(m.num_LM)], 1)

    def H1(self, M0):
        return np.einsum("amk,mkq->amq", M0, self.m.H1w[self.Ls])

    def Phi1(self, H1, xyz):
        m, R1, Y = self.m, self.R1(xyz), self.Y(xyz)
        e, dt = len(xyz), np.result_type(H1.dtype, xyz.dtype)
        prod = [(R1[:, ip, None, None, :] * Y[:, l1 * l1:(l1 + 1) ** 2, None, None] * H1[self.idx][:, None, l2 * l2:(l2 + 1) ** 2, :]).reshape(e, (2 * l1 + 1) * (2 * l2 + 1), m.K)
                for ip, (l, l1, l2) in enumerate(m.path)]
        Pr = np.zeros((self.L.n, m.num_prod, m.K), dt)
        np.add.at(Pr, self.i, np.concatenate(prod, 1))
        out = np.zeros((self.L.n, m.num_lme, m.K), dt)
        for o, c, p in m.cg:
            out[:, o] += c * Pr[:, p]
        return out

    def A1(self, Phi1):
        m, out, o = self.m, [], 0
        for l in range(m.l_max + 1):
            w = (2 * l + 1) * m.num_e[l]
            out.append(Phi1[:, o:o + w].reshape(self.L.n, 2 * l + 1, m.num_e[l] * m.K) @ m.A1w[l])
            o += w
        return np.concatenate(out, 1)

    def M1(self, A):
        return self.m._poly(A, self.types, self.m.M1[0][0], [w[0] for w in self.m.M1[1]])

    def H2(self, H1, M1):
        return np.einsum("ak,akq->aq", H1[:self.L.n, 0], self.m.H2h[self.types]) + M1 @ self.m.H2m

    def readouts(self, H1, H2):
        m = self.m
        z = H2 @ m.w1.T
        return m.E0[self.types] + H1[:self.L.n, 0] @ m.r1 + (m.act * z / (1 + np.exp(-z))) @ m.w2
