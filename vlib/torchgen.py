"""Synthetic trained models on the stand-ins for torch, e3nn and mace, and the energy such a model defines.

The forward pass below follows the published architecture layer by layer, with nothing fused or tabulated;
it is what the extracted file must reproduce.  Works on complex edge vectors."""
import os
import sys

import numpy as np

from . import build, macegen as G

STUB = os.path.join(build.STANDINS, "pytorch")
if STUB not in sys.path:
    sys.path.insert(0, STUB)

import torch                                                        # noqa: E402
from e3nn import o3                                                 # noqa: E402
from mace.modules import blocks as B, radial                        # noqa: E402
from mace.tools import cg                                           # noqa: E402
from torch.nn import Module                                         # noqa: E402

N_HIDDEN = 16


def param(a, dtype=np.float64):
    return torch._t(np.array(a, dtype)).view(torch.Parameter)


def buf(a, dtype=np.float64):
    return torch._t(np.array(a, dtype))


class Box(Module):
    def __init__(self, **k):
        self.__dict__.update(k)


class Radial(Module):
    """radial embedding: functions of the distance and of the unordered pair of elements"""
    def __init__(self, kind, r_max, width, tup):
        self.kind, self.r_max, self.width, self.tup = kind, r_max, width, tup

    def basis(self, r, zi, zj):
        t = r / self.r_max
        s = self.width[zi] + self.width[zj]                       # the pair enters as in the distance transforms
        if self.kind == "cubic":                                  # tables reproduce these exactly
            u = (1 - t) ** 2
            b = np.stack([u, u * t, u * (1 - t) * s[..., 0] ** 2], -1)
            return np.where((t.real < 1)[..., None], b, 0)
        env = np.where(t.real < 1, 1 - 10 * t ** 3 + 15 * t ** 4 - 6 * t ** 5, 0)
        n = np.arange(1, 5)
        x = t[..., None] + 1e-9
        return env[..., None] * np.sin(n * np.pi * x) / x * (1 + .3 * np.sin(s[..., :1] * n))

    def forward(self, lengths, node_attrs, edge_index, atomic_numbers, node_attrs_index=None):
        a = np.asarray(node_attrs)
        assert a.ndim == 2 and a.shape[1] == len(np.asarray(atomic_numbers))
        sender, receiver = np.asarray(edge_index)
        z = np.asarray(atomic_numbers)[np.argmax(a, 1)]
        r = np.asarray(lengths)[:, 0]
        zi, zj = (np.broadcast_to(z[q], r.shape) for q in (sender, receiver))
        o = torch._t(self.basis(r.astype(float), zi, zj))
        return (o, None) if self.tup else o


class Net(Module):
    """the perceptron from radial embedding to path weights; linear in the exactly tabulated case"""
    def __init__(self, ws, final=None):
        self.ws, self.final = ws, final

    def apply(self, x):
        for i, w in enumerate(self.ws):
            x = x @ np.asarray(w)
            if i + 1 < len(self.ws):
                x = x / (1 + np.exp(-x)) * 1.6791767
        if self.final == "density":                               # tanh(x^2) becomes x
            x = np.sqrt(np.arctanh(x))
        return x

    def forward(self, x):
        return torch._t(self.apply(np.asarray(x)))


class Act:
    """e3nn's normalize2mom"""
    def __init__(self, f, cst):
        self.f, self.cst = f, cst

    def __call__(self, x):
        return torch._t(np.asarray(self.f(x)) * self.cst)


class Trained(Module):
    def single_head(self, i):
        import copy
        m = copy.deepcopy(self)
        m.heads = [self.heads[i]]
        m.atomic_energies_fn.atomic_energies = buf(np.asarray(self.atomic_energies_fn.atomic_energies)[i:i + 1])
        m.scale_shift.scale = buf(np.atleast_1d(np.asarray(self.scale_shift.scale))[i:i + 1])
        m.scale_shift.shift = buf(np.atleast_1d(np.asarray(self.scale_shift.shift))[i:i + 1])
        K, H = self.K, len(self.heads)
        m.readouts[0].linear = linear(o3.Irreps(self.readouts[0].linear.irreps_in), "1x0e",
                                      np.asarray(self.readouts[0].linear.weight).reshape(K, H)[:, i])
        r, q = m.readouts[1], self.readouts[1]
        r.linear_1 = linear(f"{K}x0e", f"{N_HIDDEN}x0e", np.asarray(q.linear_1.weight).reshape(K, H, N_HIDDEN)[:, i])
        r.linear_2 = linear(f"{N_HIDDEN}x0e", "1x0e", np.asarray(q.linear_2.weight).reshape(H, N_HIDDEN)[i])
        return m


def linear(a, b, w):
    l = o3.Linear(a, b)
    w = np.asarray(w, float).ravel()
    assert len(w) == l.weight_numel, (a, b, len(w), l.weight_numel)
    l.weight = param(w)
    return l


def square(rng, *s):
    """well conditioned square matrices, scaled like trained weights"""
    q = np.linalg.qr(rng.standard_normal(s))[0]
    d = np.exp(rng.uniform(-.7, .7, s[:-1]))
    return q * d[..., None] * np.sqrt(s[-1])


def model(rng, kind="cubic", N=None, K=None, L_max=None, density=None, zbl=None, heads=1, mixed=None, **odd):
    """a trained model; odd: deviations the extraction has to refuse"""
    g = lambda *s: rng.standard_normal(s)
    K = K or int(rng.choice([1, 2, 3, 4]))
    N = N or int(rng.integers(1, 6))
    L = int(rng.integers(0, 3)) if L_max is None else L_max
    lmax = odd.get("l_max", 3)
    Z = np.sort(rng.choice(np.arange(1, 119), N, replace=False))
    r_max = float(np.float32(np.round(rng.uniform(2, 6), 3)))    # the same number in either precision
    hid = o3.Irreps([(K, (l, (-1) ** l)) for l in range(L + 1)])
    sh = o3.Irreps([(1, (l, (-1) ** l)) for l in range(lmax + 1)])
    mid0 = o3.Irreps([(K, (l, (-1) ** l)) for l in range(lmax + 1)])
    dens = tuple(bool(q) for q in rng.random(2) < .5) if density is None else density
    nb = 3 if kind == "cubic" else 4

    def net(out):
        if kind == "cubic":
            return Net([param(g(nb, out) * .6)])
        h = 8
        return Net([param(g(nb, h) * .5), param(g(h, h) * .4), param(g(h, out) * .3)])

    def dnet():
        if kind == "cubic":
            return Net([param(np.minimum(np.abs(g(nb, 1)) * .08, .3))], "density")
        return Net([param(g(nb, 8) * .5), param(g(8, 1) * .3)])

    m = Trained()
    m.kind, m.K, m.N, m.L_max, m.l_max = kind, K, N, L, lmax
    m.atomic_numbers = buf(Z, np.int64)
    m.r_max = buf(r_max)
    m.num_interactions = buf(2, np.int64)
    m.spherical_harmonics = Box(_lmax=lmax)
    m.node_embedding = Box(linear=linear(f"{N}x0e", f"{K}x0e", g(N, K)))
    width = np.clip(g(119, 2) * .5, -.7, .7)
    m.radial_embedding = Radial(kind, r_max, width, bool(rng.random() < .5))
    H = heads
    m.heads = ["Default"] if H == 1 else ["pt_head"] + [f"h{q}" for q in range(1, H)]
    if H > 1 and rng.random() < .5:
        m.heads = [m.heads[q] for q in rng.permutation(H)]
    if H == 1 and rng.random() < .3:
        del m.heads
    e = g(H, N) * 5
    flat = H == 1 and rng.random() < .4
    m.atomic_energies_fn = Box(atomic_energies=buf(e[0] if flat else e))
    sc, sf = np.exp(g(H) * .3), g(H) * .5
    flat = H == 1 and rng.random() < .5
    m.scale_shift = Box(scale=buf(sc[0] if flat else sc), shift=buf(sf[0] if flat else sf))
    has = bool(rng.random() < .4) if zbl is None else zbl
    if has:
        m.pair_repulsion = True
        f = radial.ZBLBasis() if not odd.get("pair") else radial.OtherPairRepulsion()
        f.a_exp, f.a_prefactor = buf(rng.uniform(.2, .4)), buf(rng.uniform(.3, .6))
        f.c, f.p = buf(np.abs(g(4)) * .1), buf(int(rng.integers(3, 7)), np.int32)
        f.covalent_radii = buf(rng.uniform(.3, r_max * .45, 119))
        m.pair_repulsion_fn = f
    elif rng.random() < .5:
        m.pair_repulsion = False
    # first interaction: scalar features times harmonics
    b0 = (B.RealAgnosticDensityInteractionBlock if dens[0] else B.RealAgnosticInteractionBlock)()
    if odd.get("block0"):
        b0 = B.RealAgnosticAttResidualInteractionBlock()
    b0.avg_num_neighbors = float(rng.uniform(1, 9))
    b0.linear_up = linear(f"{K}x0e", f"{K}x0e", g(K, K))
    b0.conv_tp_weights = net((lmax + 1) * K)
    b0.linear = linear(mid0, mid0, g((lmax + 1) * K * K))
    ins = [o3.Instruction(l, 0, l, "uvw", True, (K * N) ** -.5, (K, N, K)) for l in range(lmax + 1)]
    b0.skip_tp = o3.FullyConnectedTensorProduct(mid0, f"{N}x0e", mid0, ins, [np.eye(2 * l + 1)[None] for l in range(lmax + 1)])
    b0.skip_tp.weight = param(g((lmax + 1) * K * N * K))
    if dens[0]:
        b0.density_fn = dnet()
    # second interaction
    b1 = (B.RealAgnosticDensityResidualInteractionBlock if dens[1] else B.RealAgnosticResidualInteractionBlock)()
    if odd.get("block1"):
        b1 = B.RealAgnosticAttResidualInteractionBlock()
    b1.avg_num_neighbors = float(rng.uniform(1, 9))
    b1.linear_up = linear(hid, hid, square(rng, L + 1, K, K))
    if odd.get("rank"):
        w = np.asarray(b1.linear_up.weight).reshape(L + 1, K, K)
        w[0, -1] = 3 * w[0, 0] if K > 1 else 0                     # singular, but only to rounding
        b1.linear_up.weight = param(w.ravel())
    outs, ins = [], []
    for a, (mul, ir) in enumerate(hid):
        for b, (_, ie) in enumerate(sh):
            for io in ir * ie:
                if io in [q[1] for q in sh]:
                    ins.append((a, b, len(outs))); outs.append((mul, io))
    s = o3.Irreps(outs).sort()
    ins = sorted([(a, b, s.p[o]) for a, b, o in ins], key=lambda q: q[2])
    cgs = [G.coupling(sh[b][1].l, hid[a][1].l, s.irreps[o][1].l) for a, b, o in ins]
    b1.conv_tp = o3.TensorProduct(hid, sh, s.irreps, [o3.Instruction(a, b, o, "uvu", True, float(rng.choice([1., .3, .04])), (K, 1)) for a, b, o in ins], cgs)
    b1.conv_tp_weights = net(len(ins) * K)
    mid1 = s.irreps.simplify() if rng.random() < .5 else s.irreps
    b1.linear = linear(mid1, mid0, g(len(ins) * K * K))
    ins = [o3.Instruction(0, 0, 0, "uvw", True, (K * N) ** -.5, (K, N, K))]
    b1.skip_tp = o3.FullyConnectedTensorProduct(hid, f"{N}x0e", f"{K}x0e", ins, [np.eye(1)[None]])
    b1.skip_tp.weight = param(g(K * N * K))
    if dens[1]:
        b1.density_fn = dnet()
    m.interactions = [b0, b1]
    if odd.get("layers"):
        m.interactions = [b0, b1, b1] if odd["layers"] == 3 else [b0]

    def product(Lout, corr):
        c = []
        for l in range(Lout + 1):
            U = {k: cg.tensor(tuple(range(lmax + 1)), l, k).shape[-1] for k in range(1, corr + 1)}
            w = {k: param(g(N, U[k], K) * .3) for k in U}
            c.append(Box(correlation=corr, weights=[w[k] for k in range(corr - 1, 0, -1)], weights_max=w[corr]))
        o = o3.Irreps(hid[:Lout + 1])
        return Box(symmetric_contractions=Box(contractions=c, irreps_in=mid0, irreps_out=o), linear=linear(o, o, g((Lout + 1) * K * K)))

    m.products = [product(L, odd.get("corr0", 3)), product(0, odd.get("corr1", 3))]
    h = odd.get("hidden", N_HIDDEN)
    act = Act(torch.nn.functional.silu, float(rng.choice([1.6791767, rng.uniform(.5, 3)])))
    if odd.get("gate"):
        act = Act(torch.nn.functional.tanh, 1.5925374)
    # a multihead readout has one output per head and a block of hidden units per head
    m.readouts = [Box(linear=linear(hid if rng.random() < .3 else f"{K}x0e", f"{H}x0e", g(K * H))),
                  Box(linear_1=linear(f"{K}x0e", f"{H * h}x0e", g(K * H * h)), non_linearity=Box(acts=[act]),
                      linear_2=linear(f"{H * h}x0e", "1x0e", g(H * h)))]
    m.dens = dens
    return m


class Reference:
    """per-atom energies of the trained model for the elements given (model types follow these numbers)"""
    def __init__(self, m, Z):
        self.m, self.Z = m, [int(z) for z in Z]
        self.index = [np.asarray(m.atomic_numbers).tolist().index(z) for z in self.Z]

    def __call__(self, types, num_neigh, idx, xyz):
        m, K, N = self.m, self.m.K, self.m.N
        el = np.array(self.index, int)[np.asarray(types, int)]
        n = len(el)
        idx = np.asarray(idx, int)
        i = np.repeat(np.arange(n), np.asarray(num_neigh, int))
        xyz = np.asarray(xyz).reshape(-1, 3)
        r = np.sqrt((xyz * xyz).sum(1))
        dt = np.result_type(xyz.dtype, float)
        attrs = np.eye(N)[el]
        z = np.asarray(m.atomic_numbers)[el]
        Y = G.Y_of(m.l_max, xyz, r) if len(i) else np.zeros((0, (m.l_max + 1) ** 2))
        basis = m.radial_embedding.basis(r, z[idx], z[i])
        num = lambda a: np.asarray(a, dtype=None)
        A = lambda w: np.asarray(w, float)
        b0, b1 = m.interactions
        inter = np.zeros(n, dt)
        self.size = 1.
        if getattr(m, "pair_repulsion", False):
            f = m.pair_repulsion_fn
            zi, zj = z[i].astype(float), z[idx].astype(float)
            a = float(f.a_prefactor) * 0.529 / (zi ** float(f.a_exp) + zj ** float(f.a_exp))
            phi = sum(A(f.c)[q] * np.exp(G.CE[q] * r / a) for q in range(4))
            rm, p = A(f.covalent_radii)[z[i]] + A(f.covalent_radii)[z[idx]], int(f.p)
            t = r / rm
            env = np.where(t.real < 1, 1 - (p + 1) * (p + 2) / 2 * t ** p + p * (p + 2) * t ** (p + 1) - p * (p + 1) / 2 * t ** (p + 2), 0)
            np.add.at(inter, i, .5 * G.VPRE * zi * zj / r * phi * env)
        self.note(inter)
        spread = lambda x: self.scatter(x, i, n, dt)
        density = lambda b: 1 + spread(np.tanh(b.density_fn.apply(basis) ** 2))
        h = num(m.node_embedding.linear(attrs))
        # layer 1
        up = num(b0.linear_up(h))
        R = b0.conv_tp_weights.apply(basis).reshape(len(i), m.l_max + 1, K)
        msg = [R[:, l, :, None] * up[idx][:, :, None] * Y[:, None, l * l:(l + 1) ** 2] for l in range(m.l_max + 1)]
        msg = spread(np.concatenate([q.reshape(len(i), K * (2 * l + 1)) for l, q in enumerate(msg)], 1))
        msg = num(b0.linear(msg))
        msg = msg / density(b0) if m.dens[0] else msg / b0.avg_num_neighbors
        msg = num(b0.skip_tp(msg, attrs))
        h = num(m.products[0].linear(self.contract(m.products[0], msg, el)))
        e = num(m.readouts[0].linear(h[:, :m.readouts[0].linear.irreps_in.dim]))[:, 0]
        self.note(msg, h, e)
        # layer 2
        sc = num(b1.skip_tp(h, attrs))
        up = num(b1.linear_up(h))
        R = b1.conv_tp_weights.apply(basis)
        msg = spread(num(b1.conv_tp(up[idx], Y, R)))
        msg = num(b1.linear(msg))
        msg = msg / density(b1) if m.dens[1] else msg / b1.avg_num_neighbors
        h2 = num(m.products[1].linear(self.contract(m.products[1], msg, el))) + sc
        ro = m.readouts[1]
        x = num(ro.linear_1(h2))
        x = np.where(x.real < -500, 0, x)
        x = x / (1 + np.exp(-x)) * ro.non_linearity.acts[0].cst
        e2 = num(ro.linear_2(x))[:, 0]
        self.note(up, msg, h2, e2, e)
        s, t = float(np.asarray(m.scale_shift.scale).ravel()[0]), float(np.asarray(m.scale_shift.shift).ravel()[0])
        E0 = A(m.atomic_energies_fn.atomic_energies).ravel()[el]
        self.note(E0)
        self.size *= max(1., s)
        return E0 + t + s * (inter + e + e2)

    def note(self, *a):
        for q in a:
            if np.size(q):
                self.size = max(self.size, float(np.abs(q).max()))

    @staticmethod
    def scatter(x, i, n, dt):
        o = np.zeros((n,) + x.shape[1:], dt)
        np.add.at(o, i, x)
        return o

    def contract(self, prod, A, el):
        m, K = self.m, self.m.K
        X = np.concatenate([A[:, K * l * l:K * (l + 1) ** 2].reshape(len(el), K, 2 * l + 1) for l in range(m.l_max + 1)], 2)
        out = []
        for l, c in enumerate(prod.symmetric_contractions.contractions):
            w = {c.correlation: c.weights_max}
            for q, k in zip(c.weights, range(c.correlation - 1, 0, -1)):
                w[k] = q
            y = 0
            for k, W in w.items():
                U = cg.tensor(tuple(range(m.l_max + 1)), l, k)
                W = np.asarray(W)[el]
                if k == 1:
                    y = y + np.einsum("min,bci,bnc->bcm", U, X, W)
                elif k == 2:
                    y = y + np.einsum("mijn,bci,bcj,bnc->bcm", U, X, X, W, optimize=True)
                else:
                    T = np.einsum("mijkn,bnc->bcmijk", U, W, optimize=True)
                    y = y + np.einsum("bcmijk,bci,bcj,bck->bcm", T, X, X, X, optimize=True)
            out.append(np.asarray(y).reshape(len(el), K * (2 * l + 1)))
        return np.concatenate(out, 1)
