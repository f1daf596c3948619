"""Driver of the LAMMPS stand-in: systems, domain layouts, ghosts, swaps, neighbour lists, results."""
import os

import numpy as np

from . import asegen, macegen as G

SYM = ("H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe "
       "Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr "
       "Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og").split()
MODES = ("no_domain_decomposition", "mpi_message_passing", "no_mpi_message_passing")
FULL, GHOST = 1, 2


class System:
    """positions, LAMMPS types (1-based), tags; cell and periodicity"""
    def __init__(self, pos, types, cell, pbc, tags):
        self.pos, self.types, self.cell, self.pbc, self.tags = pos, types, cell, pbc, tags

    @property
    def n(self):
        return len(self.types)

    def lists(self, m, elem):
        """the full-system list for the library; elem: LAMMPS type-1 -> model element"""
        return G.build_lists([elem[t - 1] for t in self.types], self.pos, m.r_cut, self.cell, self.pbc)


def mapping(rng, m, more=True):
    """LAMMPS types for the model's elements, in any order, some elements unused or used twice -> elem[type-1]"""
    e = [int(q) for q in rng.permutation(m.N)[:int(rng.integers(1, m.N + 1))]]
    if more and rng.random() < .4:
        e += [int(rng.integers(m.N)) for _ in range(int(rng.integers(1, 3)))]
        e = [e[q] for q in rng.permutation(len(e))]
    return e


def system(rng, m, elem, n=None, kind=None):
    a = asegen.atoms(rng, m, n, kind)
    pos, cell, pbc = a.get_positions(), np.array(a.get_cell()), tuple(bool(q) for q in a.get_pbc())
    if abs(np.linalg.det(cell)) < 1e-9:
        cell = np.eye(3) * 10
    t = rng.integers(1, len(elem) + 1, len(pos))
    tags = rng.permutation(len(pos)) + 1
    if rng.random() < .3:
        tags = np.sort(rng.choice(np.arange(1, 3 * len(pos) + 2), len(pos), replace=False))[rng.permutation(len(pos))]
    # LAMMPS keeps periodic coordinates inside the box
    f = pos @ np.linalg.inv(cell)
    for d in range(3):
        if pbc[d]:
            f[:, d] -= np.floor(f[:, d])
    return System(f @ cell, t, cell, pbc, tags)


class Layout:
    """what every rank holds: index of the atom and image of every local and ghost, swaps"""
    def __init__(self, P):
        self.P = P
        self.atom = [[] for _ in range(P)]
        self.image = [[] for _ in range(P)]
        self.nlocal = [0] * P
        self.swaps = [[] for _ in range(P)]

    def x(self, s, k):
        return s.pos[np.array(self.atom[k], int)] + np.array(self.image[k], float).reshape(-1, 3) @ s.cell


def brick(rng, s, P, cut):
    """regular grid of processes, borders exchanged dimension by dimension as CommBrick does (ghosts of ghosts)"""
    grids = [(a, b, P // a // b) for a in range(1, P + 1) if P % a == 0 for b in range(1, P // a + 1) if (P // a) % b == 0]
    grid = grids[int(rng.integers(len(grids)))]
    inv = np.linalg.inv(s.cell)
    f = s.pos @ inv
    lo, hi = np.zeros(3), np.ones(3)
    for d in range(3):
        if not s.pbc[d] and s.n:                        # shrink-wrapped
            lo[d], hi[d] = f[:, d].min() - 1e-3, f[:, d].max() + 1e-3
    u = (f - lo) / (hi - lo)                            # 0..1 in the box
    cutf = cut * np.linalg.norm(inv, axis=0) / (hi - lo)
    L = Layout(P)
    loc = {}
    for k in range(P):
        loc[k] = (k // (grid[1] * grid[2]), (k // grid[2]) % grid[1], k % grid[2])
    rank = {v: k for k, v in loc.items()}
    for a in rng.permutation(s.n):
        g = tuple(min(grid[d] - 1, max(0, int(np.floor(u[a, d] * grid[d])))) for d in range(3))
        k = rank[g]
        L.atom[k].append(int(a)); L.image[k].append((0, 0, 0))
    L.nlocal = [len(q) for q in L.atom]
    coord = lambda k, i, d: u[L.atom[k][i], d] + L.image[k][i][d] / (hi[d] - lo[d])
    for d in range(3):
        need = int(cutf[d] * grid[d]) + 1 if s.pbc[d] else min(int(cutf[d] * grid[d]) + 1, grid[d] - 1)
        last = [0] * P
        first = [0] * P
        for ineed in range(2 * need):
            if ineed % 2 == 0:
                first, last = last, [len(q) for q in L.atom]
            new = {}
            for k in range(P):
                c = loc[k][d]
                sublo, subhi = c / grid[d], (c + 1) / grid[d]
                mid = .5 * (sublo + subhi)
                left = ineed % 2 == 0
                edge = c == 0 if left else c == grid[d] - 1
                t = list(loc[k]); t[d] = (c - 1 if left else c + 1) % grid[d]
                to = rank[tuple(t)]
                t[d] = (c + 1 if left else c - 1) % grid[d]
                frm = rank[tuple(t)]
                send = []
                if not (edge and not s.pbc[d]):
                    for i in range(first[k], last[k]):
                        q = coord(k, i, d)
                        if left and (ineed < 2 or q >= mid) and q <= sublo + cutf[d] or not left and (ineed < 2 or q <= mid) and q >= subhi - cutf[d]:
                            send.append(i)
                new[k] = (to, frm, send, (1 if left else -1) if edge else 0)
            start = [len(q) for q in L.atom]
            add = [([], []) for _ in range(P)]
            for k in range(P):
                to, frm, send, sh = new[k]
                for i in send:
                    im = list(L.image[k][i]); im[d] += sh
                    add[to][0].append(L.atom[k][i]); add[to][1].append(tuple(im))
            for k in range(P):
                L.atom[k] += add[k][0]; L.image[k] += add[k][1]
            for k in range(P):
                L.swaps[k].append((new[k][0], new[k][1], new[k][2], start[k], len(add[k][0])))
    return L


def scattered(rng, s, P, cut):
    """atoms dealt to the ranks without regard to where they are; one exchange per pair of ranks; ghosts in any order"""
    L = Layout(P)
    own = rng.integers(0, P, s.n) if rng.random() < .8 else np.full(s.n, int(rng.integers(P)))
    where = {}
    for a in rng.permutation(s.n):
        k = int(own[a])
        where[int(a)] = (k, len(L.atom[k]))
        L.atom[k].append(int(a)); L.image[k].append((0, 0, 0))
    L.nlocal = [len(q) for q in L.atom]
    rec = np.linalg.norm(np.linalg.inv(s.cell), axis=0)
    span = np.ptp(s.pos @ np.linalg.inv(s.cell), axis=0) if s.n else np.zeros(3)
    R = [np.arange(-m, m + 1) if s.pbc[d] else np.array([0]) for d, m in enumerate(np.ceil(cut * rec + span).astype(int))]
    g = np.stack(np.meshgrid(*R, indexing="ij"), -1).reshape(-1, 3)
    for k in range(P):
        if not L.nlocal[k]:
            L.swaps[k] = None
            continue
        x = s.pos[np.array(L.atom[k], int)]
        ghosts = {q: [] for q in range(P)}
        for im in g:
            y = s.pos + im @ s.cell
            near = (((y[:, None] - x[None]) ** 2).sum(-1) <= cut * cut).any(1)
            for a in np.flatnonzero(near):
                if own[a] == k and not im.any():
                    continue
                ghosts[int(own[a])].append((int(a), tuple(int(v) for v in im)))
        L.swaps[k] = ghosts
    out = [[] for _ in range(P)]
    for d in [int(q) for q in rng.permutation(P)]:
        for k in range(P):                              # k receives from (k - d) mod P
            frm = (k - d) % P
            l = L.swaps[k][frm] if L.swaps[k] else []
            l = [l[q] for q in rng.permutation(len(l))]
            first = len(L.atom[k])
            for a, im in l:
                L.atom[k].append(a); L.image[k].append(im)
            out[k].append([(k + d) % P, frm, None, first, len(l)])
            out[k][-1].append([where[a][1] for a, _ in l])
    # what k receives from frm in exchange e is what frm sends to k
    L2 = [[] for _ in range(P)]
    for k in range(P):
        for e, (to, frm, _, first, count, _l) in enumerate(out[k]):
            L2[k].append((to, frm, out[to][e][5], first, count))
    L.swaps = L2
    return L


def rows(rng, s, L, k, cut, ghosts, bits=True):
    """full neighbour list of rank k -> list of rows (locals, or locals and ghosts)"""
    x = L.x(s, k)
    n = len(x) if ghosts else L.nlocal[k]
    out = []
    for i in range(n):
        d = ((x - x[i]) ** 2).sum(1)
        j = np.flatnonzero(d < cut * cut)
        j = j[j != i]
        j = j[rng.permutation(len(j))]
        if bits:
            b = rng.integers(0, 8, len(j)) << 29
            j = (j.astype(np.int64) | b)
            j = np.where(j >= 2 ** 31, j - 2 ** 32, j)
        out.append([int(q) for q in j])
    return out


class Host:
    """one LAMMPS run: a pair style on P ranks"""
    def __init__(self, ctx, rng, m, style, P, mode, elem, V, skin=None, cutghost=0., map_style=1, device=False, file=None):
        self.m, self.P, self.mode, self.elem, self.style, self.rng = m, P, mode, elem, style, rng
        self.skin = float(rng.choice([0., .1, .5, 1.])) if skin is None else skin
        self.h = ctx.call(V.Host, style, P, what=style)
        self.h.seed = int(rng.integers(1 << 40))
        self.h.environment(len(elem), int(rng.integers(1, 4)), map_style, 1, self.skin, cutghost, device)
        self.style_command(ctx, mode)
        self.coeff_command(ctx, m, elem, file)
        self.cut = ctx.call(self.h.init, what="init_style")

    def style_command(self, ctx, mode):
        self.mode = mode
        ctx.call(self.h.settings, [mode] if mode else [], what="pair_style")

    def coeff_command(self, ctx, m, elem, file=None):
        self.m, self.elem = m, elem
        p = file or m.write()
        try:
            ctx.call(self.h.coeff, ["*", "*", p] + [SYM[m.Z[e] - 1] for e in elem], what="pair_coeff")
        finally:
            if not file:
                os.unlink(p)

    def script(self, ctx, rng):
        """further input commands before the next run: the same style with another mode, another model or map"""
        u = rng.random()
        if u < .6:
            self.style_command(ctx, str(rng.choice(MODES if self.P == 1 else MODES[1:])))
            ctx.event("modes changed between runs")
        if u > .4:
            m = self.m if rng.random() < .4 else asegen.model(rng)
            e = [int(q) for q in rng.integers(0, m.N, len(self.elem))]
            self.coeff_command(ctx, m, e)
            ctx.event("pair_coeff repeated")
        self.cut = ctx.call(self.h.init, what="init_style")

    def effective(self):
        return self.mode or ("no_domain_decomposition" if self.P == 1 else "mpi_message_passing")

    def setup(self, ctx, s, order="identity"):
        """atoms, ghosts, swaps and lists for a system"""
        rng = self.rng
        need = set(self.h.requests())
        self.ghost_lists = all(f & GHOST for _, f in need)
        cc = max(self.h.comm_cutoff())
        self.scheme = str(rng.choice(["brick", "scattered"]))
        self.L = (brick if self.scheme == "brick" else scattered)(rng, s, self.P, cc)
        self.s = s
        self.x0 = s.pos.copy()
        mt = int(max(s.tags)) if s.n else 1
        for k in range(self.P):
            a = np.array(self.L.atom[k], int)
            n = len(a)
            self.h.set_atoms(k, self.L.x(s, k).reshape(-1, 3), s.types[a], s.tags[a], self.L.nlocal[k], n + int(rng.integers(0, 4)), mt)
            r = rows(rng, s, self.L, k, self.cut + self.skin, self.ghost_lists)
            il = list(range(self.L.nlocal[k]))
            if order == "permuted":
                il = [int(q) for q in rng.permutation(il)] if il else il
            inum = len(il)
            if self.ghost_lists:
                il += list(range(self.L.nlocal[k], n))
            self.h.set_list(k, il, r, inum, max([len(q) for q in r], default=0) + int(rng.integers(0, 3)))
            self.h.set_swaps(k, self.L.swaps[k])
        ctx.event("domain layouts")
        ctx.event("ghost atoms", sum(len(a) for a in self.L.atom) - s.n)
        ctx.event("ranks without atoms", sum(1 for q in self.L.nlocal if q == 0))

    def move(self, s):
        """new positions of the same atoms, lists and ghosts kept"""
        self.s = s
        for k in range(self.P):
            self.h.move(k, self.L.x(s, k).reshape(-1, 3))

    def compute(self, ctx, eflag=1, vflag=1):
        """-> energy, forces by atom, virial, energies by atom or None; checks what must stay as it was"""
        h, P, rng, L = self.h, self.P, self.rng, self.L
        f0 = []
        for k in range(P):
            f = rng.standard_normal((len(L.atom[k]), 3)) * float(rng.choice([0, 1]))
            h.set_f(k, f); f0.append(f)
        before = [h.state(k) for k in range(P)]
        mark = float(rng.uniform(1e3, 2e3))
        for k in range(P):
            h.set_energy(k, mark); h.set_virial(k, -mark)
        have = [h.poison_eatom(k, mark) for k in range(P)]
        ctx.call(h.compute, eflag, vflag, what="compute")
        ctx.event("computes"); ctx.event("computes on %d ranks" % P)
        F = np.zeros((self.s.n, 3))
        for k in range(P):
            np.add.at(F, np.array(L.atom[k], int), np.asarray(h.forces(k)).reshape(-1, 3) - f0[k])
        E = [h.energy(k) for k in range(P)]
        W = np.array([h.virial(k) for k in range(P)])
        for k in range(P):
            ctx.true(h.state(k) == before[k], "compute changes positions, types or tags")
            if not eflag & 1:
                ctx.true(E[k] == mark, "total energy tallied without being requested")
            if not vflag & 3:
                ctx.true(bool((W[k] == -mark).all()), "virial tallied without being requested")
        ea = None
        if eflag & 2:
            ea = np.full(self.s.n, np.nan)
            for k in range(P):
                n = len(L.atom[k])
                e = np.array(h.eatom(k, n))
                ctx.true(len(e) == n, "per-atom energies missing")
                ea[np.array(L.atom[k][:L.nlocal[k]], int)] = e[:L.nlocal[k]]
                ctx.event("per-atom energies", L.nlocal[k])
                ctx.true(bool((e[L.nlocal[k]:] == 0).all()), "energy tallied on a ghost atom", str(e[L.nlocal[k]:]))
        else:
            for k in range(P):
                if have[k]:
                    ctx.true(bool((np.array(h.eatom(k, have[k])) == mark).all()), "per-atom energies tallied without being requested")
        msgs, calls, sw, order = h.traffic()
        ctx.event("messages", msgs)
        self.order = order
        return (sum(E) if eflag & 1 else None), F, (W.sum(0) if vflag & 3 else None), ea


def library(ctx, S, m, L, ev=None):
    """energies, forces by atom, virial (xx yy zz xy xz yz) of the library for the full system"""
    from . import mc
    ev = ev or mc.load(ctx, S, m)
    e, f = mc.run(ctx, ev, L)
    F = G.atom_forces(L, f)
    w = L.xyz.T @ f if len(L.idx) else np.zeros((3, 3))
    w = .5 * (w + w.T)
    return e, F, np.array([w[0, 0], w[1, 1], w[2, 2], w[0, 1], w[0, 2], w[1, 2]])
