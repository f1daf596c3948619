"""The generalised coupling tensors of this stand-in: a fixed set of equivariant paths per order."""
import functools

import numpy as np
import torch
from e3nn.o3 import Irreps, Irrep

from vlib.macegen import coupling

PATHS = 4                # at most that many paths of order 3


@functools.lru_cache(None)
def tensor(ls, L, corr):
    off = [q * q for q in range(8)]
    n = sum(2 * l + 1 for l in ls)
    assert list(ls) == list(range(len(ls)))
    out = []
    if corr == 1:
        U = np.zeros((2 * L + 1, n))
        U[np.arange(2 * L + 1), off[L] + np.arange(2 * L + 1)] = 1
        out.append(U)
    elif corr == 2:
        for a in ls:
            for b in ls:
                C = coupling(a, b, L)
                if C is not None:
                    U = np.zeros((2 * L + 1, n, n))
                    U[:, off[a]:off[a + 1], off[b]:off[b + 1]] = C.transpose(2, 0, 1)
                    out.append(U)
    else:
        cand = [(a, b, t, c) for a in ls for b in ls for t in range(4) for c in ls if coupling(a, b, t) is not None and coupling(t, c, L) is not None]
        same = [q for q in cand if q[0] == q[1] > 0 and q[2] > 0]            # several orders of the same indices
        step = max(1, len(cand) // (PATHS - 2))
        for a, b, t, c in [same[L % len(same)], same[-1 - L]] * bool(same) + cand[L::step][:PATHS - 2]:
            C = np.einsum("ijt,tkm->mijk", coupling(a, b, t), coupling(t, c, L))
            U = np.zeros((2 * L + 1, n, n, n))
            U[:, off[a]:off[a + 1], off[b]:off[b + 1], off[c]:off[c + 1]] = C
            out.append(U)
    if corr == 4:
        # more paths than of order 3, as in the real basis
        V = np.einsum("mi,jkl->mijkl", tensor(ls, L, 1)[..., 0], tensor(ls, 0, 3)[0, ..., 0])
        out = [V * (q + 1) for q in range(PATHS + 2)]
    return np.stack(out, -1)


def U_matrix_real(irreps_in, irreps_out, correlation, normalization="component", filter_ir_mid=None, dtype=None, use_cueq_cg=None):
    ls = tuple(q[1].l for q in Irreps(irreps_in))
    out = []
    for _, ir in Irreps(irreps_out):
        U = tensor(ls, ir.l, correlation)
        out += [ir, torch._t(U[0] if ir.l == 0 else U).astype(dtype or torch.get_default_dtype())]
    return out
