"""Stand-in for e3nn.o3: irreps, linear maps, tensor products in the e3nn memory layout (l, channel, m)."""
import collections
import re

import numpy as np
import torch
from torch.nn import Module


class Irrep(tuple):
    def __new__(cls, l, p=None):
        if isinstance(l, Irrep):
            return l
        if isinstance(l, tuple):
            l, p = l
        if isinstance(l, str):
            s = l.strip()
            l, p = int(s[:-1]), {"e": 1, "o": -1, "y": (-1) ** int(s[:-1])}[s[-1]]
        return super().__new__(cls, (l, p))

    def __getnewargs__(self):
        return tuple(self)

    l = property(lambda s: s[0])
    p = property(lambda s: s[1])
    dim = property(lambda s: 2 * s[0] + 1)

    def __repr__(self):
        return f"{self.l}{'e' if self.p == 1 else 'o'}"

    def __mul__(self, o):
        o = Irrep(o)
        return [Irrep(l, self.p * o.p) for l in range(abs(self.l - o.l), self.l + o.l + 1)]


class _MulIr(tuple):
    def __new__(cls, mul, ir=None):
        return super().__new__(cls, (mul, Irrep(ir)))

    def __getnewargs__(self):
        return tuple(self)

    mul = property(lambda s: s[0])
    ir = property(lambda s: s[1])
    dim = property(lambda s: s[0] * s[1].dim)

    def __repr__(self):
        return f"{self.mul}x{self.ir}"


class Irreps(tuple):
    def __new__(cls, x=""):
        out = []
        if isinstance(x, Irrep):
            out = [_MulIr(1, x)]
        elif isinstance(x, str):
            for t in filter(None, (q.strip() for q in x.split("+"))):
                m = re.fullmatch(r"(?:(\d+)\s*x\s*)?(\d+[eoy])", t)
                out.append(_MulIr(int(m[1] or 1), m[2]))
        else:
            for q in x:
                if isinstance(q, (str, Irrep)):
                    out.append(_MulIr(1, q) if isinstance(q, Irrep) else Irreps(q)[0])
                else:
                    out.append(_MulIr(q[0], q[1]))
        return super().__new__(cls, out)

    def __getnewargs__(self):
        return ([tuple(q) for q in self],)

    def count(self, ir):
        return sum(m for m, q in self if q == Irrep(ir))

    lmax = property(lambda s: max(q.l for _, q in s))
    dim = property(lambda s: sum(q.dim for q in s))
    ls = property(lambda s: [q.l for m, q in s for _ in range(m)])
    num_irreps = property(lambda s: sum(m for m, _ in s))

    def simplify(self):
        out = []
        for m, q in self:
            if out and out[-1][1] == q:
                out[-1] = (out[-1][0] + m, q)
            elif m:
                out.append((m, q))
        return Irreps(out)

    def sort(self):
        key = [(q[1].l, -q[1].p * (-1) ** q[1].l, i) for i, q in enumerate(self)]
        inv = [k[2] for k in sorted(key)]
        p = [0] * len(inv)
        for new, old in enumerate(inv):
            p[old] = new
        return collections.namedtuple("sort", "irreps p inv")(Irreps([self[i] for i in inv]), tuple(p), tuple(inv))

    def slices(self):
        s, o = 0, []
        for q in self:
            o.append(slice(s, s + q.dim)); s += q.dim
        return o

    def __getitem__(self, i):
        r = super().__getitem__(i)
        return Irreps(r) if isinstance(i, slice) else r

    def __repr__(self):
        return "+".join(map(repr, self))


LinearInstruction = collections.namedtuple("LinearInstruction", "i_in i_out path_shape path_weight")
Instruction = collections.namedtuple("Instruction", "i_in1 i_in2 i_out connection_mode has_weight path_weight path_shape")


class _Views:
    def weight_views(self, weight=None, yield_instruction=False):
        w = self.weight if weight is None else weight
        o = 0
        for k, ins in enumerate(self.instructions):
            n = int(np.prod(ins.path_shape))
            v = torch._t(np.asarray(w))[o:o + n].reshape(ins.path_shape)
            o += n
            yield (k, ins, v) if yield_instruction else v

    def weight_view_for_instruction(self, instruction, weight=None):
        return list(self.weight_views(weight))[instruction]


class Linear(Module, _Views):
    def __init__(self, irreps_in, irreps_out, **kw):
        self.irreps_in, self.irreps_out = Irreps(irreps_in), Irreps(irreps_out)
        pairs = [(i, o) for i, a in enumerate(self.irreps_in) for o, b in enumerate(self.irreps_out) if a[1] == b[1]]
        fan = collections.Counter()
        for i, o in pairs:
            fan[o] += self.irreps_in[i].mul
        self.instructions = [LinearInstruction(i, o, (self.irreps_in[i].mul, self.irreps_out[o].mul), fan[o] ** -.5) for i, o in pairs]
        self.weight_numel = sum(int(np.prod(i.path_shape)) for i in self.instructions)
        self.weight = torch._t(np.zeros(self.weight_numel)).view(torch.Parameter)
        self.bias = torch._t(np.zeros(0))

    def forward(self, x):
        x = np.asarray(x)
        si, so = self.irreps_in.slices(), self.irreps_out.slices()
        out = np.zeros(x.shape[:-1] + (self.irreps_out.dim,), np.result_type(x.dtype, float))
        for ins, w in zip(self.instructions, self.weight_views()):
            a = x[..., si[ins.i_in]].reshape(x.shape[:-1] + (ins.path_shape[0], self.irreps_in[ins.i_in].ir.dim))
            out[..., so[ins.i_out]] += ins.path_weight * np.einsum("...um,uv->...vm", a, np.asarray(w)).reshape(x.shape[:-1] + (self.irreps_out[ins.i_out].dim,))
        return torch._t(out)


class TensorProduct(Module, _Views):
    """paths 'uvu' (weights per call) and 'uvw' (own weights), with the coupling tensors of this stand-in"""
    def __init__(self, irreps_in1, irreps_in2, irreps_out, instructions, cg):
        self.irreps_in1, self.irreps_in2, self.irreps_out = Irreps(irreps_in1), Irreps(irreps_in2), Irreps(irreps_out)
        self.instructions, self.cg = instructions, cg
        self.weight_numel = sum(int(np.prod(i.path_shape)) for i in instructions if i.has_weight)

    def forward(self, x, y, weight=None):
        x, y = np.asarray(x), np.asarray(y)
        s1, s2, so = (q.slices() for q in (self.irreps_in1, self.irreps_in2, self.irreps_out))
        out = np.zeros((len(x), self.irreps_out.dim), np.result_type(x.dtype, y.dtype, float))
        o = 0
        for k, ins in enumerate(self.instructions):
            m1, m2 = self.irreps_in1[ins.i_in1].mul, self.irreps_in2[ins.i_in2].mul
            a = x[:, s1[ins.i_in1]].reshape(len(x), m1, self.irreps_in1[ins.i_in1].ir.dim)
            b = y[:, s2[ins.i_in2]].reshape(len(x), m2, self.irreps_in2[ins.i_in2].ir.dim)
            n = int(np.prod(ins.path_shape))
            if ins.connection_mode == "uvu":
                w = np.asarray(weight)[:, o:o + n].reshape((len(x),) + ins.path_shape)
                r = np.einsum("nuv,nui,nvj,jip->nup", w, a, b, self.cg[k])
            else:
                w = np.asarray(self.weight)[o:o + n].reshape(ins.path_shape)
                r = np.einsum("uvw,nui,nvj,jip->nwp", w, a, b, self.cg[k])
            o += n
            out[:, so[ins.i_out]] += ins.path_weight * r.reshape(len(x), self.irreps_out[ins.i_out].dim)
        return torch._t(out)


FullyConnectedTensorProduct = TensorProduct


def wigner_3j(l1, l2, l3, dtype=None, device=None):
    raise NotImplementedError("stand-in for e3nn: wigner_3j")
