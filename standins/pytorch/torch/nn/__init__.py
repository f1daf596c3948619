import numpy as np
import torch as _torch
from torch import Parameter  # noqa: F401
from . import functional  # noqa: F401


class Module:
    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def _tensors(self):
        for k, v in self.__dict__.items():
            yield from _walk(self.__dict__, k, v)

    def parameters(self):
        for d, k, v in self._tensors():
            if isinstance(v, Parameter):
                yield v

    def to(self, *a, **k):
        for d, k_, v in list(self._tensors()):
            if v.dtype.kind == "f":
                d[k_] = np.ndarray.view(v.to(*a, **k), type(v))
        return self

    def double(self): return self.to(_torch.float64)
    def float(self): return self.to(_torch.float32)
    def cpu(self): return self
    def eval(self): return self
    def train(self, mode=True): return self


def _walk(d, k, v):
    if isinstance(v, _torch.Tensor):
        yield d, k, v
    elif isinstance(v, Module):
        yield from v._tensors()
    elif isinstance(v, list):
        for i, q in enumerate(v):
            yield from _walk(v, i, q)


ModuleList = list
ParameterList = list
