import numpy as np
import torch as _torch


def silu(x):
    a = np.asarray(x)
    return _torch._t(a / (1 + np.exp(-a)))


def tanh(x):
    return _torch._t(np.tanh(np.asarray(x)))
