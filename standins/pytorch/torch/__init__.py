"""Stand-in for torch: numpy arrays with torch's names, enough to carry a trained model and read it."""
import contextlib
import pickle
import sys

import numpy as np

float64 = double = np.dtype("float64")
float32 = float = np.dtype("float32")
int64 = long = np.dtype("int64")
int32 = int = np.dtype("int32")
bool = np.dtype("bool")
_default = [float32]
_int, _float, _bool = np.int64, np.float64, np.bool_


class _Size(type(1)):
    """an int for numpy, torch's size() when called"""
    def __new__(cls, a):
        o = super().__new__(cls, a.view(np.ndarray).size)
        o.shape_ = a.shape
        return o

    def __call__(self, d=None):
        return self.shape_ if d is None else self.shape_[d]


def _t(a):
    a = np.asarray(a)
    return a.view(Tensor)


def _dim(kw):
    if "dim" in kw:
        kw["axis"] = kw.pop("dim")
    if "keepdim" in kw:
        kw["keepdims"] = kw.pop("keepdim")
    return kw


class Tensor(np.ndarray):
    requires_grad = True
    grad = None
    is_cuda = False
    device = "cpu"

    @property
    def size(self):
        return _Size(self)

    @property
    def data(self):
        return self

    def numpy(self, *, force=False):
        if not force and isinstance(self, Parameter):
            raise RuntimeError("Can't call numpy() on Tensor that requires grad. Use tensor.detach().numpy() instead.")
        return np.array(self.view(np.ndarray))

    def detach(self):
        return self.view(np.ndarray).view(Tensor)

    def cpu(self, *a, **k): return self
    def cuda(self, *a, **k): return self
    def contiguous(self): return _t(np.ascontiguousarray(self.view(np.ndarray)))
    def requires_grad_(self, *a): return self
    def clone(self): return self.copy()
    def double(self): return self.astype(float64)
    def float(self): return self.astype(float32)
    def long(self): return self.astype(int64)
    def dim(self): return self.ndim
    def numel(self): return np.ndarray.size.__get__(self)
    def unsqueeze(self, d): return _t(np.expand_dims(self.view(np.ndarray), d))
    def squeeze(self, dim=None): return _t(np.squeeze(self.view(np.ndarray), *([] if dim is None else [dim])))
    def permute(self, *d): return _t(np.transpose(self.view(np.ndarray), d[0] if len(d) == 1 else d))
    def t(self): return self.T
    def pow(self, e): return self ** e
    def tanh(self): return _t(np.tanh(self.view(np.ndarray)))
    def matmul(self, o): return self @ o
    def abs(self): return _t(np.abs(self.view(np.ndarray)))

    def to(self, *a, **k):
        for q in list(a) + list(k.values()):
            if isinstance(q, np.dtype):
                return self.astype(q) if self.dtype.kind == "f" or q.kind != "f" else self.astype(q)
        return self

    type = to

    def transpose(self, a, b):
        return _t(np.swapaxes(self.view(np.ndarray), a, b))

    def view(self, *s):
        if s and not isinstance(s[0], (_int, np.integer, tuple, list)) and type(s[0]) is not type(1):
            return np.ndarray.view(self, *s)
        return self.reshape(*s)

    def sum(self, *a, **k): return _t(np.ndarray.view(self, np.ndarray).sum(*a, **_dim(k)))
    def mean(self, *a, **k): return _t(np.ndarray.view(self, np.ndarray).mean(*a, **_dim(k)))


class Parameter(Tensor):
    pass


def tensor(a, dtype=None, device=None, requires_grad=False):
    a = np.array(a)
    if dtype is None and a.dtype.kind == "f":
        dtype = _default[0]
    return _t(a.astype(dtype) if dtype is not None else a)


as_tensor = tensor
def from_numpy(a): return _t(a)


def _make(f):
    def g(*s, dtype=None, device=None, **k):
        if len(s) == 1 and isinstance(s[0], (list, tuple)):
            s = (tuple(s[0]),)
        elif f is not np.eye:
            s = (tuple(s),)
        return _t(f(*s, **k)).astype(dtype or _default[0])
    return g


ones, zeros, eye = _make(np.ones), _make(np.zeros), _make(np.eye)
empty = zeros


def linspace(a, b, steps, dtype=None): return _t(np.linspace(a, b, steps)).astype(dtype or _default[0])
def reshape(a, s): return _t(np.reshape(np.ndarray.view(a, np.ndarray), s))
def squeeze(a, *d): return a.squeeze(*d)
def unsqueeze(a, d): return a.unsqueeze(d)
def atleast_1d(a): return _t(np.atleast_1d(np.asarray(a)))
def flatten(a): return a.flatten()
def cat(l, dim=0): return _t(np.concatenate(l, dim))
def stack(l, dim=0): return _t(np.stack(l, dim))
def transpose(a, p, q): return a.transpose(p, q)
def is_tensor(a): return isinstance(a, Tensor)
def sigmoid(a): return _t(1 / (1 + np.exp(-np.asarray(a))))
def allclose(a, b, rtol=1e-5, atol=1e-8): return type(True)(np.allclose(np.asarray(a), np.asarray(b), rtol, atol))
def set_default_dtype(d): _default[0] = np.dtype(d)
def get_default_dtype(): return _default[0]
def manual_seed(s): return None


class device(str):
    pass


@contextlib.contextmanager
def no_grad():
    yield


inference_mode = no_grad


def save(obj, f):
    with open(f, "wb") as o:
        o.write(b"PK\x03\x04")                            # torch files are zip archives
        pickle.dump(obj, o)


def load(f, map_location=None, weights_only=True, **k):
    if weights_only:
        raise pickle.UnpicklingError("Weights only load failed")
    with open(f, "rb") as i:
        if i.read(4) != b"PK\x03\x04":
            raise pickle.UnpicklingError("not a torch file")
        return pickle.load(i)


class serialization:
    @staticmethod
    def add_safe_globals(l):
        return None


class linalg:
    inv = staticmethod(lambda a: _t(np.linalg.inv(np.asarray(a))))
    pinv = staticmethod(lambda a: _t(np.linalg.pinv(np.asarray(a))))
    matrix_rank = staticmethod(lambda a: _t(np.linalg.matrix_rank(np.asarray(a))))
    solve = staticmethod(lambda a, b: _t(np.linalg.solve(np.asarray(a), np.asarray(b))))


inverse = linalg.inv


def __getattr__(name):
    f = getattr(np, name, None)
    if f is None or name.startswith("__"):
        raise AttributeError(f"module 'torch' (stand-in) has no attribute {name!r}")
    if not callable(f) or isinstance(f, type):
        return f
    def g(*a, **k):
        r = f(*[np.asarray(q) if isinstance(q, Tensor) else q for q in a], **_dim(k))
        return _t(r) if isinstance(r, (np.ndarray, np.generic)) else r
    return g


from . import nn                                         # noqa: E402,F401
