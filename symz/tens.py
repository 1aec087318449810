"""A stand-in for torch, for symbolic runs: tensors are symbolic arrays."""
import types
import numpy as np
from . import anp


class Tensor(object):
    def __init__(self, a):
        self.a = a.a if isinstance(a, Tensor) else a

    shape = property(lambda self: tuple(int(s) for s in self.a.shape))
    data = property(lambda self: self)

    def dim(self):
        return len(self.shape)

    ndim = property(dim)

    def size(self, i=None):
        return self.shape if i is None else self.shape[i]

    def __len__(self):
        return self.shape[0]

    def _same(self):
        return self

    float = contiguous = cpu = detach = clone = _same

    def numpy(self):
        return self.a

    def view(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return Tensor(self.a.reshape(tuple(int(s) for s in shape)))

    reshape = view

    def t(self):
        return Tensor(self.a.T)

    def permute(self, *axes):
        return Tensor(self.a.transpose(axes))

    def transpose(self, i, j):
        axes = list(range(self.dim()))
        axes[i], axes[j] = axes[j], axes[i]
        return self.permute(*axes)

    def squeeze(self, axis=None):
        shape = [s for i, s in enumerate(self.shape)
                 if s != 1 or axis is not None and i != axis % self.dim()]
        return self.view(*shape)

    def unsqueeze(self, axis):
        shape = list(self.shape)
        shape.insert(axis % (self.dim() + 1), 1)
        return self.view(*shape)

    def unfold(self, axis, size, step):
        assert axis in (-1, self.dim() - 1)
        n = (self.shape[-1] - size) // step + 1
        at = np.arange(n)[:, None] * step + np.arange(size)[None, :]
        return Tensor(self.a[..., at])

    def __getitem__(self, i):
        return Tensor(self.a[at(i)])

    def __setitem__(self, i, v):
        self.a[at(i)] = v.a if isinstance(v, Tensor) else v

    def mean(self, dim=None, keepdim=False):
        return Tensor(total(self.a, dim, keepdim) /
                      (self.shape[dim] if dim is not None else self.a.size))

    def sum(self, dim=None, keepdim=False):
        return Tensor(total(self.a, dim, keepdim))

    def std(self, dim=None, keepdim=False):
        n = self.shape[dim]
        d = self.a - total(self.a, dim, True) / n
        return Tensor(root(total(d * d, dim, keepdim) / (n - 1)))


def at(i):
    # torch takes a list which has slices to be a tuple
    return tuple(i) if isinstance(i, list) and any(
        isinstance(x, slice) for x in i) else i


def total(a, dim, keepdim):
    return a.sum(axis=dim, keepdims=keepdim)


def root(a):
    return anp_np().sqrt(a)


def anp_np():
    return Torch.np


def _op(name):
    def f(self, other=None):
        o = other.a if isinstance(other, Tensor) else other
        return Tensor(getattr(self.a, name)(*([] if other is None else [o])))
    return f


for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv',
           'pow', 'neg', 'abs'):
    setattr(Tensor, '__%s__' % _n, _op('__%s__' % _n))


class Torch(object):
    np = None


def torch(w):
    """the stand-in"""
    Torch.np = np_ = w.np

    def zeros(*shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = shape[0]
        return Tensor(w.constant(np.zeros(tuple(int(s) for s in shape))))

    def norm(x, dim=None, keepdim=False):
        return Tensor(root(total(x.a * x.a, dim, keepdim)))

    def cat(xs, dim=0):
        return Tensor(np_.concatenate([x.a for x in xs], axis=dim))
    return types.SimpleNamespace(
        zeros=zeros, FloatTensor=zeros, norm=norm, cat=cat,
        from_numpy=lambda a: Tensor(a if hasattr(a, '_arr') or not
                                    isinstance(a, np.ndarray)
                                    else w.constant(a)),
        matmul=lambda a, b: Tensor(np_.dot(a.a, b.a)),
        sqrt=lambda a: Tensor(root(a.a)),
        sum=lambda a, dim=None, keepdim=False: a.sum(dim, keepdim),
        mean=lambda a, dim=None, keepdim=False: a.mean(dim, keepdim),
        abs=abs)
