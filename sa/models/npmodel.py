"""Stubs of the integer arrays; their meaning is in sa/arrays.py. Only analysed, never executed."""


class ndarray:
    def __new__(cls, shape, dtype=None, buffer=None, offset=0, strides=None, order=None): ...

    def __getitem__(self, key): ...

    def __setitem__(self, key, value): ...

    def __len__(self): ...

    def __bool__(self): ...

    def __int__(self): ...

    def __iter__(self): ...

    def __contains__(self, x): ...

    def __eq__(self, other): ...

    def __ne__(self, other): ...

    def __lt__(self, other): ...

    def __le__(self, other): ...

    def __gt__(self, other): ...

    def __ge__(self, other): ...

    def __xor__(self, other): ...

    def __rxor__(self, other): ...

    def __and__(self, other): ...

    def __rand__(self, other): ...

    def __or__(self, other): ...

    def __ror__(self, other): ...

    def __add__(self, other): ...

    def __radd__(self, other): ...

    def __sub__(self, other): ...

    def __rsub__(self, other): ...

    def __mul__(self, other): ...

    def __rmul__(self, other): ...

    def __mod__(self, other): ...

    def __truediv__(self, other): ...

    def __rtruediv__(self, other): ...

    def __itruediv__(self, other): ...

    def __pow__(self, other): ...

    def __matmul__(self, other): ...

    def __ixor__(self, other): ...

    def __iand__(self, other): ...

    def __ior__(self, other): ...

    def __iadd__(self, other): ...

    def __isub__(self, other): ...

    def __imul__(self, other): ...

    def __imod__(self, other): ...

    def __invert__(self): ...

    @property
    def shape(self): ...

    @property
    def ndim(self): ...

    @property
    def size(self): ...

    @property
    def dtype(self): ...

    @property
    def strides(self): ...

    @property
    def data(self): ...

    @property
    def flat(self):
        return self.ravel()

    @property
    def T(self): ...

    def transpose(self, *axes): ...

    def conj(self): ...

    def conjugate(self): ...

    def trace(self): ...

    def swapaxes(self, axis1, axis2): ...

    @property
    def real(self): ...

    @property
    def imag(self): ...

    def any(self, axis=None): ...

    def all(self, axis=None): ...

    def sum(self, axis=None, dtype=None): ...

    def copy(self, order="C"): ...

    def view(self, type=None): ...

    def astype(self, dtype, copy=True): ...

    def tolist(self): ...

    def item(self, *args): ...

    def flatten(self, order="C"): ...

    def ravel(self, order="C"): ...

    def reshape(self, *shape): ...

    def nonzero(self): ...

    def argmax(self, axis=None): ...

    def max(self, axis=None): ...

    def fill(self, value): ...


def array(object, dtype=None, copy=True): ...


def asarray(a, dtype=None): ...


def ascontiguousarray(a, dtype=None): ...


def zeros(shape, dtype=None): ...


def ones(shape, dtype=None): ...


def zeros_like(a, dtype=None): ...


def ones_like(a, dtype=None): ...


def empty(shape, dtype=None): ...


def full(shape, fill_value, dtype=None): ...


def eye(N, M=None, k=0, dtype=None): ...


def identity(n, dtype=None): ...


def arange(start, stop=None, step=1, dtype=None): ...


def concatenate(arrays, axis=0): ...


def hstack(tup): ...


def vstack(tup): ...


def flatnonzero(a): ...


def nonzero(a): ...


def where(condition, x=None, y=None): ...


def argwhere(a): ...


def count_nonzero(a, axis=None): ...


def any(a, axis=None): ...


def all(a, axis=None): ...


def sum(a, axis=None): ...


def max(a, axis=None): ...


def argmax(a, axis=None): ...


def bitwise_xor(x1, x2): ...


def logical_xor(x1, x2): ...


def bitwise_and(x1, x2): ...


def logical_and(x1, x2): ...


def logical_or(x1, x2): ...


def logical_not(x): ...


def matmul(x1, x2): ...


def dot(a, b): ...


def array_equal(a1, a2): ...


def transpose(a, axes=None): ...


def copy(a): ...


def mod(x1, x2): ...


def searchsorted(a, v, side="left"): ...


def conj(x): ...


def conjugate(x): ...


def trace(a): ...


def tensordot(a, b, axes=2): ...


def moveaxis(a, source, destination): ...


def einsum(*args, optimize=False): ...


def kron(a, b): ...


def outer(a, b): ...


def vdot(a, b): ...


def swapaxes(a, axis1, axis2): ...


class vectorize:
    def __init__(self, pyfunc, otypes=None):
        self.pyfunc = pyfunc
        self.otypes = otypes

    def __call__(self, a):
        results = [self.pyfunc(x) for x in asarray(a).ravel()]
        return _vectorized(results, asarray(a).shape, self.otypes)


def _vectorized(results, shape, otypes): ...
