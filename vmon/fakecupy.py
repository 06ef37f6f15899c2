"""a stand-in for cupy: arrays that live in a memory of their own, which numpy cannot reach"""
import sys
import types
import numpy as np
from numpy.lib.mixins import NDArrayOperatorsMixin

COUNT = {"ufunc": 0, "function": 0, "to device": 0, "to host": 0}


def _in(v):
    """arguments of device functions: no host arrays"""
    if isinstance(v, ndarray):
        return v._a
    if isinstance(v, np.ndarray):
        raise TypeError("Unsupported type <class 'numpy.ndarray'>: host array in a device operation")
    if isinstance(v, (list, tuple)):
        return type(v)(_in(x) for x in v)
    return v


def _out(v):
    if isinstance(v, np.ndarray) or isinstance(v, np.generic):
        return ndarray(v)
    if isinstance(v, (list, tuple)):
        return type(v)(_out(x) for x in v)
    return v


class ndarray(NDArrayOperatorsMixin):
    def __init__(self, a):
        self._a = np.asarray(a)

    shape = property(lambda s: s._a.shape)
    ndim = property(lambda s: s._a.ndim)
    size = property(lambda s: s._a.size)
    dtype = property(lambda s: s._a.dtype)
    T = property(lambda s: ndarray(s._a.T))

    def __array__(self, *a, **k):
        raise TypeError("Implicit conversion to a NumPy array is not allowed")

    def __array_ufunc__(self, uf, method, *args, **kw):
        COUNT["ufunc"] += 1
        kw = {k: _in(v) for k, v in kw.items()}
        r = getattr(uf, method)(*[_in(a) for a in args], **kw)
        return _out(r)

    def __array_function__(self, fn, types_, args, kw):
        COUNT["function"] += 1
        return _out(fn(*[_in(a) for a in args], **{k: _in(v) for k, v in kw.items()}))

    @staticmethod
    def _ix(i):
        if isinstance(i, tuple):
            return tuple(ndarray._ix(x) for x in i)
        return i._a if isinstance(i, ndarray) else i

    def __getitem__(self, i):
        return ndarray(self._a[self._ix(i)])

    def __setitem__(self, i, v):
        if isinstance(v, np.ndarray):
            raise TypeError("host array assigned to a device array")
        self._a[self._ix(i)] = _in(v)

    def __len__(self):
        return len(self._a)

    def __iter__(self):
        return (ndarray(x) for x in self._a)

    def __bool__(self):
        return bool(self._a)

    def __float__(self):
        return float(self._a)

    def __int__(self):
        return int(self._a)

    def item(self, *a):
        return self._a.item(*a)

    def __getattr__(self, name):
        if name.startswith("__") or name == "_a":
            raise AttributeError(name)
        f = getattr(self._a, name)
        if not callable(f):
            return _out(f)
        return lambda *a, **k: _out(f(*[_in(x) for x in a], **{q: _in(v) for q, v in k.items()}))


def asarray(a, *r, **k):
    COUNT["to device"] += 1
    return a if isinstance(a, ndarray) else ndarray(np.array(a))


def asnumpy(a, *r, **k):
    COUNT["to host"] += 1
    return a._a.copy() if isinstance(a, ndarray) else np.asarray(a)


def install():
    m = types.ModuleType("cupy")
    m.ndarray, m.asarray, m.array, m.asnumpy = ndarray, asarray, asarray, asnumpy
    m.get_array_module = lambda *a: m if any(isinstance(x, ndarray) for x in a) else np
    m.float64, m.pi = np.float64, np.pi

    def wrap(f):
        return lambda *a, **k: _out(f(*[_in(x) for x in a], **{q: _in(v) for q, v in k.items()}))

    m.__getattr__ = lambda name: wrap(getattr(np, name))
    import scipy.ndimage as nd
    cx, cs, cn = types.ModuleType("cupyx"), types.ModuleType("cupyx.scipy"), types.ModuleType("cupyx.scipy.ndimage")

    def filt(f):
        def g(a, size=None, footprint=None, **k):
            if not isinstance(a, ndarray):
                raise TypeError("host array in a device filter")
            return ndarray(f(a._a, size=size, footprint=_fp(footprint), **k))
        return g

    def _fp(x):
        return x._a if isinstance(x, ndarray) else x

    cn.maximum_filter, cn.minimum_filter = filt(nd.maximum_filter), filt(nd.minimum_filter)
    cs.ndimage, cx.scipy = cn, cs
    sys.modules.update({"cupy": m, "cupyx": cx, "cupyx.scipy": cs, "cupyx.scipy.ndimage": cn})
    return m
