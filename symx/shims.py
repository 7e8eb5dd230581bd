"""
Sym-aware stand-ins for a few builtins/library names, installed into the *globals* of the
harmonic_inference modules for the duration of one symbolic path only.  They delegate to
the real object whenever no symbolic value is involved.  The source of the modules is not
touched, and concrete replays run without any of this.
"""
import builtins
import contextlib
import math
import numbers
import operator
import sys
from abc import ABCMeta
from collections.abc import Sequence
from fractions import Fraction as RealFraction

import numpy as real_np
import pandas as pd

from . import engine as E
from .engine import SymBool, SymInt, SymReal


def _flat(t):
    if isinstance(t, tuple):
        for x in t:
            yield from _flat(x)
    else:
        yield t


_INTS = {int, real_np.integer, real_np.int64, real_np.int32, numbers.Integral, numbers.Number, numbers.Real, numbers.Rational}
_REALS = {float, RealFraction, real_np.floating, numbers.Real, numbers.Rational, numbers.Number, real_np.float64}


def sym_isinstance(x, t):
    tx = type(x)
    if tx is SymInt:
        return any(k in _INTS for k in _flat(t))
    if tx is SymReal:
        return any(k in _REALS or k is FractionShim for k in _flat(t))
    if tx is SymBool:
        return any(k is bool or k is int or k is real_np.bool_ for k in _flat(t))
    return builtins.isinstance(x, t)


class _FracMeta(ABCMeta):
    def __call__(cls, num=0, den=None):
        if type(num) in (SymInt, SymReal) or type(den) in (SymInt, SymReal):
            r = E.REAL(num) if den is None else E.REAL(num) / den
            return r
        if den is None and builtins.isinstance(num, RealFraction):
            return num
        r = RealFraction(num, den)
        return E.REAL(r) if UNIFORM[0] and E.CUR is not None else r

    def __instancecheck__(cls, x):
        return type(x) is SymReal or builtins.isinstance(x, RealFraction)


class FractionShim(RealFraction, metaclass=_FracMeta):
    pass


class _RangeMeta(ABCMeta):
    def __call__(cls, *a):
        r = builtins.range(*a)
        if E.CUR is None:
            return r
        w = object.__new__(cls)
        w.r = r
        return w

    def __instancecheck__(cls, x):
        return type(x) is cls or builtins.isinstance(x, builtins.range)


class RangeShim(Sequence, metaclass=_RangeMeta):
    """a range which decides the membership of a symbolic int with one query instead of
    comparing it with each element"""

    def __len__(self):
        return len(self.r)

    def __getitem__(self, i):
        return self.r[i]

    def __iter__(self):
        return iter(self.r)

    def __reversed__(self):
        return reversed(self.r)

    def __eq__(self, o):
        return self.r == (o.r if type(o) is RangeShim else o)

    def __hash__(self):
        return hash(self.r)

    def __repr__(self):
        return repr(self.r)

    def __contains__(self, x):
        if type(x) in (SymInt, SymReal) and len(self.r):
            lo, hi, step = self.r[0], self.r[-1], self.r.step
            if step < 0:
                lo, hi, step = hi, lo, -step
            c = E.AND(x >= lo, x <= hi)
            if type(x) is SymReal:
                c = E.AND(c, x == x.__floor__())
                x = x.__floor__()
            return bool(E.AND(c, (x - lo) % step == 0) if step > 1 else c)
        return x in self.r

    start = property(lambda self: self.r.start)
    stop = property(lambda self: self.r.stop)
    step = property(lambda self: self.r.step)

    def index(self, x, *a):
        return self.r.index(x, *a)

    def count(self, x):
        return int(x in self)


UNIFORM = [False]


def _has_sym(x):
    if E.is_sym(x):
        return True
    if builtins.isinstance(x, (list, tuple)):
        return any(_has_sym(y) for y in x)
    if builtins.isinstance(x, real_np.ndarray) and x.dtype == object:
        return any(E.is_sym(y) for y in x.flat)
    return False


def sym_max(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if "key" in k or not xs or not any(E.is_sym(x) for x in xs):
        return builtins.max(*( [xs] if len(a) == 1 else a), **k)
    r = xs[0]
    for x in xs[1:]:
        r = E.ite(x > r, x, r)
    return r


def sym_min(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if "key" in k or not xs or not any(E.is_sym(x) for x in xs):
        return builtins.min(*([xs] if len(a) == 1 else a), **k)
    r = xs[0]
    for x in xs[1:]:
        r = E.ite(x < r, x, r)
    return r


SHAPED = [False]


class ShapedInt(int):
    """an element of an object array of numbers, with the shape a numpy scalar would have"""

    shape, ndim = (), 0


class ShapedFloat(float):
    shape, ndim = (), 0


def _is_mask(i):
    return (builtins.isinstance(i, real_np.ndarray) and i.dtype == object and i.size > 0
            and all(type(x) in (bool, SymBool, real_np.bool_) for x in i.flat))


def _mask(i):
    """an index; a mask with symbolic elements is decided"""
    if _is_mask(i):
        return real_np.array([bool(x) for x in i.flat], dtype=bool).reshape(i.shape)
    if builtins.isinstance(i, tuple):
        return tuple(_mask(x) for x in i)
    return i


def _kind(dtype):
    """(lowest value, number of values) of an integer type, (None, None) of one wide enough for every value here"""
    if dtype is None or dtype is object or dtype is FloatShim:
        return None
    try:
        dt = real_np.dtype(dtype)
    except TypeError:
        return None
    if dt.kind not in "iu":
        return None
    if dt.itemsize >= 4 and dt.kind == "i":
        return (None, None)
    return (0 if dt.kind == "u" else -(1 << (8 * dt.itemsize - 1)), 1 << (8 * dt.itemsize))


def _stored(v, kind):
    """the number an array of that type keeps"""
    if kind is None or type(v) in (SymBool, bool) or v is None or builtins.isinstance(v, str):
        return v
    if builtins.isinstance(v, (real_np.ndarray, list, tuple)):
        a = real_np.asarray(v) if builtins.isinstance(v, real_np.ndarray) else real_np.array(v, dtype=object)
        if a.dtype.kind in "iub" and kind == (None, None):
            return v
        r = real_np.empty(a.shape, dtype=object)
        for i in real_np.ndindex(*a.shape):
            r[i] = _stored(a[i], kind)
        return r
    if E.is_sym(v):
        v = v.__trunc__() if type(v) is not SymInt else v
    elif builtins.isinstance(v, (builtins.float, RealFraction, real_np.floating)):
        v = builtins.int(v)
    if kind[0] is not None and (E.is_sym(v) or builtins.isinstance(v, (builtins.int, real_np.integer))):
        v = (v - kind[0]) % kind[1] + kind[0]
    return v


def _typed(r, dtype):
    """the (fresh) object array r as if it had the given type"""
    kind = _kind(dtype)
    r = r if builtins.isinstance(r, ObjArray) else r.view(ObjArray)
    if kind is not None:
        for i in real_np.ndindex(*r.shape):
            real_np.ndarray.__setitem__(r, i, _stored(real_np.ndarray.__getitem__(r, i), kind))
        r.kind = kind
    return r


class ObjArray(real_np.ndarray):
    """An object array holding symbolic numbers.  Casts to integer types truncate and wrap; other casts keep
    the values (rounding to float16/32 is abstracted: values are exact rationals)."""

    __array_priority__ = 500.0
    kind = None

    def __getitem__(self, i):
        r = real_np.ndarray.__getitem__(self, _mask(i))
        if self.kind is not None and type(r) is ObjArray and r.base is not None:
            r.kind = self.kind
        if SHAPED[0] and type(r) is int:
            return ShapedInt(r)
        if SHAPED[0] and type(r) is float:
            return ShapedFloat(r)
        return r

    def __setitem__(self, i, v):
        real_np.ndarray.__setitem__(self, _mask(i), _stored(v, self.kind))

    def astype(self, dtype, *a, **k):
        if dtype is bool or dtype is real_np.bool_:
            return _mask(self) if _is_mask(self) else real_np.array([bool(x) for x in self.flat], dtype=bool).reshape(self.shape)
        if self.dtype == object and _has_sym(self):
            return _typed(self.copy(), k.get("dtype", dtype))
        r = real_np.ndarray.astype(self, dtype, *a, **k)
        return r

    def _scalar(name):
        def f(self, o):
            if E.is_sym(o):
                r = real_np.empty(self.shape, dtype=object)
                op = getattr(operator, name)
                for i in real_np.ndindex(*self.shape):
                    r[i] = op(self[i], o)
                return r.view(ObjArray)
            return getattr(real_np.ndarray, f"__{name}__")(self, o)
        return f

    __mul__, __add__, __sub__, __truediv__ = _scalar("mul"), _scalar("add"), _scalar("sub"), _scalar("truediv")
    __gt__, __ge__, __lt__, __le__ = _scalar("gt"), _scalar("ge"), _scalar("lt"), _scalar("le")

    def _iscalar(name):
        def f(self, o):
            if E.is_sym(o):
                op = getattr(operator, name)
                for i in real_np.ndindex(*self.shape):
                    self[i] = op(self[i], o)
                return self
            return getattr(real_np.ndarray, f"__i{name}__")(self, o)
        return f

    __imul__, __iadd__, __isub__, __itruediv__ = _iscalar("mul"), _iscalar("add"), _iscalar("sub"), _iscalar("truediv")

    def sum(self, axis=None, **k):
        if self.dtype == object:
            return real_np.add.reduce(self, axis=axis) if axis is not None else _fold_sum(self)
        return real_np.ndarray.sum(self, axis=axis, **k)


E.ARRAY_VIEW[0] = ObjArray


def _fold_sum(x):
    t = 0
    for y in x.flat:
        t = t + y
    return t


def obj(x):
    """array-like with symbolic elements -> ObjArray"""
    if builtins.isinstance(x, ObjArray):
        return x
    if not builtins.isinstance(x, real_np.ndarray) or x.dtype != object:
        y = real_np.empty(real_np.shape(x) if not builtins.isinstance(x, real_np.ndarray) else x.shape, dtype=object)
        if builtins.isinstance(x, real_np.ndarray):
            for i in real_np.ndindex(*x.shape):
                y[i] = x[i].item()
        else:
            y = real_np.array(x, dtype=object)
        x = y
    return x.view(ObjArray)


def is_obj(x):
    return builtins.isinstance(x, ObjArray) or _has_sym(x)


class _FloatMeta(type):
    def __call__(cls, x=0.0):
        if E.CUR is not None and type(x) in (SymInt, SymReal):
            return E.REAL(x)
        return builtins.float(x)

    def __instancecheck__(cls, x):
        return type(x) is SymReal or builtins.isinstance(x, builtins.float)


class FloatShim(float, metaclass=_FloatMeta):
    pass


class NpShim:
    """numpy, except that float/int array constructors give object arrays (so that they can
    hold symbolic values) and a few functions work on symbolic values."""

    def __init__(self, objectify=True, keep_ints=False):
        self._obj = objectify
        self._ints = keep_ints   # integer arrays stay numpy arrays

    def __getattr__(self, name):
        return getattr(real_np, name)

    def _dt(self, dtype):
        if dtype is FloatShim:
            return object
        if self._ints and dtype in (int, real_np.int64, real_np.int32, "int"):
            return dtype
        if dtype in (None, int, float, real_np.float16, real_np.float32, real_np.float64,
                     real_np.int64, real_np.int32, "float", "int"):
            return object
        return dtype

    def zeros(self, shape, dtype=None, **k):
        if not self._obj:
            return real_np.zeros(shape, dtype=dtype or float)
        d = object if _kind(dtype) and not self._ints else self._dt(dtype)
        if d is object:
            r = real_np.empty(shape, dtype=object)
            r.fill(0)
            return _typed(r, dtype)
        return real_np.zeros(shape, dtype=dtype)

    def ones(self, shape, dtype=None, **k):
        d = self._dt(dtype)
        if d is object and self._obj:
            r = real_np.empty(shape, dtype=object)
            r.fill(1)
            return _typed(r, dtype)
        return real_np.ones(shape, dtype=dtype)

    def full(self, shape, fill_value, dtype=None, **k):
        if E.is_sym(fill_value) or (self._obj and type(fill_value) in ((float,) if self._ints else (int, float))):
            r = real_np.empty(shape, dtype=object)
            r.fill(fill_value)
            return _typed(r, int if dtype is None and type(fill_value) in (int, SymInt) else dtype)
        return real_np.full(shape, fill_value, dtype=dtype)

    def zeros_like(self, a, dtype=None, **k):
        return self.zeros(real_np.shape(a), dtype=dtype)

    def array(self, x, dtype=None, **k):
        if _has_sym(x):
            return _typed(obj(real_np.array(x, dtype=object)), dtype)
        return real_np.array(x, dtype=float if dtype is FloatShim else dtype, **k)

    def asarray(self, x, dtype=None, **k):
        if _has_sym(x):
            return _typed(obj(real_np.array(x, dtype=object)), dtype) if _kind(dtype) else obj(real_np.asarray(x, dtype=object))
        return real_np.asarray(x, dtype=float if dtype is FloatShim else dtype, **k)

    def _join(name):
        def f(self, arrays, *a, **k):
            arrays = list(arrays)
            if any(is_obj(x) for x in arrays):
                return getattr(real_np, name)([obj(x) for x in arrays], *a, **k).view(ObjArray)
            return getattr(real_np, name)(arrays, *a, **k)
        f.__name__ = name
        return f

    concatenate = _join("concatenate")
    hstack = _join("hstack")
    vstack = _join("vstack")
    stack = _join("stack")

    def sum(self, x, axis=None, **k):
        if is_obj(x):
            return obj(x).sum(axis=axis)
        return real_np.sum(x, axis=axis, **k)

    def log(self, x, *a, **k):
        if E.is_sym(x):
            return E.sym_log(x)
        if builtins.isinstance(x, (list, tuple)) and _has_sym(x):
            x = obj(x)
        if builtins.isinstance(x, real_np.ndarray) and x.dtype == object:
            r = real_np.empty(x.shape, dtype=object)
            for i in real_np.ndindex(*x.shape):
                r[i] = E.sym_log(x[i])
            return r
        return real_np.log(x, *a, **k)

    def exp(self, x, *a, **k):
        if E.is_sym(x):
            return E.sym_exp(x)
        if builtins.isinstance(x, real_np.ndarray) and x.dtype == object:
            r = real_np.empty(x.shape, dtype=object)
            for i in real_np.ndindex(*x.shape):
                r[i] = E.sym_exp(x[i])
            return r
        return real_np.exp(x, *a, **k)

    def isclose(self, a, b, rtol=1e-05, atol=1e-08, **k):
        if E.is_sym(a) or E.is_sym(b):
            return a == b
        return real_np.isclose(a, b, rtol=rtol, atol=atol, **k)

    def isnan(self, x):
        if E.is_sym(x):
            return False
        if builtins.isinstance(x, real_np.ndarray) and x.dtype == object:
            return real_np.array([(not E.is_sym(y)) and y != y for y in x.flat]).reshape(x.shape)
        return real_np.isnan(x)

    def floor(self, x):
        return x.__floor__() if E.is_sym(x) else real_np.floor(x)

    def ceil(self, x):
        return x.__ceil__() if E.is_sym(x) else real_np.ceil(x)


HI = "harmonic_inference"


def repo_modules():
    return [m for n, m in list(sys.modules.items()) if m is not None and (n == HI or n.startswith(HI + "."))]


def _decided_key(key):
    """A pandas indexing key with its symbolic truth values decided."""
    if isinstance(key, tuple):
        return tuple(_decided_key(k) for k in key)
    if isinstance(key, list):
        if any(isinstance(k, SymBool) for k in key):
            return [bool(k) if isinstance(k, SymBool) else k for k in key]
        return key
    if isinstance(key, real_np.ndarray):
        if key.dtype == object and any(isinstance(k, SymBool) for k in key.flat):
            return real_np.array([bool(k) for k in key.flat], dtype=bool).reshape(key.shape)
        return key
    if isinstance(key, pd.Series):
        if key.dtype == object and any(isinstance(k, SymBool) for k in key.array):
            return pd.Series([bool(k) for k in key.array], index=key.index, dtype=bool)
    return key


def _pandas_keys():
    """
    __getitem__ / __setitem__ with decided keys for the pandas containers and indexers, which look for real
    bools in order to tell a mask from labels.  Without symbolic values nothing changes.
    """
    from pandas.core import indexing

    def getter(f):
        return lambda self, key: f(self, _decided_key(key))

    def setter(f):
        return lambda self, key, value: f(self, _decided_key(key), value)

    for cls in (pd.DataFrame, pd.Series, indexing._LocationIndexer):
        for k, wrap in (("__getitem__", getter), ("__setitem__", setter)):
            if k in cls.__dict__:
                yield cls, k, wrap(cls.__dict__[k])


@contextlib.contextmanager
def symbolic_globals(np_objects=False, uniform_fractions=False, extra=None, floats=False, keep_ints=False):
    """Install the stand-ins into every loaded harmonic_inference module."""
    saved = []
    npshim = NpShim(True, keep_ints) if np_objects else None
    UNIFORM[0] = uniform_fractions
    SHAPED[0] = keep_ints
    missing = object()

    def put(m, k, v):
        saved.append((m, k, m.__dict__.get(k, missing)))
        setattr(m, k, v)

    try:
        for cls, k, v in list(_pandas_keys()):
            put(cls, k, v)
        for m in repo_modules():
            put(m, "isinstance", sym_isinstance)
            put(m, "max", sym_max)
            put(m, "min", sym_min)
            put(m, "range", RangeShim)
            if m.__dict__.get("Fraction") is RealFraction:
                put(m, "Fraction", FractionShim)
            if floats:
                put(m, "float", FloatShim)
            if np_objects and m.__dict__.get("np") is real_np:
                put(m, "np", npshim)
            for k, v in (extra or {}).items():
                if k in m.__dict__:
                    put(m, k, v)
        yield
    finally:
        UNIFORM[0] = False
        SHAPED[0] = False
        for m, k, v in reversed(saved):
            if v is missing:
                delattr(m, k)
            else:
                setattr(m, k, v)
