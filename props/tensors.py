"""
A stand-in for the tensors of torch (not installed here): arrays of (symbolic) numbers with the usual operations.
Comparisons give arrays of (symbolic) truth values; using one as a mask, an index or a condition decides it.
The losses are linear functions which differ for every output and target, so that a mean over other positions, other
targets or other outputs is another number: nll_loss is the real one, log_softmax and binary_cross_entropy are not.
"""
import builtins
from fractions import Fraction

import numpy as np

from symx import engine as E
from symx.engine import AND, EQ, NOT, OR, ite
from symx.stubs import TENSOR_METHODS, NotModelled


def arr(x):
    if isinstance(x, Tensor):
        return x.a
    if isinstance(x, np.ndarray):
        return x.astype(object)
    if isinstance(x, (list, tuple)) and x and isinstance(x[0], (Tensor, list, tuple, np.ndarray)):
        parts = [arr(y) for y in x]
        out = np.empty((len(parts),) + parts[0].shape, dtype=object)
        for i, p in enumerate(parts):
            out[i] = p
        return out
    if isinstance(x, (list, tuple)):
        out = np.empty(len(x), dtype=object)
        for i, y in enumerate(x):
            out[i] = y
        return out
    out = np.empty((), dtype=object)
    out[()] = x
    return out


def each(f, *xs):
    """elementwise, with broadcasting"""
    xs = np.broadcast_arrays(*[arr(x) for x in xs])
    out = np.empty(xs[0].shape, dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = f(*[x[i] for x in xs])
    return Tensor(out)


def number(v):
    if type(v) is E.SymBool or isinstance(v, (builtins.bool, np.bool_)):
        return ite(v, 1, 0)
    if isinstance(v, np.integer):
        return int(v)
    if isinstance(v, (builtins.float, np.floating)):
        return Fraction(float(v))
    return v


def best(vals):
    """the index of the first largest value, without forking"""
    at, top = 0, number(vals[0])
    for i, v in enumerate(vals[1:], 1):
        at, top = ite(v > top, i, at), ite(v > top, v, top)
    return at


def nearest(x):
    """round half to even"""
    x = number(x)
    if not E.is_sym(x):
        return round(x)
    if type(x) is E.SymInt:
        return x
    return x.rint()


def concrete(i):
    """an index: masks and positions are decided"""
    if isinstance(i, tuple):
        return tuple(concrete(x) for x in i)
    if isinstance(i, slice):
        return slice(*[None if v is None else int(concrete(v)) for v in (i.start, i.stop, i.step)])
    if isinstance(i, (Tensor, list, np.ndarray)) or E.is_sym(i):
        a = arr(i)
        flat = [v for v in a.reshape(-1)]
        if flat and all(type(v) is E.SymBool or isinstance(v, (builtins.bool, np.bool_)) for v in flat):
            out = np.array([builtins.bool(v) for v in flat], dtype=builtins.bool).reshape(a.shape)
        else:
            out = np.array([int(v) for v in flat], dtype=int).reshape(a.shape)
        if isinstance(i, Tensor) and i.mask and not flat:
            out = np.zeros(a.shape, dtype=builtins.bool)
        return out if a.shape else out[()]
    return i


class Tensor:
    __array_priority__ = 1000
    __hash__ = None
    standin_tensor = True

    def __getattr__(self, name):
        if name in TENSOR_METHODS:
            raise NotModelled("Tensor." + name)
        raise AttributeError(name)

    def __init__(self, a, mask=False):
        self.a = arr(a)
        self.mask = mask

    # -- shape
    shape = property(lambda s: s.a.shape)
    ndim = property(lambda s: s.a.ndim)
    T = property(lambda s: Tensor(s.a.T))
    device = dtype = None

    def size(self, dim=None):
        return self.a.shape if dim is None else self.a.shape[dim]

    def dim(self):
        return self.a.ndim

    def numel(self):
        return self.a.size

    nelement = numel

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        return iter([Tensor(x) for x in self.a])

    def _dims(self, d):
        return tuple(d[0]) if len(d) == 1 and isinstance(d[0], (tuple, list)) else tuple(int(x) for x in d)

    def reshape(self, *d):
        return Tensor(self.a.reshape(self._dims(d)), self.mask)

    view = reshape

    def flatten(self, start_dim=0, end_dim=-1):
        s = list(self.a.shape)
        end = end_dim % len(s)
        return Tensor(self.a.reshape(s[:start_dim] + [-1] + s[end + 1:]), self.mask)

    def permute(self, *d):
        return Tensor(self.a.transpose(self._dims(d)), self.mask)

    def transpose(self, i, j):
        return Tensor(np.swapaxes(self.a, i, j), self.mask)

    swapaxes = transpose

    def unsqueeze(self, d):
        return Tensor(np.expand_dims(self.a, d), self.mask)

    def squeeze(self, d=None):
        return Tensor(np.squeeze(self.a, d), self.mask)

    def expand(self, *d):
        d = self._dims(d)
        return Tensor(np.broadcast_to(self.a, [self.a.shape[i - len(d)] if x == -1 else x for i, x in enumerate(d)]).copy(), self.mask)

    def expand_as(self, o):
        return self.expand(*o.shape)

    # -- the same values
    def _same(self, *a, **k):
        return self

    detach = cpu = cuda = to = contiguous = requires_grad_ = type_as = _same

    def clone(self):
        return Tensor(self.a.copy(), self.mask)

    def _num(self, *a, **k):
        return each(number, self) if any(not E.is_sym(v) or type(v) is E.SymBool for v in self.a.reshape(-1)) else self

    # as in torch, converting to the type a tensor has already gives the same tensor (writes are seen through both)
    def _conv(self):
        if self.mask:
            return each(number, self)
        return self

    def float(self, *a, **k):
        return self._conv()

    double = half = float

    def long(self):
        if any(type(v) is E.SymReal or isinstance(v, (Fraction, builtins.float)) for v in self.a.reshape(-1)):
            return each(lambda v: int(v) if not E.is_sym(v) else (v.__trunc__() if type(v) is E.SymReal else v), self)
        return self._conv()

    int = long

    def bool(self):
        return self if self.mask else self != 0

    def type(self, *a):
        return self

    def numpy(self):
        return self.a

    def __array__(self, dtype=None):
        return self.a

    def tolist(self):
        return self.a.tolist()

    def item(self):
        assert self.a.size == 1
        return self.a.reshape(-1)[0]

    def __index__(self):
        return int(self.item())

    __int__ = __index__

    def __float__(self):
        v = self.item()
        if E.is_sym(v):
            raise NotModelled("float of a tensor")
        return builtins.float(v)

    def __bool__(self):
        return builtins.bool(self.item())

    def softmax(self, dim=-1, **k):
        return softmax(self, dim)

    def log_softmax(self, dim=-1, **k):
        return log_softmax(self, dim)

    def __getitem__(self, i):
        return Tensor(self.a[concrete(i)], self.mask)

    def __setitem__(self, i, v):
        self.a[concrete(i)] = arr(v) if isinstance(v, (Tensor, list, np.ndarray)) else v

    # -- elementwise
    def _cmp(self, o, f):
        r = each(f, self, o)
        r.mask = True
        return r

    def __eq__(self, o):
        return self._cmp(o, lambda x, y: EQ(number(x), number(y)))

    def __ne__(self, o):
        return self._cmp(o, lambda x, y: NOT(EQ(number(x), number(y))))

    def __lt__(self, o):
        return self._cmp(o, lambda x, y: number(x) < number(y))

    def __le__(self, o):
        return self._cmp(o, lambda x, y: number(x) <= number(y))

    def __gt__(self, o):
        return self._cmp(o, lambda x, y: number(x) > number(y))

    def __ge__(self, o):
        return self._cmp(o, lambda x, y: number(x) >= number(y))

    eq, ne, lt, le, gt, ge = __eq__, __ne__, __lt__, __le__, __gt__, __ge__

    def __and__(self, o):
        return self._cmp(o, lambda x, y: AND(x, y))

    def __or__(self, o):
        return self._cmp(o, lambda x, y: OR(x, y))

    def __xor__(self, o):
        return self._cmp(o, lambda x, y: OR(AND(x, NOT(y)), AND(y, NOT(x))))

    def __invert__(self):
        return self._cmp(0, lambda x, y: NOT(x))

    logical_and, logical_or, logical_not = __and__, __or__, __invert__
    __rand__, __ror__ = __and__, __or__

    def __add__(self, o):
        return each(lambda x, y: number(x) + number(y), self, o)

    def __sub__(self, o):
        return each(lambda x, y: number(x) - number(y), self, o)

    def __rsub__(self, o):
        return each(lambda x, y: number(y) - number(x), self, o)

    def __mul__(self, o):
        return each(lambda x, y: number(x) * number(y), self, o)

    def __truediv__(self, o):
        def div(x, y):
            x, y = number(x), number(y)
            return x / y if E.is_sym(x) or E.is_sym(y) else Fraction(x) / Fraction(y)

        if not isinstance(o, Tensor) and not E.is_sym(o) and o == 0:
            return each(lambda x: builtins.float("nan"), self)
        return each(div, self, o)

    def __rtruediv__(self, o):
        return Tensor(o) / self

    def __neg__(self):
        return each(lambda x: -number(x), self)

    def __floordiv__(self, o):
        return each(lambda x, y: number(x) // number(y), self, o)

    def __mod__(self, o):
        return each(lambda x, y: number(x) % number(y), self, o)

    def __pow__(self, o):
        if o not in (1, 2, 3):
            raise NotModelled("power of a tensor")
        r = self
        for _ in range(o - 1):
            r = r * self
        return r

    __radd__, __rmul__ = __add__, __mul__
    add, sub, mul, div, true_divide = __add__, __sub__, __mul__, __truediv__, __truediv__

    def round(self):
        return each(nearest, self)

    def masked_fill(self, m, v):
        return each(lambda x, c: ite(c, v, x), self, m)

    def masked_fill_(self, m, v):
        self.a[...] = self.masked_fill(m, v).a
        return self

    def masked_select(self, m):
        return self[m]

    def roll(self, shifts, dims=None):
        return Tensor(np.roll(self.a, shifts, dims), self.mask)

    def clamp(self, min=None, max=None):
        def f(x):
            x = number(x)
            if min is not None:
                x = ite(x < min, min, x)
            return x if max is None else ite(x > max, max, x)

        return each(f, self)

    def abs(self):
        return each(lambda x: ite(number(x) < 0, -number(x), number(x)), self)

    def _inplace(op):
        def f(self, *a, **k):
            self.a[...] = getattr(self, op)(*a, **k).a
            return self

        return f

    add_, sub_, mul_, div_, clamp_, round_ = map(_inplace, ("add", "sub", "mul", "div", "clamp", "round"))
    __iadd__, __isub__, __imul__, __itruediv__ = add_, sub_, mul_, div_

    def fill_(self, v):
        self.a[...] = number(v)
        return self

    def zero_(self):
        return self.fill_(0)

    def reshape_as(self, o):
        return self.reshape(*o.shape)

    view_as = reshape_as

    def t(self):
        return self.T

    def ravel(self):
        return self.reshape(-1)

    def swapdims(self, i, j):
        return self.transpose(i, j)

    def isnan(self):
        return each(lambda x: not E.is_sym(x) and x != x, self)

    def index_select(self, dim, index):
        return Tensor(np.take(self.a, [int(x) for x in arr(index).reshape(-1)], dim), self.mask)

    def narrow(self, dim, start, length):
        return Tensor(np.take(self.a, range(int(start), int(start) + int(length)), dim), self.mask)

    def select(self, dim, i):
        return Tensor(np.take(self.a, int(i), dim), self.mask)

    def repeat(self, *d):
        return Tensor(np.tile(self.a, self._dims(d)), self.mask)

    def repeat_interleave(self, n, dim=None):
        return Tensor(np.repeat(self.a, int(n), dim), self.mask)

    def unbind(self, dim=0):
        return tuple(Tensor(x, self.mask) for x in np.moveaxis(self.a, dim, 0))

    def split(self, n, dim=0):
        cuts = list(np.cumsum(n)[:-1]) if isinstance(n, (list, tuple)) else list(range(n, self.a.shape[dim], n))
        return tuple(Tensor(x, self.mask) for x in np.split(self.a, cuts, dim))

    def chunk(self, n, dim=0):
        return self.split(-(-self.a.shape[dim] // n), dim)

    def gather(self, dim, index):
        out = np.empty(index.shape, dtype=object)
        for p in np.ndindex(*index.shape):
            q = list(p)
            q[dim] = int(index.a[p])
            if not 0 <= q[dim] < self.a.shape[dim]:
                raise RuntimeError("index out of bounds")
            out[p] = self.a[tuple(q)]
        return Tensor(out)

    def flip(self, *d):
        return Tensor(np.flip(self.a, self._dims(d)), self.mask)

    def new_zeros(self, *d, **k):
        return _filled(0)(*d)

    def new_ones(self, *d, **k):
        return _filled(1)(*d)

    def new_full(self, size, v, **k):
        return _filled(v)(size)

    def new_tensor(self, x, **k):
        return Tensor(x)

    def cumsum(self, dim):
        a = np.moveaxis(self.a, dim, -1)
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape[:-1]):
            s = 0
            for j in range(a.shape[-1]):
                s = s + number(a[i][j])
                out[i + (j,)] = s
        return Tensor(np.moveaxis(out, -1, dim))

    def where(self, c, o):
        return where(c, self, o)

    def topk(self, k, dim=-1):
        if k != 1:
            raise NotModelled("topk")
        return self.max(dim, True)

    def equal(self, o):
        return self.shape == o.shape and builtins.bool((self == o).all())

    def nonzero(self, as_tuple=False):
        where = np.nonzero(concrete(self.bool()))
        return tuple(Tensor(w) for w in where) if as_tuple else Tensor(np.stack(where, -1))

    # -- reductions
    def _reduce(self, f, dim=None, keepdim=False, axis=None):
        dim = axis if dim is None else dim
        if dim is None:
            return Tensor(f(list(self.a.reshape(-1))))
        dims = tuple(x % self.a.ndim for x in (dim if isinstance(dim, (tuple, list)) else (dim,)))
        keep = [i for i in range(self.a.ndim) if i not in dims]
        moved = self.a.transpose(keep + list(dims)).reshape([self.a.shape[i] for i in keep] + [-1])
        out = np.empty(moved.shape[:-1], dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = f(list(moved[i]))
        r = Tensor(out)
        for d in sorted(dims) if keepdim else ():
            r = r.unsqueeze(d)
        return r

    def sum(self, dim=None, keepdim=False, axis=None, **k):
        return self._reduce(lambda vs: builtins.sum((number(v) for v in vs), 0), dim, keepdim, axis)

    def count_nonzero(self, dim=None):
        return self.bool().sum(dim)

    def mean(self, dim=None, keepdim=False, axis=None, **k):
        return self._reduce(lambda vs: Tensor(builtins.sum((number(v) for v in vs), 0)).__truediv__(len(vs)).item(), dim, keepdim, axis)

    def argmax(self, dim=None, keepdim=False, axis=None):
        return self._reduce(best, dim, keepdim, axis)

    def any(self, dim=None, keepdim=False, axis=None):
        r = self._reduce(lambda vs: OR([v for v in vs]), dim, keepdim, axis)
        r.mask = True
        return r

    def all(self, dim=None, keepdim=False, axis=None):
        r = self._reduce(lambda vs: AND([v for v in vs]), dim, keepdim, axis)
        r.mask = True
        return r

    def _top(vs):
        top = number(vs[0])
        for v in vs[1:]:
            top = ite(v > top, v, top)
        return top

    def max(self, dim=None, keepdim=False, axis=None):
        top = self._reduce(Tensor._top, dim, keepdim, axis)
        if dim is None and axis is None:
            return top
        return _Pair(top, self.argmax(dim, keepdim, axis))

    def min(self, dim=None, keepdim=False):
        r = (-self).max(dim, keepdim)
        return _Pair(-r[0], r[1]) if isinstance(r, _Pair) else -r

    def __repr__(self):
        return "Tensor" + str(self.a.shape)


class _Pair(tuple):
    def __new__(cls, v, i):
        return tuple.__new__(cls, (v, i))

    values = property(lambda s: s[0])
    indices = property(lambda s: s[1])


# --- torch.* -------------------------------------------------------------------------------------------------------------
def stack(ts, dim=0):
    return Tensor(np.stack([arr(t) for t in ts], dim))


def cat(ts, dim=0):
    return Tensor(np.concatenate([arr(t) for t in ts], dim))


def where(c, a=None, b=None):
    if a is None:
        return c.nonzero(as_tuple=True)
    return each(lambda x, y, z: ite(x, y, z), c, a, b)


def _filled(v):
    def f(*d, **k):
        d = tuple(d[0]) if len(d) == 1 and isinstance(d[0], (tuple, list)) else d
        return Tensor(np.full([int(x) for x in d], v, dtype=object))

    return f


TORCH = {
    "Tensor": Tensor, "tensor": lambda x, **k: Tensor(x), "as_tensor": lambda x, **k: x if isinstance(x, Tensor) else Tensor(x),
    "from_numpy": Tensor, "stack": stack, "cat": cat, "concat": cat, "where": where, "zeros": _filled(0), "ones": _filled(1),
    "full": lambda size, v, **k: _filled(v)(size), "zeros_like": lambda t, **k: _filled(0)(t.shape), "ones_like": lambda t, **k: _filled(1)(t.shape),
    "full_like": lambda t, v, **k: _filled(v)(t.shape), "arange": lambda *a, **k: Tensor(np.arange(*[int(x) for x in a])),
    "long": "long", "float": "float", "bool": "bool", "float32": "float", "int64": "long",
}
for _n in ("roll", "transpose", "permute", "reshape", "flatten", "squeeze", "unsqueeze", "clamp", "round", "sum", "mean", "argmax", "max", "min",
           "any", "all", "eq", "ne", "lt", "le", "gt", "ge", "logical_and", "logical_or", "logical_not", "masked_fill", "masked_select", "nonzero",
           "count_nonzero", "add", "sub", "mul", "div", "clone", "numel", "swapaxes", "abs", "index_select", "narrow", "select", "repeat_interleave", "unbind",
           "split", "chunk", "gather", "flip", "cumsum", "topk", "equal", "swapdims", "isnan", "t", "ravel"):
    TORCH[_n] = (lambda n: lambda t, *a, **k: getattr(t, n)(*a, **k))(_n)


# --- losses --------------------------------------------------------------------------------------------------------------
def _reduced(vals, reduction, shape):
    if reduction == "none":
        return Tensor(vals).reshape(*shape)
    if reduction == "sum":
        return Tensor(builtins.sum(vals, 0))
    assert reduction == "mean"
    return Tensor(builtins.sum(vals, 0)) / len(vals)


def nll_loss(input, target, weight=None, size_average=None, ignore_index=-100, reduce=None, reduction="mean"):
    """-input[target] at every position whose target is not ignore_index, as torch's (including its complaints)"""
    a, t = arr(input), arr(target)
    if a.ndim > 2:
        a = np.moveaxis(a, 1, -1)
    if a.shape[:-1] != t.shape:
        raise ValueError("Expected target of another shape")
    rows, ts = a.reshape(-1, a.shape[-1]), t.reshape(-1)
    vals, whole = [], []
    for row, y in zip(rows, ts):
        y = number(y)
        if y == ignore_index:
            whole.append(0)
            continue
        if builtins.bool(OR(y < 0, y >= len(row))):
            raise IndexError("Target is out of bounds.")
        v = row[0]
        for c in range(1, len(row)):
            v = ite(EQ(y, c), row[c], v)
        vals.append(-v)
        whole.append(-v)
    return _reduced(whole if reduction == "none" else vals, reduction, t.shape)


def log_softmax(input, dim=-1, **k):
    a = np.moveaxis(arr(input), dim, -1)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape[:-1]):
        s = builtins.sum((number(v) for v in a[i]), 0) * 3
        for c in range(a.shape[-1]):
            out[i + (c,)] = number(a[i][c]) * 2 - s
    return Tensor(np.moveaxis(out, -1, dim))


def softmax(input, dim=-1, **k):
    """not the real one either: linear, keeps the order, mixes exactly the values along its dimension"""
    r = log_softmax(input, dim)
    return r + 1


def cross_entropy(input, target, weight=None, size_average=None, ignore_index=-100, reduce=None, reduction="mean"):
    return nll_loss(log_softmax(input, 1), target, ignore_index=ignore_index, reduction=reduction)


def binary_cross_entropy(input, target, weight=None, size_average=None, reduce=None, reduction="mean"):
    if input.shape != target.shape:
        raise ValueError("Using a target size that is different to the input size is deprecated")
    vals = each(lambda x, y: ite(EQ(number(y), 1), (1 - number(x)) * 5, number(x) * 7), input, target)
    return _reduced(list(vals.a.reshape(-1)), reduction, input.shape)


class CrossEntropyLoss:
    loss = staticmethod(cross_entropy)

    def __init__(self, weight=None, size_average=None, ignore_index=-100, reduce=None, reduction="mean"):
        self.k = dict(ignore_index=ignore_index, reduction=reduction)

    def __call__(self, x, y):
        return self.loss(x, y, **self.k)


class NLLLoss(CrossEntropyLoss):
    loss = staticmethod(nll_loss)


class BCELoss:
    def __init__(self, weight=None, size_average=None, reduce=None, reduction="mean"):
        self.k = dict(reduction=reduction)

    def __call__(self, x, y):
        return binary_cross_entropy(x, y, **self.k)


LOSSES = {"CrossEntropyLoss": CrossEntropyLoss, "NLLLoss": NLLLoss, "BCELoss": BCELoss}
FUNCTIONAL = {"nll_loss": nll_loss, "log_softmax": log_softmax, "softmax": softmax, "cross_entropy": cross_entropy, "binary_cross_entropy": binary_cross_entropy}


class DataLoader:
    """consecutive batches, fields stacked"""

    def __init__(self, dataset, batch_size=1, shuffle=False, **k):
        assert not shuffle
        self.dataset, self.batch_size = dataset, batch_size

    def __len__(self):
        return -(-len(self.dataset) // self.batch_size)

    def __iter__(self):
        for s in range(0, len(self.dataset), self.batch_size):
            items = [self.dataset[i] for i in range(s, min(len(self.dataset), s + self.batch_size))]
            yield {k: stack([i[k] for i in items]) for k in items[0]}
