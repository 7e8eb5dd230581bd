"""
torch / pytorch_lightning / h5py are not installed in this sandbox.  The repository's own
code (datasets, search, evaluation) only needs a handful of names from them; these stand-ins
let that code be imported and run.  The neural networks themselves are *not* modelled: where a
harness needs their outputs they are arbitrary symbolic values.
"""
import sys
import types

import numpy as np

try:
    from symx.engine import NotModelled
except ImportError:
    NotModelled = NotImplementedError

# Methods of a torch tensor: using one that a stand-in lacks is not an error of the code
TENSOR_METHODS = set("""abs abs_ absolute acos add_ addmm all allclose amax amin angle any argmax argmin argsort as_strided baddbmm bernoulli bincount bitwise_and
bitwise_not bitwise_or bmm bool broadcast_to byte cat cauchy_ ceil char chunk clamp clamp_ clamp_max clamp_min clip clone contiguous copy_ cos cpu cross cuda
cummax cummin cumprod cumsum cumsum_ detach detach_ device diag diagonal diff dim dist div div_ dot double eq eq_ equal erf exp exp_ expand expand_as expm1
fill_ fill_diagonal_ flatten flip fliplr flipud float floor floor_divide fmod gather ge get_device grad gt half hardshrink histc index_add index_add_ index_copy
index_copy_ index_fill index_fill_ index_put index_put_ index_select inner int inverse is_contiguous is_cuda is_floating_point isclose isfinite isinf isnan
item kthvalue le lerp log log10 log1p log2 log_softmax logical_and logical_not logical_or logical_xor logit logsumexp long lt masked_fill masked_fill_
masked_scatter masked_scatter_ masked_select matmul max maximum mean median min minimum mm mode moveaxis movedim mul mul_ mv nan_to_num narrow ndimension ne
neg new_empty new_full new_ones new_tensor new_zeros nonzero norm normal_ not_equal numel numpy outer permute pin_memory pow pow_ prod put_ quantile random_
ravel reciprocal register_hook relu relu_ remainder repeat repeat_interleave requires_grad requires_grad_ reshape reshape_as resize_ roll rot90 round round_
rsqrt rsub scatter scatter_ scatter_add scatter_add_ select sgn short sigmoid sigmoid_ sign sin softmax sort split split_with_sizes sqrt square squeeze squeeze_
std storage stride sub sub_ subtract sum swapaxes swapdims t t_ take take_along_dim tan tanh tensor_split tile to tolist topk transpose transpose_ triu tril
trunc type type_as unbind unflatten unfold uniform_ unique unique_consecutive unsqueeze unsqueeze_ var view view_as vsplit where xlogy zero_""".split())


def _standins(values):
    return any(getattr(type(v), "standin_tensor", False) or isinstance(v, (list, tuple)) and _standins(v) for v in values)


class _Anything:
    """Permissive placeholder for classes that are only subclassed or referenced."""

    def __init__(self, *a, **k):
        self._called(a, k)

    def __call__(self, *a, **k):
        self._called(a, k)
        return self

    def _called(self, a, k):
        if _standins(a) or _standins(k.values()):
            raise NotModelled(f"{type(self).__module__}.{type(self).__name__}")


class _StubModule(types.ModuleType):
    __stub__ = True
    __path__ = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        obj = type(name, (_Anything,), {})
        setattr(self, name, obj)
        return obj


class Dataset:
    pass


class FakeTensor(np.ndarray):
    """numpy array with the few tensor methods the repository uses."""

    standin_tensor = True

    def __getattr__(self, name):
        if name in TENSOR_METHODS:
            raise NotModelled("Tensor." + name)
        raise AttributeError(name)

    def unsqueeze(self, d):
        return np.expand_dims(np.asarray(self), d).view(FakeTensor)

    def tolist(self):
        return np.asarray(self).tolist()

    def to(self, *a, **k):
        return self

    def contiguous(self):
        return self

    def clone(self):
        return self.copy()

    def dim(self):
        return self.ndim

    def numel(self):
        return np.asarray(self).size

    def permute(self, *d):
        return np.transpose(np.asarray(self), d[0] if len(d) == 1 and isinstance(d[0], (tuple, list)) else d).view(FakeTensor)

    def bool(self):
        return (np.asarray(self) != 0).view(FakeTensor)

    def transpose(self, *d):
        if len(d) == 2:
            return np.swapaxes(np.asarray(self), *d).view(FakeTensor)
        return np.transpose(np.asarray(self), *d).view(FakeTensor)

    def squeeze(self, dim=None, axis=None):
        dim = axis if dim is None else dim
        a = np.asarray(self)
        if dim is None:
            return a.squeeze().view(FakeTensor)
        return (a.squeeze(dim) if a.shape[dim] == 1 else a).view(FakeTensor)

    def view(self, *d):
        if d and (len(d) > 1 or isinstance(d[0], (int, np.integer)) or isinstance(d[0], tuple)):
            return np.asarray(self).reshape(d[0] if isinstance(d[0], tuple) else d).view(FakeTensor)
        return np.ndarray.view(self, *d)

    def flatten(self, start_dim=0, end_dim=-1):
        a = np.asarray(self)
        end = end_dim % a.ndim
        return a.reshape(a.shape[:start_dim] + (-1,) + a.shape[end + 1:]).view(FakeTensor)

    def split(self, n, dim=0):
        return split(self, n, dim)

    def chunk(self, n, dim=0):
        return split(self, -(-self.shape[dim] // n), dim)

    def unbind(self, dim=0):
        return tuple(x.view(FakeTensor) for x in np.moveaxis(np.asarray(self), dim, 0))

    def numpy(self):
        return np.asarray(self)

    def float(self):
        return self

    def double(self):
        return self

    def long(self):
        return self

    def detach(self):
        return self

    def cpu(self):
        return self

    def equal(self, o):
        return np.array_equal(np.asarray(self), np.asarray(o))

    def size(self, i=None):
        return self.shape if i is None else self.shape[i]


def from_numpy(a):
    return np.asarray(a).view(FakeTensor)


def transpose(a, i, j):
    return np.swapaxes(np.asarray(a), i, j).view(FakeTensor)


def split(a, n, dim=0):
    if isinstance(n, (list, tuple)):
        cuts = list(np.cumsum(n)[:-1])
    else:
        cuts = list(range(n, a.shape[dim], n))
    return tuple(x.view(FakeTensor) for x in np.split(np.asarray(a), cuts, dim))


class DataLoader:
    """Sequential batching with the default collation (stack values field by field)."""

    def __init__(self, dataset, batch_size=1, shuffle=False, **k):
        self.dataset, self.batch_size = dataset, batch_size

    def __len__(self):
        return (len(self.dataset) + self.batch_size - 1) // self.batch_size

    def __iter__(self):
        n = len(self.dataset)
        for s in range(0, n, self.batch_size):
            yield self._collate([self.dataset[i] for i in range(s, min(n, s + self.batch_size))])

    def _collate(self, items):
        x = items[0]
        if isinstance(x, dict):
            return {k: self._collate([i[k] for i in items]) for k in x}
        if isinstance(x, tuple):
            return tuple(self._collate([i[k] for i in items]) for k in range(len(x)))
        return from_numpy(np.array([np.asarray(i) for i in items]))


def install():
    def have(n):
        if n in sys.modules:
            return True
        import importlib.util

        try:
            return importlib.util.find_spec(n) is not None
        except (ImportError, ValueError, AttributeError):
            return False

    if not have("torch"):
        names = ["torch", "torch.nn", "torch.nn.functional", "torch.nn.utils", "torch.nn.utils.rnn",
                 "torch.utils", "torch.utils.data", "torch.utils.data.dataloader", "torch.utils.data.dataset",
                 "torch.autograd", "torch.optim", "torch.optim.lr_scheduler"]
        for n in names:
            sys.modules[n] = _StubModule(n)
        for n in names:
            if "." in n:
                p, _, c = n.rpartition(".")
                setattr(sys.modules[p], c, sys.modules[n])
        sys.modules["torch.utils.data"].Dataset = Dataset
        sys.modules["torch.utils.data"].DataLoader = DataLoader
        sys.modules["torch.utils.data.dataloader"].DataLoader = DataLoader
        t = sys.modules["torch"]
        t.from_numpy = from_numpy
        t.transpose = transpose
        t.Tensor = FakeTensor
        t.tensor = lambda x, **k: from_numpy(np.array(x))
        made = lambda f: lambda *a, **k: np.asarray(f(*a, **{("axis" if n == "dim" else n): v for n, v in k.items() if n in ("dim", "axis")})).view(FakeTensor)
        t.as_tensor = t.tensor
        t.stack, t.cat = made(np.stack), made(np.concatenate)
        t.zeros, t.ones = (lambda *d, **k: np.zeros(d[0] if len(d) == 1 else d).view(FakeTensor)), (lambda *d, **k: np.ones(d[0] if len(d) == 1 else d).view(FakeTensor))
        t.squeeze, t.unsqueeze = (lambda a, *d, **k: from_numpy(a).squeeze(*d, **k)), (lambda a, d: from_numpy(a).unsqueeze(d))
        t.swapaxes = transpose
        t.split, t.unbind, t.chunk = split, (lambda a, dim=0: a.unbind(dim)), (lambda a, n, dim=0: a.chunk(n, dim))
        t.no_grad = __import__("contextlib").nullcontext
    if not have("pytorch_lightning"):
        pl = _StubModule("pytorch_lightning")

        class LightningModule(_Anything):
            @classmethod
            def load_from_checkpoint(cls, *a, **k):
                raise NotImplementedError

        pl.LightningModule = LightningModule
        sys.modules["pytorch_lightning"] = pl
        for n in ("callbacks", "loggers", "metrics", "callbacks.early_stopping", "callbacks.lr_monitor"):
            m = _StubModule("pytorch_lightning." + n)
            sys.modules["pytorch_lightning." + n] = m
    if not have("h5py"):
        sys.modules["h5py"] = _StubModule("h5py")
