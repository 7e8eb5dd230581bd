"""
Stand-ins for the layers of torch.nn which the networks are made of: linear maps with fixed weights, so that the outputs of
a network are (linear) terms over its symbolic inputs. The shapes are checked as torch does. Every output depends on every
input before it (recurrent layers: and on nothing after the end of a sequence), with distinct weights.
"""
import contextlib
import sys

import numpy as np

from props.tensors import FUNCTIONAL, LOSSES, TORCH, Tensor, number


def dot(row, weights):
    out = 0
    for x, w in zip(row, weights):
        if type(x) is int and x == 0:
            continue
        out = x * w + out
    return out


class Module:
    training = False

    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def eval(self):
        return self

    def to(self, *a):
        return self


class Linear(Module):
    def __init__(self, in_features, out_features, bias=True):
        self.i, self.o = in_features, out_features

    def forward(self, x):
        if x.shape[-1] != self.i:
            raise RuntimeError(f"mat1 and mat2 shapes cannot be multiplied ({x.shape} and {self.i}x{self.o})")
        out = np.empty(x.shape[:-1] + (self.o,), dtype=object)
        for p in np.ndindex(*x.shape[:-1]):
            row = list(x.a[p])
            for k in range(self.o):
                out[p + (k,)] = dot(row, [(7 * j + 3 * k) % 11 + 1 for j in range(self.i)]) + k
        return Tensor(out)


class Packed:
    def __init__(self, rows, lengths):
        self.rows, self.lengths = rows, lengths


def pack_padded_sequence(x, lengths, batch_first=False, enforce_sorted=True):
    ns = [int(n) for n in lengths]
    if not batch_first:
        x = x.transpose(0, 1)
    if len(ns) != len(x) or min(ns) <= 0 or max(ns) > x.shape[1]:
        raise RuntimeError("lengths do not fit the batch")
    if enforce_sorted and ns != sorted(ns, reverse=True):
        raise RuntimeError("lengths must be sorted")
    return Packed([[list(x.a[b, t]) for t in range(n)] for b, n in enumerate(ns)], ns)


def pad_packed_sequence(p, batch_first=False, padding_value=0.0, total_length=None):
    top = max(p.lengths)
    width = len(p.rows[0][0])
    out = Tensor([[list(r) for r in rows] + [[0] * width] * (top - len(rows)) for rows in p.rows])
    return (out if batch_first else out.transpose(0, 1)), Tensor(list(p.lengths))


class LSTM(Module):
    def __init__(self, input_size, hidden_size, num_layers=1, bidirectional=False, batch_first=False, dropout=0.0, bias=True):
        self.i, self.h, self.n, self.d = input_size, hidden_size, num_layers, 2 if bidirectional else 1

    def run(self, rows, h, c, seed):
        out = []
        for row in rows:
            c = [dot(row, [(5 * j + 3 * k + seed) % 7 + 1 for j in range(len(row))]) + 2 * number(h[k]) + 3 * number(c[k]) for k in range(self.h)]
            h = [c[k] + sum(number(v) for v in h) for k in range(self.h)]
            out.append(list(h))
        return out, h, c

    def forward(self, packed, hidden):
        h0, c0 = hidden
        want = (self.n * self.d, len(packed.rows), self.h)
        if h0.shape != want or c0.shape != want:
            raise RuntimeError(f"Expected hidden size {want}, got {h0.shape}")
        hn, cn = np.empty(want, dtype=object), np.empty(want, dtype=object)
        done = []
        for b, rows in enumerate(packed.rows):
            if len(rows[0]) != self.i:
                raise RuntimeError(f"input.size(-1) must be equal to input_size. Expected {self.i}, got {len(rows[0])}")
            for layer in range(self.n):
                outs = []
                for d in range(self.d):
                    at = layer * self.d + d
                    o, h, c = self.run(rows[::-1] if d else rows, list(h0.a[at, b]), list(c0.a[at, b]), layer + 2 * d)
                    outs.append(o[::-1] if d else o)
                    for k in range(self.h):
                        hn[at, b, k], cn[at, b, k] = h[k], c[k]
                rows = [sum(parts, []) for parts in zip(*outs)]
            done.append(rows)
        return Packed(done, packed.lengths), (Tensor(hn), Tensor(cn))


class Dropout(Module):
    def forward(self, x):
        return x


class Sequential(Module):
    def __init__(self, *layers):
        self.layers = list(layers[0].values()) if len(layers) == 1 and isinstance(layers[0], dict) else list(layers)

    def forward(self, x):
        for f in self.layers:
            x = f(x)
        return x

    def __getitem__(self, i):
        return self.layers[i]

    def __len__(self):
        return len(self.layers)


def ModuleList(layers=()):
    return list(layers)


def ModuleDict(layers=()):
    return dict(layers)


class LogSoftmax(Module):
    def __init__(self, dim=None):
        self.dim = dim

    def forward(self, x):
        return FUNCTIONAL["log_softmax"](x, dim=self.dim)


class Softmax(LogSoftmax):
    def forward(self, x):
        return FUNCTIONAL["softmax"](x, dim=self.dim)


same = lambda x, *a, **k: x
NAMES = {
    "torch": dict(TORCH, sigmoid=same, relu=same, tanh=same, log_softmax=FUNCTIONAL["log_softmax"], softmax=FUNCTIONAL["softmax"]),
    "torch.nn.functional": dict(FUNCTIONAL, relu=same, dropout=same, sigmoid=same, tanh=same),
    "torch.nn": dict(Linear=Linear, LSTM=LSTM, Dropout=Dropout, ReLU=lambda *a, **k: same, Sigmoid=lambda *a, **k: same, Tanh=lambda *a, **k: same, Identity=lambda *a, **k: same,
                     Module=Module, Sequential=Sequential, ModuleList=ModuleList, ModuleDict=ModuleDict, LogSoftmax=LogSoftmax, Softmax=Softmax, **LOSSES),
    "torch.autograd": dict(Variable=same),
    "torch.nn.utils.rnn": dict(pack_padded_sequence=pack_padded_sequence, pad_packed_sequence=pad_packed_sequence),
}


@contextlib.contextmanager
def installed(*modules):
    """the stand-ins in place of torch's names, also where the modules imported them by name"""
    todo = [(sys.modules[m], k, v) for m, names in NAMES.items() for k, v in names.items()]
    for m in modules:
        todo += [(m, k, v) for names in ("torch.autograd", "torch.nn.utils.rnn") for k, v in NAMES[names].items() if k in m.__dict__]
    saved = [(m, k, m.__dict__.get(k, todo)) for m, k, _ in todo]
    for m, k, v in todo:
        setattr(m, k, v)
    try:
        yield
    finally:
        for m, k, v in saved:
            if v is todo:
                delattr(m, k)
            else:
                setattr(m, k, v)
