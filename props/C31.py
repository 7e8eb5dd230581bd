import contextlib
import sys
from props.common import *
from props import tensors as TS
from props.tensors import Tensor
import harmonic_inference.models.chord_classifier_models as ccm
import harmonic_inference.models.chord_sequence_models as csm
import harmonic_inference.models.chord_transition_models as ctm
import harmonic_inference.models.key_sequence_models as ksm
import harmonic_inference.models.key_transition_models as ktm

LEVEL = "model_checking"
CLASSES = {"ccm": (ccm, "ChordClassifierModel"), "csm": (csm, "ChordSequenceModel"), "ctm": (ctm, "ChordTransitionModel"),
           "ksm": (ksm, "KeySequenceModel"), "ktm": (ktm, "KeyTransitionModel")}
TARGETS = [f"{m.__name__}:{c}.{f}" for m, c in CLASSES.values() for f in ("training_step", "validation_step", "evaluate")]
BOUNDS = ("one batch of 2 items of up to 3 positions (training, validation), 3 items of up to 2 positions in batches of 1, 2 or 3 (evaluation; thorough: 4 items, batches of up to 4); every length; "
          "every target, ignored ones included, the flag of every row (whether the key changes) and every output of the network symbolic; 3 classes")
OUTSIDE = ("the networks (their outputs are arbitrary), the gradient steps, and the true formulas of cross entropy (linear functions stand in for them, distinct for every output and target); "
           "outputs which tie; batches without any position that counts (except for chord classification); PitchBasedChordSequenceModel, whose evaluation is marked as to do")
C = 3
IGNORED = {"ccm": -1, "csm": -100, "ctm": -100, "ktm": -100}


@contextlib.contextmanager
def torch_standins():
    """the names of torch which the models use, for the time of one path"""
    torch, F = sys.modules["torch"], sys.modules["torch.nn.functional"]
    quiet = lambda it, *a, **k: it
    todo = [(torch, k, v) for k, v in TS.TORCH.items()] + [(F, k, v) for k, v in TS.FUNCTIONAL.items()] + [(sys.modules["torch.nn"], k, v) for k, v in TS.LOSSES.items()]
    todo += [(sys.modules["torch.utils.data"], "DataLoader", TS.DataLoader)]
    for m, _ in CLASSES.values():
        todo += [(m, "DataLoader", TS.DataLoader), (m, "tqdm", quiet)]
    saved = [(m, k, m.__dict__.get(k, todo)) for m, k, _ in todo]
    for m, k, v in todo:
        setattr(m, k, v)
    try:
        yield
    finally:
        for m, k, v in saved:
            if v is todo:
                delattr(m, k)
            else:
                setattr(m, k, v)


def sequence(kind):
    return kind in ("csm", "ctm", "ktm")


class Item:
    """what the network is asked about, and what it should say"""

    def __init__(self, ctx, kind, i, lengths, size):
        self.i, self.kind, self.n = i, kind, lengths[i]
        width = 3
        # rows: a number of the item, of the position, and a flag (whether the key changes here); then padding
        self.rows = [[10 + i, 20 + t, 0] for t in range(self.n)] + [[0] * width for _ in range(size - self.n)]
        self.flags = [0] * size
        for t in range(self.n):
            self.flags[t] = ctx.int(f"flag{i}_{t}", 0, 1)
            self.rows[t][2] = self.flags[t]
        if sequence(kind):
            self.targets = []
            for t in range(size):
                if t >= self.n:
                    self.targets.append(-100 if kind == "ktm" else 0)
                    continue
                y = ctx.int(f"y{i}_{t}", -100, C - 1 if kind == "csm" else 1)
                ctx.assume(OR(y >= 0, EQ(y, -100)) if kind != "csm" else y >= 0)
                self.targets.append(y)
        else:
            y = ctx.int(f"y{i}", -1 if kind == "ccm" else 0, C - 1)
            self.targets = y
        self.out = {}
        for t in range(size if sequence(kind) else 1):
            if kind in ("ctm", "ktm"):
                self.out[t] = ctx.real(f"o{i}_{t}", 0, 1)
                ctx.assume(NOT(EQ(self.out[t], Fraction(1, 2))))
            else:
                self.out[t] = [ctx.real(f"o{i}_{t}_{c}", -9, 0 if kind != "ccm" else 9) for c in range(C)]
                for a, b in itertools.combinations(self.out[t], 2):
                    ctx.assume(NOT(EQ(a, b)))

    def dict(self):
        d = {"inputs": Tensor([list(r) for r in self.rows]), "input_lengths": Tensor(self.n)}
        d["targets"] = Tensor(list(self.targets)) if sequence(self.kind) else Tensor(self.targets)
        if sequence(self.kind):
            d["target_lengths"] = Tensor(self.n)
        return d

    def counted(self):
        """[(output, target)] of the positions which count (decided on this path)"""
        if self.kind == "ccm":
            return [(self.out[0], self.targets)] if bool(NOT(EQ(self.targets, -1))) else []
        if self.kind == "ksm":
            return [(self.out[0], self.targets)]
        if self.kind == "csm":  # the output at a chord is about the next chord, unless the key changes there
            return [(self.out[t - 1], self.targets[t]) for t in range(1, self.n) if bool(NOT(EQ(self.flags[t], 1)))]
        return [(self.out[t], self.targets[t]) for t in range(self.n) if bool(NOT(EQ(self.targets[t], -100)))]


def right(kind, o, y):
    return EQ(TS.best(o), y) if kind in ("ccm", "csm", "ksm") else EQ(ite(o > Fraction(1, 2), 1, 0), y)


def pick(o, y):
    v = o[0]
    for c in range(1, len(o)):
        v = ite(EQ(y, c), o[c], v)
    return v


def penalty(kind, o, y):
    if kind in ("csm", "ksm"):
        return -pick(o, y)
    if kind == "ccm":
        return -(pick(o, y) * 2 - sum(o) * 3)
    return ite(EQ(y, 1), (1 - o) * 5, o * 7)


def expected(items):
    pairs = [p for it in items for p in it.counted()]
    if not pairs:
        return None
    kind = items[0].kind
    n = len(pairs)
    return sum(ite(right(kind, o, y), 1, 0) for o, y in pairs) * REAL(100) / n, sum(penalty(kind, o, y) for o, y in pairs) * REAL(1) / n


def build(ctx, kind, items, logged):
    mod, name = CLASSES[kind]
    base = getattr(mod, name)
    by_id = {10 + it.i: it for it in items}

    def network(self, inputs, lengths, hidden=None):
        ctx.check(len(inputs) == len(lengths), "inputs and lengths of different batches")
        rows = inputs.a.tolist()
        ns = [int(n) for n in lengths]
        top = max(ns)
        out = []
        for row, n in zip(rows, ns):
            it = by_id[int(row[0][0])]
            ctx.check(n == it.n and top <= len(row) <= len(it.rows), "length of an item wrong")
            ctx.check(AND([EQ(a, b) for r, w in zip(row, it.rows) for a, b in zip(r, w)]), "the network is given other inputs than the item's")
            out.append([it.out[t] for t in range(top)] if sequence(kind) else it.out[0])
        out = Tensor(out)
        return out if kind in ("ccm", "ctm") else (out, ("hidden of", inputs, hidden))

    body = {"__call__": network, "forward": network, "log": lambda self, k, v, *a, **kw: logged.__setitem__(k, v), "init_hidden": lambda self, n: (None, None),
            "save_hyperparameters": lambda self, *a, **k: None, "device": None}
    cls = type("Standin", (base,), body)
    none = {"ccm": (PieceType.SCORE, TPC, TPC, None, True, 0.1, (0, 0)), "csm": (TPC, TPC, TPC, None, None, True, True, 0.1), "ctm": (PieceType.SCORE, TPC, 0.1),
            "ksm": (TPC, TPC, TPC, True, None, 0.1), "ktm": (TPC, TPC, True, None, 0.1)}[kind]
    return cls(*none)


def value(x):
    return x.item() if isinstance(x, Tensor) else x


def same(ctx, got, want):
    got = value(got)
    if ctx.symbolic:
        return EQ(got, want)
    return got == got and abs(float(got) - float(want)) < 1e-6


def lengths_of(ctx, kind, n, size):
    out = [ctx.choice(f"length{i}", list(range(1, size + 1))) for i in range(n)]
    return out


def steps(ctx, kind, n, size):
    with torch_standins():
        ls = lengths_of(ctx, kind, n, size)
        items = [Item(ctx, kind, i, ls, size + 1) for i in range(n)]
        want = expected(items)
        if kind != "ccm":
            ctx.assume(want is not None)
        batch = lambda: next(iter(TS.DataLoader([it.dict() for it in items], batch_size=n)))
        logged = {}
        model = build(ctx, kind, items, logged)
        if want is not None:
            loss = model.training_step(batch(), 0)
            ctx.check(same(ctx, loss, want[1]), "the training loss is not the mean loss of the positions which count")
            ctx.check("train_loss" in logged and same(ctx, logged["train_loss"], want[1]), "another training loss is logged")
        logged.clear()
        model.validation_step(batch(), 0)
        if want is None:
            ctx.check(logged == {}, "an accuracy of nothing is logged")
            ctx.cover("nothing counts")
            return
        ctx.check("val_loss" in logged and same(ctx, logged["val_loss"], want[1]), "the validation loss is not the mean loss of the positions which count")
        ctx.check("val_acc" in logged and same(ctx, logged["val_acc"], want[0]), "the validation accuracy is not that of the positions which count")
        ctx.cover("steps")


class Items(list):
    pass


def evaluate(ctx, kind, n, size, bs):
    with torch_standins():
        ls = lengths_of(ctx, kind, n, size)
        items = [Item(ctx, kind, i, ls, size + 1) for i in range(n)]
        for s in range(0, n, bs):
            if kind != "ccm":
                ctx.assume(expected(items[s:s + bs]) is not None)
        want = expected(items)
        ctx.assume(want is not None)
        data = Items(it.dict() for it in items)
        data.valid_batch_size = bs
        got = build(ctx, kind, items, {}).evaluate(data)
        ctx.check(same(ctx, got["acc"], want[0]), "the accuracy is not the percentage of right answers among the positions which count")
        ctx.check(same(ctx, got["loss"], want[1]), "the loss is not the mean loss of the positions which count")
        ctx.cover("evaluated")
        if n % bs:
            ctx.cover("uneven batches")


def cases(tier):
    deep = tier == "thorough"
    kw = dict(np_objects=True)
    out = []
    for kind in CLASSES:
        seq = sequence(kind)
        size = 3 if seq or kind == "ksm" else 2
        out.append(Case(f"steps_{kind}", steps, "", ["steps"] + (["nothing counts"] if kind == "ccm" else []), kind=kind, n=2, size=size, weight=3, **kw))
        n = 4 if deep and not seq else 3
        for bs in range(1, n + 1):
            out.append(Case(f"evaluate_{kind}_by_{bs}", evaluate, "", ["evaluated"] + (["uneven batches"] if n % bs else []), kind=kind, n=n, size=2, bs=bs, weight=8 if seq else 3, **kw))
            if deep and bs < 3:
                out.append(Case(f"evaluate_long_{kind}_by_{bs}", evaluate, "", ["evaluated"], kind=kind, n=2, size=3, bs=bs, weight=8, **kw))
    return out
