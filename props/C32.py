import argparse
import logging
from props.common import *
from props import layers
from props.layers import installed
from props.tensors import Tensor, best, stack, number
from props.dsets import P, mk_chord, mk_key, mk_note, pitch
from props.jm import components, stub
import harmonic_inference.data.datasets as ds
import harmonic_inference.models.chord_classifier_models as ccm
import harmonic_inference.models.chord_sequence_models as csm
import harmonic_inference.models.chord_transition_models as ctm
import harmonic_inference.models.joint_model as jm
import harmonic_inference.models.key_sequence_models as ksm
import harmonic_inference.models.key_transition_models as ktm

LEVEL = "model_checking"
MODS = (ccm, csm, ctm, ksm, ktm)
NETS = {"ccm": ccm.SimpleChordClassifier, "csm": csm.SimpleChordSequenceModel, "pcsm": csm.PitchBasedChordSequenceModel, "ctm": ctm.SimpleChordTransitionModel,
        "ksm": ksm.SimpleKeySequenceModel, "ktm": ktm.SimpleKeyTransitionModel}
DATA = {"ccm": ds.ChordClassificationDataset, "csm": ds.ChordSequenceDataset, "pcsm": ds.ChordSequenceDataset, "ctm": ds.ChordTransitionDataset,
        "ksm": ds.KeySequenceDataset, "ktm": ds.KeyTransitionDataset}
TARGETS = [f"{c.__module__}:{c.__name__}.forward" for c in NETS.values()] + [f"{c.__module__}:{c.__name__}.__init__" for c in NETS.values()] + [
    "harmonic_inference.models.joint_model:HarmonicInferenceModel.check_input_output_types", "harmonic_inference.models.joint_model:from_args",
    "harmonic_inference.models.joint_model:add_joint_model_args"]
BOUNDS = ("batches of 1 to 3 sequences of 1 to 3 rows (thorough 4 and 4), each row with 2 symbolic reals, 1 or 2 recurrent layers; stepping through 2 sequences of 3 rows; "
          "sizes: both pitch types, 3 reductions, with and without inversions; compatibility: every combination of the pitch and piece types of the six components; "
          "command line: every option with every one of 3 values, alone, and every pair of thresholds (symbolic)")
OUTSIDE = ("trained weights and non-linearities: the layers of torch are linear maps with fixed weights, so that which inputs an output depends on is decided, not its value; "
           "the convolutional and transformer drafts in chord_classifier_models, which nothing uses")
SMALL = {"lstm_hidden_dim": 2, "hidden_dim": 2}


def make(cls, *a, **k):
    body = {"__call__": lambda self, *x, **y: self.forward(*x, **y), "save_hyperparameters": lambda self, *x, **y: None, "device": None, "log": lambda self, *x, **y: None}
    if "embed_dim" in cls.__init__.__code__.co_varnames:
        k.setdefault("embed_dim", 2)
    return type(cls.__name__, (cls,), body)(*a, **dict(SMALL, **k))


def net(kind, pt=MIDI, red=ONE, inv=False, **k):
    cls = NETS[kind]
    if kind == "ccm":
        return make(cls, PieceType.SCORE, pt, pt, reduction=red, use_inversions=inv, **k)
    if kind == "csm":
        return make(cls, pt, pt, pt, input_reduction=red, output_reduction=red, use_input_inversions=inv, use_output_inversions=inv, **k)
    if kind == "pcsm":
        return make(cls, pt, pt, pt, input_reduction=red, use_input_inversions=inv, **k)
    if kind == "ctm":
        return make(cls, PieceType.SCORE, pt, **k)
    if kind == "ksm":
        return make(cls, pt, pt, pt, reduction=red, use_inversions=inv, **k)
    return make(cls, pt, pt, reduction=red, use_inversions=inv, **k)


def row_width(kind, pt):
    """spec: the number of features of a row"""
    if kind in ("ccm", "ctm"):
        return len(mk_note(15, pt).to_vec())
    pad = kind in ("ksm", "ktm")
    n = 12 if pt == MIDI else 29 + (10 if pad else 0)
    return n + 12 + n + 4 + 4 + 4 + 2 + (12 if pt == MIDI else 29) + 2 + 1


def sequence(ctx, name, n, width):
    rows = []
    for t in range(n):
        r = [0] * width
        r[t % 3], r[width - 1] = ctx.real(f"{name}_{t}a", -9, 9), ctx.real(f"{name}_{t}b", -9, 9)
        rows.append(r)
    return rows


def first(x):
    return x[0] if isinstance(x, tuple) else x


def per_row(kind):
    return kind not in ("ccm", "ksm")


def agree(ctx, a, b):
    a, b = a.a.reshape(-1), b.a.reshape(-1)
    if ctx.symbolic:
        return len(a) == len(b) and AND([EQ(number(x), number(y)) for x, y in zip(a, b)])
    return len(a) == len(b) and all(abs(float(x) - float(y)) <= 1e-9 * max(1, abs(float(x))) for x, y in zip(a, b))


def asked(rows, ns):
    return {"inputs": rows, "input_lengths": Tensor(list(ns)), "targets": Tensor([[0] * rows.shape[1] for _ in ns]), "target_lengths": Tensor(list(ns))}


def batching(ctx, kind, k, top, num_layers):
    with installed(*MODS):
        m = net(kind, lstm_layers=num_layers)
        w = row_width(kind, MIDI)
        ns = [ctx.choice(f"n{i}", list(range(1, top + 1))) for i in range(k)]
        seqs = [sequence(ctx, f"s{i}", n, w) for i, n in enumerate(ns)]
        longest = max(ns)
        whole = Tensor([s + [[0] * w for _ in range(longest - len(s))] for s in seqs])
        got = first(m(whole, Tensor(list(ns))))
        ctx.check(len(got) == k, "one output per item of the batch")
        for i, (s, n) in enumerate(zip(seqs, ns)):
            alone = first(m(Tensor([s]), Tensor([n])))
            ctx.check(len(alone) == 1, "a batch of one item")
            here = got[i][:n] if per_row(kind) else got[i]
            ctx.check(agree(ctx, here, alone[0]), "the output for an item depends on the rest of its batch or on padding")
            if kind in ("ccm", "ctm"):    # as the joint model asks them
                dist = first(m.get_output(asked(whole, ns)))[i]
                only = first(m.get_output(asked(Tensor([s]), [n])))[0]
                dist = dist[:n] if per_row(kind) else dist
                ctx.check(agree(ctx, dist, only), "what an item is given depends on the rest of its batch or on padding")
                if kind == "ctm":
                    ctx.check(agree(ctx, dist, here), "another probability than the network's")
                else:
                    ctx.check(EQ(best(list(dist.a)), best(list(here.a))), "the best chord is not the network's best")
        ctx.cover("batch")
        if k > 1 and len(set(ns)) > 1:
            ctx.cover("padded")


def stepping(ctx, kind, n, num_layers):
    """one row at a time, with the state of the last call, as the joint model does: same as all rows at once"""
    with installed(*MODS):
        m = net(kind, lstm_layers=num_layers)
        w = row_width(kind, MIDI)
        seqs = [sequence(ctx, f"s{i}", n, w) for i in range(2)]
        want = m(Tensor(seqs), Tensor([n, n]))[0]
        hidden = m.init_hidden(2)
        t = 0
        while t < n:
            some = 1 if kind != "ksm" else ctx.choice(f"some{t}", list(range(1, n - t + 1)))
            batch = {"inputs": Tensor([s[t:t + some] for s in seqs]), "input_lengths": Tensor([some, some]), "hidden_states": tuple(h.transpose(0, 1) for h in hidden),
                     "targets": Tensor([0, 0])}
            out, hidden = m.get_output(batch) if kind == "ksm" else m.run_one_step(batch)
            t += some
            if kind != "ksm":
                ctx.check(len(out) == 2 and agree(ctx, out, want[:, t - 1:t]), "a step gives another output than the whole sequence")
        if kind == "ksm":
            ctx.check(agree(ctx, out, want), "the rest of a sequence, with the state of its beginning, gives another output than the whole")
        ctx.cover("steps")


def piece(pt):
    k1, k2 = mk_key(15, MAJOR, pt), mk_key(16, MAJOR, pt)
    chords = [mk_chord(15 + i, 15 + i, k, ct, 0, 1, pt) for i, k, ct in ((0, k1, ChordType.MAJ_MIN7), (1, k1, ChordType.MINOR), (1, k2, ChordType.DIM7))]
    notes = [mk_note(15 + i, pt) for i in range(3)]
    return P(notes=notes, durs=[1, 1, 1], changes=[0, 1, 2], chords=chords, keys=[k1, k2], key_changes=[0, 2], note_inputs=[np.array([n.to_vec() for n in notes]) for _ in range(3)])


def vocabulary(kind, pt, red, inv):
    if kind in ("ctm", "ktm"):
        return None
    if kind == "pcsm":
        return 29
    if kind == "ksm":
        return 2 * (29 if pt == TPC else 12)
    n = 12 if pt == MIDI else (35 if kind == "ccm" else 29)
    return sum(n * (num_inv(t) if inv else 1) for t in TYPES if t in red.values())


def sizes(ctx, kind):
    """a network made for some representation takes the items of its dataset and answers in its vocabulary"""
    with installed(*MODS):
        pt = ctx.choice("pitch", [TPC, MIDI] if kind != "pcsm" else [TPC])
        red = ctx.choice("reduction", [None, TRIAD, ONE]) if kind != "ctm" else None
        inv = ctx.flag("inversions") if kind != "ctm" else True
        m = net(kind, pt, red, inv)
        data = DATA[kind]([piece(pt)], **m.get_dataset_kwargs())
        item = data[0]
        rows = np.asarray(item["inputs"])
        ctx.check(rows.shape[-1] == row_width(kind, pt), "an item of another width")
        n = int(item["input_lengths"])
        ok = False
        try:
            out = first(m(Tensor([[[int(v) if float(v) == int(v) else Fraction(float(v)) for v in r] for r in rows]]), Tensor([n])))
            ok = True
        except RuntimeError:
            pass
        ctx.check(ok, "the network does not accept an item of its dataset")
        size = vocabulary(kind, pt, {t: t for t in TYPES} if red is None else red, inv)
        if size is not None:
            ctx.check(out.shape[-1] == size, "the network does not answer in the vocabulary of its dataset")
        if per_row(kind):
            ctx.check(out.shape[:2] == (1, n), "not one output per row")
        target = np.asarray(item["targets"])
        if kind == "pcsm":
            ctx.check(target.shape[-1] == size, "targets of another size")
        elif size is not None:
            ctx.check(bool(np.all(target < size)), "a target outside of the vocabulary")
        ctx.cover("sizes")


def compatible(ctx, part):
    """the components are joined exactly if what one gives is what the next expects"""
    pt = lambda name, on: ctx.choice(name, [TPC, MIDI]) if on else TPC
    chords, keys = part == "chords", part == "keys"
    kinds = [PieceType.SCORE, PieceType.MIDI]
    c = jm.MODEL_CLASSES
    a = {"ccm_in": pt("ccm_in", chords), "ccm_out": pt("ccm_out", chords), "ctm_in": pt("ctm_in", chords), "csm_in": pt("csm_in", chords), "csm_key": pt("csm_key", keys), "csm_out": pt("csm_out", True),
         "ktm_in": pt("ktm_in", True), "ktm_key": pt("ktm_key", keys), "ksm_in": pt("ksm_in", True), "ksm_key": pt("ksm_key", keys), "ksm_out": pt("ksm_out", keys), "icm": pt("icm", True)}
    ti, tj = (ctx.choice("ccm_type", kinds), ctx.choice("ctm_type", kinds)) if chords else (kinds[0], kinds[0])
    models = {"ccm": stub(c["ccm"][0], INPUT_TYPE=ti, INPUT_PITCH=a["ccm_in"], OUTPUT_PITCH=a["ccm_out"], reduction=None, use_inversions=True, transposition_range=[0, 0]),
              "ctm": stub(c["ctm"][0], INPUT_TYPE=tj, PITCH_TYPE=a["ctm_in"]),
              "csm": stub(c["csm"][0], INPUT_CHORD_PITCH_TYPE=a["csm_in"], INPUT_KEY_PITCH_TYPE=a["csm_key"], OUTPUT_PITCH_TYPE=a["csm_out"], input_reduction=None, output_reduction=None,
                          use_input_inversions=True, use_output_inversions=True),
              "ktm": stub(c["ktm"][0], INPUT_CHORD_PITCH_TYPE=a["ktm_in"], INPUT_KEY_PITCH_TYPE=a["ktm_key"], reduction=None, use_inversions=True),
              "ksm": stub(c["ksm"][0], INPUT_CHORD_PITCH_TYPE=a["ksm_in"], INPUT_KEY_PITCH_TYPE=a["ksm_key"], OUTPUT_PITCH_TYPE=a["ksm_out"], reduction=None, use_inversions=True),
              "icm": stub(c["icm"][0], PITCH_TYPE=a["icm"])}
    fits = (ti == tj and a["ccm_in"] == a["ctm_in"] and a["ccm_out"] == a["csm_in"] == a["csm_out"] == a["ktm_in"] == a["ksm_in"] == a["icm"]
            and a["csm_key"] == a["ktm_key"] == a["ksm_key"] == a["ksm_out"])
    bad, got = raises(AssertionError, jm.HarmonicInferenceModel, models)
    ctx.check(bad == (not fits), "components which do not fit together are joined, or fitting ones refused")
    if fits:
        ctx.check(got.INPUT_TYPE == ti and got.CHORD_OUTPUT_TYPE == a["csm_out"] and got.KEY_OUTPUT_TYPE == a["ksm_out"], "the joint model's types are not its components'")
        ctx.cover("fit")


def missing(ctx):
    models = components()
    which = ctx.choice("which", list(models))
    if ctx.flag("absent"):
        del models[which]
    else:
        other = ctx.choice("other", [x for x in models if x != which])
        models[which] = models[other]
    bad, _ = raises(AssertionError, jm.HarmonicInferenceModel, models)
    ctx.check(bad, "a missing component or one of another kind is accepted")
    ctx.cover("missing")


OPTIONS = {"min_chord_change_prob": ["0.125", "0", "0.25"], "max_no_chord_change_prob": ["0.875", "1", "0.75"], "max_chord_length": ["4", "3/2", "16"], "min_key_change_prob": ["0.0625", "0", "0.03125"],
           "max_no_key_change_prob": ["0.9375", "1", "0.96875"], "beam_size": ["17", "1", "400"], "max_chord_branching_factor": ["13", "1", "300"], "target_chord_branch_prob": ["0.5", "1", "0.15625"],
           "max_key_branching_factor": ["11", "1", "200"], "target_key_branch_prob": ["0.625", "1", "0.28125"], "hash_length": ["19", "1", "2"], "ksm_exponent": ["21.5", "1", "0"]}
TYPE = {"max_chord_length": Fraction, "beam_size": int, "max_chord_branching_factor": int, "max_key_branching_factor": int, "hash_length": int}


def options(ctx):
    """every option of the command line sets that parameter of the model and nothing else"""
    parser = lambda grid: (lambda p: (jm.add_joint_model_args(p, grid_search=grid), p)[1])(argparse.ArgumentParser())
    name = ctx.choice("option", list(OPTIONS))
    text = ctx.choice("value", OPTIONS[name])
    want = TYPE.get(name, float)(text)
    flag = "--" + name.replace("_", "-")
    default = parser(False).parse_args([])
    args = parser(False).parse_args([flag, text])
    m, base = jm.from_args(components(), args), jm.from_args(components(), default)
    for o in OPTIONS:
        v = getattr(m, o)
        ctx.check(v == (want if o == name else getattr(base, o)) and (o != name or type(v) is type(want)), f"option {name}: {o} is wrong")
    plain = jm.HarmonicInferenceModel(components())
    ctx.check(all(getattr(plain, o) == getattr(base, o) for o in OPTIONS), "the defaults of the command line are not the model's")
    several = parser(True).parse_args([flag] + OPTIONS[name])
    ctx.check(getattr(several, name) == [TYPE.get(name, float)(x) for x in OPTIONS[name]], "values of a grid search wrong")
    ctx.cover("option")


def passed(ctx):
    """symbolic values: each arrives unchanged, thresholds in the wrong order are refused"""
    vals = {o: ctx.int(o, 1, 99) if TYPE.get(o) is int else ctx.real(o, 0, 1) for o in OPTIONS}
    bad, m = raises(AssertionError, jm.from_args, components(), argparse.Namespace(**vals))
    legal = AND(vals["min_chord_change_prob"] <= vals["max_no_chord_change_prob"], vals["min_key_change_prob"] <= vals["max_no_key_change_prob"])
    ctx.check(legal if not bad else NOT(legal), "thresholds accepted in the wrong order, or refused in the right one")
    if not bad:
        for o, v in vals.items():
            ctx.check(EQ(getattr(m, o), v), f"{o} does not arrive")
        ctx.cover("passed")


def cases(tier):
    deep = tier == "thorough"
    out = []
    kw = dict(np_objects=True)
    for kind in NETS:
        for nl in (1, 2):
            for k in (1, 2, 3) if not deep else (1, 2, 3, 4):
                if nl == 2 and k == 3 and not deep:
                    continue
                out.append(Case(f"batching_{kind}_{k}_layers{nl}", batching, "", ["batch"] + (["padded"] if k > 1 else []), kind=kind, k=k, top=4 if deep and k < 4 else 3, num_layers=nl, weight=2 * k, **kw))
            if kind in ("csm", "pcsm", "ktm", "ksm"):
                out.append(Case(f"stepping_{kind}_layers{nl}", stepping, "", ["steps"], kind=kind, n=4 if deep else 3, num_layers=nl, weight=3, **kw))
        out.append(Case(f"sizes_{kind}", sizes, "", ["sizes"], kind=kind, weight=4))
    out.append(Case("compatible_chords", compatible, "", ["fit"], part="chords", weight=6))
    out.append(Case("compatible_keys", compatible, "", ["fit"], part="keys", weight=6))
    out.append(Case("missing", missing, "", ["missing"]))
    out.append(Case("options", options, "", ["option"]))
    out.append(Case("passed", passed, "", ["passed"]))
    return out
