import os
import tempfile
import types

from props.common import *
import harmonic_inference.models.initial_chord_models as icm
import harmonic_inference.data.piece as P
from harmonic_inference.data.chord import Chord
from harmonic_inference.data.key import Key
from harmonic_inference.data.note import Note
from harmonic_inference.data.data_types import NO_REDUCTION, TRIAD_REDUCTION, ALL_ONE_TYPE_REDUCTION

LEVEL = "model_checking"
B = "harmonic_inference.models.initial_chord_models:"
TARGETS = [B + f for f in ("SimpleInitialChordModel.__init__", "SimpleInitialChordModel.get_prior", "SimpleInitialChordModel.evaluate", "train_icm")] + [
    "harmonic_inference.utils.harmonic_utils:get_chord_one_hot_index", "harmonic_inference.utils.harmonic_utils:get_chord_from_one_hot_index",
    "harmonic_inference.utils.harmonic_utils:get_chord_label_list"]
BOUNDS = ("training on 1-3 initial chords from pools of tonics, roots, types, inversions and both modes, smoothing mass arbitrary (0 excluded); loading full priors with several arbitrary "
          "entries per mode, every combination of inversions (kept, ignored, absent from the data) and of reductions (none, triads, one type, type-preserving, nested), given as arguments or by the file; "
          "evaluation of 1-2 pieces")
OUTSIDE = ("reductions which leave an inversion without a place while inversions are in use (refused); training without any chord; the text form of the numbers in the json file; "
           "floating-point rounding")

SAME_SIZE = {t: t for t in TYPES}
SAME_SIZE.update({ChordType.MINOR: ChordType.MAJOR, ChordType.MIN_MIN7: ChordType.MAJ_MIN7, ChordType.HALF_DIM7: ChordType.DIM7})
SEVENTHS = {t: t for t in TYPES}
SEVENTHS.update({t: TRIAD[t] for t in TYPES if t not in (ChordType.MAJ_MIN7, ChordType.DIM7)})
REDS = {"none": (None, {t: t for t in TYPES}), "triad": (TRIAD_REDUCTION, TRIAD), "one": (ALL_ONE_TYPE_REDUCTION, ONE),
        "same": (SAME_SIZE, SAME_SIZE), "sevenths": (SEVENTHS, SEVENTHS)}


def vocabulary(pt, inv, red):
    """spec: (type, relative root, inversion) in label order"""
    roots = range(REL_MIN, REL_MAX) if pt == TPC else range(12)
    return [(t, r, i) for t in TYPES if t in red.values() for r in roots for i in (range(num_inv(t)) if inv else [None])]


class Json:
    """records what is written instead of writing symbolic numbers as text"""

    def __init__(self, real):
        self.real, self.got = real, []

    def dump(self, o, *a, **k):
        self.got.append(o)

    def dumps(self, o, *a, **k):
        self.got.append(o)
        return "{}"

    def __getattr__(self, n):
        return getattr(self.real, n)


def mk(root, tonic, mode, ct, inv, pt):
    R = REAL(Fraction(1))
    return Chord(root, root, tonic, mode, ct, inv, (0, R), 3, (1, R), 3, R, pt)


def pools(pt):
    f = lambda r: r if pt == TPC else (7 * (r - 15)) % 12
    return [(f(15), f(15), MAJOR, ChordType.MAJOR, 0), (f(16), f(15), MAJOR, ChordType.MAJ_MIN7, 3), (f(12), f(12), MAJOR, ChordType.MAJOR, 0), (f(15), f(16), MAJOR, ChordType.MAJOR, 0),
            (f(18), f(18), MINOR, ChordType.MINOR, 0), (f(20), f(18), MINOR, ChordType.DIM7, 1), (f(18), f(18), MINOR, ChordType.MINOR, 2), (f(15), f(15), MINOR, ChordType.MAJOR, 0)]


def rel(c, pt):
    r = c[0] - c[1]
    return r if pt == TPC else r % 12


def train(ctx, pt, k):
    pool = pools(pt)
    cs = [ctx.choice(f"c{i}", pool if i == 0 else pool[::3]) for i in range(k)]
    s = ctx.real("smoothing", Fraction(1, 10), 8)
    d = tempfile.mkdtemp()
    path = os.path.join(d, "icm.json")
    saved, icm.json = icm.json, Json(icm.json)
    try:
        default = k == 1 and ctx.flag("default")
        if default:
            s = 1
            icm.train_icm([mk(*c, pt) for c in cs], path)
        else:
            icm.train_icm([mk(*c, pt) for c in cs], path, add_n_smoothing=s)
        ctx.check(len(icm.json.got) == 1, "not one model written")
        data = icm.json.got[0]
    finally:
        icm.json = saved
        if os.path.exists(path):
            os.unlink(path)
        os.rmdir(d)
    vocab = vocabulary(pt, True, {t: t for t in TYPES})
    n = len(vocab)
    ctx.check(data["inversions_present"] is True and data["reduction_present"] is None and str(data["pitch_type"]) == str(pt), "layout of the prior recorded wrongly")
    ctx.check(len(data["major"]) == n and len(data["minor"]) == n, "prior does not cover the vocabulary")
    for mode, name in ((MAJOR, "major"), (MINOR, "minor")):
        total = sum(c[2] == mode for c in cs)
        hits = {}
        for c in cs:
            if c[2] == mode:
                j = vocab.index((c[3], rel(c, pt), c[4]))
                hits[j] = hits.get(j, 0) + 1
        probe = sorted(set(hits) | {0, n - 1, 7, n // 2} | {vocab.index((c[3], rel(c, pt), c[4])) for c in cs})
        for j in probe:
            ctx.check(close(ctx, data[name][j] * (s + total) * n, s + hits.get(j, 0) * n, 1e-6), "prior is not the smoothed relative frequency of the initial chord")
        if default or not ctx.symbolic:
            # the remaining entries hold no count
            others = [data[name][j] for j in range(n) if j not in probe]
            ctx.check(AND([close(ctx, x, others[0], 1e-6) for x in others[:: max(1, len(others) // 97)]]), "uncounted chords do not share the smoothing mass equally")
    if len(cs) > 1 and len(set(cs)) > 1:
        ctx.cover("different chords")
    ctx.cover("trained")


def load(ctx, pt, inv_present, red_present, red, inv, where, n_sym=3):
    """the prior of a label is the total prior of the labels it stands for"""
    rp, rps = REDS[red_present]
    r, rs = REDS[red]
    src = vocabulary(pt, inv_present, rps)
    eff_inv = inv and inv_present
    eff = {t: rs[rps[t]] for t in TYPES}
    out = vocabulary(pt, eff_inv, eff)
    if eff_inv and any(num_inv(eff[t]) < num_inv(t) for t in set(rps.values())):
        return ctx.assume(False)
    base = lambda i: Fraction(i % 7 + 1, 4096)
    data = {"inversions_present": inv_present, "reduction_present": rp, "pitch_type": pt}
    step = len(src) // n_sym
    for m, name in enumerate(("major", "minor")):
        vals = [base(i + m) for i in range(len(src))]
        for q in range(n_sym):
            vals[(q * step + 5 * m + q) % len(src)] = ctx.real(f"{name}{q}", Fraction(1, 1000), 1)
        data[name] = vals
    orig = {name: list(data[name]) for name in ("major", "minor")}
    if not ctx.symbolic:
        for name in ("major", "minor"):
            data[name] = [float(x) for x in data[name]]
    if where == "file":
        data["use_inversions"], data["reduction"] = inv, r
        m = icm.SimpleInitialChordModel(data) if ctx.flag("plain") else icm.SimpleInitialChordModel(data, use_inversions=not inv, reduction=ONE)
    else:
        m = icm.SimpleInitialChordModel(data, use_inversions=inv, reduction=r)
    ctx.check(m.use_inversions == eff_inv and m.PITCH_TYPE == pt, "settings recorded wrongly")
    ctx.check(all(m.reduction[t] == eff[t] for t in TYPES), "reduction recorded wrongly")
    for is_minor, name in ((False, "major"), (True, "minor")):
        prior, logs = m.get_prior(is_minor, log=False), m.get_prior(is_minor)
        ctx.check(len(prior) == len(out) and len(logs) == len(out), "prior does not cover the vocabulary")
        want = {k: 0 for k in out}
        for (t, root, i), v in zip(src, orig[name]):
            k = (eff[t], root, i if eff_inv else None)
            want[k] = want[k] + v
        ok = [close(ctx, prior[j], want[k], 1e-6) for j, k in enumerate(out)]
        ctx.check(AND(ok), "the prior of a label is not the total prior of the chords it stands for")
        ctx.check(AND([close(ctx, logs[j], E.sym_log(prior[j]) if ctx.symbolic else np.log(float(prior[j])), 1e-6) for j in list(range(0, len(out), 13)) + [
            j for j, k in enumerate(out) if E.is_sym(want[k])]]), "log prior is not the log of the prior")
    ctx.cover("loaded")


def evaluate(ctx, pt, inv, red, k):
    r, rs = REDS[red]
    out = vocabulary(pt, inv, rs)
    major = [REAL(Fraction(1, 64))] * len(out)
    minor = [REAL(Fraction(1, 64))] * len(out)
    p, q = ctx.real("p", Fraction(1, 32), 1), ctx.real("q", Fraction(1, 32), 1)
    pool = [c for c in pools(pt)][:6]
    place = lambda c: out.index((rs[c[3]], rel(c, pt), c[4] if inv else None))
    major[place(pool[0])] = p
    minor[place(pool[4])] = q
    data = {"inversions_present": inv, "reduction_present": r, "pitch_type": pt, "major": major, "minor": minor}
    if not ctx.symbolic:
        data["major"], data["minor"] = [float(x) for x in major], [float(x) for x in minor]
    m = icm.SimpleInitialChordModel(data)
    # the arg max of the prior is the likely chord
    pieces, cs = [], []
    for i in range(k):
        c = ctx.choice(f"c{i}", pool)
        cs.append(c)
        R = REAL(Fraction(1))
        pieces.append(P.ScorePiece(None, [Note(15, 4, (0, R), 3, R, (0, R), 3, TPC)], [mk(*c, pt)], [Key(c[1], c[1], c[1], c[2], c[2], c[2], pt)], [0], [(0, 1)], [0]))
    got = m.evaluate(pieces)
    right, loss = 0, 0
    for c in cs:
        prior, best = (major, place(pool[0])) if c[2] == MAJOR else (minor, place(pool[4]))
        right += place(c) == best
        v = prior[place(c)]
        loss = loss - (E.sym_log(v) if ctx.symbolic else np.log(float(v)))
    ctx.check(close(ctx, got["acc"], Fraction(100 * right, k), 1e-6), "accuracy wrong")
    ctx.check(close(ctx, got["loss"] * k, loss, 1e-6), "loss wrong")
    ctx.cover("evaluated")


def cases(tier):
    out = []
    k = dict(np_objects=True, floats=True)
    for pt in (TPC, MIDI):
        for n in ((1, 2) if tier == "quick" else (1, 2, 3)):
            out.append(Case(f"train_{pt.name}_{n}", train, covers=["trained"] + (["different chords"] if n > 1 else []), weight=n, pt=pt, k=n, **k))
        combos = [(True, "none", "none", True), (True, "none", "none", False), (True, "none", "triad", False), (True, "none", "one", False), (True, "none", "same", True),
                  (True, "none", "sevenths", False), (False, "none", "none", True), (False, "none", "triad", False), (False, "triad", "one", True), (True, "same", "none", True),
                  (True, "same", "none", False), (False, "sevenths", "triad", False), (True, "same", "triad", False), (False, "triad", "none", False)]
        for where in ("arguments", "file"):
            for ip, rp, r, i in combos:
                out.append(Case(f"load_{pt.name}_{where}_{'inv' if ip else 'noinv'}_{rp}_{r}_{'inv' if i else 'noinv'}", load, covers=["loaded"],
                                pt=pt, inv_present=ip, red_present=rp, red=r, inv=i, where=where, n_sym=3 if tier == "quick" else 12, **k))
        for inv, red in ((True, "none"), (False, "triad"), (False, "none")):
            out.append(Case(f"evaluate_{pt.name}_{red}_{inv}", evaluate, covers=["evaluated"], pt=pt, inv=inv, red=red, k=2, **k))
    return out
