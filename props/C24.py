from props.dsets import *
import harmonic_inference.data.datasets as ds
from symx import stubs
from symx.shims import ObjArray
from harmonic_inference.data.data_types import TRIAD_REDUCTION, ALL_ONE_TYPE_REDUCTION

LEVEL = "model_checking"
D = "harmonic_inference.data.datasets:"
TARGETS = [D + f for f in ("HarmonicDataset.__getitem__", "HarmonicDataset.finalize_data", "HarmonicDataset.__len__", "ChordTransitionDataset.__init__",
                           "ChordClassificationDataset.__init__", "ChordClassificationDataset.__getitem__", "ChordClassificationDataset.reduce",
                           "ChordClassificationDataset.generate_intermediate_targets", "ChordSequenceDataset.__init__", "ChordSequenceDataset.reduce",
                           "KeyHarmonicDataset.__getitem__", "KeyHarmonicDataset.reduce", "KeyTransitionDataset.__init__", "KeySequenceDataset.__init__")] + [
    "harmonic_inference.data.vector_decoding:" + f for f in ("reduce_chord_types", "remove_chord_inversions", "reduce_chord_one_hots", "transpose_note_vector")] + [
    "harmonic_inference.models.joint_model:HarmonicInferenceModel." + f for f in ("get_key_change_probs", "get_key_change_states", "run_csm_batched")]
BOUNDS = ("1-3 pieces; transitions: 2+3 inputs, symbolic durations 0..8, every set of changes; classification: 1-2 chords with 1-3 input rows, one symbolic real per row, 3 chord types (thorough all 12) in all their inversions, "
          "roots and notes at, next to and far from both ends of the alphabet, transposition ranges (-1,1), (0,2), (-2,0) and the default, 3 reductions, with and without inversions; "
          "sequences and keys: 3-5 (thorough 8) layouts of 1-4 keys with 1-6 chords, symbolic durations 0..16, 3 reductions, inversions kept or dropped, settings given at construction or afterwards; both pitch types; two access orders with repeated items; "
          "inference: 3 states per model (chord sequence, key transition, key sequence)")
OUTSIDE = ("reductions under which an inversion has no place (e.g. third inversions of sevenths reduced to triads while keeping inversions); the first chord of a key that cannot be expressed in the previous key (refused by the encoder); "
           "chord pitches as produced by the annotations' suspensions; torch tensors are stand-ins over numpy")
REDS = {"none": (None, {t: t for t in TYPES}), "triad": (TRIAD_REDUCTION, TRIAD), "one": (ALL_ONE_TYPE_REDUCTION, ONE)}
NOTE_W = {TPC: 35, MIDI: 12}


def matrix(ctx, rows):
    if not ctx.symbolic:
        return np.array([[float(x) for x in r] for r in rows], dtype=np.float16)
    m = np.empty((len(rows), len(rows[0])), dtype=object)
    for i, r in enumerate(rows):
        for j, x in enumerate(r):
            m[i, j] = x
    return m.view(ObjArray)


def order(ctx, n):
    """an order of accesses in which items come back"""
    return ctx.choice("order", [list(range(n)) + [0], list(range(n))[::-1] + [n - 1]])


def transition(ctx, pt, sizes, dummy=False):
    pieces, specs = [], []
    for p, n in enumerate(sizes):
        notes = [mk_note(15 + 2 * i + p, pt, 3 + i) for i in range(n)]
        durs = [ctx.real(f"d{p}_{i}", 0, 8) for i in range(n)]
        changes = [0] + [i for i in range(1, n) if ctx.flag(f"c{p}_{i}")]
        for i in changes[1:]:
            ctx.assume(durs[i - 1] > 0)          # a chord changes at an onset
        pieces.append(P(notes=notes, durs=durs, changes=changes))
        specs.append((notes, durs, changes))
    dset = ds.ChordTransitionDataset(pieces, dummy_targets=True) if dummy else ds.ChordTransitionDataset(pieces)
    ctx.check(len(dset) == len(sizes), "not one item per piece")
    for j in order(ctx, len(sizes)):
        item = dset[j]
        notes, durs, changes = specs[j]
        rows = [list(nt.to_vec(dur_from_prev=durs[i - 1] if i else None, dur_to_next=durs[i])) for i, nt in enumerate(notes)]
        same_rows(ctx, item["inputs"], rows, "inputs", max(sizes))
        ctx.check(item["input_lengths"] == len(notes), "input length wrong")
        t = item["targets"]
        ctx.check(len(t) == max(sizes) and item["target_lengths"] == len(notes), "target length wrong")
        for i in range(max(sizes)):
            if i >= len(notes) or dummy:
                ctx.check(EQ(t[i], 0), "padding of the targets is not zero")
            elif i == 0:
                ctx.check(EQ(t[i], -100), "the first note is measured")
            elif i in changes:
                ctx.check(EQ(t[i], 1), "a chord change is not marked")
                ctx.cover("change")
            else:
                ctx.check(EQ(t[i], ite(durs[i - 1] == 0, -100, 0)), "no-change target wrong (only an input at a new onset is measured)")
                ctx.cover("no change")


def classification(ctx, pt, red, inv, sizes, full=False):
    """sizes: per chord, the notes of its input, as distances to its first one (None: empty window row)"""
    r, rs = REDS[red]
    lo, hi = ctx.choice("range", [(-1, 1), (0, 2), [-2, 0]])
    default = lo == 0 and ctx.flag("default")
    if default:
        lo, hi = 0, 0
    key = mk_key(15, MAJOR, pt)
    n = N[pt]
    chords, mats, notes = [], [], []
    for c, size in enumerate(sizes):
        root, first = ctx.choice(f"root{c}", [(0, n // 2), (1, n - 2), (C[pt] + 3, 0), (n - 2, 1), (n - 1, n // 2), (C[pt] + 3, n - 1)]
                                 if full else [(1, n - 2), (C[pt] + 3, 0), (n - 1, n // 2)]) if c == 0 else (C[pt] + 1, n // 2)
        ct, iv = ctx.choice(f"type{c}", [(t, i) for t in (TYPES if full else (ChordType.MAJOR, ChordType.HALF_DIM7, ChordType.AUG_MAJ7)) for i in range(num_inv(t) if inv else 1)
                                         if not inv or i < num_inv(rs[t])]) if c == 0 else (ChordType.MIN_MIN7, 0)
        ch = mk_chord(15, 15, key, ct, iv, Fraction(1), pt)
        ch.root = root
        chords.append(ch)
        ps = [None if s is None else first + s for s in size]
        mat = []
        for i, p in enumerate(ps):
            if p is None:
                mat.append([0] * len(mk_note(15, pt).to_vec()))
            else:
                nt = mk_note(15, pt)
                nt.pitch_class = p
                v = list(nt.to_vec())
                v[-1] = ctx.real(f"w{c}_{i}", 0, 2 if len(sizes) == 1 else Fraction(1, 2))                  # relative position etc. are arbitrary
                mat.append(v)
        mats.append(matrix(ctx, mat))
        notes.append(ps)
    saved = [m.copy() for m in mats]
    kw = {} if default else dict(transposition_range=(lo, hi) if lo else [lo, hi])
    cut = max(1, len(chords) // 2)
    pieces = [P(chords=chords[:cut], note_inputs=mats[:cut])] + ([P(chords=chords[cut:], note_inputs=mats[cut:])] if cut < len(chords) else [])
    dset = ds.ChordClassificationDataset(pieces, reduction=r, use_inversions=inv, **kw)
    k = hi - lo + 1
    ctx.check(len(dset) == k * len(sizes), "not one item per chord and transposition")
    for j in [0] + list(range(k * len(sizes)))[::-1]:
        item = dset[j]
        c, t = j // k, lo + j % k
        ch, ps = chords[c], notes[c]
        longest = max(len(x) for x in mats)
        rt = rs[ch.chord_type]
        tones = [tone(rt, pt, i) for i in range(num_inv(rt))]
        iv = ch.inversion if inv else 0
        fits = [0 <= ch.root + t + x < n for x in ([0, tones[iv]] if pt == TPC else [0])]      # root and bass
        ok = all(fits) and all(0 <= p + t < n for p in ps if p is not None)
        dropped = EQ(item["targets"], -1)
        ctx.check(EQ(ok, NOT(dropped)), "an item was dropped although everything stays in range, or kept although it does not")
        it = item["intermediate_targets"]
        if dropped:
            ctx.check(item["input_lengths"] == -1, "a dropped item has an input length")
            ctx.check(AND([EQ(x, 0) for x in np.asarray(item["inputs"]).flat]), "a dropped item has inputs")
            ctx.check(AND(EQ(it["bass"], -1), EQ(it["root"], -1), AND([EQ(x, 0) for x in it["pitches"]]), len(it["pitches"]) == n), "a dropped item has pitch targets")
            ctx.cover("dropped")
            continue
        ctx.check(EQ(item["targets"], label_index(ch.chord_type, ch.root + t, ch.inversion, n, rs, inv)), "target is not the index of the (transposed, reduced) chord")
        wrap = (lambda x: x) if pt == TPC else (lambda x: x % 12)
        ctx.check(EQ(it["root"], ch.root + t), "root target wrong")
        ctx.check(EQ(it["bass"], wrap(ch.root + t + tones[iv])), "bass target wrong")
        for p in range(n):
            ctx.check(EQ(it["pitches"][p], ite(OR([EQ(wrap(ch.root + t + x), p) for x in tones]), 1, 0)), "pitch targets wrong")
        want = []
        for p, row in zip(ps, saved[c]):
            row = list(row)
            if p is not None:
                row[p] = 0
                row[p + t] = 1
            want.append(row)
        same_rows(ctx, item["inputs"], want, "inputs", longest)
        ctx.check(item["input_lengths"] == len(ps), "input length wrong")
        ctx.cover("transposed" if t else "original")
    for a, b in zip(saved, mats):
        ctx.check(AND([EQ(x, y) for x, y in zip(a.flat, b.flat)]), "the stored inputs were modified")


def keyed_piece(ctx, pt, p, sections, dur):
    """a piece with the given number of chords per key; chords with arbitrary durations"""
    tonics, modes = ctx.choice("tonics", [([15, 18, 12, 10], [MAJOR, MINOR, MAJOR, MINOR]), ([10, 18, 12, 17], [MINOR, MINOR, MAJOR, MAJOR]),
                                          ([16, 16, 17, 16], [MAJOR, MINOR, MINOR, MAJOR])]) if p == 0 else ([12, 14, 20, 18], [MINOR, MAJOR, MAJOR, MINOR])
    keys = [mk_key(tonics[i], modes[i], pt) for i in range(len(sections))]
    pool = [(0, 0, ChordType.MAJOR, 0), (1, 5, ChordType.MAJ_MIN7, 1), (-4, -8, ChordType.AUG_MAJ7, 2), (4, 4, ChordType.DIM7, 0), (-1, -4, ChordType.MINOR, 1), (8, 6, ChordType.HALF_DIM7, 3)]
    first = ctx.choice("first", [0, 1, 3]) if p == 0 else 2
    chords, key_of, changes, j = [], [], [], 0
    for key, n in zip(keys, sections):
        changes.append(len(chords))
        for _ in range(n):
            r, b, ct, inv = pool[(j + first) % len(pool)]
            tonic = tonics[len(changes) - 1]
            chords.append(mk_chord(tonic + r, tonic + b, key, ct, inv, dur(f"dur{p}_{j}"), pt, levels=(j % 4, (j + 1) % 4)))
            key_of.append(key)
            j += 1
    return P(chords=chords, keys=keys, key_changes=changes), chords, key_of, keys, changes


def spec_rows(chords, key_of, changes, pt, pad, red, inv, upto):
    out = []
    for i in range(upto):
        ch = key_step(key_of[i - 1], key_of[i], pt) if i and i in changes else None
        out.append(chord_row(chords[i], key_of[i], pt, pad, red, inv, ch))
    return out


def sequence(ctx, pt, red_in, red_out, inv_in, inv_out, pitch_based, pieces, late):
    ri, ris = REDS[red_in]
    ro, ros = REDS[red_out]
    pieces = ctx.choice("layout", pieces)
    built = [keyed_piece(ctx, pt, p, s, lambda n: ctx.real(n, 0, 16)) for p, s in enumerate(pieces)]
    for _, chords, *_ in built:
        for c in chords:
            if inv_out and c.inversion >= num_inv(ros[c.chord_type]):
                c.inversion = 0
    kw = dict(input_reduction=ri, output_reduction=ro, use_inversions_input=inv_in, use_inversions_output=inv_out, pitch_based=pitch_based)
    if late:
        # "safe to change this after initialization"
        dset = ds.ChordSequenceDataset([b[0] for b in built])
        for k, v in kw.items():
            setattr(dset, k, v)
    else:
        dset = ds.ChordSequenceDataset([b[0] for b in built], **kw)
    ctx.check(len(dset) == len(pieces), "not one item per piece")
    longest = max(sum(s) for s in pieces)
    for j in list(range(len(pieces))) + [0]:
        _, chords, key_of, keys, changes = built[j]
        item = dset[j]
        same_rows(ctx, item["inputs"], spec_rows(chords, key_of, changes, pt, False, ris, inv_in, len(chords)), "inputs", longest)
        ctx.check(item["input_lengths"] == len(chords) and item["target_lengths"] == len(chords), "length wrong")
        t = item["targets"]
        ctx.check(len(t) == longest, "number of targets wrong")
        n = 29 if pt == TPC else 12
        for i in range(longest):
            if not pitch_based:
                want = 0 if i >= len(chords) else label_index(chords[i].chord_type, rel_root(chords[i], key_of[i], pt), chords[i].inversion, n, ros, inv_out)
                ctx.check(EQ(t[i], want), "target is not the index of the chord relative to its key")
                ctx.cover("index target")
                continue
            ctx.check(len(t[i]) == n, "wrong number of pitches")
            if i == 0 or i >= len(chords) or i in changes:
                ctx.check(AND([EQ(x, -100) for x in t[i]]), "the first chord of a key is measured")
                ctx.cover("not measured")
            else:
                ct = ros[chords[i].chord_type]
                pos = rel_root(chords[i], key_of[i], pt)
                tones = [pos + tone(ct, pt, x) for x in range(num_inv(ct))]
                if pt == MIDI:
                    tones = [x % 12 for x in tones]
                ctx.check(AND([EQ(x, 1 if q in tones else 0) for q, x in enumerate(t[i])]), "pitch target wrong")
                ctx.cover("pitch target")


def keyed(ctx, cls, pt, red, inv, pieces, padded=False, late=False):
    r, rs = REDS[red]
    pieces = ctx.choice("layout", pieces)
    built = [keyed_piece(ctx, pt, p, s, lambda n: ctx.real(n, 0, 16)) for p, s in enumerate(pieces)]
    if late:
        dset = cls([b[0] for b in built])
        dset.reduction, dset.use_inversions = r, inv
    else:
        dset = cls([b[0] for b in built], reduction=r, use_inversions=inv)
    if padded:
        dset.pad()
    check_keyed(ctx, dset, cls, built, pt, rs, inv)


def check_keyed(ctx, dset, cls, built, pt, rs, inv):
    seq = cls is ds.KeySequenceDataset
    items = [(p, k) for p, b in enumerate(built) for k in range(len(b[3]) - (1 if seq else 0))]
    ctx.check(len(dset) == len(items), "not one item per key change" if seq else "not one item per key")
    widths = set()
    fwd = list(range(len(items)))
    for j in ctx.choice("order", [fwd + fwd[:1], fwd[::-1] + fwd[-1:]]):
        p, k = items[j]
        _, chords, key_of, keys, changes = built[p]
        item = dset[j]
        last = k == len(keys) - 1
        end = len(chords) if last else changes[k + 1]
        rows = spec_rows(chords, key_of, changes, pt, True, rs, inv, end)
        if not last:
            rows.append(chord_row(chords[end], keys[k], pt, True, rs, inv))      # the first chord of the next key, still heard in this key
        ctx.check(item["input_lengths"] == len(rows), "input length wrong")
        got = item["inputs"]
        ctx.check(len(got) >= len(rows), "not enough rows")
        for g, w in zip(got, rows):
            ctx.check(same_row(ctx, list(g), w), "an input row up to the key change differs")
        widths.add(len(got))
        if seq:
            step, mode = key_step(keys[k], keys[k + 1], pt)
            ctx.check(EQ(item["targets"], mode.value * (29 if pt == TPC else 12) + step), "target is not the index of the key change")
        else:
            t = item["targets"]
            ctx.check(len(t) == len(got), "not one target per input row")
            for i in range(len(t)):
                want = 1 if (i == end and not last) else 0 if changes[k] < i < end else -100
                ctx.check(EQ(t[i], want), "key change target wrong")
        ctx.cover("last key" if last else "key change")
    ctx.check(len(widths) == 1, "items of different shapes")


class FakeState:
    """asks for no search: only the input of the network matters here"""
    ktm_hidden_state = ksm_hidden_state = csm_hidden_state = csm_log_prior = None

    def __init__(self, rows):
        self.rows = rows

    def can_key_transition(self):
        return True

    def get_ktm_input(self, *a, **k):
        return self.rows.copy()

    get_ksm_input = get_csm_input = get_ktm_input


def inference(ctx, which, pt, red, inv):
    """the networks see the search's chords reduced exactly as in training"""
    from props import jm as J
    r, rs = REDS[red]
    models = J.components(pt)
    net = models[which]
    if which == "csm":
        net.input_reduction, net.use_input_inversions = r, inv
        if ctx.flag("output too"):
            net.output_reduction, net.use_output_inversions = TRIAD_REDUCTION, False
    else:
        net.reduction, net.use_inversions = r, inv
    pad = which != "csm"
    seen = []

    def run(batch):
        x = np.asarray(batch["inputs"])
        seen.append((x, batch.get("input_lengths")))
        z = stubs.from_numpy(np.zeros((1, len(x), 1)))
        return stubs.from_numpy(np.zeros((len(x), 1))), (z, z)

    hid = lambda n: (np.zeros((1, n, 1)), np.zeros((1, n, 1)))
    for name, f in (("init_hidden", hid), ("run_one_step", run), ("get_output", run)):
        object.__setattr__(net, name, f)
    piece, chords, key_of, keys, changes = keyed_piece(ctx, pt, 0, (1, 2), lambda n: ctx.real(n, 0, 16))
    raw = spec_rows(chords, key_of, changes, pt, pad, {t: t for t in TYPES}, True, 3)
    groups = [[0], [1], [2]] if which != "ksm" else [[0, 1], [2]]
    states = [FakeState(matrix(ctx, [raw[i] for i in g])) for g in groups]
    m = J.joint(models)
    m.duration_cache = m.onset_cache = m.onset_level_cache = None
    if which == "csm":
        m.run_csm_batched(states)
    elif which == "ktm":
        m.get_key_change_probs(states, hidden_only=True)
    else:
        m.get_key_change_states(states, hidden_only=True)
    want = spec_rows(chords, key_of, changes, pt, pad, rs, inv, 3)
    got = [row for x, _ in seen for row in x]
    ctx.check(len(got) == len(groups), "not one network input per state")
    for g, rows in zip(groups, got):
        same_rows(ctx, rows, [want[i] for i in g], f"{which} input")
    ctx.cover("network input")


# chords per key of each piece
LAYOUTS = [[(2, 1), (1, 2, 2)], [(1, 1, 3), (2,)], [(2, 1, 1), (3,), (1, 2)], [(1, 2), (2, 3)], [(2, 2, 1, 1)], [(1,), (4, 1)], [(1, 1, 1, 1), (1, 1, 1), (3, 2)], [(6,), (1, 1)]]


def cases(tier):
    out = []
    full = tier == "thorough"
    for pt in (TPC, MIDI):
        out.append(Case(f"transition_{pt.name}", transition, pt=pt, sizes=(2, 3), np_objects=True, np_ints=True, covers=("change", "no change")))
        out.append(Case(f"transition_dummy_{pt.name}", transition, pt=pt, sizes=(2, 1), np_objects=True, np_ints=True, dummy=True))
        for red in REDS:
            for inv in (True, False):
                out.append(Case(f"classification_{pt.name}_{red}_{inv}", classification, pt=pt, red=red, inv=inv, sizes=[(None, 0)], np_objects=True, full=full,
                                covers=("dropped", "transposed", "original")))
        out.append(Case(f"classification_two_{pt.name}", classification, pt=pt, red="none", inv=True, sizes=[(None, 0), (0, 1, None)], np_objects=True,
                        covers=("dropped", "transposed", "original")))
        for ri, ro, ii, io in (("none", "none", True, True), ("triad", "none", False, True), ("none", "triad", True, False), ("one", "one", True, False), ("triad", "triad", False, True)):
            for pb in (False, True):
                for late in (False, True) if full or ri == "triad" else (False,):
                    out.append(Case(f"sequence_{pt.name}_{ri}_{ro}_{ii}_{io}_{pb}_{late}", sequence, pt=pt, red_in=ri, red_out=ro, inv_in=ii, inv_out=io, pitch_based=pb,
                                    pieces=LAYOUTS[:3] if not full else LAYOUTS, late=late, np_objects=True, floats=True, covers=("pitch target", "not measured") if pb else ("index target",)))
        for cls in (ds.KeyTransitionDataset, ds.KeySequenceDataset):
            for red, inv, pad, late in (("none", True, False, False), ("none", True, True, False), ("triad", False, False, False), ("one", True, True, True)):
                out.append(Case(f"{cls.__name__}_{pt.name}_{red}_{inv}_{pad}", keyed, cls=cls, pt=pt, red=red, inv=inv, padded=pad, late=late, np_objects=True, np_ints=True, floats=True,
                                pieces=LAYOUTS if full else LAYOUTS[:5], covers=("key change",) + (("last key",) if cls is ds.KeyTransitionDataset else ())))
    for which in ("ktm", "ksm", "csm"):
        for pt in (TPC, MIDI):
            for red, inv in (("none", True), ("triad", True), ("none", False), ("one", False)):
                out.append(Case(f"inference_{which}_{pt.name}_{red}_{inv}", inference, which=which, pt=pt, red=red, inv=inv, np_objects=True, floats=True, covers=("network input",)))
    return out
