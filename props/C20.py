from props.common import *
import harmonic_inference.utils.eval_utils as eu
import harmonic_inference.data.piece as P
from harmonic_inference.data.note import Note
from harmonic_inference.data.chord import Chord
from harmonic_inference.data.key import Key
from harmonic_inference.utils.beam_search_utils import State
from harmonic_inference.data.data_types import ALL_ONE_TYPE_REDUCTION, NO_REDUCTION, TRIAD_REDUCTION

LEVEL = "model_checking"
B = "harmonic_inference.utils.eval_utils:"
TARGETS = [B + f for f in ("evaluate_chords", "evaluate_keys", "evaluate_chords_and_keys_jointly", "get_chord_distance", "get_key_distance")] + [
    "harmonic_inference.utils.harmonic_utils:get_chord_from_one_hot_index", "harmonic_inference.utils.harmonic_utils:get_key_from_one_hot_index",
    "harmonic_inference.data.chord:Chord.get_one_hot_index", "harmonic_inference.data.key:Key.get_one_hot_index", "harmonic_inference.utils.beam_search_utils:State.get_chords"]
BOUNDS = ("distances: every root, inversion, tonic, pair of chord types, mode and reduction; accuracies: pieces of 1-3 inputs (thorough: 4) with arbitrary durations "
          "(zero included), every segmentation of ground truth and estimate, labels from pools that differ in root only, type only, inversion only, or not at all")
OUTSIDE = "inputs before the first ground-truth label; longer pieces; ground truth in another pitch type than the estimate; floating-point rounding of the sums"

REDS = {"none": (NO_REDUCTION, {t: t for t in TYPES}), "triad": (TRIAD_REDUCTION, TRIAD), "one": (ALL_ONE_TYPE_REDUCTION, ONE)}


def chord_index(pt, root, ct, inv):
    """spec: types in order, then roots, then inversions"""
    return sum(N[pt] * num_inv(t) for t in TYPES[:TYPES.index(ct)]) + num_inv(ct) * root + inv


def key_index(pt, tonic, mode):
    return (N[pt] if mode == MINOR else 0) + tonic


def chord_distance(ctx, pt, red):
    red_real, red_spec = REDS[red]
    g, e = ctx.choice("gt", TYPES), ctx.choice("est", TYPES)
    gr, er = ctx.int("gr", 0, N[pt] - 1), ctx.int("er", 0, N[pt] - 1)
    gi, ei = ctx.int("gi", 0, num_inv(g) - 1), ctx.int("ei", 0, num_inv(e) - 1)
    use = ctx.flag("use_inversion")
    d = eu.get_chord_distance(gr, g, gi, er, e, ei, use_inversion=use, reduction=red_real)
    same = AND(EQ(gr, er), red_spec[g] == red_spec[e], True if not use else EQ(gi, ei))
    ctx.check(EQ(d, ite(same, 0, 1)), "chord distance is not 0 exactly for matching chords and 1 otherwise")
    if bool(same):
        ctx.cover("match")
    if red == "none" and use:
        d2 = eu.get_chord_distance(gr, g, gi, er, e, ei)
        ctx.check(EQ(d2, ite(same, 0, 1)), "default chord distance does not compare full chords")


def key_distance(ctx):
    g, e = ctx.choice("gm", [MAJOR, MINOR]), ctx.choice("em", [MAJOR, MINOR])
    gt, et = ctx.int("gt", 0, 34), ctx.int("et", 0, 34)
    tonic_only = ctx.flag("tonic_only")
    d = eu.get_key_distance(gt, g, et, e, tonic_only=tonic_only)
    same = AND(EQ(gt, et), True if tonic_only else g == e)
    ctx.check(EQ(d, ite(same, 0, 1)), "key distance is not 0 exactly for matching keys and 1 otherwise")
    if not tonic_only:
        ctx.check(EQ(eu.get_key_distance(gt, g, et, e), ite(same, 0, 1)), "default key distance ignores the mode")
    if bool(same):
        ctx.cover("match")


def segmentation(ctx, name, n):
    """changes of 1..n segments of n inputs, the first at 0"""
    return [0] + [i for i in range(1, n) if ctx.flag(f"{name}{i}")]


def labelling(changes, labels, n):
    out = []
    for i in range(n):
        out.append(labels[max(k for k, c in enumerate(changes) if c <= i)])
    return out


POOL = {
    "root": [(15, ChordType.MAJOR, 0), (16, ChordType.MAJOR, 0)],
    "type": [(15, ChordType.MAJOR, 1), (15, ChordType.MAJ_MIN7, 1), (15, ChordType.MINOR, 1)],
    "inv": [(3, ChordType.DIM7, 0), (3, ChordType.DIM7, 3)],
    "mixed": [(0, ChordType.MAJOR, 0), (34, ChordType.AUG_MAJ7, 3), (0, ChordType.MIN_MIN7, 0)],
    "first": [(0, ChordType.MAJOR, 0), (0, ChordType.MAJOR, 1), (20, ChordType.AUG_MIN7, 2)],
}
KEYS = [(15, MAJOR), (15, MINOR), (12, MINOR), (0, MAJOR)]


def accuracy(ctx, what, n, pool, pt=TPC):
    pool = [(r % 12 if pt == MIDI else r, t, i) for r, t, i in POOL[pool]]
    kpool = [(r % 12 if pt == MIDI else r, m) for r, m in KEYS[:3]]
    if what == "keys" and n == 3:
        kpool = kpool[:2]
    R = lambda x: REAL(Fraction(x))
    gtc, esc = segmentation(ctx, "g", n), segmentation(ctx, "e", n)
    d = [ctx.real(f"d{i}", 0, 8) for i in range(n)]
    total = d[0]
    for x in d[1:]:
        total = total + x
    ctx.assume(total > 0)
    # ground truth
    if what in ("chords", "joint"):
        g_ch = [ctx.choice(f"gc{i}", pool) for i in range(len(gtc))]
        e_ch = [ctx.choice(f"ec{i}", pool) for i in range(len(esc))]
    else:
        g_ch, e_ch = [pool[0]] * len(gtc), [pool[0]] * len(esc)
    kidx = list(range(len(gtc)))
    if what == "joint":
        # keys change at some of the chord changes
        kidx = [0] + [i for i in range(1, len(gtc)) if ctx.flag(f"kc{i}")]
        g_k = [ctx.choice(f"gk{i}", kpool[1:]) for i in range(len(kidx))]
        e_k = [ctx.choice(f"ek{i}", kpool[:2])for i in range(len(esc))]
    elif what == "keys":
        g_k = [ctx.choice(f"gk{i}", kpool) for i in range(len(gtc))]
        e_k = [ctx.choice(f"ek{i}", kpool) for i in range(len(esc))]
    else:
        g_k, e_k, kidx = [kpool[0]], [kpool[0]] * len(esc), [0]
    notes = [Note(15, 4, (0, R(i)), 3, R(1), (0, R(i + 1)), 3, TPC) for i in range(n)]
    chords = [Chord(r, r, kpool[0][0], MAJOR, t, i, (0, R(0)), 3, (0, R(1)), 3, R(1), pt) for r, t, i in g_ch]
    keys = [Key(t, t, t, m, m, m, pt) for t, m in g_k]
    piece = P.ScorePiece(None, notes, chords, keys, gtc, [(c, n) for c in gtc], kidx)
    piece.duration_cache = np.array(d, dtype=object)
    s = State(key=0)
    ends = esc[1:] + [n]
    for (r, t, i), (kt, km), e in zip(e_ch, e_k, ends):
        s = State(chord=chord_index(pt, r, t, i), key=key_index(pt, kt, km), change_index=e, prev_state=s)

    gc, ec = labelling(gtc, g_ch, n), labelling(esc, e_ch, n)
    gk, ek = labelling([gtc[i] for i in kidx], g_k, n), labelling(esc, e_k, n)
    settings = [(u, r, k) for u in (True, False) for r in REDS for k in (True, False)]
    if what == "keys":
        settings = [(True, "none", k) for k in (True, False)]
    elif what == "chords":
        settings = [s_ for s_ in settings if not s_[2]]
        if n == 3:
            settings = [(True, "none", False), (False, "triad", False)]
    else:
        settings = [(True, "none", False), (False, "triad", True), (True, "one", False), (False, "none", True)]
    for use, red, tonic_only in settings:
        red_real, red_spec = REDS[red]
        if what == "chords":
            got = eu.evaluate_chords(piece, s, pt, use_inversion=use, reduction=red_real)
        elif what == "keys":
            got = eu.evaluate_keys(piece, s, pt, tonic_only=tonic_only)
        else:
            got = eu.evaluate_chords_and_keys_jointly(piece, s, pt, pt, use_inversion=use, chord_reduction=red_real, tonic_only=tonic_only)
        want = R(0)
        for i in range(n):
            c = gc[i][0] == ec[i][0] and red_spec[gc[i][1]] == red_spec[ec[i][1]] and (not use or gc[i][2] == ec[i][2])
            k = gk[i][0] == ek[i][0] and (tonic_only or gk[i][1] == ek[i][1])
            if (c or what == "keys") and (k or what == "chords"):
                want = want + d[i]
        ctx.check(close(ctx, got * total, want, 1e-6), f"{what} accuracy is not the share of the duration labelled correctly")
    if gc != ec or gk != ek:
        ctx.cover("wrong somewhere")
    ctx.cover("accuracy")


def defaults(ctx):
    """without options: full chords, full keys"""
    n = 2
    d = [ctx.real(f"d{i}", 0, 8) for i in range(n)]
    ctx.assume(d[0] + d[1] > 0)
    R = lambda x: REAL(Fraction(x))
    notes = [Note(15, 4, (0, R(i)), 3, R(1), (0, R(i + 1)), 3, TPC) for i in range(n)]
    g = ctx.choice("g", [(15, ChordType.MAJ_MIN7, 1), (15, ChordType.MAJOR, 0)])
    e = ctx.choice("e", [(15, ChordType.MAJOR, 1), (15, ChordType.MAJ_MIN7, 1), (15, ChordType.MAJOR, 0), (15, ChordType.MAJ_MIN7, 0)])
    gk, ek = ctx.choice("gk", KEYS[:2]), ctx.choice("ek", KEYS[:2])
    piece = P.ScorePiece(None, notes, [Chord(g[0], g[0], 15, MAJOR, g[1], g[2], (0, R(0)), 3, (0, R(1)), 3, R(1), TPC)], [Key(gk[0], gk[0], gk[0], gk[1], gk[1], gk[1], TPC)], [0], [(0, n)], [0])
    piece.duration_cache = np.array(d, dtype=object)
    s = State(chord=chord_index(TPC, *e), key=key_index(TPC, *ek), change_index=n, prev_state=State(key=0))
    c, k, j = eu.evaluate_chords(piece, s, TPC), eu.evaluate_keys(piece, s, TPC), eu.evaluate_chords_and_keys_jointly(piece, s, TPC, TPC)
    ctx.check(AND(close(ctx, c, int(g == e), 1e-6), close(ctx, k, int(gk == ek), 1e-6), close(ctx, j, int(g == e and gk == ek), 1e-6)), "default accuracies do not compare full labels")
    ctx.cover("defaults")


def cases(tier):
    out = [Case(f"chord_distance_{pt.name}_{r}", chord_distance, covers=["match"], pt=pt, red=r) for pt in (TPC, MIDI) for r in REDS]
    out.append(Case("key_distance", key_distance, covers=["match"]))
    out.append(Case("defaults", defaults, covers=["defaults"], np_objects=True, floats=True))
    for pool in POOL:
        out.append(Case(f"chords_2_{pool}", accuracy, covers=["accuracy", "wrong somewhere"], np_objects=True, floats=True, what="chords", n=2, pool=pool))
    out.append(Case("chords_3_root", accuracy, covers=["accuracy", "wrong somewhere"], np_objects=True, floats=True, weight=5, what="chords", n=3, pool="root"))
    out.append(Case("chords_1_type", accuracy, covers=["accuracy", "wrong somewhere"], np_objects=True, floats=True, what="chords", n=1, pool="type"))
    out.append(Case("chords_2_MIDI", accuracy, covers=["accuracy", "wrong somewhere"], np_objects=True, floats=True, what="chords", n=2, pool="type", pt=MIDI))
    for n in (1, 2, 3):
        out.append(Case(f"keys_{n}", accuracy, covers=["accuracy", "wrong somewhere"], np_objects=True, floats=True, weight=5 if n == 3 else 1, what="keys", n=n, pool="root"))
    out.append(Case("keys_2_MIDI", accuracy, covers=["accuracy", "wrong somewhere"], np_objects=True, floats=True, what="keys", n=2, pool="root", pt=MIDI))
    for pool in ("root", "inv"):
        out.append(Case(f"joint_2_{pool}", accuracy, covers=["accuracy", "wrong somewhere"], np_objects=True, floats=True, weight=3, what="joint", n=2, pool=pool))
    if tier == "thorough":
        out.append(Case("chords_3_inv", accuracy, covers=["accuracy"], np_objects=True, floats=True, weight=9, what="chords", n=3, pool="inv"))
        out.append(Case("chords_3_type", accuracy, covers=["accuracy"], np_objects=True, floats=True, weight=9, what="chords", n=3, pool="type"))
        out.append(Case("joint_2_type", accuracy, covers=["accuracy"], np_objects=True, floats=True, weight=9, what="joint", n=2, pool="type"))
    return out
