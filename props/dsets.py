"""Pieces (through the Piece interface) and the specification of the datasets' items."""
from props.common import *
from harmonic_inference.data.chord import Chord
from harmonic_inference.data.key import Key
from harmonic_inference.data.note import Note
from harmonic_inference.data.piece import Piece


class P(Piece):
    def __init__(self, notes=(), durs=(), changes=(), chords=(), keys=(), key_changes=(), note_inputs=()):
        super().__init__(PieceType.SCORE)
        self.n, self.d, self.cc, self.c, self.k, self.kc, self.ni = notes, durs, changes, chords, keys, key_changes, note_inputs

    def get_inputs(self):
        return arr(self.n)

    def get_duration_cache(self):
        return arr(self.d)

    def get_chord_change_indices(self):
        return np.array(self.cc, dtype=int)

    def get_chords(self):
        return arr(self.c)

    def get_keys(self):
        return arr(self.k)

    def get_key_change_indices(self):
        return np.array(self.kc, dtype=int)

    def get_chord_note_inputs(self, window=2, ranges=None, change_indices=None):
        return list(self.ni)


def arr(xs):
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return a


def pitch(p, pt):
    """a tonal pitch (C = 15) in the representation"""
    return p if pt == TPC else (7 * (p - 15)) % 12


def mk_note(p, pt, bass_octave=4):
    return Note(pitch(p, pt), bass_octave, (0, Fraction(0)), 3, Fraction(1), (0, Fraction(1)), 2, pt)


def mk_key(tonic, mode, pt):
    t = pitch(tonic, pt)
    return Key(t, t, t, mode, mode, mode, pt)


def mk_chord(root, bass, key, ct, inv, dur, pt, levels=(3, 2)):
    z = Fraction(0)
    return Chord(pitch(root, pt), pitch(bass, pt), key.relative_tonic, key.relative_mode, ct, inv, (0, z), levels[0], (1, z), levels[1], dur, pt)


def rel_root(c, key, pt):
    """spec: root relative to a key, as a vocabulary position"""
    return c.root - key.relative_tonic + 14 if pt == TPC else (c.root - key.relative_tonic) % 12


def label_index(ct, pos, inv, n, red, use_inv):
    """spec: position in the vocabulary (types in order, then roots, then inversions)"""
    base = 0
    tt = red[ct]
    for t in TYPES:
        if t not in red.values():
            continue
        w = num_inv(t) if use_inv else 1
        if t == tt:
            return base + pos * w + (inv if use_inv else 0)
        base += n * w
    raise AssertionError


def chord_row(c, key, pt, pad, red, use_inv, change=None):
    """spec: model input of a chord in a key; change: (interval, mode) of a key change at this chord"""
    n = 12 if pt == MIDI else 29 + (10 if pad else 0)
    off = 0 if pt == MIDI else 14 + (5 if pad else 0)
    r = c.root - key.relative_tonic + off if pt == TPC else (c.root - key.relative_tonic) % 12
    b = c.bass - key.relative_tonic + off if pt == TPC else (c.bass - key.relative_tonic) % 12
    hot = lambda w, i: [1 if j == i else 0 for j in range(w)]
    v = hot(n, r) + hot(12, red[c.chord_type].value) + hot(n, b) + hot(4, c.inversion if use_inv else 0) + hot(4, c.onset_level) + hot(4, c.offset_level)
    v += [c.duration, 1 if key.relative_mode == MAJOR else 0]
    w = 29 if pt == TPC else 12
    kv = [0] * (w + 2)
    if change is not None:
        kv[change[0]] = 1
        kv[w + change[1].value] = 1
    return v + kv + [0 if change is None else 1]


def key_step(a, b, pt):
    d = b.relative_tonic - a.relative_tonic
    return (d + 14 if pt == TPC else d % 12), b.relative_mode


def same_row(ctx, got, want):
    return AND([len(got) == len(want)] + [close(ctx, g, w) for g, w in zip(got, want)])


def same_rows(ctx, got, want, what, length=None):
    """got (padded) holds exactly the wanted rows, then zeros"""
    ctx.check(len(got) >= len(want) and (length is None or len(got) == length), f"{what}: wrong number of rows")
    for g, w in zip(got, want):
        ctx.check(same_row(ctx, list(g), w), f"{what}: a row differs")
    for g in got[len(want):]:
        ctx.check(AND([EQ(x, 0) for x in g]), f"{what}: padding is not zero")
