"""Shared vocabulary of the harnesses. Everything here is specification, not code under test."""
import itertools
from fractions import Fraction

import numpy as np

from symx import engine as E
from symx.engine import AND, EQ, IMPLIES, NOT, OR, REAL, ite
from symx.runner import Case

from harmonic_inference.data.data_types import ChordType, KeyMode, PieceType, PitchType

TPC, MIDI = PitchType.TPC, PitchType.MIDI
MAJOR, MINOR = KeyMode.MAJOR, KeyMode.MINOR

# --- specification constants (stated independently of harmonic_constants) -------------
N = {TPC: 35, MIDI: 12}          # size of the pitch alphabets
C = {TPC: 15, MIDI: 0}           # the pitch C
LETTERS = "FCGDAEB"              # letter of TPC pitch p is LETTERS[p % 7]
FIFTHS = {l: i - 1 for i, l in enumerate(LETTERS)}  # fifths above C of each letter
REL_MIN, REL_MAX, REL_EXTRA = -14, 15, 5            # relative chord roots (max exclusive)
KEY_MIN, KEY_MAX = -14, 15                          # key-change intervals (max exclusive)

# chord tones in (fifths above the root), ascending from the root
TONES_FIFTHS = {
    ChordType.MAJOR: (0, 4, 1),
    ChordType.MINOR: (0, -3, 1),
    ChordType.DIMINISHED: (0, -3, -6),
    ChordType.AUGMENTED: (0, 4, 8),
    ChordType.MAJ_MAJ7: (0, 4, 1, 5),
    ChordType.MAJ_MIN7: (0, 4, 1, -2),
    ChordType.MIN_MAJ7: (0, -3, 1, 5),
    ChordType.MIN_MIN7: (0, -3, 1, -2),
    ChordType.DIM7: (0, -3, -6, -9),
    ChordType.HALF_DIM7: (0, -3, -6, -2),
    ChordType.AUG_MIN7: (0, 4, 8, -2),
    ChordType.AUG_MAJ7: (0, 4, 8, 5),
}
TYPES = list(ChordType)
TRIAD = {t: TYPES[{0: 0, 1: 1, 2: 2, 3: 3, 4: 0, 5: 0, 6: 1, 7: 1, 8: 2, 9: 2, 10: 3, 11: 3}[t.value]] for t in TYPES}
ONE = {t: ChordType.MAJOR for t in TYPES}


def fifths_to_semitones(f):
    return (7 * f) % 12


def tpc_name(p):
    """Spec name of concrete TPC pitch p (any integer)."""
    acc = (p - 14) // 7
    return LETTERS[p % 7] + ("#" * acc if acc > 0 else "b" * -acc)


def tone(chord_type, pitch_type, k):
    f = TONES_FIFTHS[chord_type][k]
    return f if pitch_type == TPC else fifths_to_semitones(f)


def num_inv(t):
    return len(TONES_FIFTHS[t])


def raises(exc, fn, *a, **k):
    """-> (raised?, value)."""
    try:
        return False, fn(*a, **k)
    except exc:
        return True, None


def pyint(x):
    return x


def close(ctx, a, b, tol=2e-3):
    """Equality of numbers: exact in the encoding, up to float16 storage precision on replay."""
    if ctx.symbolic:
        if E.is_sym(a) != E.is_sym(b) and isinstance(a if E.is_sym(b) else b, (float, np.floating)):
            return AND(a - b <= Fraction(1, 10**9), b - a <= Fraction(1, 10**9))
        return EQ(a, b) if (E.is_sym(a) or E.is_sym(b)) else abs(float(a) - float(b)) <= tol * max(1.0, abs(float(b)))
    a, b = float(a), float(b)
    return abs(a - b) <= tol * max(1.0, abs(b))


def one_hot(ctx, vec, index):
    """vec is exactly one-hot at (possibly symbolic) index"""
    return AND([EQ(v, ite(EQ(index, j), 1, 0)) for j, v in enumerate(vec)])
