from props.common import *
import contextlib
import os
import sys
import tempfile
from collections import OrderedDict, defaultdict
from pathlib import Path
import music21
import pandas as pd
import harmonic_inference.data.piece as P
import harmonic_inference.data.note as note_mod
from harmonic_inference.data.note import Note
from harmonic_inference.data.chord import Chord
from harmonic_inference.data.key import Key
from harmonic_inference.data.data_types import NO_REDUCTION
from symx.engine import SymReal

LEVEL = "model_checking"
TARGETS = ["harmonic_inference.data.piece:" + f for f in ("get_measures_df_from_music21_score", "get_notes_from_music_xml", "get_score_piece_from_music_xml", "get_range_start")] + [
    "harmonic_inference.data.note:Note.from_music21", "harmonic_inference.data.chord:Chord.from_labels_csv_row", "harmonic_inference.data.key:Key.from_labels_csv_row"]
BOUNDS = ("1-5 measures with symbolic pickup length and split point, four metres, changes of metre, first endings of 1-2 measures; 1-3 notes or chord members at symbolic positions with symbolic durations reaching over up to 4 measures; "
          "1-3 labels at symbolic positions (some before the start or empty), 10 keys, all degrees with up to 2 accidentals, applied degrees, 12 chord types and inversions 0..3 by case; both pitch types")
OUTSIDE = ("music21's parser, its flattening of parts and joining of ties (stand-ins with the attributes the code reads; their shape was compared with real music21 scores); measure numbers that repeat; "
           "metre changes inside a skipped ending; metrical levels themselves (C09: here the level is checked to be that of the right beat and metre); applied degrees whose mode the code declares unknown")


# --- stand-ins for music21 objects ---------------------------------------------------------------
class O:
    def __init__(self, **k):
        self.__dict__.update(k)


class M21Note(O):
    isChord = False


class Measure:
    def __init__(self, number, quarters, ts=None, notes=()):
        self.measureNumber = self.number = number
        self.duration = O(quarterLength=quarters)
        self.timeSignature = None if ts is None else O(ratioString=ts)
        self._notes = list(notes)

    def recurse(self):
        return O(notes=list(self._notes))


class Score:
    """notes of a tied-and-parted score only appear after flattening and joining ties"""

    def __init__(self, measures, brackets=(), flattened=False, tied=True):
        self.ms, self.brackets, self.flattened, self.tied = measures, brackets, flattened, tied

    @property
    def flat(self):
        return self

    def getElementsByClass(self, cls):
        if cls in (music21.spanner.RepeatBracket, "RepeatBracket"):
            return [O(number=str(n), getFirst=lambda a=a: O(number=a), getLast=lambda b=b: O(number=b)) for n, a, b in self.brackets]
        return []

    def measureOffsetMap(self):
        m, pos = OrderedDict(), REAL(Fraction(0))
        ready = self.flattened and not self.tied
        for x in self.ms:
            other = Measure(x.number, x.duration.quarterLength, None if x.timeSignature is None else x.timeSignature.ratioString, x._notes if ready else [])
            m[pos] = [other] if self.flattened else [other, other]
            pos = pos + x.duration.quarterLength
        return m

    def flattenParts(self):
        return Score(self.ms, self.brackets, True, self.tied)

    def stripTies(self, *a, **k):
        return Score(self.ms, self.brackets, self.flattened, False)


class Level:
    def __init__(self, beat, ts):
        self.beat, self.ts = beat, ts


class Levels:
    """the level of a beat: remembers which beat of which metre was asked for"""

    def __enter__(self):
        self.saved = []
        for name, m in list(sys.modules.items()):
            if name.startswith("harmonic_inference") and getattr(m, "get_metrical_level", None) is not None:
                self.saved.append((m, m.get_metrical_level))
                m.get_metrical_level = lambda beat, measure: Level(beat, measure["timesig"])
        return self

    def __exit__(self, *a):
        for m, f in self.saved:
            m.get_metrical_level = f


DUR = {"4/4": 4, "3/4": 3, "6/8": 3, "2/4": 2}


def layout(ctx, kind, small=False):
    """([(number, quarters, notated metre)], first endings, [(metre, metrical position of the start in quarters)] of the kept measures)"""
    Q = lambda x: REAL(Fraction(x))
    if kind == "plain":
        n = 2 if small else ctx.choice("n", [1, 2, 3])
        return [(i + 1, Q(4), "4/4" if i == 0 and not small and ctx.flag("notated") else None) for i in range(n)], [], [("4/4", 0)] * n
    if kind == "pickup":
        ts = "3/4" if small else ctx.choice("ts", ["4/4", "3/4", "6/8"])
        p = ctx.real("pickup", 0, DUR[ts], lo_open=True)
        k = 2 if small else 3
        ms = [(0, p, ts)] + [(i + 1, Q(DUR[ts]), None) for i in range(k)]
        return ms, [], [(ts, ite(p == DUR[ts], 0, DUR[ts] - p))] + [(ts, 0)] * k
    if kind == "split":
        s = ctx.real("split", 0, 3, lo_open=True)
        ctx.assume(s < 3)
        ms = [(1, Q(3), "3/4"), (2, s, None), (3, 3 - s, None), (4, Q(3), "3/4")]
        return ms, [], [("3/4", 0), ("3/4", 0), ("3/4", s), ("3/4", 0)]
    if kind == "endings":
        k = 1 if small else ctx.choice("k", [1, 2])
        ms = [(1, Q(2), "2/4")] + [(2 + i, Q(2), None) for i in range(k)] + [(2 + k, Q(2), None), (3 + k, Q(2), None)]
        b = [(1, 2, 1 + k), (2, 2 + k, 2 + k)]
        return ms, b if small or ctx.flag("order") else b[::-1], [("2/4", 0)] * 3
    if kind == "change":
        p = ctx.real("pickup", 0, 4, lo_open=True)
        ms = [(0, p, "4/4"), (1, Q(4), None), (2, Q(3), "6/8"), (3, Q(3), None), (4, Q(2), "2/4")]
        return ms, [], [("4/4", ite(p == 4, 0, 4 - p)), ("4/4", 0), ("6/8", 0), ("6/8", 0), ("2/4", 0)]
    if kind == "late":
        # the metre changes in the middle of what was a measure
        s = ctx.real("split", 0, 4, lo_open=True)
        ms = [(1, Q(4), None), (2, s, None), (3, Q(3), "3/4"), (4, Q(3), None)]
        return ms, [], [("4/4", 0), ("4/4", 0), ("3/4", 0), ("3/4", 0)]


KINDS = ("plain", "pickup", "split", "endings", "change", "late")


def kept(ms, brackets):
    first = [(a, b) for n, a, b in brackets if n == 1]
    return [m for m in ms if not any(a <= m[0] <= b for a, b in first)]


def table(ms, brackets, spec):
    rows, pos = [], 0
    for i, (m, (ts, off)) in enumerate(zip(kept(ms, brackets), spec)):
        rows.append(dict(mc=i, mn=m[0], timesig=ts, start=pos / 4 if i else Fraction(0), act_dur=m[1] / 4, off=off / Fraction(4), next=i + 1))
        pos = pos + m[1]
    rows[-1]["next"] = None
    return rows


def measures(ctx, kind):
    ms, br, spec = layout(ctx, kind)
    df = P.get_measures_df_from_music21_score(Score([Measure(*m) for m in ms], br))
    rows = table(ms, br, spec)
    ctx.check(len(df) == len(rows), "a measure is missing, or one of a first ending kept")
    for (_, g), w in zip(df.iterrows(), rows):
        ctx.check(g["mc"] == w["mc"] and g["mn"] == w["mn"] and g["timesig"] == w["timesig"], "measure number or metre wrong")
        ctx.check(AND(EQ(g["start"], w["start"]), EQ(g["act_dur"], w["act_dur"])), "start or length of a measure wrong")
        ctx.check(EQ(g["mc_offset"], w["off"]), "metrical position of a measure's start wrong")
        ctx.check(pd.isna(g["next"]) if w["next"] is None else g["next"] == w["next"], "wrong successor")
    ctx.cover("measures")


SPELL = [("C", 15), ("B-", 13), ("f".upper() + "#", 21), ("E--", 5), ("G##", 30), ("D", 17), ("B", 20), ("F-", 7)]


def m21_note(i, on, q):
    return M21Note(offset=on, quarterLength=q, pitch=O(name=SPELL[i][0]), octave=2 + i % 4)


def walk(rows, i, pos):
    """measure and position within it, of a point pos wholes after the start of measure i"""
    while rows[i]["next"] is not None and bool(pos >= rows[i]["act_dur"]):
        pos = pos - rows[i]["act_dur"]
        i += 1
    return i, pos


def notes(ctx, kind, n, reach):
    ms, br, spec = layout(ctx, kind)
    rows = table(ms, br, spec)
    objs, want, skipped = [Measure(*m) for m in ms], [], False
    keptno = [m[0] for m in kept(ms, br)]
    at = ctx.choice("at", list(range(len(ms))))
    for i in range(n):
        j = at if i < 2 else ctx.choice("at2", list(range(at, len(ms))))
        q = ms[j][1]
        on = ctx.real(f"on{i}", 0, 4)
        ctx.assume(on < q)
        d = ctx.real(f"dur{i}", 0, reach)
        members = [(2 * i, on, d)]
        x = m21_note(2 * i, on, d)
        if i == 1:
            # a chord: its members have no rhythm of their own
            mem = [M21Note(pitch=O(name=SPELL[k][0]), octave=2 + k % 4) for k in (2, 3)]
            x = O(isChord=True, notes=mem, offset=on, quarterLength=d)
            members = [(2, on, d), (3, on, d)]
        objs[j]._notes.append(x)
        if ms[j][0] in keptno:
            want += [(keptno.index(ms[j][0]), m) for m in members]
        else:
            skipped = True
    want.sort(key=lambda x: x[0])
    sc = Score(objs, br)
    with Levels():
        df = P.get_measures_df_from_music21_score(sc)
        got = P.get_notes_from_music_xml(sc, df)
    ctx.check(len(got) == len(want), "notes lost or added (first endings are left out)")
    for g, (mc, (k, on, d)) in zip(got, want):
        ctx.check(g.pitch_class == SPELL[k][1] and g.octave == 2 + k % 4 and g.pitch_type == TPC, "pitch of a note wrong")
        check_pos(ctx, rows, g, mc, on / 4, d / 4)
    ctx.cover("skipped" if skipped else "notes")


def check_pos(ctx, rows, g, mc, on, d):
    r = rows[mc]
    omc, opos = walk(rows, mc, on + d)
    o = rows[omc]
    ctx.check(AND(g.onset[0] == mc, EQ(g.onset[1], on + r["off"]), EQ(g.mc_onset, on)), "onset of a note wrong")
    ctx.check(EQ(g.duration, d), "duration of a note wrong")
    ctx.check(AND(g.offset[0] == omc, EQ(g.offset[1], opos + o["off"])), "offset of a note wrong")
    ctx.check(AND(g.onset_level.ts == r["timesig"], EQ(g.onset_level.beat, on + r["off"])), "onset level of another beat")
    ctx.check(AND(g.offset_level.ts == o["timesig"], EQ(g.offset_level.beat, opos + o["off"])), "offset level of another beat")
    if omc != mc:
        ctx.cover("crosses")


def single(ctx, kind, pt):
    """one note, straight through the constructor, with or without a cache"""
    ms, br, spec = layout(ctx, kind)
    rows = table(ms, br, spec)
    keep = kept(ms, br)
    mc = ctx.choice("mc", list(range(len(rows))))
    on, d = ctx.real("on", 0, 4), ctx.real("dur", 0, 12)
    ctx.assume(on < keep[mc][1])
    i = ctx.choice("pitch", list(range(len(SPELL))))
    with Levels():
        df = P.get_measures_df_from_music21_score(Score([Measure(*m) for m in ms], br))
        g = Note.from_music21(m21_note(i, on, d), df, mc, pt, levels_cache=defaultdict(dict) if ctx.flag("cache") else None)
    ctx.check(g.pitch_class == (SPELL[i][1] if pt == TPC else fifths_to_semitones(SPELL[i][1] - 15)) and g.pitch_type == pt, "pitch of a note wrong")
    check_pos(ctx, rows, g, mc, on / 4, d / 4)
    ctx.cover("notes")


# --- labels --------------------------------------------------------------------------------------
KEYS = {"C": (15, MAJOR), "a": (18, MINOR), "B-": (13, MAJOR), "b": (20, MINOR), "b-": (13, MINOR), "F+": (21, MAJOR), "g+": (23, MINOR), "E-": (12, MAJOR), "d": (17, MINOR), "G": (16, MAJOR)}
CT = {"D7": ChordType.MAJ_MIN7, "M": ChordType.MAJOR, "M7": ChordType.MAJ_MAJ7, "d": ChordType.DIMINISHED, "a": ChordType.AUGMENTED, "d7": ChordType.DIM7, "m": ChordType.MINOR, "m7": ChordType.MIN_MIN7,
      "Gr+6": ChordType.MAJOR, "Fr+6": ChordType.MAJOR, "It+6": ChordType.MAJOR, "h7": ChordType.HALF_DIM7}
SCALE = {MAJOR: (0, 2, 4, -1, 1, 3, 5), MINOR: (0, 2, -3, -1, 1, -4, -2)}
# mode of the key on a degree: that of its diatonic triad
REL_MODE = {(MAJOR, "1"): MAJOR, (MAJOR, "2"): MINOR, (MAJOR, "3"): MINOR, (MAJOR, "4"): MAJOR, (MAJOR, "5"): MAJOR, (MAJOR, "6"): MINOR, (MAJOR, "-7"): MAJOR, (MAJOR, "-3"): MAJOR, (MAJOR, "-2"): MAJOR,
            (MINOR, "1"): MINOR, (MINOR, "3"): MAJOR, (MINOR, "4"): MINOR, (MINOR, "5"): MINOR, (MINOR, "6"): MAJOR, (MINOR, "-7"): MAJOR, (MINOR, "-2"): MAJOR, (MINOR, "7"): MAJOR, (MAJOR, "7"): MINOR}


def degree(d, mode, applied=False):
    """fifths above the tonic; in minor, 7 is the leading note and superfluous sharps on 6 are dropped"""
    acc, n = d[:-1], int(d[-1])
    s = acc.count("+") - acc.count("-")
    if mode == MINOR and n == 7:
        s += 1
    if mode == MINOR and n == 6 and s >= (1 if applied else 2):
        s -= 1
    return SCALE[mode][n - 1] + 7 * s


def label_key(key, deg):
    t, m = KEYS[key]
    if "/" in deg:
        d, r = deg.split("/")
        return d, (t + degree(r, m, True), REL_MODE[m, r]), (t, m)
    return deg, (t, m), (t, m)


def label(ctx, keys, degs, types, pt, opts):
    """one label, straight through the constructors"""
    key, deg = ctx.choice("key", keys), ctx.choice("degree", degs)
    typ, inv = ctx.choice("type", types), ctx.choice("inv", [0, 1, 2, 3] if opts else [0, 3, 1])
    if "/" in deg and (KEYS[key][1], deg.split("/")[1]) not in REL_MODE:
        return
    d, rel, loc = label_key(key, deg)
    root = rel[0] + degree(d, rel[1])
    ct = CT[typ]
    if "6" in typ:
        inv_w = 0
    else:
        inv_w = inv % num_inv(ct)
    bass = root + tone(ct, TPC, inv_w)
    ms, br, spec = [(1, REAL(Fraction(4)), None), (2, REAL(Fraction(4)), None)], [], [("4/4", 0)] * 2
    df = P.get_measures_df_from_music21_score(Score([Measure(*m) for m in ms], br))
    row = pd.Series(dict(on=REAL(Fraction(0)), off=REAL(Fraction(1, 2)), key=key, degree=deg, type=typ, inv=inv), dtype=object)
    reduction = ctx.choice("red", [NO_REDUCTION, TRIAD]) if opts else NO_REDUCTION
    use_inv, use_rel = ctx.flag("use_inv") if opts else True, ctx.flag("use_rel") if opts else True
    ok = pt == MIDI or (0 <= root < 35 and 0 <= rel[0] < 35 and 0 <= bass < 35)
    g = None if not ctx.flag("global") else Key(3, 4, 5, MAJOR, MINOR, MINOR, pt)
    try:
        with Levels(), contextlib.redirect_stdout(open(os.devnull, "w")):
            c = Chord.from_labels_csv_row(row, df, pt, reduction=reduction, use_inversion=use_inv, use_relative=use_rel)
            k = Key.from_labels_csv_row(row, pt, global_key=g)
    except ValueError:
        ctx.check(not ok, "a label within the alphabet is refused")
        ctx.cover("refused")
        return
    ctx.check(ok, "a label outside the alphabet is accepted")
    conv = (lambda p: p) if pt == TPC else (lambda p: fifths_to_semitones(p - 15) % 12)
    kt, km = rel if use_rel else loc
    ctx.check(c.root == conv(root), "root of a label wrong")
    ctx.check(c.bass == conv(bass), "bass of a label wrong")
    ctx.check(c.chord_type == reduction[ct] and c.inversion == (inv_w if use_inv else 0), "type or inversion of a label wrong")
    ctx.check(c.key_tonic == conv(kt) and c.key_mode == km and c.pitch_type == pt, "key of a label's chord wrong")
    ctx.check((k.relative_tonic, k.relative_mode, k.local_tonic, k.local_mode) == (conv(rel[0]), rel[1], conv(loc[0]), loc[1]), "key of a label wrong")
    ctx.check((k.global_tonic, k.global_mode) == ((conv(loc[0]), loc[1]) if g is None else (5, MINOR)), "global key wrong")
    ctx.check(AND(EQ(c.duration, Fraction(1, 2)), c.onset[0] == 0, EQ(c.onset[1], 0), c.offset[0] == 0, EQ(c.offset[1], Fraction(1, 2))), "position of a label wrong")
    ctx.cover("label")


# --- whole pieces --------------------------------------------------------------------------------
@contextlib.contextmanager
def files(score, rows, codes):
    """the score behind a path, and a csv whose times stand for symbolic ones"""
    d = tempfile.mkdtemp()
    saved_parse, real = P.parse, pd.read_csv

    def read(*a, **k):
        df = real(*a, **{**k, "engine": "python"})        # pandas' C reader does not work under this interpreter
        for c in df.columns:
            if df[c].dtype == object:
                df[c] = pd.Series([codes.get(x, x) if isinstance(x, Fraction) or type(x) is Fraction else x for x in df[c]], index=df.index, dtype=object)
        return df

    P.parse = lambda path, *a, **k: score if Path(path).name == "x.xml" else None
    pd.read_csv = read
    path = os.path.join(d, "l.csv")
    with open(path, "w") as f:
        for r in rows:
            f.write(",".join(str(x) for x in r) + "\n")
    try:
        with contextlib.redirect_stdout(open(os.devnull, "w")):
            yield path, d
    finally:
        P.parse, pd.read_csv = saved_parse, real
        os.remove(path)
        os.rmdir(d)


def lt(a, b):
    return bool(a[1] < b[1]) if a[0] == b[0] else a[0] < b[0]


def piece(ctx, kind, n, labels, junk, vary):
    ms, br, spec = layout(ctx, kind, True)
    rows = table(ms, br, spec)
    keep = kept(ms, br)
    objs = [Measure(*m) for m in ms]
    nspec = []
    at = ctx.choice("at", [0, 1])
    for i in range(n):
        if i and at == 0:
            at = ctx.choice(f"at{i}", [0, 1])
        on, d = ctx.real(f"n{i}", 0, 4), ctx.real(f"nd{i}", 0, 4)
        ctx.assume(on < keep[at][1])
        if nspec and nspec[-1][0] == at:
            ctx.assume(nspec[-1][1] <= on)
        nspec.append((at, on, d))
        next(o for o in objs if o.number == keep[at][0])._notes.append(m21_note(i, on, d))
    npos = []
    for mc, on, d in nspec:
        omc, o = walk(rows, mc, on / 4 + d / 4)
        npos.append(((mc, on / 4 + rows[mc]["off"]), (omc, o + rows[omc]["off"])))
    end = sum((m[1] for m in keep), REAL(Fraction(0)))
    codes, csv, spec_l, t = {}, [], [], 0
    times = [ctx.real(f"t{i}", 0, 16) for i in range(labels + 1)] if not vary else [REAL(Fraction(3 * i, 2)) for i in range(labels)] + [end]
    for a, b in zip(times, times[1:]):
        ctx.assume(a < b)
    ctx.assume(times[-1] <= end)
    code = lambda i: Fraction(1000003 + i, 99991)
    for i, x in enumerate(times):
        codes[code(i)] = x
    names = [[("C", "1", "M", 0), ("C", "5/5", "D7", 1), ("a", "7", "d7", 2)][i] for i in range(labels)]
    if vary:
        names = [ctx.choice(f"l{i}", [("C", "1", "M", 0), ("C", "1+", "a", 1), ("C", "5/5", "D7", 1), ("a", "7", "d7", 2), ("B-", "4", "M", 2)]) for i in range(labels)]
    j = 0
    for i, (key, deg, typ, inv) in enumerate(names):
        if junk and i == 0:
            csv.append(("-1", "0" if not vary or ctx.flag("neg") else "1/2", "G", "1", "M", 0))       # before the start
        if junk and i == 1:
            csv.append((code(1), code(1), "G", "1", "M", 0))                              # empty
        csv.append((code(i), code(i + 1), key, deg, typ, inv))
    with Levels(), files(Score(objs, br), csv, codes) as (path, d):
        p = P.get_score_piece_from_music_xml("x.xml" if vary and ctx.flag("strings") else Path("x.xml"), path, name="nm")
        bare = vary and P.get_score_piece_from_music_xml("x.xml", None)
    ctx.check(not vary or bare.get_chords() is None and bare.get_keys() is None and len(bare.get_inputs()) == n, "a piece without labels has notes only")
    got = list(p.get_inputs())
    ctx.check(p.name == "nm" and len(got) == n, "name or notes lost")
    for g, (a, b) in zip(got, npos):
        ctx.check(AND(g.onset[0] == a[0], EQ(g.onset[1], a[1]), g.offset[0] == b[0], EQ(g.offset[1], b[1])), "a note moved")
    chords = list(p.get_chords())
    ctx.check(len(chords) == labels, "labels lost or added")
    glob = KEYS[names[0][0]]
    on_pos, keys = [], []

    def place(x):
        i = 0
        while i + 1 < len(rows) and bool(x >= rows[i + 1]["start"]):
            i += 1
        return i, x - rows[i]["start"] + rows[i]["off"]

    for i, (c, (key, deg, typ, inv)) in enumerate(zip(chords, names)):
        d, rel, loc = label_key(key, deg[0] if deg == "1+" else deg)
        root = rel[0] + degree(d, rel[1])
        ct = CT[typ]
        ctx.check((c.root, c.chord_type, c.inversion, c.bass) == (root, ct, inv, root + tone(ct, TPC, inv)) and (c.key_tonic, c.key_mode) == rel, "chord of a label wrong")
        a, b = place(times[i] / 4), place(times[i + 1] / 4)
        ctx.check(AND(c.onset[0] == a[0], EQ(c.onset[1], a[1]), c.offset[0] == b[0], EQ(c.offset[1], b[1]), EQ(c.duration, (times[i + 1] - times[i]) / 4)), "position of a chord wrong")
        ctx.check(AND(c.onset_level.ts == rows[a[0]]["timesig"], EQ(c.onset_level.beat, a[1]), c.offset_level.ts == rows[b[0]]["timesig"], EQ(c.offset_level.beat, b[1])), "levels of another beat")
        on_pos.append(a)
        keys.append((rel, loc, glob))
    first = [next((i for i, q in enumerate(npos) if not lt(q[0], a)), n - 1) for a in on_pos]
    ctx.check([int(x) for x in p.get_chord_change_indices()] == first, "a chord change is not at the first note starting with or after the chord")
    start = [next((i for i, q in enumerate(npos) if not lt(q[0], a) or lt(a, q[1])), n) for a in on_pos]
    ctx.check([tuple(int(y) for y in x) for x in p.get_chord_ranges()] == [(s, e) for s, e in zip(start, first[1:] + [n])], "a chord's notes must start with the first one still sounding at its onset and end before the next change")
    want, wc = [], []
    for i, k in enumerate(keys):
        if not want or want[-1][0] != k[0]:
            want.append(k)
            wc.append(i)
    ctx.check([int(x) for x in p.get_key_change_indices()] == wc, "keys do not change exactly where the (applied) key of the labels changes")
    for k, w in zip(p.get_keys(), want):
        ctx.check(((k.relative_tonic, k.relative_mode), (k.local_tonic, k.local_mode), (k.global_tonic, k.global_mode)) == w, "wrong key")
    ctx.cover("piece")
    if len(want) > 1:
        ctx.cover("modulates")


ACC = ("", "+", "-", "++", "--")
PLAIN = [a + str(n) for n in range(1, 8) for a in ACC]
APPLIED = [d + "/" + r for d in ("1", "5", "7", "-7", "+6", "++6", "-2") for r in ("1", "2", "3", "4", "5", "6", "-7", "-3", "-2", "7")]


def cases(tier):
    full = tier == "thorough"
    kw = dict(np_objects=True, caches=True)
    out = [Case(f"measures_{k}", measures, covers=("measures",), kind=k, **kw) for k in KINDS]
    for k in KINDS:
        out.append(Case(f"single_{k}_TPC", single, kind=k, pt=TPC, covers=("notes",) + (("crosses",) if k != "plain" else ()), **kw))
        out.append(Case(f"notes_{k}", notes, kind=k, n=3 if full else 2, reach=6, covers=("notes",) + (("skipped",) if k == "endings" else ()), weight=3, **kw))
    out.append(Case("single_split_MIDI", single, kind="split", pt=MIDI, covers=("notes", "crosses"), **kw))
    for pt in (TPC, MIDI):
        for i, ks in enumerate([["C", "a"], ["b-", "F+"], ["b", "E-"]] if not full else [[k] for k in KEYS]):
            out.append(Case(f"label_{pt.name}_{i}", label, keys=ks, degs=PLAIN + APPLIED if full else PLAIN[i::3] + APPLIED[i::3], types=["M", "h7"], pt=pt, opts=full, covers=("label",), weight=2, **kw))
        out.append(Case(f"label_types_{pt.name}", label, keys=["G", "g+"], degs=["1", "5/5", "7"] if full else ["7", "5/5"], types=list(CT), pt=pt, opts=True, covers=("label",), weight=2, **kw))
    for k in KINDS:
        out.append(Case(f"piece_{k}_1_1", piece, kind=k, n=1, labels=1, junk=True, vary=False, covers=("piece",), weight=3, **kw))
    out.append(Case("piece_pickup_vary", piece, kind="pickup", n=1, labels=1 if not full else 2, junk=True, vary=True, covers=("piece",), weight=6, **kw))
    out.append(Case("piece_plain_vary", piece, kind="plain", n=1, labels=2, junk=True, vary=True, covers=("piece", "modulates"), weight=6, **kw))
    out.append(Case("piece_plain_1_2", piece, kind="plain", n=1, labels=2, junk=True, vary=False, covers=("piece", "modulates"), weight=6, **kw))
    out.append(Case("piece_plain_2_1", piece, kind="plain", n=2, labels=1, junk=False, vary=False, covers=("piece",), weight=6, **kw))
    if full:
        for k in KINDS:
            out.append(Case(f"piece_{k}_2_2", piece, kind=k, n=2, labels=2, junk=False, vary=False, covers=("piece", "modulates"), weight=9, **kw))
    return out
