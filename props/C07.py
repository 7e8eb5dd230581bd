from collections import defaultdict

from props.common import *
from props.measures import TIMESIGS, Measures, level
import pandas as pd
import harmonic_inference.data.vector_decoding as vd
from harmonic_inference.data.note import Note, get_note_vector_length

LEVEL = "model_checking"
NO, VD = "harmonic_inference.data.note:", "harmonic_inference.data.vector_decoding:"
TARGETS = [NO + f for f in ("Note.get_midi_note_number", "Note.from_series", "Note.to_vec", "Note.get_vector_length", "get_note_vector_length")] + [
    VD + "decode_note_vector", VD + "transpose_note_vector"]
BOUNDS = ("notes of every pitch class and octave 0-9 (MIDI 0-119), any rational beat/duration, time signatures " + ", ".join(TIMESIGS)
          + ", windows with any lowest/highest pitch, any chord range and offset; 17 transposition intervals in [-40,40]; pitch windows around 6 notes per pitch type, up to 20 below / 11 above")
OUTSIDE = "MIDI numbers 120-127 (the octave block has 10 entries); float16 rounding of stored values"


def midi_of(tpc):
    """spec: pitch class in semitones of TPC pitch tpc (C = 15)"""
    return (7 * (tpc - 15)) % 12


def midi_number(ctx, pt):
    pc, octave = ctx.int("pc", 0, N[pt] - 1), ctx.int("oct", 0, 10)
    n = Note(pc, octave, (0, REAL(0)), 3, REAL(1), (1, REAL(0)), 3, pt)
    got = n.get_midi_note_number()
    ctx.check(got == 12 * octave + (pc if pt == MIDI else midi_of(pc)), "MIDI number is not 12 * octave + semitone pitch class")
    ctx.cover("number")


def from_series(ctx, pt, ts, cached):
    midi = ctx.int("midi", 0, 119)
    if pt == TPC:
        tpc = ctx.int("tpc", -20, 25)
        ctx.assume(EQ((7 * tpc) % 12, midi % 12))
    else:
        tpc = ctx.int("tpc", -20, 25)
    on, off, dur, mco = (ctx.real(x, 0, 8) for x in ("on", "off", "dur", "mco"))
    df = pd.DataFrame({"mc": [3, 4], "timesig": [ts, "6/8"]})
    row = pd.Series({"midi": midi, "tpc": tpc, "mc": 3, "mc_onset": mco, "mn_onset": on, "offset_mc": 4, "offset_beat": off, "duration": dur}, dtype=object)
    cache = defaultdict(dict) if cached else None
    n = Note.from_series(row, df, pt, levels_cache=cache)
    ok = AND(tpc + 15 >= 0, tpc + 15 < 35) if pt == TPC else True
    ctx.check(EQ(ok, n is not None), "note accepted or dropped wrongly")
    if n is None:
        return
    ctx.check(EQ(n.pitch_class, tpc + 15 if pt == TPC else midi % 12), "pitch class wrong")
    ctx.check(EQ(n.octave, midi // 12), "octave wrong")
    ctx.check(AND(EQ(n.onset, (3, on)), EQ(n.offset, (4, off)), EQ(n.duration, dur), EQ(n.mc_onset, mco)), "position or duration wrong")
    ctx.check(AND(EQ(n.onset_level, level(on, ts)), EQ(n.offset_level, level(off, "6/8"))), "metrical level wrong")
    ctx.check(n.pitch_type == pt, "pitch type wrong")
    ctx.cover("note")
    if cached:
        # second read through the (now populated) cache gives the same note
        m = Note.from_series(row, df, pt, levels_cache=cache)
        ctx.check(AND(EQ(m.onset_level, n.onset_level), EQ(m.offset_level, n.offset_level), EQ(m.onset, n.onset)), "cached levels differ")


def cache_shared(ctx, pt, ts1):
    """levels cached from one time signature are not used for another"""
    ts2 = ctx.choice("ts2", list(TIMESIGS))
    a, b, c = (ctx.real(x, 0, 4) for x in "abc")
    d = REAL(Fraction(1, 4))
    df = pd.DataFrame({"mc": [3, 4], "timesig": [ts1, ts2]})
    cache = defaultdict(dict)
    r1 = pd.Series({"midi": 60, "tpc": 0, "mc": 3, "mc_onset": a, "mn_onset": a, "offset_mc": 3, "offset_beat": b, "duration": c}, dtype=object)
    r2 = pd.Series({"midi": 60, "tpc": 0, "mc": 4, "mc_onset": c, "mn_onset": c, "offset_mc": 4, "offset_beat": d, "duration": c}, dtype=object)
    Note.from_series(r1, df, pt, levels_cache=cache)
    n = Note.from_series(r2, df, pt, levels_cache=cache)
    ctx.check(AND(EQ(n.onset_level, level(c, ts2)), EQ(n.offset_level, level(d, ts2))), "level depends on what was read before")
    ctx.cover("history")


def vec(ctx, pt, what):
    pc, octave, on, off = (3, 4, 1, 2)
    dur = REAL(Fraction(3, 8))
    kw = {}
    spec_m, spec_d = (0, 0, 0), [0, 0]
    mn = mx = None
    if what == "pitch":
        pc, octave = ctx.int("pc", 0, N[pt] - 1), ctx.int("oct", 0, 9)
    elif what == "levels":
        on, off = ctx.int("on", 0, 3), ctx.int("off", 0, 3)
        if ctx.flag("has_prev"):
            spec_d[0] = kw["dur_from_prev"] = ctx.real("prev", 0, 8)
        if ctx.flag("has_next"):
            spec_d[1] = kw["dur_to_next"] = ctx.real("next", 0, 8)
    elif what == "window":
        pc, octave = ctx.choice("pc", [0, N[pt] // 2, N[pt] - 1]), ctx.choice("oct", [2, 8])
        m = 12 * octave + (pc if pt == MIDI else midi_of(pc))
        lo, hi = m - ctx.int("below", 0, 20), m + ctx.int("above", 0, 11)
        if ctx.flag("has_min"):
            mn = kw["min_pitch"] = (lo // 12, lo)
        if ctx.flag("has_max"):
            mx = kw["max_pitch"] = (hi // 12, hi)
    elif what in ("given_onset", "zero_chord"):
        dur = ctx.real("dur", 0, 4)
        no = ctx.real("no", -4, 4)
        cd = REAL(ctx.choice("cd", [Fraction(1, 3), Fraction(1, 4), Fraction(3, 2)])) if what == "given_onset" else REAL(Fraction(0))
        ms = pd.DataFrame({"mc": [0], "timesig": ["4/4"]})
        kw = dict(chord_onset=(0, REAL(0)), chord_offset=(0, cd), chord_duration=cd, measures_df=ms, note_onset=no)
        spec_m = (no / cd, (no + dur) / cd, dur / cd) if what == "given_onset" else (1, 1, 1)
        drop = ctx.choice("drop", [None, "chord_onset", "chord_offset", "chord_duration", "measures_df"])
        if drop:
            kw[drop] = None
            spec_m = (0, 0, 0)
    midi = 12 * octave + (pc if pt == MIDI else midi_of(pc))
    n = Note(pc, octave, (0, REAL(0)), on, dur, (0, REAL(1)), off, pt)
    v = n.to_vec(**kw)
    np_, o = N[pt], 10
    ctx.check(len(v) == np_ + 36, "note vector has the wrong length")
    ctx.check(len(v) == get_note_vector_length(pt) and len(v) == n.get_vector_length(), "declared note vector length is wrong")
    i = 0
    for width, idx, nm in ((np_, pc, "pitch"), (o, octave, "octave"), (4, on, "onset level"), (4, off, "offset level")):
        ctx.check(one_hot(ctx, v[i:i + width], idx), f"{nm} block is not one-hot at the note's {nm}")
        i += width
    ctx.check(AND([close(ctx, a, b) for a, b in zip(v[i:i + 3], spec_m)]), "onset/offset/duration are not the proportions of the chord's range")
    ctx.check(AND([close(ctx, a, b) for a, b in zip(v[i + 3:i + 5], spec_d)]), "durations to the neighbouring notes wrong")
    ctx.check(EQ(v[i + 5], ite(EQ(midi, mn[1]), 1, 0) if mn is not None else 0), "lowest-note flag wrong")
    ctx.check(one_hot(ctx, v[i + 6:i + 16], octave - (mn[0] if mn is not None else 0)), "relative octave wrong")
    ctx.check(close(ctx, v[i + 16], midi / 127 if E.is_sym(midi) else Fraction(midi, 127)), "pitch height wrong")
    last = v[i + 17]
    if mn is None or mx is None:
        ctx.check(EQ(last, 0), "relative pitch height without a window")
    else:
        size = mx[1] - mn[1]
        if ctx.symbolic:
            ctx.check(OR(AND(EQ(size, 0), EQ(last, 0)), AND(size > 0, (0 <= last), (last <= 1))), "relative pitch height out of range")
            ctx.check(IMPLIES(EQ(midi, mn[1]), EQ(last, 0)), "the lowest note must have relative height 0")
            ctx.check(IMPLIES(AND(size > 0, EQ(midi, mx[1])), close(ctx, last, 1)), "the highest note must have relative height 1")
            s = E.concretise(size) if E.is_sym(size) else size
            ctx.check(close(ctx, last * (s or 1), midi - mn[1]), "relative pitch height wrong")
        else:
            ctx.check(close(ctx, last, Fraction(midi - mn[1], size or 1)), "relative pitch height wrong")
    ctx.cover(what)


def proportion(ctx, pt):
    """note_onset not given: computed from the measures"""
    ms = Measures(ctx, 3, first=1, max_dur=1)
    df = ms.df()
    s, e = ms.pos("start"), ms.pos("end")
    on = ms.pos("on")
    ln = REAL(ctx.choice("len", [Fraction(1, 2), Fraction(5, 4)]))
    ctx.assume(ms.abs(e) - ms.abs(s) == ln)
    dur = ctx.real("dur", 0, 2)
    n = Note(3, 4, on, 1, dur, e, 2, pt)
    v = n.to_vec(chord_onset=s, chord_offset=e, chord_duration=ln, measures_df=df)
    i = N[pt] + 18
    o = (ms.abs(on) - ms.abs(s)) / ln
    ctx.check(AND(close(ctx, v[i], o), close(ctx, v[i + 1], o + dur / ln), close(ctx, v[i + 2], dur / ln)), "proportions of the chord's range wrong")
    ctx.cover("proportion")


def decode(ctx, pt):
    what = ctx.choice("what", ["pitch", "levels", "onset"])
    pc, octave, on, off, no, dur = 3, 4, 1, 2, REAL(Fraction(1, 2)), REAL(Fraction(3, 8))
    if what == "pitch":
        pc, octave = ctx.int("pc", 0, N[pt] - 1), ctx.choice("oct", [0, 5, 9])
    elif what == "levels":
        on, off = ctx.int("on", 0, 3), ctx.int("off", 0, 3)
    else:
        no, dur = ctx.real("no", 0, 2), ctx.real("dur", 0, 2)
    n = Note(pc, octave, (0, REAL(0)), on, dur, (0, REAL(1)), off, pt)
    ms = pd.DataFrame({"mc": [0], "timesig": ["4/4"]})
    v = n.to_vec(chord_onset=(0, REAL(0)), chord_offset=(2, REAL(0)), chord_duration=REAL(2), measures_df=ms, note_onset=no)
    d = vd.decode_note_vector(v)
    ctx.check(AND(EQ(d.pitch_class, pc), EQ(d.octave, octave), EQ(d.onset_level, on), EQ(d.offset_level, off)), "decoded note differs from the encoded one")
    ctx.check(d.pitch_type == pt, "decoded pitch type wrong")
    ctx.check(AND(close(ctx, d.duration, dur / 2), close(ctx, d.onset, no / 2)), "decoded onset or duration wrong")
    ctx.cover("decode " + what)


def decode_bad(ctx):
    n = ctx.choice("n", range(0, 100))
    v = np.zeros(n)
    if n:
        v[0] = 1
    lens = {N[p] + 36 for p in (TPC, MIDI)}
    if n in lens:
        return
    bad, _ = raises(ValueError, vd.decode_note_vector, v)
    ctx.check(bad, "a vector of impossible length was decoded")
    bad, _ = raises(ValueError, vd.transpose_note_vector, v, 1)
    ctx.check(bad, "a vector of impossible length was transposed")
    ctx.cover("refused")


def transpose(ctx, pt):
    pc = ctx.int("pc", 0, N[pt] - 1)
    i = ctx.choice("interval", [-40, -35, -34, -12, -11, -3, -2, -1, 0, 1, 2, 5, 11, 12, 34, 35, 40])
    v = Note(pc, 4, (0, REAL(0)), 1, REAL(1), (0, REAL(1)), 2, pt).to_vec()
    before = v.copy()
    given = ctx.flag("given")
    bad, w = raises(ValueError, vd.transpose_note_vector, v, i, pitch_type=pt if given else None)
    new = pc + i
    ctx.check(EQ(AND(new >= 0, new < N[pt]), not bad), "transposition out of the pitch range accepted, or one within it refused")
    if bad:
        return
    ctx.check(one_hot(ctx, w[:N[pt]], new), "pitch block not moved by the interval")
    ctx.check(AND([EQ(a, b) for a, b in zip(w[N[pt]:], before[N[pt]:])]), "transposition touched something other than the pitch")
    ctx.check(AND([EQ(a, b) for a, b in zip(v, before)]), "transposition modified its argument")
    ctx.check(len(w) == len(v), "length changed")
    ctx.cover("transposed")


def cases(tier):
    out = [Case("decode_bad", decode_bad, "", ["refused"])]
    for pt in (TPC, MIDI):
        nm = pt.name
        out += [Case(f"midi_number_{nm}", midi_number, "", ["number"], pt=pt),
                Case(f"decode_{nm}", decode, "", ["decode pitch", "decode levels", "decode onset"], pt=pt, np_objects=True, uniform=True, weight=4),
                Case(f"transpose_{nm}", transpose, "", ["transposed"], pt=pt, weight=4),
                Case(f"proportion_{nm}", proportion, "", ["proportion"], pt=pt, np_objects=True, uniform=True, weight=9),
                ] + [Case(f"cache_{nm}_{ts}", cache_shared, "", ["history"], pt=pt, ts1=ts, uniform=True, weight=9)
                     for ts in (TIMESIGS if pt == TPC else ["4/4"])]
        for ts in TIMESIGS if tier == "thorough" else ["4/4", "12/8", "3/8"]:
            for c in (False, True):
                out.append(Case(f"series_{nm}_{ts}_{c}", from_series, "", ["note"], pt=pt, ts=ts, cached=c, uniform=True, weight=5))
        for what in ("pitch", "levels", "window", "given_onset", "zero_chord"):
            out.append(Case(f"vec_{what}_{nm}", vec, "", [what], pt=pt, what=what, np_objects=True, uniform=True, weight=8))
    return out
