from props.common import *
from props.measures import Measures
import pandas as pd
import harmonic_inference.data.piece as P
from harmonic_inference.data.note import Note
from harmonic_inference.data.chord import Chord
from harmonic_inference.data.key import Key

LEVEL = "model_checking"
B = "harmonic_inference.data.piece:"
TARGETS = [B + f for f in ("Piece.get_chords_within_range", "Piece.get_key_change_input_indices", "ScorePiece.get_duration_cache", "ScorePiece.get_chord_note_inputs",
                           "ScorePiece.to_dict", "get_score_piece_from_dict", "get_chord_note_input", "get_range_start")]
BOUNDS = ("pieces of 2-4 notes at arbitrary positions in 1-3 measures of arbitrary length; 1-3 chords with arbitrary change positions; every range and window size 0-3; "
          "chords starting on or between notes; pieces with and without labels")
OUTSIDE = "more notes; chords of duration 0; ranges without notes and window 0"


def Nt(on, off, i=0, dur=None, octave=None, pc=None):
    return Note([15, 19, 12, 16][i] if pc is None else pc, 4 + i % 2 if octave is None else octave, on, i % 4, dur if dur is not None else REAL(Fraction(1, 4)), off, (i + 1) % 4, TPC)


def Ch(on, off, dur, i=0):
    return Chord(15 + i, 15 + i, 15, MAJOR, ChordType.MAJOR, 0, on, 2, off, 1, dur, TPC)


def Ky(i=0):
    return Key(15 + i, 15 + i, 15, MAJOR, MAJOR, MAJOR, TPC)


def within(ctx, n, k, stop_given, first=None):
    """chords i with change index before stop that sound at or after start"""
    cc = [ctx.int(f"c{i}", 0, n - 1) for i in range(k)]
    for a, b in zip(cc, cc[1:]):
        ctx.assume(a <= b)
    R = lambda i: REAL(Fraction(i))
    piece = P.ScorePiece(None, [Nt((0, R(i)), (0, R(i + 1))) for i in range(n)], [Ch((0, R(i)), (0, R(i + 1)), R(1), i) for i in range(k)], [Ky()], cc, [(0, n)] * k, [0])
    start = ctx.int("start", 0, n - 1)
    if stop_given:
        stop = ctx.int("stop", 1, n)
        ctx.assume(start < stop)
        got = list(piece.get_chords_within_range(start, stop))
    else:
        stop = n
        got = list(piece.get_chords_within_range(start)) if ctx.flag("pos") else list(piece.get_chords_within_range(start=start, stop=None))
    want = []
    for i in range(k):
        nxt = cc[i + 1] if i + 1 < k else n
        if bool(AND(cc[i] < stop, OR(cc[i] >= start, nxt > start))):
            want.append(15 + i)
    ctx.check([int(c.root) for c in got] == want, "not exactly the chords sounding within the range")
    ctx.cover("range")
    if len(want) > 1:
        ctx.cover("several")
    if bool(start < cc[0]):
        ctx.cover("before the first chord")


def durations(ctx, measures, n, labels):
    ms = Measures(ctx, measures, offsets=True)
    ons, prev = [], None
    offs = []
    for i in range(n):
        p = ms.pos(f"n{i}")
        q = ms.pos(f"e{i}") if not labels else p
        if prev is not None:
            ctx.assume(ms.order.index(p[0]) >= ms.order.index(prev[0]))
            ctx.assume(ms.abs(p) >= ms.abs(prev))
            if p[0] == prev[0]:
                ctx.assume(p[1] >= prev[1])
        if not labels:
            ctx.assume(ms.abs(q) >= ms.abs(p))
        prev = p
        ons.append(p)
        offs.append(q)
    end = ms.pos("end") if labels else None
    if labels:
        ctx.assume(ms.abs(end) >= ms.abs(ons[-1]))
        ctx.assume(ms.order.index(end[0]) >= ms.order.index(ons[-1][0]))
    notes = [Nt(a, b, i % 4) for i, (a, b) in enumerate(zip(ons, offs))]
    chords = [Ch(ons[0], end, REAL(Fraction(1)))] if labels else None
    piece = P.ScorePiece(ms.df(), notes, chords, [Ky()] if labels else None, [0] if labels else None, [(0, n)] if labels else None, [0] if labels else None)
    got = list(piece.get_duration_cache())
    last = ms.abs(end) if labels else None
    if not labels:
        last = ms.abs(offs[0])
        for q in offs[1:]:
            last = ite(ms.abs(q) > last, ms.abs(q), last)
    t = [ms.abs(p) for p in ons] + [last]
    ctx.check(len(got) == n, "one duration per note")
    ctx.check(AND([EQ(g, t[i + 1] - t[i]) for i, g in enumerate(got)]), "duration to the next note (or to the end) wrong")
    again = piece.get_duration_cache()
    ctx.check(AND([EQ(a, b) for a, b in zip(got, again)]), "durations change when asked again")
    ctx.cover("durations")


def windows(ctx, n, window, mode, k=1):
    """mode: 'ranges' (given by the caller), 'chords' (the labels of the piece)"""
    R = lambda x: REAL(Fraction(x))
    mdf = pd.DataFrame({"mc": [0, 1], "timesig": ["4/4", "4/4"], "act_dur": [R(4), R(4)], "mc_offset": [R(0), R(0)], "next": [1, None], "start": [R(0), R(4)]})
    d = [ctx.real(f"d{i}", 0, 1) for i in range(n)]
    t = [R(0)]
    for x in d:
        t.append(t[-1] + x)
    dur = [ctx.real(f"dur{i}", 0, 1) for i in range(n)]
    notes = [Nt((0, t[i]), (0, t[i] + dur[i]), i, dur=dur[i]) for i in range(n)]
    end = (0, t[n] + R(1))
    delta = None
    if mode == "ranges":
        change = ctx.choice("change", list(range(n)))
        lo = ctx.choice("lo", list(range(change + 1)))
        hi = ctx.choice("hi", list(range(change + 1, n + 1)))
        piece = P.ScorePiece(mdf, notes, [Ch((0, t[0]), end, t[n] + R(1))], [Ky()], [0], [(0, n)], [0])
        got = piece.get_chord_note_inputs(window=window, ranges=[(lo, hi)], change_indices=[change])
        con = t[change]
        cdur = (t[hi] if hi < n else end[1]) - t[change]
        if hi == n:
            ctx.cover("to the end")
    else:
        change = ctx.choice("change", list(range(n)))
        lo, hi = ctx.choice("lo", list(range(change + 1))), n
        delta = ctx.real("early", 0, 1)
        con = t[change] - delta  # the chord may start before its first note
        cdur = end[1] - con
        if change:
            ctx.assume(con > t[change - 1])
        piece = P.ScorePiece(mdf, notes, [Ch((0, con), end, cdur)], [Ky()], [change], [(lo, hi)], [0])
        got = piece.get_chord_note_inputs(window=window)
    ctx.assume(cdur > 0)
    ctx.check(len(got) == 1, "one input per chord")
    got = got[0]
    ctx.check(len(got) == hi - lo + 2 * window, "window has the wrong number of rows")
    inside = list(range(max(0, lo - window), min(n, hi + window)))
    ps = [(notes[i].octave, notes[i].get_midi_note_number()) for i in inside]
    toend = [t[i + 1] - t[i] if i + 1 < n else end[1] - t[i] for i in range(n)]
    width = None
    for r in range(len(got)):
        i = lo - window + r
        if 0 <= i < n:
            want = notes[i].to_vec(chord_onset=(0, con), chord_offset=end, chord_duration=cdur, measures_df=mdf, min_pitch=min(ps), max_pitch=max(ps), note_onset=t[i] - con,
                                   dur_from_prev=toend[i - 1] if i else None, dur_to_next=toend[i])
            ctx.check(len(got[r]) == len(want), "row width wrong")
            ctx.check(AND([EQ(a, b) for a, b in zip(got[r], want)]), "a row is not the note's features relative to the chord")
        else:
            ctx.check(AND([EQ(a, 0) for a in got[r]]), "rows beyond the piece must be zero")
            ctx.cover("padding")
    ctx.cover("window")


def round_trip(ctx, n, k, labels):
    R = lambda i: ctx.real(i, 0, 9)
    notes = [Nt((ctx.int(f"m{i}", 0, 9), R(f"on{i}")), (ctx.int(f"x{i}", 0, 9), R(f"off{i}")), i, dur=R(f"dur{i}"), octave=ctx.int(f"o{i}", 0, 9), pc=ctx.int(f"p{i}", 0, 34)) for i in range(n)]
    chords = [Ch((0, R(f"con{i}")), (1, R(f"coff{i}")), R(f"cd{i}"), i) for i in range(k)]
    keys = [Ky(i) for i in range(k)]
    cc, cr, kc = [ctx.int(f"cc{i}", 0, n) for i in range(k)], [(ctx.int(f"a{i}", 0, n), ctx.int(f"b{i}", 0, n)) for i in range(k)], [ctx.int(f"kc{i}", 0, n) for i in range(k)]
    piece = P.ScorePiece(None, notes, chords, keys, cc, cr, kc, name="x")
    d = piece.to_dict()
    back = P.get_score_piece_from_dict(None, d, name="y")
    for name, a, b in (("notes", piece.get_inputs(), back.get_inputs()), ("chords", piece.get_chords(), back.get_chords()), ("keys", piece.get_keys(), back.get_keys())):
        ctx.check(len(a) == len(b) and all(bool(x == y) for x, y in zip(a, b)), f"{name} lost in the dictionary")
    ctx.check(AND([EQ(x, y) for x, y in zip(back.get_chord_change_indices(), cc)] + [EQ(x, y) for x, y in zip(back.get_key_change_indices(), kc)]
                  + [AND(EQ(x[0], y[0]), EQ(x[1], y[1])) for x, y in zip(back.get_chord_ranges(), cr)]), "change positions lost in the dictionary")
    ctx.check(back.name == "y" and len(back.get_chord_ranges()) == k, "piece incomplete")
    ctx.cover("round trip")


def range_start(ctx, n):
    ons = [(ctx.choice(f"m{i}", [0, 1]), ctx.real(f"on{i}", 0, 1)) for i in range(n)]
    offs = [(ctx.choice(f"x{i}", [0, 1]), ctx.real(f"off{i}", 0, 1)) for i in range(n)]
    lt = lambda a, b: (a[0] < b[0]) if a[0] != b[0] else (a[1] < b[1])
    for i in range(n):
        ctx.assume(NOT(lt(offs[i], ons[i])))
        if i:
            ctx.assume(NOT(lt(ons[i], ons[i - 1])))
    at = (ctx.choice("m", [0, 1]), ctx.real("at", 0, 1))
    got = P.get_range_start(at, [Nt(a, b, i) for i, (a, b) in enumerate(zip(ons, offs))])
    sounding = [OR(NOT(lt(a, at)), lt(at, b)) for a, b in zip(ons, offs)]
    ctx.check(0 <= got <= n and AND([NOT(s) for s in sounding[:got]]) and (got == n or sounding[got]), "not the first note sounding at or after the position")
    ctx.cover("start")


def cases(tier):
    deep = tier == "thorough"
    kw = dict(np_objects=True)
    out = []
    for k in (1, 2, 3, 4):
        for s in (True, False):
            out.append(Case(f"within_{k}_{'stop' if s else 'open'}", within, "", ["range", "before the first chord"] + (["several"] if k > 1 else []), n=6 if deep else 5, k=k, stop_given=s, weight=k, **kw))
    for lab in (True, False):
        for m, n in [(1, 3), (3, 1), (2, 2)] + ([(3, 2), (2, 3)] if deep else []):
            out.append(Case(f"durations_{m}_{n}_{'labels' if lab else 'plain'}", durations, "", ["durations"], measures=m, n=n, labels=lab, weight=m * n, uniform=True, **kw))
    for w in (0, 1, 2, 3) if deep else (0, 1, 2):
        out.append(Case(f"window_{w}_ranges", windows, "", ["window", "to the end"] + (["padding"] if w else []), n=5 if deep else 4, window=w, mode="ranges", weight=5, floats=True, **kw))
        out.append(Case(f"window_{w}_chords", windows, "", ["window"] + (["padding"] if w else []), n=3, window=w, mode="chords", weight=5, floats=True, **kw))
    out.append(Case("round_trip", round_trip, "", ["round trip"], n=2, k=2, labels=True, **kw))
    out.append(Case("range_start", range_start, "", ["start"], n=3, weight=3, **kw))
    return out
