from props.common import *
import sys
import pandas as pd
import harmonic_inference.utils.rhythmic_utils as ru
import harmonic_inference.data.piece as P
from harmonic_inference.data.data_types import NO_REDUCTION, TRIAD_REDUCTION

LEVEL = "model_checking"
B = "harmonic_inference.data.piece:"
TARGETS = [B + f for f in ("get_score_piece_from_data_frames", "get_reduction_mask", "get_range_start")] + ["harmonic_inference.data.chord:Chord.from_series",
           "harmonic_inference.data.chord:Chord.is_repeated", "harmonic_inference.data.chord:Chord.merge_with", "harmonic_inference.data.key:Key.from_series"]
BOUNDS = ("1-4 notes and 1-3 chord labels at arbitrary (symbolic) positions in two measures; chord roots symbolic (every interval -8..8), chord types, figured bass, "
          "suspensions, unlabelled rows, local keys and applied chords by case; every combination of the inversion / suspension / applied-chord options and two reductions")
OUTSIDE = "more labels; metrical levels (C09, here an arbitrary constant); notes not sorted by onset"
TONIC = {"C": 15, "a": 18, "Eb": 12}


class Levels:
    """metrical levels are another property's concern: replace them by a constant"""

    def __enter__(self):
        self.saved = []
        for name, m in list(sys.modules.items()):
            if name.startswith("harmonic_inference") and getattr(m, "get_metrical_level", None) is not None:
                self.saved.append((m, m.get_metrical_level))
                m.get_metrical_level = lambda beat, measure: 2
        return self

    def __exit__(self, *a):
        for m, f in self.saved:
            m.get_metrical_level = f


MDF = pd.DataFrame({"mc": [0, 1], "timesig": ["4/4", "3/4"], "act_dur": [Fraction(1), Fraction(3, 4)], "mc_offset": [Fraction(0)] * 2, "next": [1, pd.NA]})


def notes_df(pos):
    """pos: [((mc, beat), (mc, beat))]"""
    n = len(pos)
    return pd.DataFrame({
        "mc": [p[0][0] for p in pos], "mn_onset": pd.Series([p[0][1] for p in pos], dtype=object), "mc_onset": pd.Series([p[0][1] for p in pos], dtype=object),
        "offset_mc": [p[1][0] for p in pos], "offset_beat": pd.Series([p[1][1] for p in pos], dtype=object), "duration": pd.Series([REAL(Fraction(1, 4))] * n, dtype=object),
        "midi": [60 + i for i in range(n)], "tpc": [[0, 7, 2, -3, 4, -1][i] for i in range(n)]})


def chords_df(rows):
    cols = ["numeral", "root", "chord_type", "figbass", "globalkey", "globalkey_is_minor", "localkey", "localkey_is_minor", "relativeroot", "mc", "mn_onset", "mc_next",
            "mn_onset_next", "duration", "changes"]
    d = pd.DataFrame({c: pd.Series([r[c] for r in rows], dtype=object) for c in cols})
    return d


def row(on, off, dur, root=0, ct="M", fig="", lk="I", lk_minor=False, rel=None, numeral="I", changes=None, gk="C", gk_minor=False):
    return dict(numeral=numeral, root=root, chord_type=ct, figbass=fig, globalkey=gk, globalkey_is_minor=gk_minor, localkey=lk, localkey_is_minor=lk_minor,
                relativeroot=rel if rel is not None else float("nan"), mc=on[0], mn_onset=on[1], mc_next=off[0], mn_onset_next=off[1], duration=dur, changes=changes if changes is not None else float("nan"))


NAMES = {"M": ChordType.MAJOR, "m": ChordType.MINOR, "Mm7": ChordType.MAJ_MIN7, "o": ChordType.DIMINISHED}
FIG = {"": 0, "6": 1, "64": 2, "65": 1, "7": 0, "43": 2, "2": 3}
KEYSTEP = {("I", False): (0, MAJOR), ("V", False): (1, MAJOR), ("vi", False): (3, MINOR), ("iv", False): (-1, MINOR), ("i", True): (0, MINOR), ("III", True): (-3, MAJOR),
           ("V", True): (1, MAJOR), ("iv", True): (-1, MINOR), ("I", True): (0, MAJOR), ("i", False): (0, MINOR)}


def key_of(r):
    g = (TONIC[r["globalkey"]], MINOR if r["globalkey_is_minor"] else MAJOR)
    s, m = KEYSTEP[(r["localkey"], r["globalkey_is_minor"])]
    loc = (g[0] + s, m)
    rel = loc
    if isinstance(r["relativeroot"], str):
        s, m = KEYSTEP[(r["relativeroot"], loc[1] == MINOR)]
        rel = (loc[0] + s, m)
    return rel, loc, g


def lt(a, b):
    return bool(a[1] < b[1]) if a[0] == b[0] else a[0] < b[0]


def judge(ctx, npos, rows, red=None, inv=True, rel=True, sus=False):
    red_map = red or {t: t for t in TYPES}
    with Levels():
        piece = P.get_score_piece_from_data_frames(notes_df(npos), chords_df(rows), MDF, chord_reduction=red_map, use_inversions=inv, use_relative=rel, use_suspensions=sus, name="x")
    notes = list(piece.get_inputs())
    ctx.check(len(notes) == len(npos), "notes lost or added")
    ctx.check(AND([AND(n.onset[0] == a[0], EQ(n.onset[1], a[1]), n.offset[0] == b[0], EQ(n.offset[1], b[1])) for n, (a, b) in zip(notes, npos)]), "notes moved")
    # specification: labelled rows, grouped by repetition
    groups = []
    for r in rows:
        if not isinstance(r["numeral"], str) or r["numeral"] == "@none":
            ctx.cover("unlabelled")
            continue
        k = key_of(r)
        ct = red_map[NAMES[r["chord_type"]]]
        i = FIG[r["figbass"]] % num_inv(ct) if inv else 0
        root = k[1][0] + r["root"]
        c = dict(root=root, type=ct, inv=i, key=k, on=(r["mc"], r["mn_onset"]), off=(r["mc_next"], r["mn_onset_next"]), dur=r["duration"],
                 sus=r["changes"] if isinstance(r["changes"], str) else None)
        if groups and bool(EQ(groups[-1]["root"], root)) and groups[-1]["type"] == ct and groups[-1]["inv"] == i and (not sus or groups[-1]["sus"] == c["sus"]):
            groups[-1]["off"], groups[-1]["dur"] = c["off"], groups[-1]["dur"] + c["dur"]
            ctx.cover("merged")
        else:
            groups.append(c)
    chords, keys, cc, cr, kc = list(piece.get_chords()), list(piece.get_keys()), [int(x) for x in piece.get_chord_change_indices()], [tuple(int(y) for y in x) for x in piece.get_chord_ranges()], [int(x) for x in piece.get_key_change_indices()]
    ctx.check(len(chords) == len(groups), "consecutive repeated labels are not exactly what is merged")
    for c, g in zip(chords, groups):
        ctx.check(AND(EQ(c.root, g["root"]), c.chord_type == g["type"], c.inversion == g["inv"], EQ(c.bass, g["root"] + tone(g["type"], TPC, g["inv"]))), "chord label wrong")
        ctx.check(AND(c.onset[0] == g["on"][0], EQ(c.onset[1], g["on"][1]), c.offset[0] == g["off"][0], EQ(c.offset[1], g["off"][1]), EQ(c.duration, g["dur"])),
                  "a (merged) chord must run from its first label's onset to its last label's offset")
        t, m = g["key"][0] if rel else g["key"][1]
        ctx.check(c.key_tonic == t and c.key_mode == m, "chord is in the wrong key")
    # where chords change, and the notes sounding in them
    first = [next((i for i, p in enumerate(npos) if not lt(p[0], g["on"])), len(npos) - 1) for g in groups]
    ctx.check(cc == first, "a chord change is not at the first note starting with or after the chord")
    start = [next((i for i, p in enumerate(npos) if not lt(p[0], g["on"]) or lt(g["on"], p[1])), len(npos)) for g in groups]
    ctx.check(cr == [(s, e) for s, e in zip(start, first[1:] + [len(npos)])], "a chord's notes must start with the first one still sounding at its onset and end before the next change")
    # keys
    want, wc = [], []
    for i, g in enumerate(groups):
        eff = 0 if rel else 1
        if not want or want[-1][eff] != g["key"][eff]:
            want.append(g["key"])
            wc.append(i)
    ctx.check(kc == wc, "key changes are not exactly where the key of the chords changes")
    for k, w in zip(keys, want):
        ctx.check((k.local_tonic, k.local_mode) == w[1] and (k.global_tonic, k.global_mode) == w[2] and (k.relative_tonic, k.relative_mode) == w[0], "wrong key")
    ki = piece.get_key_change_input_indices()
    ctx.check([int(x) for x in ki] == [first[i] for i in wc], "key change inputs wrong")
    if len(want) > 1:
        ctx.cover("modulates")
    ctx.cover("piece")


def pos(ctx, tag, mcs=(0, 1)):
    mc = ctx.choice(tag + "_mc", list(mcs))
    return mc, ctx.real(tag, 0, 1)


def le(a, b):
    return a[1] <= b[1] if a[0] == b[0] else a[0] < b[0]


def times(ctx, n, k, mcs=(0, 1), roots=True):
    """notes and chords anywhere, labels fixed (alternating roots)"""
    npos, prev = [], None
    for i in range(n):
        on, off = pos(ctx, f"n{i}on", mcs), pos(ctx, f"n{i}off", mcs)
        ctx.assume(le(on, off))
        if prev:
            ctx.assume(le(prev, on))
        prev = on
        npos.append((on, off))
    cpos = []
    for i in range(k + 1):
        p = pos(ctx, f"c{i}", mcs)
        if cpos:
            ctx.assume(AND(le(cpos[-1], p), NOT(le(p, cpos[-1]))))
        cpos.append(p)
    rows = [row(cpos[i], cpos[i + 1], REAL(Fraction(1, 4)) * (i + 1), root=ctx.int(f"r{i}", 0, 1) if roots else i) for i in range(k)]
    judge(ctx, npos, rows)


def labels(ctx, k, opts, vary):
    """positions fixed; labels vary"""
    R = lambda x: REAL(Fraction(x))
    npos = [((0, R("0")), (0, R("1/4"))), ((0, R("1/4")), (0, R("3/4"))), ((0, R("1/2")), (1, R("0"))), ((1, R("0")), (1, R("1/2")))]
    cpos = [(0, R("0")), (0, R("1/4")), (0, R("1/2")), (1, R("0")), (1, R("1/2"))]
    rows = []
    for i in range(k):
        d = dict(root=ctx.int(f"r{i}", -8, 8))
        for f, vals in vary.items():
            v = ctx.choice(f"{f}{i}", vals)
            if isinstance(v, tuple):
                d.update(zip(("ct", "fig") if f == "chord" else ("lk", "lk_minor"), v))
            else:
                d[f] = v
        rows.append(row(cpos[i], cpos[i + 1], ctx.real(f"d{i}", 0, 2, lo_open=True), **d))
    if all(not isinstance(r["numeral"], str) or r["numeral"] == "@none" for r in rows):
        ctx.assume(False)
    judge(ctx, npos, rows, **opts)


def no_chords(ctx):
    npos = [((0, ctx.real("a", 0, 1)), (1, REAL(Fraction(0)))), ((1, ctx.real("b", 0, 1)), (1, REAL(Fraction(1))))]
    with Levels():
        piece = P.get_score_piece_from_data_frames(notes_df(npos), None, MDF)
    ctx.check(len(piece.get_inputs()) == 2 and piece.get_chords() is None and piece.get_keys() is None and piece.get_chord_change_indices() is None, "a piece without labels has notes only")
    ctx.check(piece.get_key_change_input_indices() is None and piece.get_chords_within_range(0, 1) == [], "a piece without labels has no chords or keys anywhere")
    ctx.cover("piece")


CHORDS = [("M", ""), ("M", "6"), ("Mm7", "65"), ("m", "64")]
KEYS2 = [("I", False), ("V", False), ("vi", True)]


def cases(tier):
    deep = tier == "thorough"
    kw = dict(np_objects=True, caches=True)
    out = [Case("no_chords", no_chords, "", ["piece"], **kw)]
    for n, k in [(1, 1), (2, 1), (1, 2), (3, 1), (2, 2), (1, 3), (3, 2)] + ([(4, 2), (2, 3), (3, 3)] if deep else []):
        mcs = (0, 1) if n + k <= 3 else (0,)
        out.append(Case(f"times_{n}_{k}", times, f"{n} notes, {k} chords anywhere", ["piece"] + (["merged"] if 1 < k and n + k < 5 else []), n=n, k=k, mcs=mcs, roots=n + k < 5, weight=n + k, **kw))
    for inv in (True, False):
        for red in (None, TRIAD):
            out.append(Case(f"chord_inv{int(inv)}_{'triad' if red else 'full'}", labels, "", ["piece", "merged"], k=3 if deep else 2, opts=dict(inv=inv, red=red), vary=dict(chord=CHORDS), weight=4, **kw))
    for rel in (True, False):
        out.append(Case(f"keys_rel{int(rel)}", labels, "", ["piece", "merged", "modulates"], k=2, opts=dict(rel=rel), vary=dict(key=KEYS2, rel=[None, "V"]), weight=4, **kw))
        out.append(Case(f"keys3_rel{int(rel)}", labels, "", ["piece", "merged"], k=3, opts=dict(rel=rel), vary=dict(key=KEYS2[:2], rel=[None, "V"]) if deep else dict(rel=[None, "V"]), weight=6, **kw))
    for sus in (True, False):
        out.append(Case(f"sus{int(sus)}", labels, "", ["piece", "merged"], k=3, opts=dict(sus=sus), vary=dict(changes=[None, "4", "#6"] if deep else [None, "4"]), weight=4, **kw))
    out.append(Case("unlabelled", labels, "", ["piece", "unlabelled", "merged"], k=3, opts={}, vary=dict(numeral=["I", None, "@none"]), weight=4, **kw))
    return out
