from props.common import *
from harmonic_inference.data.chord import Chord
from harmonic_inference.data.key import Key
from harmonic_inference.data.note import Note
import harmonic_inference.data.data_types as dt

LEVEL = "model_checking"
B = "harmonic_inference.data."
TARGETS = [B + f for f in ("note:Note.to_pitch_type", "note:Note.to_dict", "note:Note.__eq__", "chord:Chord.to_pitch_type", "chord:Chord.to_dict",
                           "chord:Chord.__eq__", "chord:Chord.is_repeated", "chord:Chord.merge_with", "key:Key.to_pitch_type", "key:Key.to_dict",
                           "key:Key.__eq__", "key:Key.equals", "key:Key.is_repeated")]
BOUNDS = "every field of a note, chord or key symbolic (pitches over the whole alphabet, any rational position/duration); pairs differing in any subset of fields"
OUTSIDE = "positions given as floats in seconds"


def semis(tpc):
    return (7 * (tpc - 15)) % 12


def mk_note(ctx, pt, tag):
    d = dict(pitch_class=ctx.int(f"{tag}pc", 0, N[pt] - 1), octave=ctx.int(f"{tag}oct", 0, 10), onset=(ctx.int(f"{tag}onm", 0, 5), ctx.real(f"{tag}onb", 0, 4)),
             onset_level=ctx.int(f"{tag}onl", 0, 3), duration=ctx.real(f"{tag}dur", 0, 4), offset=(ctx.int(f"{tag}ofm", 0, 5), ctx.real(f"{tag}ofb", 0, 4)),
             offset_level=ctx.int(f"{tag}ofl", 0, 3), pitch_type=pt, mc_onset=ctx.real(f"{tag}mco", 0, 4))
    return d


def mk_chord(ctx, pt, tag):
    d = mk_note(ctx, pt, tag)
    for k in ("pitch_class", "octave", "mc_onset"):
        del d[k]
    d.update(root=ctx.int(f"{tag}root", 0, N[pt] - 1), bass=ctx.int(f"{tag}bass", 0, N[pt] - 1), key_tonic=ctx.int(f"{tag}ton", 0, N[pt] - 1),
             key_mode=ctx.choice(f"{tag}mode", [MAJOR, MINOR]), chord_type=ctx.choice(f"{tag}ct", [ChordType.MAJOR, ChordType.DIM7]),
             inversion=ctx.int(f"{tag}inv", 0, 3), suspension=ctx.choice(f"{tag}sus", [None, "64"]))
    return d


def mk_key(ctx, pt, tag):
    return dict(relative_tonic=ctx.int(f"{tag}rt", 0, N[pt] - 1), local_tonic=ctx.int(f"{tag}lt", 0, N[pt] - 1), global_tonic=ctx.int(f"{tag}gt", 0, N[pt] - 1),
                relative_mode=ctx.choice(f"{tag}rm", [MAJOR, MINOR]), local_mode=ctx.choice(f"{tag}lm", [MAJOR, MINOR]),
                global_mode=ctx.choice(f"{tag}gm", [MAJOR, MINOR]), tonic_type=pt)


KINDS = {"note": (Note, mk_note, ("pitch_class",), "pitch_type"), "chord": (Chord, mk_chord, ("root", "bass", "key_tonic"), "pitch_type"),
         "key": (Key, mk_key, ("relative_tonic", "local_tonic", "global_tonic"), "tonic_type")}


def same_fields(ctx, obj, d, skip=()):
    return AND([EQ(getattr(obj, k), v) for k, v in d.items() if k not in skip])


def convert(ctx, kind, field, src, dst):
    """one pitch field symbolic at a time (the others fixed), all other fields symbolic"""
    cls, mk, pitches, tname = KINDS[kind]
    d = mk(ctx, src, "a")
    for f in pitches:
        if f != field:
            d[f] = C[src]
    x = cls(**d)
    y = x.to_pitch_type(dst)
    ctx.check(type(y) is cls and y is not x, "conversion must give a new object of the same kind")
    ctx.check(same_fields(ctx, x, d), "conversion modified the original")
    ctx.check(getattr(y, tname) == dst, "pitch type not set")
    ctx.check(same_fields(ctx, y, d, skip=pitches + (tname,)), "conversion changed a field that is not a pitch")
    for f in pitches:
        got, old = getattr(y, f), d[f]
        if src == dst:
            ctx.check(EQ(got, old), "same-type conversion changed a pitch")
        elif dst == MIDI:
            ctx.check(EQ(got, semis(old)), "converted pitch is not the same sounding pitch")
        else:
            ctx.check(AND(got >= 0, got < 35, EQ(semis(got), old)), "converted pitch is not a spelling of the same sounding pitch")
    ctx.cover("converted")


def dict_round_trip(ctx, kind, pt):
    cls, mk, pitches, tname = KINDS[kind]
    d = mk(ctx, pt, "a")
    x = cls(**d)
    dd = x.to_dict()
    ctx.check(set(dd) == set(d), "dictionary does not hold exactly the constructor's fields")
    ctx.check(AND([EQ(dd[k], d[k]) for k in d if k in dd]), "dictionary value differs from the field")
    y = cls(**dd)
    ctx.check(y == x, "object rebuilt from its dictionary is not equal to the original")
    ctx.check(not (x == None) and not (x == 3), "equal to something of another kind")  # noqa: E711
    ctx.cover("dict")


def equality(ctx, kind, pt):
    """== is true exactly if no field differs: one (symbolically chosen) field may differ"""
    cls, mk, pitches, tname = KINDS[kind]
    d = mk(ctx, pt, "a")
    f = ctx.choice("field", sorted(k for k in d))
    e = dict(d)
    other = {k: v for k, v in mk(ctx, pt, "b").items() if k == f} if f != tname else {f: MIDI if pt == TPC else TPC}
    e.update(other)
    x, y = cls(**d), cls(**e)
    r = x == y
    ctx.check(EQ(r, EQ(d[f], e[f])), "equality does not depend on every field")
    if r:
        ctx.cover("equal")
    else:
        ctx.cover("different")


def key_equals(ctx):
    pt, qt = ctx.choice("pt", [TPC, MIDI]), ctx.choice("qt", [TPC, MIDI])
    a, b = mk_key(ctx, MIDI, "a"), mk_key(ctx, MIDI, "b")
    a["global_mode"], b["global_mode"] = MAJOR, MINOR
    a["tonic_type"], b["tonic_type"] = pt, qt
    use_rel = ctx.flag("use_rel")
    x, y = Key(**a), Key(**b)
    p = "relative" if use_rel else "local"
    want = AND(pt == qt, EQ(a[p + "_tonic"], b[p + "_tonic"]), a[p + "_mode"] == b[p + "_mode"])
    r = x.equals(y, use_relative=use_rel)
    ctx.check(EQ(r, want), "key comparison wrong")
    ctx.check(EQ(x.is_repeated(y, use_relative=use_rel), want), "repeated-key test wrong")
    ctx.check(not x.equals(None, use_relative=use_rel), "equal to nothing")
    if r:
        ctx.check(x.equals(y) if use_rel else True, "default comparison must use the relative key")
        ctx.cover("equal keys")


def chord_repeat(ctx):
    pt, qt = ctx.choice("pt", [TPC, MIDI]), ctx.choice("qt", [TPC, MIDI])
    a, b = mk_chord(ctx, MIDI, "a"), mk_chord(ctx, MIDI, "b")
    a["key_mode"], b["key_mode"] = MAJOR, MINOR
    a["pitch_type"], b["pitch_type"] = pt, qt
    ui, us = ctx.flag("ui"), ctx.flag("us")
    x, y = Chord(**a), Chord(**b)
    want = AND(pt == qt, EQ(a["root"], b["root"]), a["chord_type"] == b["chord_type"])
    if ui:
        want = AND(want, EQ(a["inversion"], b["inversion"]))
    if us:
        want = AND(want, a["suspension"] == b["suspension"])
    r = x.is_repeated(y, use_inversion=ui, use_suspension=us)
    ctx.check(EQ(r, want), "repeated-chord test wrong")
    ctx.check(not x.is_repeated(None, use_inversion=ui, use_suspension=us), "repeat of nothing")
    if ui and not us:
        ctx.check(EQ(x.is_repeated(y), want), "default repeat test must use the inversion and ignore suspensions")
    if r:
        ctx.cover("repeat")


def merge(ctx, pt):
    a, b = mk_chord(ctx, pt, "a"), mk_chord(ctx, pt, "b")
    x, y = Chord(**a), Chord(**b)
    x.merge_with(y)
    ctx.check(AND(EQ(x.offset, b["offset"]), EQ(x.offset_level, b["offset_level"])), "merged chord does not end where the second ended")
    ctx.check(EQ(x.duration, a["duration"] + b["duration"]), "merged duration is not the sum")
    ctx.check(same_fields(ctx, x, a, skip=("offset", "offset_level", "duration")), "merging changed something else")
    ctx.check(same_fields(ctx, y, b), "merging modified the second chord")
    ctx.cover("merged")


def reductions(ctx):
    ct = ctx.choice("ct", TYPES)
    ctx.check(dt.NO_REDUCTION[ct] == ct, "the identity reduction changes a type")
    ctx.check(dt.TRIAD_REDUCTION[ct] == TRIAD[ct], "triad reduction is not the triad below the seventh")
    ctx.check(TONES_FIFTHS[dt.TRIAD_REDUCTION[ct]] == TONES_FIFTHS[ct][:3], "triad reduction is not the triad below the seventh")
    ctx.check(dt.ALL_ONE_TYPE_REDUCTION[ct] == ChordType.MAJOR, "one-type reduction has several types")
    ctx.cover("reduction")


def cases(tier):
    out = [Case("key_equals", key_equals, "", ["equal keys"], weight=9), Case("chord_repeat", chord_repeat, "", ["repeat"], weight=9),
           Case("reductions", reductions, "", ["reduction"])]
    for kind, (cls, mk, pitches, t) in KINDS.items():
        for pt in (TPC, MIDI):
            out.append(Case(f"dict_{kind}_{pt.name}", dict_round_trip, "", ["dict"], kind=kind, pt=pt))
            out.append(Case(f"eq_{kind}_{pt.name}", equality, "", ["equal", "different"], kind=kind, pt=pt, weight=5))
            for f in pitches:
                for dst in (TPC, MIDI):
                    out.append(Case(f"to_{kind}_{f}_{pt.name}_{dst.name}", convert, "", ["converted"], kind=kind, field=f, src=pt, dst=dst, weight=4))
    for pt in (TPC, MIDI):
        out.append(Case(f"merge_{pt.name}", merge, "", ["merged"], pt=pt))
    return out
