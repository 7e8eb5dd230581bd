from props.common import *
import harmonic_inference.utils.harmonic_utils as hu

LEVEL = "model_checking"
HU = "harmonic_inference.utils.harmonic_utils:"
TARGETS = [HU + f for f in ("get_pitch_string", "get_pitch_from_string", "transpose_pitch", "absolute_to_relative",
                            "tpc_interval_to_midi_interval", "get_accidental_adjustment")]
BOUNDS = ("all pitches in [-70,105] for naming, all letter+accidental spellings with up to 4 accidentals, "
          "pitch/interval/tonic symbolic integers with |x| <= 200 for transposition and relative pitches")
OUTSIDE = "integers beyond the stated ranges; non-integer pitches; mixed accidentals such as 'C#b'"


def name_tpc(ctx):
    p = ctx.int("p", -70, 105)
    s = hu.get_pitch_string(p, TPC)
    q = E.concretise(p) if ctx.symbolic else p
    ctx.check(s == tpc_name(q), "TPC pitch has the wrong name")
    bad, back = raises(ValueError, hu.get_pitch_from_string, s, TPC)
    ctx.check(bad == (not 0 <= q < 35), "parsing a TPC name must fail exactly when out of range")
    if not bad:
        ctx.cover("in-range name")
        ctx.check(back == p, "TPC name does not parse back to the same pitch")
        m = hu.get_pitch_from_string(s, MIDI)
        ctx.check(m == (7 * (p - 15)) % 12, "TPC name parsed as MIDI is not the enharmonic semitone")


def name_midi(ctx):
    p = ctx.int("p", -30, 40)
    s = hu.get_pitch_string(p, MIDI)
    back = hu.get_pitch_from_string(s, MIDI)
    ctx.check(back == p % 12, "MIDI name does not parse back to the same pitch class")
    for part in s.split("/"):
        ctx.check(hu.get_pitch_from_string(part, MIDI) == p % 12, "one of the enharmonic names is wrong")
        ctx.check((7 * (hu.get_pitch_from_string(part, TPC) - 15)) % 12 == p % 12, "MIDI name has wrong TPC spelling")
    ctx.cover("midi name")


def spelling(ctx):
    letter = ctx.choice("letter", LETTERS + LETTERS.lower())
    acc = ctx.int("acc", -4, 4)
    n = E.concretise(acc) if ctx.symbolic else acc
    s = letter + ("#" * n if n > 0 else "b" * -n)
    f = FIFTHS[letter.upper()] + 7 * n
    bad, v = raises(ValueError, hu.get_pitch_from_string, s, TPC)
    ctx.check(bad == (not 0 <= 15 + f < 35), "spelling accepted/rejected wrongly")
    if not bad:
        ctx.check(v == 15 + f, "spelling parsed to the wrong TPC pitch")
        ctx.check(hu.get_pitch_string(v, TPC) == s.capitalize() if n >= 0 else hu.get_pitch_string(v, TPC) == letter.upper() + s[1:],
                  "spelling is not canonical")
    m = hu.get_pitch_from_string(s, MIDI)
    ctx.check(m == fifths_to_semitones(f), "spelling parsed to the wrong MIDI pitch class")
    ctx.cover("spelling")


def transpose(ctx, pt):
    p = ctx.int("p", -200, 200)
    i = ctx.int("i", -200, 200)
    bad, r = raises(ValueError, hu.transpose_pitch, p, i, pt)
    if pt == MIDI:
        ctx.check(not bad, "MIDI transposition must not fail")
        ctx.check(AND(r >= 0, r < 12, (r - p - i) % 12 == 0), "MIDI transposition is not modulo 12")
        back = hu.transpose_pitch(r, -i, pt)
        ctx.check((back - p) % 12 == 0, "MIDI transposition is not invertible")
        ctx.cover("midi")
    else:
        inr = AND(p + i >= 0, p + i < 35)
        ctx.check(EQ(inr, not bad), "TPC transposition must fail exactly when the result is out of range")
        if not bad:
            ctx.check(r == p + i, "TPC transposition does not add the interval")
            if AND(p >= 0, p < 35):
                ctx.check(hu.transpose_pitch(r, -i, pt) == p, "TPC transposition is not invertible")
            ctx.cover("tpc ok")
        else:
            ctx.cover("tpc rejected")


def enharmonic(ctx):
    p = ctx.int("p", 0, 34)
    i = ctx.int("i", -34, 34)
    ctx.assume(AND(p + i >= 0, p + i < 35))
    a = hu.transpose_pitch(p, i, TPC)
    mi = hu.tpc_interval_to_midi_interval(i)
    ctx.check(AND(mi >= 0, mi < 12, (mi - 7 * i) % 12 == 0), "TPC interval converted to wrong number of semitones")
    m = hu.transpose_pitch((7 * (p - 15)) % 12, mi, MIDI)
    ctx.check(m == (7 * (a - 15)) % 12, "transposing and converting to MIDI do not commute")
    ctx.cover("commutes")


def relative(ctx, pt, kc, pad):
    p = ctx.int("p", -200, 200)
    t = ctx.int("t", -200, 200)
    bad, r = raises(ValueError, hu.absolute_to_relative, p, t, pt, kc, pad=pad)
    if pt == MIDI:
        ctx.check(not bad, "MIDI relative pitch must not fail")
        ctx.check(AND(r >= 0, r < 12, (r - (p - t)) % 12 == 0), "MIDI relative pitch wrong")
        ctx.cover("midi")
        return
    lo, hi = (KEY_MIN, KEY_MAX) if kc else (REL_MIN, REL_MAX)
    if pad and not kc:
        lo, hi = lo - REL_EXTRA, hi + REL_EXTRA
    inr = AND(p - t >= lo, p - t < hi)
    ctx.check(EQ(inr, not bad), "relative pitch must fail exactly when out of range")
    if bad:
        ctx.cover("rejected")
    else:
        ctx.check(AND(r >= 0, r < hi - lo, r + lo + t == p), "relative pitch does not recover the absolute pitch")
        ctx.cover("accepted")


def cases(tier):
    out = [Case("name_tpc", name_tpc, "p in [-70,105]", ["in-range name"]),
           Case("name_midi", name_midi, "p in [-30,40]", ["midi name"]),
           Case("spelling", spelling, "14 letters x accidentals in [-4,4]", ["spelling"]),
           Case("transpose_tpc", transpose, "|p|,|i| <= 200", ["tpc ok", "tpc rejected"], pt=TPC),
           Case("transpose_midi", transpose, "|p|,|i| <= 200", ["midi"], pt=MIDI),
           Case("enharmonic", enharmonic, "all p, i with p, p+i in [0,35)", ["commutes"])]
    for pt in (TPC, MIDI):
        for kc in (False, True):
            for pad in (False, True):
                out.append(Case(f"relative_{pt.name}_{kc}_{pad}", relative, "|p|,|t| <= 200",
                                ["midi"] if pt == MIDI else ["rejected", "accepted"], pt=pt, kc=kc, pad=pad))
    return out
