from props.common import *
from props.measures import TIMESIGS, Measures, divides, level
import pandas as pd
import harmonic_inference.utils.rhythmic_utils as ru

LEVEL = "model_checking"
RU = "harmonic_inference.utils.rhythmic_utils:"
TARGETS = [RU + f for f in ("get_range_length", "get_rhythmic_info_as_proportion_of_range", "get_metrical_level_lengths", "get_metrical_level")]
BOUNDS = ("up to 4 (thorough: 6) consecutive measures, first measure number 0..3, every actual duration in (0,2] and every pick-up offset in [0,2] symbolic, positions "
          "anywhere inside any measure, playback that skips measures; every time signature n/d with n<=15, d in 1..32, any rational beat in [0,8]")
OUTSIDE = "more measures; scores whose playback order jumps backwards"
DENS = [1, 2, 4, 8, 16, 32]


def lengths(n, d):
    full = Fraction(n, d)
    if n > 3 and n % 3 == 0:
        return full, Fraction(3, d), Fraction(1, d)
    return full, Fraction(1, d), Fraction(1, 2 * d)


def level_lengths(ctx):
    n, d = ctx.choice("n", range(1, 25)), ctx.choice("d", DENS)
    got = ru.get_metrical_level_lengths(f"{n}/{d}")
    ctx.check(AND([EQ(a, b) for a, b in zip(got, lengths(n, d))]) and len(got) == 3, "bar, beat and sub-beat lengths wrong")
    ctx.cover("lengths")


def metrical_level(ctx, d):
    n = ctx.choice("n", range(1, 16))
    beat = ctx.real("beat", 0, 8)
    m, b, s = lengths(n, d)
    want = ite(divides(beat, m), 3, ite(divides(beat, b), 2, ite(divides(beat, s), 1, 0)))
    got = ru.get_metrical_level(beat, pd.Series({"timesig": f"{n}/{d}"}))
    ctx.check(EQ(got, want), "metrical level wrong")
    ctx.cover(f"level {int(got)}")


def range_length(ctx, n, skip, first):
    ms = Measures(ctx, n, first=first, skip=skip)
    df = ms.df()
    a, b = ms.pos("a"), ms.pos("b")
    want = ms.abs(b) - ms.abs(a)
    ctx.check(EQ(ru.get_range_length(a, b, df), want), "range length is not the elapsed time between the two positions")
    ctx.cover("forward" if a[0] <= b[0] else "backward")


def additive(ctx):
    ms = Measures(ctx, 3, first=1)
    df = ms.df()
    a, b, c = ms.pos("a"), ms.pos("b"), ms.pos("c")
    ab, bc, ac, ba = (ru.get_range_length(x, y, df) for x, y in ((a, b), (b, c), (a, c), (b, a)))
    ctx.check(EQ(ab + bc, ac), "lengths of adjacent ranges do not add up")
    ctx.check(EQ(ab + ba, 0), "length is not antisymmetric")
    ctx.cover("additive")


def proportion(ctx, given):
    ms = Measures(ctx, 3, first=0, max_dur=1)
    df = ms.df()
    s, e, on = ms.pos("s"), ms.pos("e"), ms.pos("on")
    dur = ctx.real("dur", 0, 4)
    ln = ms.abs(e) - ms.abs(s)
    if given:
        ln = REAL(ctx.choice("len", [Fraction(1, 2), Fraction(5, 4), Fraction(2)]))
        ctx.assume(ms.abs(e) - ms.abs(s) == ln)
    else:
        ctx.assume(ln > 0)
    note = pd.Series({"mc": on[0], "mn_onset": on[1], "duration": dur}, dtype=object)
    o, f, d = ru.get_rhythmic_info_as_proportion_of_range(note, s, e, df, range_len=ln if given else None)
    if given:
        ctx.check(EQ(o, (ms.abs(on) - ms.abs(s)) / ln), "onset is not the elapsed proportion of the range")
        ctx.check(EQ(d, dur / ln), "duration is not the proportion of the range")
        ctx.check(EQ(f, o + d), "offset is not onset + duration")
    else:
        # multiplied out to stay (almost) linear
        ctx.check(EQ(o * ln, ms.abs(on) - ms.abs(s)), "onset is not the elapsed proportion of the range")
        ctx.check(EQ(d * ln, dur), "duration is not the proportion of the range")
        ctx.check(EQ(f, o + d), "offset is not onset + duration")
    ctx.cover("proportion")


def cases(tier):
    out = [Case("level_lengths", level_lengths, "", ["lengths"]), Case("additive", additive, "", ["additive"], uniform=True, weight=5),
           Case("proportion_given", proportion, "", ["proportion"], uniform=True, given=True),
           Case("proportion", proportion, "", ["proportion"], uniform=True, given=False)]
    for d in DENS:
        out.append(Case(f"level_{d}", metrical_level, "", [f"level {k}" for k in range(4)], uniform=True, d=d))
    for n, skip, first in ((1, None, 0), (2, None, 3), (3, None, 1), (4, None, 0), (4, [2], 1), (4, [1, 2], 0)) + (((6, None, 0), (6, [2, 4], 0)) if tier == "thorough" else ()):
        out.append(Case(f"range_{n}_{skip}_{first}", range_length, "", ["forward"], uniform=True, n=n, skip=skip, first=first))
    return out
