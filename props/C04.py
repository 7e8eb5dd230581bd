from props.common import *
import harmonic_inference.utils.harmonic_utils as hu

LEVEL = "model_checking"
HU = "harmonic_inference.utils.harmonic_utils:"
TARGETS = [HU + f for f in ("get_interval_from_scale_degree", "get_interval_from_numeral", "get_scale_degree_from_interval",
                            "decode_relative_keys", "get_accidental_adjustment", "transpose_pitch")]
BOUNDS = ("every numeral/number with up to 4 flats or sharps in front or behind, both modes and pitch types; every interval in "
          "[-60,60]; every chain of 1-2 (thorough 3) slash-separated numerals from every tonic")
OUTSIDE = "more accidentals, longer chains of relative keys, malformed numerals"

ROMAN = ["I", "II", "III", "IV", "V", "VI", "VII"]
SCALE = {MAJOR: (0, 2, 4, -1, 1, 3, 5), MINOR: (0, 2, -3, -1, 1, -4, -2)}  # fifths
DEGREES = ROMAN + [r.lower() for r in ROMAN]


def spec_interval(deg, n, mode, pt):
    f = SCALE[mode][deg]
    return f + 7 * n if pt == TPC else (7 * f) % 12 + n


def accs(n):
    return "#" * n if n > 0 else "b" * -n


def degree(ctx):
    mode = ctx.choice("mode", [MAJOR, MINOR])
    pt = ctx.choice("pt", [TPC, MIDI])
    s = ctx.choice("degree", DEGREES + [str(i) for i in range(1, 8)])
    n = ctx.choice("acc", range(-4, 5))
    d = (int(s) if s.isdigit() else ROMAN.index(s.upper()) + 1) - 1
    want = spec_interval(d, n, mode, pt)
    ctx.check(hu.get_interval_from_scale_degree(accs(n) + s, True, mode, pt) == want, "prefixed scale degree has the wrong interval")
    ctx.check(hu.get_interval_from_scale_degree(s + accs(n), False, mode, pt) == want, "suffixed scale degree has the wrong interval")
    ctx.check(hu.get_interval_from_numeral(accs(n) + s, mode, pt) == want, "numeral has the wrong interval")
    a, rest = hu.get_accidental_adjustment(accs(n) + s, in_front=True)
    ctx.check(a == n and rest == s, "accidentals split wrongly")
    ctx.cover("degree")


def back(ctx, pt):
    mode = ctx.choice("mode", [MAJOR, MINOR])
    i = ctx.int("interval", -60, 60)
    s = hu.get_scale_degree_from_interval(i, mode, pt)
    j = hu.get_interval_from_scale_degree(s, True, mode, pt)
    body = s.lstrip("b#")
    pre = s[: len(s) - len(body)]
    ctx.check(body in ROMAN, "scale degree is not a numeral")
    if pt == TPC:
        ctx.check(j == i, "interval -> scale degree -> interval is not the identity")
        ctx.check(pre in (accs(len(pre)), accs(-len(pre))), "mixed accidentals")
    else:
        ctx.check((j - i) % 12 == 0, "interval -> scale degree -> interval changes the pitch class")
        ctx.check("b" not in pre and len(pre) <= 1, "MIDI degrees are spelled with at most one sharp")
    ctx.cover("back")


def chain(ctx, pt, mode, depth, accidentals):
    t = ctx.int("tonic", -5, N[pt] + 4)
    parts = []
    for k in range(depth):
        s = ctx.choice(f"num{k}", DEGREES)
        n = ctx.choice(f"acc{k}", accidentals if k == 0 else [0] if depth > 1 else accidentals)
        parts.append((s, n))
    string = "/".join(accs(n) + s for s, n in parts)
    # spec: the right-most is relative to the starting key, each further left to the new key
    m, cur, ok = mode, t, True
    for s, n in reversed(parts):
        iv = spec_interval(ROMAN.index(s.upper()), n, m, pt)
        m = MINOR if s.islower() else MAJOR
        if pt == MIDI:
            cur = (cur + iv) % 12
        else:
            cur = cur + iv
            ok = AND(ok, cur >= 0, cur < 35)
    bad, r = raises(ValueError, hu.decode_relative_keys, string, t, mode, pt)
    ctx.check(EQ(ok, not bad), "relative key accepted/refused wrongly")
    if not bad:
        ctx.check(AND(r[0] == cur, EQ(r[1], m)), "relative key resolves to the wrong tonic or mode")
        ctx.cover("chain")


def cases(tier):
    out = [Case("degree", degree, "", ["degree"], weight=9)]
    for pt in (TPC, MIDI):
        out.append(Case(f"back_{pt.name}", back, "interval in [-60,60]", ["back"], pt=pt, weight=5))
        for mode in (MAJOR, MINOR):
            out.append(Case(f"chain1_{pt.name}_{mode.name}", chain, "1 numeral, up to 2 accidentals", ["chain"], pt=pt, mode=mode, depth=1, accidentals=[-2, -1, 0, 1, 2], weight=4))
            out.append(Case(f"chain2_{pt.name}_{mode.name}", chain, "2 numerals", ["chain"], pt=pt, mode=mode, depth=2, accidentals=[-1, 0, 1], weight=8))
            if tier == "thorough":
                out.append(Case(f"chain3_{pt.name}_{mode.name}", chain, "3 numerals", ["chain"], pt=pt, mode=mode, depth=3, accidentals=[0], weight=9))
    return out
