from props.common import *
import pandas as pd
import harmonic_inference.utils.harmonic_utils as hu
import harmonic_inference.utils.eval_utils as eu
from props.dsets import P, mk_chord, mk_key, mk_note, arr

LEVEL = "model_checking"
TARGETS = ["harmonic_inference.utils.harmonic_utils:split_changes_into_list", "harmonic_inference.utils.harmonic_utils:get_added_and_removed_pitches",
           "harmonic_inference.utils.eval_utils:get_labels_df"]
BOUNDS = ("split: 1 change with any prefix, up to 2 accidentals and numbers 2..14, and every sequence of 2 (thorough: 3) changes over 4 prefixes x 3 accidentals x 4-5 numbers; "
          "pitches: tonic a symbolic int 14..16 (thorough 13..21), root symbolic -5..+6 fifths from it, both modes, 6 chord types (thorough all 12), 37 of the 220 single changes per mode and type group, together all of them (thorough: all each) and 15 sequences; "
          "table: 4 inputs, 3 chords, symbolic durations 0..4, 3 choices of the number for C")
OUTSIDE = ("changes and pitches become text in the code, so text and (once printed) pitches are decided path by path, the solver supplying every value of the stated ranges; "
           "the number 1 on its own, v/^ with numbers other than 2, 4, 6, ^6 or ##6 on triads (no tone to replace), and chord tones outside the 35-note alphabet")

SCALE = {MAJOR: (0, 2, 4, -1, 1, 3, 5), MINOR: (0, 2, -3, -1, 1, -4, -2)}     # degrees in fifths above the tonic
PREFIX, ACC = ("", "+", "v", "^"), ("", "#", "b", "##", "bb")
ACC_N = {"": 0, "#": 1, "b": -1, "##": 2, "bb": -2}


def split(ctx, k):
    toks = [ctx.choice(f"p{i}", PREFIX) + ctx.choice(f"a{i}", ACC[:3] if k > 1 else ACC) + ctx.choice(f"n{i}", ["2", "4", "9", "13", "10"][:5 if k < 3 else 4] if k > 1 else [str(x) for x in range(2, 15)])
            for i in range(k)]
    got = hu.split_changes_into_list("".join(toks))
    ctx.check(got == toks, "a change was split, joined or lost")
    ctx.cover("split")


def no_changes(ctx):
    x = ctx.choice("x", [None, ""])
    ctx.check(hu.split_changes_into_list(x) == [], "changes out of nothing")
    ctx.cover("none")


def spec_change(root, ct, token, tonic, mode):
    """(replaced pitch or None, new pitch, in an upper octave), all in fifths"""
    pre, rest = (token[0], token[1:]) if token[0] in "+v^" else ("", token)
    acc = rest.rstrip("0123456789")
    n = int(rest[len(acc):])
    letter = lambda p: p % 7
    degree = [letter(tonic + d) for d in SCALE[mode]].index(letter(root))
    new = tonic + SCALE[mode][(degree + n - 1) % 7] + 7 * ACC_N[acc]
    tones = [root + t for t in TONES_FIFTHS[ct]]
    old = None
    if pre == "+" or n not in (2, 4, 6):
        pass
    elif pre == "^" or (pre == "" and acc.startswith("#")):
        old = None if (token == "#6" and len(tones) == 3) else tones[n // 2]
    else:
        old = tones[n // 2 - 1]
    return old, new, n >= 8


def legal(token, ct):
    """a chord tone to be replaced exists"""
    pre = token[0] if token[0] in "+v^" else ""
    n = int(token.lstrip("+v^#b"))
    if pre in ("v", "^") and n not in (2, 4, 6):
        return False
    upper = pre == "^" or (pre == "" and token.startswith("#"))
    if upper and n == 6 and num_inv(ct) == 3 and token != "#6":
        return False
    return True


SINGLE = [p + a + str(n) for p in PREFIX for a in ACC for n in (2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 14)]
MULTI = ["64", "42", "+24", "+2+4", "4+b2", "13+b2", "+6#4", "^4v6", "#6b7", "9+11", "v24", "^2+9", "#42", "b6+#411", "+9b64"]


def out(x):
    return list(x.items()) if isinstance(x, dict) else [tuple(y) for y in x]


def changes(ctx, mode, types, tokens, multi, tonics):
    tonic = ctx.int("tonic", *tonics)
    off = ctx.int("root", -5, 6)
    if multi:
        ctx.assume(OR(EQ(off, -3), EQ(off, 0), EQ(off, 1), EQ(off, 5)))
    root = tonic + off
    ct = ctx.choice("type", types)
    s = ctx.choice("changes", tokens)
    toks, rest = [], s
    while rest:
        i = 0
        while not rest[i].isdigit():
            i += 1
        i += 2 if rest[i] == "1" else 1
        toks.append(rest[:i])
        rest = rest[i:]
    if not all(legal(t, ct) for t in toks):
        return
    got = out(hu.get_added_and_removed_pitches(root, ct, s, tonic, mode))
    want = []
    for t in toks:
        old, new, up = spec_change(root, ct, t, tonic, mode)
        want.append(("" if old is None else str(old), ("+" if up else "") + str(new)))
    ctx.check([g for g in got] == want, "replaced or new pitches are not those of the change")
    ctx.cover("replacement" if any(w[0] for w in want) else "addition")


def table(ctx, mode, full):
    """the label table writes the alterations of each chord at its inputs"""
    tonic = ctx.choice("tonic", [13, 18])
    tpc_c = ctx.choice("c", [15, 0, 14])
    key = mk_key(tonic, mode, TPC)
    sus = [None, "4", "+6+9", "64", "#2b7", "+24"]
    specs = [(tonic + 1, ChordType.MAJOR, ctx.choice("s0", sus)), (tonic - 1, ChordType.HALF_DIM7, ctx.choice("s1", sus[:4] if full else [None, "64", "+6+9"])), (tonic, ChordType.MINOR, ctx.choice("s2", sus[::2] if full else [None, "+24"]))]
    chords = []
    for r, ct, s in specs:
        c = mk_chord(r, r, key, ct, 0, Fraction(1), TPC)
        c.suspension = s
        chords.append(c)
    durs = [ctx.real(f"d{i}", 0, 4) if full or i in (1, 3) else REAL(Fraction(1)) for i in range(4)]
    starts = [0, 1, 3]
    notes = [mk_note(15 + i, TPC) for i in range(4)]
    for i, n in enumerate(notes):
        n.onset = (i, Fraction(i, 4))
    piece = P(notes=notes, durs=durs, changes=starts, chords=chords, keys=[key], key_changes=[0])
    df = eu.get_labels_df(piece) if tpc_c == 15 and mode == MAJOR else eu.get_labels_df(piece, tpc_c=tpc_c)
    rows = []
    for i in range(4):
        if durs[i] == 0:
            continue
        r, ct, s = specs[[j for j, st in enumerate(starts) if st <= i][-1]]
        tp, mi = [], []
        toks = {None: [], "4": ["4"], "+6+9": ["+6", "+9"], "64": ["6", "4"], "#2b7": ["#2", "b7"], "+24": ["+2", "4"]}[s]
        for t in toks:
            old, new, up = spec_change(r, ct, t, tonic, mode)
            f = lambda p: str(p - 15 + tpc_c)
            g = lambda p: str((7 * (p - 15)) % 12)
            tp.append(("" if old is None else f(old)) + ":" + ("+" if up else "") + f(new))
            mi.append(("" if old is None else g(old)) + ":" + ("+" if up else "") + g(new))
        rows.append((";".join(tp), ";".join(mi), i))
    ctx.check(len(df) == len(rows), "not one row per input with a duration")
    for (_, row), (tp, mi, i) in zip(df.iterrows(), rows):
        ctx.check(row["chord_suspension_tpc"] == tp, "tonal alterations of a row wrong")
        ctx.check(row["chord_suspension_midi"] == mi, "midi alterations of a row wrong")
        ctx.check(row["mc"] == i, "row of another input")
    ctx.cover("table")


def cases(tier):
    full = tier == "thorough"
    out = [Case(f"split_{k}", split, k=k, covers=("split",)) for k in ((1, 2) if not full else (1, 2, 3))] + [Case("split_none", no_changes, covers=("none",))]
    tonics = (13, 21) if full else (14, 16)
    groups = [TYPES[:4], TYPES[4:8], TYPES[8:]]
    for mode in (MAJOR, MINOR):
        for gi, g in enumerate(groups):
            if not full:
                g = g[::2]
            toks = SINGLE if full else SINGLE[gi + 3 * (mode == MINOR)::6]
            out.append(Case(f"single_{mode.name}_{gi}", changes, mode=mode, types=g, tokens=toks, multi=False, tonics=tonics, covers=("replacement", "addition")))
            out.append(Case(f"multi_{mode.name}_{gi}", changes, mode=mode, types=g, tokens=MULTI, multi=True, tonics=tonics, covers=("replacement", "addition")))
        out.append(Case(f"table_{mode.name}", table, mode=mode, full=full, covers=("table",)))
    return out
