import contextlib
from props.dsets import *
import pandas as pd
import harmonic_inference.utils.forces as fo
from harmonic_inference.data.note import Note

LEVEL = "model_checking"
F = "harmonic_inference.utils.forces:"
TARGETS = [F + f for f in ("convert_score_positions_to_note_indexes", "extract_forces_from_musescore")] + [
    "harmonic_inference.utils.harmonic_utils:" + f for f in ("get_chord_one_hot_index", "get_key_one_hot_index", "get_pitch_from_string")]
BOUNDS = ("positions: 3 (thorough 4) notes and 2 forces with or without an id, symbolic measures 0..2, symbolic rational beats; scores: up to 3 annotation labels and 3 lyrics, each any of the six kinds of force, an ordinary label or nothing, "
          "symbolic rational positions in any order; every root (7 letters, up to two accidentals, either case), chord type and inversion (given or not) and every key")
OUTSIDE = ("several forces written in one label; the reading of the MuseScore file itself (ms3), replaced by a stand-in that yields the tables of labels and lyrics")
NAMES = {t: s for t, s in zip(TYPES, ["M", "m", "o", "+", "MM7", "Mm7", "mM7", "mm7", "o7", "%7", "+7", "+M7"])}
ACC = ["", "#", "##", "b", "bb"]


def convert(ctx, notes, ids):
    pos = [(ctx.int(f"mc{i}", 0, 2), ctx.real(f"on{i}", 0, 4)) for i in range(notes)]
    for a, b in zip(pos, pos[1:]):
        ctx.assume(OR(a[0] < b[0], AND(EQ(a[0], b[0]), a[1] <= b[1])))
    piece = P(notes=[Note(15 + i, 4, p, 0, Fraction(1), p, 0, TPC) for i, p in enumerate(pos)])
    forces = []
    for j in range(2):
        p = (ctx.int(f"fmc{j}", 0, 3), ctx.real(f"fon{j}", 0, 5))
        forces.append(p + (100 + 7 * j,) if ids else p)
    bad, got = raises(ValueError, fo.convert_score_positions_to_note_indexes, forces, piece)
    hit = [[AND(EQ(f[0], p[0]), EQ(f[1], p[1])) for p in pos] for f in forces]
    ctx.check(EQ(AND([OR(h) for h in hit]), not bad), "a forced position is refused although it is a note onset, or accepted although it is none")
    if bad:
        ctx.cover("refused")
        return
    ctx.check(len(got) == 2, "not one force per given force")
    for j, h in enumerate(hit):
        index = got[j][0] if ids else got[j]
        ctx.check(0 <= index < notes, "a forced position is no note of the piece")
        ctx.check(h[index], "a forced position became a note that starts elsewhere")
        ctx.check(NOT(OR(h[:index])), "a forced position became a note which is not the first starting there")
        if ids:
            ctx.check(len(got[j]) == 2 and got[j][1] == 100 + 7 * j, "a forced label was not kept with its position")
    ctx.cover("converted")


class _Holder:
    def __init__(self, **k):
        self.__dict__.update(k)


def table(rows, col):
    d = {"mc": pd.array([r[0] for r in rows], dtype="int64")}
    on = np.empty(len(rows), dtype=object)
    for i, r in enumerate(rows):
        on[i] = r[1]
    d["mn_onset"] = on
    text = [r[2] for r in rows]
    # a column without any text is a column of NaN (as ms3 gives for a score without lyrics)
    d[col] = pd.Series(text, dtype=object) if any(t is not None for t in text) or col == "label" else pd.Series([np.nan] * len(text), dtype=float)
    return pd.DataFrame(d)


@contextlib.contextmanager
def score(labels, lyrics):
    def get_labels(*a, **k):
        return table(labels, "label")

    def get_chords(*a, **k):
        df = table(lyrics, "lyrics")
        return df if k.get("lyrics") else df.drop(columns="lyrics")

    old = fo.Score
    fo.Score = lambda path, *a, **k: _Holder(annotations=_Holder(get_labels=get_labels), mscx=_Holder(get_chords=get_chords))
    try:
        yield
    finally:
        fo.Score = old


def pitch_of(letter, acc):
    return 15 + FIFTHS[letter.upper()] + 7 * (acc.count("#") - acc.count("b"))


def chord_id(ct, root, inv):
    return sum(num_inv(t) * 35 for t in SORTED[:SORTED.index(ct)]) + root * num_inv(ct) + inv


SORTED = [t for t in TYPES if num_inv(t) == 3] + [t for t in TYPES if num_inv(t) == 4]


def same_forces(ctx, got, want, what):
    """the same positions (and ids), in any order"""
    got = list(got)
    ctx.check(len(got) == len(want), f"{what}: not exactly the written ones")
    for w in want:
        for i, g in enumerate(got):
            if len(g) == len(w) and AND([EQ(a, b) for a, b in zip(g, w)]):
                del got[i]
                break
        else:
            ctx.check(False, f"{what}: a written one is missing or misplaced")


KINDS = ["chord_changes", "chord_non_changes", "key_changes", "key_non_changes", "chords", "keys"]
TEXT = {"chord_changes": "!C", "chord_non_changes": "=C", "key_changes": "!K", "key_non_changes": "=K"}


def chord_label(ctx, ct):
    l, a = ctx.choice("pitch", [(l, a) for l in "ABCDEFGabcdefg" for a in ACC if l.isupper() or len(a) < 2])
    inv = ctx.choice("inversion", [None] + list(range(num_inv(ct))))
    return f"C={l}{a}{NAMES[ct]}" + ("" if inv is None else f"_{inv}"), chord_id(ct, pitch_of(l, a), inv or 0)


def run(ctx, labels, lyrics, want):
    with score(labels, lyrics):
        got = fo.extract_forces_from_musescore("score.mscx")
    ctx.check(len(got) == 6, "not six lists of forces")
    for kind, g in zip(KINDS, got):
        same_forces(ctx, g, want[kind], kind)


def one_chord(ctx, ct, where):
    text, ident = chord_label(ctx, ct)
    on, on2 = ctx.real("on", 0, 4), ctx.real("on2", 0, 4)
    rows, others = [(2, on, text)], [(1, on2, "V65")]
    want = {k: [] for k in KINDS}
    want["chords"] = [(2, on, ident)]
    if where == "label":
        run(ctx, others + rows, [(1, on, None)], want)
    else:
        run(ctx, others, [(1, on2, "la"), (3, on2, None)] + rows, want)
    ctx.cover("read")


def one_key(ctx, where):
    l, a = ctx.choice("letter", "ABCDEFGabcdefg"), ctx.choice("accidental", ACC)
    on, on2 = ctx.real("on", 0, 4), ctx.real("on2", 0, 4)
    rows, others = [(2, on, f"K={l}{a}")], [(1, on2, "I")]
    want = {k: [] for k in KINDS}
    want["keys"] = [(2, on, (0 if l.isupper() else 35) + pitch_of(l, a))]
    if where == "label":
        run(ctx, others + rows, [(1, on, None)], want)
    else:
        run(ctx, others, [(1, on2, None)] + rows, want)
    ctx.cover("read")


# some chords and keys whose names are parts of, or begin like, one another
POOL = [("chords", f"C={l}{NAMES[t]}" + s, (t, l, i)) for l, t, s, i in
        [("Bb", ChordType.MAJOR, "", 0), ("B", ChordType.MIN_MIN7, "_3", 3), ("C", ChordType.DIM7, "", 0), ("f#", ChordType.DIMINISHED, "_2", 2)]]
OPTIONS = [(k, TEXT[k], None) for k in KINDS[:4]] + POOL[:2] + [("keys", "K=bb", None), (None, "V7", None)]


def mixed(ctx, labels, lyrics, options):
    want = {k: [] for k in KINDS}

    def rows(n, name, opts):
        out = []
        for i in range(n):
            kind, text, what = ctx.choice(f"{name}{i}", opts)
            mc, on = 1 + (2 * i) % 3, ctx.real(f"{name}_on{i}", 0, 4)
            out.append((mc, on, text))
            if kind == "chords":
                want[kind].append((mc, on, chord_id(what[0], pitch_of(what[1][0], what[1][1:]), what[2])))
            elif kind == "keys":
                want[kind].append((mc, on, 35 + pitch_of("b", "b")))
            elif kind:
                want[kind].append((mc, on))
        return out

    run(ctx, rows(labels, "label", options), rows(lyrics, "lyric", options + [(None, None, None)]), want)
    ctx.cover("read")


def cases(tier):
    th = tier == "thorough"
    out = [Case(f"convert_{ids}", convert, "sorted notes, arbitrary positions", ["refused", "converted"], weight=3, uniform=True, notes=4 if th else 3, ids=ids) for ids in (False, True)]
    for ct in TYPES:
        for where in ("label", "lyric") if th else (("label", "lyric")[ct.value % 2],):
            out.append(Case(f"chord_{ct.name}_{where}", one_chord, "every root and inversion", ["read"], weight=4, np_objects=True, ct=ct, where=where))
    for where in ("label", "lyric"):
        out.append(Case(f"key_{where}", one_key, "every key", ["read"], np_objects=True, where=where))
    sizes = [(1, 1), (2, 0), (1, 2), (3, 0)] + ([(2, 1), (2, 2), (1, 3)] if th else [])
    for a, b in sizes:
        out.append(Case(f"mixed_{a}_{b}", mixed, "every combination of forces", ["read"], weight=5, np_objects=True, labels=a, lyrics=b, options=OPTIONS if a + b < 4 else OPTIONS[:5]))
    return out
