import contextlib
import logging
import os
import shutil
import tempfile
from props.common import *
from props.measures import Measures
import pandas as pd
import harmonic_inference.data.corpus_reading as cr
from harmonic_inference.data import corpus_constants as cc

LEVEL = "model_checking"
TARGETS = ["harmonic_inference.data.corpus_reading:load_clean_corpus_dfs", "harmonic_inference.data.corpus_reading:read_dump",
           "harmonic_inference.utils.corpus_utils:remove_unmatched", "harmonic_inference.utils.corpus_utils:remove_repeats"] + [
    "harmonic_inference.data.corpus_constants:" + f for f in ("str2frac", "str2inttuple", "int2bool")]
BOUNDS = ("1-3 pieces, of which the first has up to 3 measures with a repeat or a first ending, 2 notes or a tied pair, and up to 3 labels (thorough 3 notes, 4 labels); symbolic measure lengths (0,2] and pickup offsets, "
          "symbolic positions inside or outside of the measures, symbolic durations; labels present, partly present, empty, '@none' or absent; any number of pieces asked for; positions under their old column names")
OUTSIDE = ("pieces with neither notes nor measures; tables with missing positions; pandas' own csv parser (its python engine is used)")


def number(x):
    """the number in a cell, which may have been read as a term of the encoding"""
    if E.is_sym(x) and E.z3.is_rational_value(x.e):
        return Fraction(x.e.numerator_as_long(), x.e.denominator_as_long())
    return x if type(x) is Fraction else None


@contextlib.contextmanager
def corpus(tables, codes):
    """the tables as tsv files; codes are the fractions in them that stand for symbolic numbers"""
    d, real = tempfile.mkdtemp(), pd.read_csv
    for name, (cols, rows) in tables.items():
        with open(os.path.join(d, name), "w") as f:
            f.write("\t".join(cols) + "\n")
            for r in rows:
                f.write("\t".join("" if x is None else str(x) for x in r) + "\n")

    def read(*a, **k):
        k.pop("low_memory", None)
        df = real(*a, **{**k, "engine": "python"})        # pandas' C reader does not work under this interpreter
        for c in df.columns:
            if df[c].dtype == object:
                col = np.empty(len(df), dtype=object)
                for i, x in enumerate(df[c]):
                    col[i] = codes.get(number(x), x)
                df[c] = col
        return df

    pd.read_csv = read
    log = logging.root.manager.disable
    logging.disable(logging.CRITICAL)
    try:
        yield d
    finally:
        pd.read_csv = real
        logging.disable(log)
        shutil.rmtree(d)


class Codes(dict):
    def __call__(self, value):
        c = Fraction(1000003 + len(self), 99991)
        self[c] = value
        return c


NEXT = {"plain": lambda mcs: [str(m + 1) for m in mcs[:-1]] + ["-1"],
        "open": lambda mcs: [str(m + 1) for m in mcs[:-1]] + [""],
        "repeat": lambda mcs: [str(m + 1) for m in mcs[:-1]] + [f"{mcs[0]}, -1"],
        "ending": lambda mcs: [f"{mcs[1]}, {mcs[2]}", str(mcs[0])] + [str(m + 1) for m in mcs[2:-1]] + ["-1"]}


def world(ctx, shape, first, notes, chords, extra, tied=False, old=False, count=None, labels="all", offsets=True, orders=True):
    code = Codes()
    ms = Measures(ctx, shape[1], first=first, skip=[first + 1] if shape[0] == "ending" else None, offsets=offsets)
    end = lambda mc: ms.off[mc] + ms.act[mc]
    mrows = [(0, i, m, "4/4", code(ms.act[m]), code(ms.off[m]), n) for i, (m, n) in enumerate(zip(ms.mcs, NEXT[shape[0]](ms.mcs)))]
    # the other pieces: one measure, one note, one label
    others = list(range(1, 1 + extra))
    unlabelled = [f for f in range(1 + extra) if labels == "none" or labels == "later" and f == 0 or labels == "first" and f]
    mrows += [(f, 0, 1, "4/4", code(REAL(Fraction(1))), code(REAL(Fraction(0))), "-1") for f in others]

    spec, nrows = [], []
    if not notes:    # every piece has a note
        m = ms.mcs[0]
        spec.append(dict(mc=m, on=ms.off[m], dur=ms.act[m], id=(0, 0), ok=True))
        nrows.append((0, 0, m, code(ms.off[m]), code(ms.act[m]), 60, None, 1, 1, 14))
    for i in range(notes):
        mc = ctx.choice(f"n_mc{i}", ms.mcs)
        on, dur = ctx.real(f"n_on{i}", 0, 4), ctx.real(f"n_dur{i}", 0, 2, lo_open=True)
        mark = ({0: 1, 1: -1}.get(i, None)) if tied else None
        spec.append(dict(mc=mc, on=on, dur=dur, id=(0, i), ok=mc in ms.order and AND(ms.off[mc] <= on, on < end(mc))))
        nrows.append((0, i, mc, code(on), code(dur), 60 if tied and i < 2 else 61 + i, mark, 1, 1, 14 + i))
    if tied:
        a, b = spec[0], spec[1]
        ctx.assume(AND(a["ok"], b["ok"]))
        ctx.assume(EQ(ms.abs((b["mc"], b["on"])), ms.abs((a["mc"], a["on"])) + a["dur"]))
    nrows += [(f, 0, 1, code(REAL(Fraction(f, 8))), code(REAL(Fraction(1, 4))), 70 + f, None, 1, 1, 20) for f in others]

    cspec, crows = [], []
    for i in range(chords if 0 not in unlabelled else 0):
        mc = ctx.choice(f"c_mc{i}", ms.mcs)
        on = ctx.real(f"c_on{i}", 0, 4)
        num = ctx.choice(f"c_num{i}", ["V", "@none", None] if i == 1 else ["V"])
        ok = num == "V" and mc in ms.order and bool(AND(ms.off[mc] <= on, on < end(mc)))
        crows.append((0, i, mc, code(on), "4/4", num, 5 + i))
        if ok:
            if cspec:
                ctx.assume(ms.abs((mc, on)) >= ms.abs((cspec[-1]["mc"], cspec[-1]["on"])))
                ctx.assume(ms.order.index(mc) >= ms.order.index(cspec[-1]["mc"]))
            cspec.append(dict(mc=mc, on=on, id=(0, i), root=5 + i))
    crows += [(f, 0, 1, code(REAL(Fraction(1, 4))), "4/4", "I", 20 + f) for f in others if f not in unlabelled]

    pos = "onset" if old else None
    mcols = ["file_id", "measure_id", "mc", "timesig", "act_dur", "mc_offset", "next"]
    ncols = ["file_id", "note_id", "mc", "mn_onset", "duration", "midi", "tied", "staff", "voice", "tpc"]
    ccols = ["file_id", "chord_id", "mc", "mn_onset", "timesig", "numeral", "root"]
    if old:      # the positions of the first piece are in the columns' old names
        def both(cols, rows, j, name):
            return cols + [name], [r[:j] + (None,) + r[j + 1:] + (r[j],) if r[0] == 0 else r + (Fraction(1, 16),) for r in rows]   # elsewhere the old column is stale
        mcols, mrows = both(mcols, mrows, 5, "offset")
        ncols, nrows = both(ncols, nrows, 3, "onset")
        ccols, crows = both(ccols, crows, 3, "onset")
    ncols, nrows = ncols + ["gracenote"], [r + (None,) for r in nrows]
    tables = {"files.tsv": (["file_id", "corpus_name", "file_name"], [(f, f"corpus{f}", f"piece{f}.tsv") for f in [0] + others]),
              "measures.tsv": (mcols, mrows), "notes.tsv": (ncols, nrows)}
    if labels != "none":
        tables["chords.tsv"] = (ccols, crows)
    with corpus(tables, code) as d:
        files_df, measures_df, chords_df, notes_df = cr.load_clean_corpus_dfs(d, count=count) if count else cr.load_clean_corpus_dfs(d)

    # --- what must come out -----------------------------------------------------------------
    ids = [f for f in [0] + others if count is None or f < count]
    ctx.check(list(files_df.index) == ids and [files_df.loc[f, "file_name"] for f in ids] == [f"piece{f}.tsv" for f in ids]
              and [files_df.loc[f, "corpus_name"] for f in ids] == [f"corpus{f}" for f in ids], "not exactly the pieces asked for")
    want_m = [(0, m) for m in ms.order] + [(f, 1) for f in ids[1:]]
    ctx.check([(ix[0], int(m)) for ix, m in zip(measures_df.index, measures_df["mc"])] == want_m, "not exactly the played measures")
    for ix, r in measures_df.iterrows():
        if ix[0] == 0:
            m = int(r["mc"])
            ctx.check(AND(EQ(r["act_dur"], ms.act[m]), EQ(r["mc_offset"], ms.off[m])), "a measure's length or offset changed")
            nx = r["next"]
            ctx.check(nx is pd.NA if ms.next[m] is None else (nx is not pd.NA and int(nx) == ms.next[m]), "a measure does not lead to the one played after it")

    keep = [s for s in spec if bool(s["ok"])]
    if tied:
        keep = [s for s in keep if s["id"] != (0, 1)]
        spec[0]["dur"] = spec[0]["dur"] + spec[1]["dur"]
    want_n = [s["id"] for s in keep] + [(f, 0) for f in ids[1:]]
    ctx.check(list(notes_df.index) == want_n, "not exactly the notes which start inside of a played measure")
    for s in keep:
        r = notes_df.loc[s["id"]]
        ctx.check(AND(int(r["mc"]) == s["mc"], EQ(r["mn_onset"], s["on"]), EQ(r["duration"], s["dur"])), "a note was moved or its duration changed")
        ctx.check(int(r["tpc"]) == 14 + s["id"][1], "a note has the pitch of another one")
        omc = int(r["offset_mc"])
        ctx.check(omc in ms.order and EQ(ms.abs((omc, r["offset_beat"])), ms.abs((s["mc"], s["on"])) + s["dur"]), "a note's offset is not its duration after its onset")
        ctx.cover("note")
    if len(keep) < len(spec) - (1 if tied else 0):
        ctx.cover("note dropped")
    for f in ids[1:]:
        r = notes_df.loc[(f, 0)]
        ctx.check(AND(int(r["midi"]) == 70 + f, EQ(r["mn_onset"], Fraction(f, 8)), EQ(r["duration"], Fraction(1, 4))), "a note of another piece changed")

    if labels == "none":
        ctx.check(chords_df is None, "labels of an unlabelled corpus")
        ctx.cover("unlabelled")
        return
    want = []
    for s, nx in zip(cspec, cspec[1:] + [None]):
        stop = ms.end if nx is None else ms.abs((nx["mc"], nx["on"]))
        s["dur"] = stop - ms.abs((s["mc"], s["on"]))
        if s["dur"] > 0:
            want.append(s)
    want_c = [s["id"] for s in want] + [(f, 0) for f in ids[1:] if f not in unlabelled]
    ctx.check(list(chords_df.index) == want_c, "not exactly the labels which start inside of a played measure, name a chord and last")
    for s in want:
        r = chords_df.loc[s["id"]]
        ctx.check(AND(int(r["mc"]) == s["mc"], EQ(r["mn_onset"], s["on"]), int(r["root"]) == s["root"]), "a label was moved or changed")
        ctx.check(EQ(r["duration"], s["dur"]), "a label does not last until the next one")
        ctx.cover("label")
    for f in ids[1:]:
        if f not in unlabelled:
            r = chords_df.loc[(f, 0)]
            ctx.check(AND(int(r["root"]) == 20 + f, EQ(r["duration"], Fraction(3, 4))), "a label of another piece changed")


def digits(ctx):
    """the cells: fractions, lists of measures and flags"""
    n, d = ctx.choice("num", list(range(-3, 12))), ctx.choice("den", [1, 2, 3, 4, 7, 16])
    ctx.check(cc.str2frac(f"{n}/{d}") == Fraction(n, d) and cc.str2frac(str(n)) == n, "a fraction is misread")
    ctx.check(cc.str2frac("") is pd.NA, "an empty position is not missing")
    ctx.check(cc.str2inttuple(f"{n}, {d}") == (n, d) and cc.str2inttuple(str(n)) == (n,) and cc.str2inttuple("") == (), "a list of measures is misread")
    ctx.check(cc.int2bool("1") is True and cc.int2bool("0") is False and cc.int2bool("") is pd.NA, "a flag is misread")
    ctx.cover("read")


def cases(tier):
    th = tier == "thorough"
    k = dict(uniform=True)
    base = dict(first=1, notes=0, chords=0, extra=0)

    def case(name, covers, weight=3, **kw):
        return Case(name, world, "", covers, weight=weight, **k, **{**base, **kw})

    out = [Case("cells", digits, "cells", ["read"]),
           case("notes_plain", ["note", "note dropped"], 6, shape=("plain", 2), notes=2, labels="none", offsets=False),
           case("notes_ending", ["note", "note dropped"], 6, shape=("ending", 3), first=0, notes=1, labels="none"),
           case("notes_repeat", ["note", "note dropped"], shape=("repeat", 2), notes=1, labels="later", extra=1),
           case("tied", ["note"], 6, shape=("open", 2), notes=2, tied=True, labels="none"),
           case("tied_ending", ["note"], 6, shape=("ending", 3), notes=2, tied=True, labels="none", offsets=False),
           case("labels_plain", ["label"], 6, shape=("plain", 2), notes=0, chords=2, extra=1),
           case("labels_ending", ["label"], 8, shape=("ending", 3), chords=2, extra=1, offsets=False),
           case("labels_three", ["label"], 9, shape=("plain", 1), chords=3, extra=1),
           case("old_names", ["note", "label"], 6, shape=("repeat", 1), notes=1, chords=1, extra=1, old=True),
           case("both", ["note", "label"], 6, shape=("plain", 1), notes=1, chords=1, extra=1, offsets=False)]
    for labels in ("all", "later", "first", "none"):
        for count in (None, 1, 2):
            out.append(case(f"count_{labels}_{count}", [], 2, shape=("plain", 1), first=1, notes=1, chords=1, extra=2, offsets=False, labels=labels, count=count))
    if th:
        out += [case("notes_3", ["note", "note dropped"], 15, shape=("ending", 3), notes=2, labels="none"),
                case("notes_long", ["note", "note dropped"], 12, shape=("ending", 4), notes=1, labels="none"),
                case("labels_four", ["label"], 15, shape=("plain", 1), chords=4, extra=1),
                case("labels_ending3", ["label"], 20, shape=("ending", 3), chords=3, extra=1, offsets=False),
                case("both_ending", ["note", "label"], 20, shape=("ending", 3), notes=1, chords=2, extra=1, offsets=False)]
    return out
