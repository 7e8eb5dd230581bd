from props.common import *
import pandas as pd
import harmonic_inference.utils.corpus_utils as cu

LEVEL = "model_checking"
TARGETS = ["harmonic_inference.utils.corpus_utils:merge_ties"]
BOUNDS = ("quick: 3 notes (every combination of tie markings), 2 pitches, symbolic rational onsets/durations, 2 measures; chains of 4 with symbolic durations; "
          "2-3 chains of 2-4 notes at once, of different pitches, voices, staves or pieces, some without beginning or end; 2x2 same-pitch notes disambiguated by staff/voice; thorough: 4 notes, two pieces")
OUTSIDE = "dangling tie chains that directly abut another dangling tied-in note; more notes"
COLS = ["mc", "mn_onset", "offset_mc", "offset_beat", "midi", "tied", "gracenote", "duration", "staff", "voice"]


def frame(rows, files=None):
    idx = [((files[i] if files else 0), i) for i in range(len(rows))]
    ix = pd.MultiIndex.from_tuples(idx, names=["file_id", "note_id"])
    d = {}
    for c in COLS:
        vals = [r[c] for r in rows]
        if c in ("mc", "offset_mc", "midi", "tied", "staff", "voice"):
            d[c] = pd.array([pd.NA if v is None else v for v in vals], dtype="Int64")
        else:
            d[c] = pd.Series([pd.NA if v is None else v for v in vals], dtype=object).to_numpy()
    return pd.DataFrame(d, index=ix), idx


def note(mc, on, omc, off, midi, tied, dur, grace=None, staff=1, voice=1):
    return dict(mc=mc, mn_onset=on, offset_mc=omc, offset_beat=off, midi=midi, tied=tied, gracenote=grace, duration=dur, staff=staff, voice=voice)


def na(x):
    return x is None or x is pd.NA or (isinstance(x, float) and x != x)


def is_succ(a, b, same_file=True):
    """b continues a (spec): a is tied forward, b tied backward, same pitch, b starts exactly where a ends"""
    if not same_file or a["gracenote"] is not None or b["gracenote"] is not None:
        return False
    if a["tied"] not in (1, 0) or b["tied"] not in (0, -1) or a["midi"] != b["midi"] or a["offset_mc"] != b["mc"]:
        return False
    return bool(a["offset_beat"] == b["mn_onset"])


def same(ctx, row, n):
    return AND([(na(row[c]) and n[c] is None) or (not na(row[c]) and n[c] is not None and EQ(row[c] if not hasattr(row[c], "item") else row[c].item(), n[c])) for c in COLS])


def general(ctx, ties, midis, files=None):
    """notes with the given tie markings; positions and durations symbolic"""
    rows = []
    for i, t in enumerate(ties):
        on, dur = ctx.real(f"on{i}", 0, 4), ctx.real(f"dur{i}", 0, 2, lo_open=True)
        # every note is in measure 0, except that the ends may be written as positions in measure 1 (bar length 4)
        rows.append(note(0, on, 0, on + dur, midis[i], t, dur, grace="grace" if t == "g" else None))
        if t == "g":
            rows[-1]["tied"] = 1
    n = len(rows)
    fl = files or [0] * n
    df, idx = frame(rows, fl)
    succ = {i: [j for j in range(n) if j != i and is_succ(rows[i], rows[j], fl[i] == fl[j])] for i in range(n)}
    pred = {j: [i for i in range(n) if j in succ[i]] for j in range(n)}
    ambiguous = any(len(v) > 1 for v in succ.values()) or any(len(v) > 1 for v in pred.values())
    # excluded (see OUTSIDE): something tied back starts exactly where a note that is not tied forward ends a dangling chain
    for i in range(n):
        if rows[i]["tied"] == -1 and rows[i]["gracenote"] is None:
            for j in range(n):
                if j != i and fl[i] == fl[j] and rows[j]["tied"] in (0, -1) and rows[j]["gracenote"] is None and midis[i] == midis[j]:
                    ctx.assume(rows[i]["offset_beat"] != rows[j]["mn_onset"])
    out = cu.merge_ties(df)
    got = {ix: r for ix, r in out.iterrows()}
    ctx.check(len(got) == len(out), "a note occurs twice")
    ctx.check(list(out.index) == sorted(got), "notes are out of order")
    ctx.check(set(got) <= set(idx), "invented note")
    tot = lambda vals: sum(vals, REAL(Fraction(0)) if ctx.symbolic else Fraction(0))
    ctx.check(EQ(tot([r["duration"] for r in got.values()]), tot([r["duration"] for r in rows])), "total sounding duration changed")
    for i in range(n):
        if rows[i]["gracenote"] is not None or rows[i]["tied"] is None:
            ctx.check(idx[i] in got and same(ctx, got[idx[i]], rows[i]), "an untied note or grace note was changed or dropped")
    if ambiguous:
        ctx.cover("ambiguous")
        return
    heads = [i for i in range(n) if not pred[i]]
    ctx.check(set(got) == {idx[i] for i in heads}, "the remaining notes are not exactly the first notes of the tied chains")
    for i in heads:
        chain = [i]
        while succ[chain[-1]]:
            chain.append(succ[chain[-1]][0])
        r, last = got[idx[i]], rows[chain[-1]]
        ctx.check(EQ(r["mn_onset"], rows[i]["mn_onset"]), "a merged note must start with its first note")
        ctx.check(EQ(r["offset_beat"], last["offset_beat"]) and int(r["offset_mc"]) == last["offset_mc"], "a merged note must end with its last note")
        ctx.check(EQ(r["duration"], tot([rows[k]["duration"] for k in chain])), "merged duration is not the sum of the chain")
        if rows[i]["tied"] == 1 and last["tied"] == -1 and rows[i]["gracenote"] is None:
            ctx.check(na(r["tied"]), "a completely merged note is still marked as tied")
            ctx.cover(f"chain of {len(chain)}")
    ctx.cover("merged")


def chain(ctx, k, extra):
    """a chain of k notes across bar lines (the chain's pitch given), in any order of rows, plus an unrelated note of another pitch"""
    durs = [ctx.real(f"d{i}", 0, 2, lo_open=True) for i in range(k)]
    perm = ctx.choice("perm", list(itertools.permutations(range(k))) if k <= 3 else [tuple(range(k)), tuple(range(k))[::-1], tuple(range(1, k, 2)) + tuple(range(0, k, 2)), tuple(range(k - 1, -1, -2)) + tuple(range(k - 2, -1, -2))])
    rows = [None] * k
    for i in range(k):
        # note i sits in measure i, fills it to its end and continues at the start of measure i + 1
        on = REAL(Fraction(0)) if i else ctx.real("on0", 0, 2)
        omc, off = (i + 1, REAL(Fraction(0))) if i + 1 < k else (i, on + durs[i])
        rows[perm[i]] = note(i, on, omc, off, 60, 1 if i == 0 else (-1 if i == k - 1 else 0), durs[i])
    if extra:
        rows.append(note(0, ctx.real("xon", 0, 2), 1, REAL(Fraction(0)), 61, 1, REAL(Fraction(1))))
        rows.append(note(1, REAL(Fraction(0)), 1, REAL(Fraction(1)), 61, None, REAL(Fraction(1))))
    df, idx = frame(rows)
    out = cu.merge_ties(df)
    head = perm[0]
    ctx.check([i for _, i in out.index] == sorted([head] + ([k, k + 1] if extra else [])), "chain not merged into its first note")
    r = out.loc[(0, head)]
    ctx.check(EQ(r["duration"], sum(durs[1:], durs[0])), "merged duration is not the sum of the chain")
    ctx.check(int(r["mc"]) == 0 and int(r["offset_mc"]) == k - 1 and EQ(r["offset_beat"], rows[perm[k - 1]]["offset_beat"]), "merged note has the wrong extent")
    ctx.check(na(r["tied"]), "still marked as tied")
    ctx.cover("chain")


ENSEMBLES = {
    # (piece, pitch, (staff, voice), first measure, number of notes, first and last note marked as tied)
    "pitches": [(0, 60, (1, 1), 0, 3, "both"), (0, 62, (1, 1), 0, 2, "both"), (0, 64, (1, 1), 1, 3, "both")],
    "voices": [(0, 60, (1, 1), 0, 3, "both"), (0, 60, (1, 2), 0, 4, "both")],
    "staves": [(0, 60, (1, 1), 0, 2, "both"), (0, 60, (2, 1), 0, 3, "both"), (0, 60, (2, 2), 1, 2, "both")],
    "pieces": [(0, 60, (1, 1), 0, 3, "both"), (1, 60, (1, 1), 0, 2, "both"), (2, 60, (1, 1), 0, 4, "both")],
    "open": [(0, 60, (1, 1), 0, 3, "first"), (0, 62, (1, 1), 0, 3, "last"), (0, 64, (1, 1), 0, 2, "both")],
    "open voices": [(0, 60, (1, 1), 0, 3, "both"), (0, 60, (1, 2), 1, 3, "both"), (1, 60, (1, 1), 0, 3, "last")],
    "restarts": [(0, 60, (1, 1), 0, 2, "both"), (0, 60, (1, 1), 2, 2, "both"), (0, 60, (1, 1), 4, 2, "first")],
}


def ensemble(ctx, which):
    """several chains at once: other pitches, voices, staves and pieces, some without a beginning or an end"""
    chains, rows, files = [], [], []
    for c, (piece, midi, (staff, voice), start, k, ends) in enumerate(ENSEMBLES[which]):
        durs = [ctx.real(f"d{c}_{i}", 0, 2, lo_open=True) for i in range(k)]
        ids = []
        for i in range(k):
            on = REAL(Fraction(0)) if i else ctx.real(f"on{c}", 0, 2)
            omc, off = (start + i + 1, REAL(Fraction(0))) if i + 1 < k else (start + i, 2 + durs[i])
            tied = 0 if 0 < i < k - 1 else (1 if i == 0 else -1)
            tied = 0 if (i == 0 and ends == "last") or (i == k - 1 and ends == "first") else tied
            ids.append(len(rows))
            rows.append(note(start + i, on, omc, off, midi, tied, durs[i], staff=staff, voice=voice))
            files.append(piece)
        chains.append((ids, durs, ends))
    order = ctx.choice("order", ["as written", "reversed", "interleaved"])
    at = list(range(len(rows)))
    if order == "reversed":
        at.reverse()
    elif order == "interleaved":
        at.sort(key=lambda i: (rows[i]["mc"], -i))
    at.sort(key=lambda i: files[i])  # the table is sorted by piece
    df, idx = frame([rows[i] for i in at], [files[i] for i in at])
    where = {i: idx[j] for j, i in enumerate(at)}
    out = cu.merge_ties(df)
    ctx.check(sorted(out.index) == sorted(where[ids[0]] for ids, _, _ in chains), "the remaining notes are not exactly the first notes of the tied chains")
    for ids, durs, ends in chains:
        r, last = out.loc[where[ids[0]]], rows[ids[-1]]
        ctx.check(EQ(r["duration"], sum(durs[1:], durs[0])), "merged duration is not the sum of the chain")
        ctx.check(EQ(r["mn_onset"], rows[ids[0]]["mn_onset"]) and int(r["mc"]) == rows[ids[0]]["mc"], "a merged note must start with its first note")
        ctx.check(EQ(r["offset_beat"], last["offset_beat"]) and int(r["offset_mc"]) == last["offset_mc"], "a merged note must end with its last note")
        ctx.check(na(r["tied"]) == (ends == "both"), "marked as tied although merged completely, or the reverse")
    ctx.cover("ensemble")


def voices(ctx):
    """two notes of the same pitch end where two others start: staff and voice decide"""
    v = ctx.choice("v", [((1, 1), (1, 2)), ((1, 1), (2, 1)), ((2, 3), (1, 3))])
    swap = ctx.flag("swap")
    d = [ctx.real(f"d{i}", 0, 2, lo_open=True) for i in range(4)]
    end = ctx.real("end", 4, 8)
    a, b = v
    c, e = (b, a) if swap else (a, b)
    rows = [note(0, end - d[0], 0, end, 60, 1, d[0], staff=a[0], voice=a[1]), note(0, end - d[1], 0, end, 60, 1, d[1], staff=b[0], voice=b[1]),
            note(0, end, 0, end + d[2], 60, -1, d[2], staff=c[0], voice=c[1]), note(0, end, 0, end + d[3], 60, -1, d[3], staff=e[0], voice=e[1])]
    df, idx = frame(rows)
    out = cu.merge_ties(df)
    ctx.check(list(out.index) == [(0, 0), (0, 1)], "both pairs must be merged into their first notes")
    w = (3, 2) if swap else (2, 3)
    for i in (0, 1):
        r = out.loc[(0, i)]
        ctx.check(EQ(r["duration"], d[i] + d[w[i]]) and EQ(r["offset_beat"], end + d[w[i]]), "tied to a note of another staff or voice although one of its own exists")
        ctx.check(na(r["tied"]), "still marked as tied")
    ctx.cover("voices")


def forced(ctx):
    """two ends, two starts, no staff/voice agrees: still each start is used once and nothing is lost"""
    d = [ctx.real(f"d{i}", 0, 2, lo_open=True) for i in range(4)]
    end = ctx.real("end", 4, 8)
    vs = ctx.choice("vs", [(1, 2, 3, 4), (1, 1, 2, 2), (1, 2, 1, 3), (1, 1, 1, 1)])
    rows = [note(0, end - d[0], 0, end, 60, 1, d[0], voice=vs[0]), note(0, end - d[1], 0, end, 60, 1, d[1], voice=vs[1]),
            note(0, end, 0, end + d[2], 60, -1, d[2], voice=vs[2]), note(0, end, 0, end + d[3], 60, -1, d[3], voice=vs[3])]
    df, idx = frame(rows)
    out = cu.merge_ties(df)
    tot = sum((r["duration"] for _, r in out.iterrows()), REAL(Fraction(0)))
    ctx.check(EQ(tot, d[0] + d[1] + d[2] + d[3]), "total sounding duration changed")
    ctx.check(set(out.index) <= set(idx) and {(0, 0), (0, 1)} <= set(out.index), "tied-out notes lost")
    for ix, r in out.iterrows():
        if ix[1] < 2:
            dd = d[ix[1]]
            ctx.check(OR(EQ(r["duration"], dd), EQ(r["duration"], dd + d[2]), EQ(r["duration"], dd + d[3])), "a note was merged with more than one continuation")
    ctx.cover("forced")


def cases(tier):
    out = [Case("voices", voices, "", ["voices"], uniform=True), Case("forced", forced, "", ["forced"], uniform=True)]
    for k in (2, 3, 4) + ((5, 6) if tier == "thorough" else ()):
        out.append(Case(f"chain_{k}", chain, "", ["chain"], uniform=True, k=k, extra=k == 3, weight=3))
    out += [Case(f"ensemble {w}", ensemble, "", ["ensemble"], uniform=True, which=w, weight=4) for w in ENSEMBLES]
    pats = [p for p in itertools.product([1, 0, -1, None], repeat=3) if sum(x in (1, 0) for x in p) >= 1 and sum(x in (0, -1) for x in p) >= 1]
    pats = [p for p in pats if list(p) == sorted(p, key=lambda x: (x is None, -(x or 0)))]  # up to row order ...
    extra = [(-1, 0, 1), (-1, 1, 0), (0, -1, 1)]  # ... plus reversed row orders
    for p in pats + extra:
        out.append(Case(f"ties_{p}", general, "", ["merged"], uniform=True, ties=p, midis=(60, 60, 60), weight=8))
    out.append(Case("ties_pitch", general, "", ["merged"], uniform=True, ties=(1, -1, -1), midis=(60, 61, 60), weight=6))
    out.append(Case("ties_grace", general, "", ["merged"], uniform=True, ties=("g", 1, -1), midis=(60, 60, 60), weight=6))
    out.append(Case("ties_files", general, "", ["merged"], uniform=True, ties=(1, -1, -1), midis=(60, 60, 60), files=[0, 0, 1], weight=6))
    out.append(Case("ties_none", general, "", ["merged"], uniform=True, ties=(None, None), midis=(60, 60)))
    if tier == "thorough":
        for p in [(1, 1, -1, -1), (1, 0, 0, -1), (1, 0, -1, -1), (0, 0, -1, 1)]:
            out.append(Case(f"ties_{p}", general, "", ["merged"], uniform=True, ties=p, midis=(60,) * 4, weight=20))
    return out
