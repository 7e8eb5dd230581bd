from props.common import *
from props.measures import Measures, corpus_measures
import pandas as pd
import harmonic_inference.utils.corpus_utils as cu

LEVEL = "model_checking"
TARGETS = ["harmonic_inference.utils.corpus_utils:add_note_offsets"]
BOUNDS = ("quick: 1 note over 4 or 6 measures, 2 notes over 2-3 measures, 2 pieces with 1 note each; thorough: 3 notes over 3; actual measure "
          "durations (0,2] and pick-up offsets [0,2] symbolic, onset anywhere in any measure, any duration up to 10 whole notes, playback may skip measures")
OUTSIDE = "more notes/measures/pieces than that; playback that jumps backwards"


def offsets(ctx, files, notes_per, skip=None, fixed_off=False):
    mss = {f: Measures(ctx, n, first=1 if f else 0, tag=f"m{f}", skip=skip, offsets=not fixed_off) for f, n in files.items()}
    mdf = corpus_measures(mss)
    idx, rows = [], []
    for f in files:
        for i in range(notes_per):
            pos = mss[f].pos(f"n{f}_{i}")
            # a note starts inside its measure
            ctx.assume(pos[1] < mss[f].off[pos[0]] + mss[f].act[pos[0]])
            idx.append((f, i))
            rows.append((pos, ctx.real(f"dur{f}_{i}", 0, 10)))
    ix = pd.MultiIndex.from_tuples(idx, names=["file_id", "note_id"])
    ndf = pd.DataFrame({"mc": pd.array([r[0][0] for r in rows], dtype="Int64"),
                        "mn_onset": pd.Series([r[0][1] for r in rows], dtype=object).to_numpy(),
                        "duration": pd.Series([r[1] for r in rows], dtype=object).to_numpy(), "midi": [60 + i for i in range(len(rows))]}, index=ix)
    out = cu.add_note_offsets(ndf, mdf)
    ctx.check(list(out.index) == idx and list(out["midi"]) == [60 + i for i in range(len(rows))], "notes lost, added or reordered")
    ctx.check(AND([EQ(a, r[0][1]) for a, r in zip(out["mn_onset"], rows)]), "onsets changed")
    for (f, i), (pos, dur), mc, beat in zip(idx, rows, out["offset_mc"], out["offset_beat"]):
        ms = mss[f]
        ctx.check(mc in ms.order, "offset lies in a measure that is never played")
        mc = int(mc)
        ctx.check(EQ(ms.abs((mc, beat)), ms.abs(pos) + dur), "offset is not onset + duration in elapsed time")
        last = ms.next[mc] is None
        if not last:
            ctx.check(beat < ms.off[mc] + ms.act[mc], "an offset at or past the end of its measure must be counted in a following measure")
        if mc != pos[0]:
            ctx.check(beat >= ms.off[mc], "offset lies before its measure")
            ctx.cover("crosses a bar")
        else:
            ctx.check(beat >= pos[1], "offset precedes onset")


def cases(tier):
    out = [Case("one_1", offsets, "1 measure", [], uniform=True, files={0: 1}, notes_per=1),
           Case("one_4", offsets, "4 measures", ["crosses a bar"], uniform=True, files={0: 4}, notes_per=1, weight=5),
           Case("one_4_skip", offsets, "4 measures, one skipped", ["crosses a bar"], uniform=True, files={0: 4}, notes_per=1, skip=[1], weight=5),
           Case("two_2", offsets, "2 notes, 2 measures", ["crosses a bar"], uniform=True, files={0: 2}, notes_per=2, weight=5),
           Case("two_3", offsets, "2 notes, 3 measures, no pick-up offsets", ["crosses a bar"], uniform=True, files={0: 3}, notes_per=2, fixed_off=True, weight=9),
           Case("two_files", offsets, "2 pieces", ["crosses a bar"], uniform=True, files={0: 2, 1: 3}, notes_per=1, weight=7)]
    out += [Case("one_6", offsets, "6 measures", ["crosses a bar"], uniform=True, files={0: 6}, notes_per=1, weight=15)]
    if tier == "thorough":
        out += [Case("three_3", offsets, "3 notes, 3 measures", ["crosses a bar"], uniform=True, files={0: 3}, notes_per=3, weight=30)]
    return out
