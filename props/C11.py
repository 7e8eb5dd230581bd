from props.common import *
from props.measures import Measures, corpus_measures
import pandas as pd
import harmonic_inference.utils.corpus_utils as cu

LEVEL = "model_checking"
TARGETS = ["harmonic_inference.utils.corpus_utils:add_chord_metrical_data"]
BOUNDS = ("quick: 1-2 chords over up to 6 measures, 3 chords over 4, 2-3 pieces with 2 chords each; thorough: 4 chords over 4, 3 over 6; measure durations (0,2] and pick-up offsets [0,2] "
          "symbolic, chord onsets anywhere inside their measures in score order, playback may skip measures")
OUTSIDE = "more chords/measures/pieces; measure tables with broken next pointers"


def chords(ctx, files, per, skip=None, fixed_off=False):
    mss = {f: Measures(ctx, n, first=1 if f else 0, tag=f"m{f}", skip=skip, offsets=not fixed_off) for f, n in files.items()}
    mdf = corpus_measures(mss)
    idx, pos = [], []
    for f in files:
        ms, prev = mss[f], None
        for i in range(per):
            p = ms.pos(f"c{f}_{i}")
            ctx.assume(p[1] < ms.off[p[0]] + ms.act[p[0]])
            if prev is not None:
                ctx.assume(ms.order.index(p[0]) >= ms.order.index(prev[0]))
                ctx.assume(ms.abs(p) > ms.abs(prev))
            prev = p
            idx.append((f, i))
            pos.append(p)
    ix = pd.MultiIndex.from_tuples(idx, names=["file_id", "chord_id"])
    cdf = pd.DataFrame({"mc": pd.array([p[0] for p in pos], dtype="Int64"), "mn_onset": pd.Series([p[1] for p in pos], dtype=object).to_numpy(),
                        "timesig": ["4/4"] * len(pos), "root": list(range(len(pos)))}, index=ix)
    out = cu.add_chord_metrical_data(cdf, mdf)
    ctx.check(list(out.index) == idx and list(out["root"]) == list(range(len(pos))), "chords lost, added or reordered")
    ctx.check(AND([EQ(a, p[1]) for a, p in zip(out["mn_onset"], pos)]) and [int(m) for m in out["mc"]] == [p[0] for p in pos], "onsets changed")
    for j, (f, i) in enumerate(idx):
        ms = mss[f]
        if i + 1 < per:
            nxt = pos[j + 1]
        else:
            last = ms.order[-1]
            nxt = (last, ms.off[last] + ms.act[last])
            ctx.cover("last chord of a piece")
        row = out.iloc[j]
        ctx.check(int(row["mc_next"]) == nxt[0] and EQ(row["mn_onset_next"], nxt[1]), "a chord must end where the next one starts (the last one at the end of the piece)")
        ctx.check(EQ(row["duration"], ms.abs(nxt) - ms.abs(pos[j])), "chord duration is not the elapsed time to the next chord")
        if nxt[0] != pos[j][0]:
            ctx.cover("crosses a bar")


def cases(tier):
    k = dict(uniform=True)
    out = [Case("one_1", chords, "", ["last chord of a piece"], files={0: 1}, per=1, **k),
           Case("one_4", chords, "", ["crosses a bar"], files={0: 4}, per=1, **k),
           Case("two_4", chords, "", ["crosses a bar"], files={0: 4}, per=2, weight=4, **k),
           Case("two_4_skip", chords, "", ["crosses a bar"], files={0: 4}, per=2, skip=[1], weight=4, **k),
           Case("three_2", chords, "", ["crosses a bar"], files={0: 2}, per=3, weight=5, **k),
           Case("two_files", chords, "", ["crosses a bar"], files={0: 2, 1: 3}, per=1, weight=3, **k),
           Case("two_files_2", chords, "", ["crosses a bar"], files={0: 2, 1: 2}, per=2, weight=6, **k)]
    out += [Case("three_4", chords, "", ["crosses a bar"], files={0: 4}, per=3, weight=9, **k), Case("two_6", chords, "", ["crosses a bar"], files={0: 6}, per=2, weight=9, **k),
            Case("three_files", chords, "", ["crosses a bar"], files={0: 2, 1: 1, 2: 3}, per=2, weight=9, **k)]
    if tier == "thorough":
        out += [Case("four_4", chords, "", ["crosses a bar"], files={0: 4}, per=4, weight=20, **k), Case("three_6", chords, "", ["crosses a bar"], files={0: 6}, per=3, weight=20, **k)]
    return out
