from props.common import *
import pandas as pd
import harmonic_inference.utils.corpus_utils as cu

LEVEL = "model_checking"
TARGETS = ["harmonic_inference.utils.corpus_utils:" + f for f in ("remove_repeats", "remove_unmatched")]
BOUNDS = ("1 piece of up to 5 (thorough 6) measures or 2 pieces of 3, every measure with any forward target, an optional backward (repeat) target, an optional "
          "end-of-piece marker and any order of the options; remove_unmatched: 3 rows over 2 pieces, any subset of measures kept")
OUTSIDE = "larger pieces; measures all of whose options lead backwards"


def repeats(ctx, files, unreachable, marker):
    idx, rows, spec = [], [], {}
    for f, n in files.items():
        first = 1
        mcs = [first + i for i in range(n)]
        nxt = {}
        for i, m in enumerate(mcs):
            opts = []
            if i + 1 < n:
                opts.append(ctx.choice(f"fwd{f}_{m}", mcs[i + 1:]))
                nxt[m] = opts[0]
            else:
                nxt[m] = None
                last_opt = ctx.choice(f"lastopt{f}", [(), (-1,), (1,), (1, -1), (-1, 1)])
                opts = list(last_opt)
            if i + 1 < n:
                kind = ctx.choice(f"k{f}_{m}", ["plain", "back first", "back last"] + (["end"] if marker else []))
                if kind == "back first":
                    opts = [mcs[i // 2]] + opts
                elif kind == "back last":
                    opts = opts + [m]
                elif kind == "end":
                    opts = opts + [-1]
                    nxt[m] = None
            idx.append((f, i))
            rows.append((m, tuple(opts), 100 * f + m))
        path, cur = [], mcs[0]
        while cur is not None:
            path.append(cur)
            cur = nxt[cur]
        spec[f] = (mcs, nxt, path)
    ix = pd.MultiIndex.from_tuples(idx, names=["file_id", "measure_id"])
    df = pd.DataFrame({"mc": pd.array([r[0] for r in rows], dtype="Int64"), "next": pd.Series([r[1] for r in rows], dtype=object).to_numpy(),
                       "extra": [r[2] for r in rows]}, index=ix)
    before = [tuple(x) for x in df["next"]]
    out = cu.remove_repeats(df, remove_unreachable=unreachable)
    ctx.check([tuple(x) for x in df["next"]] == before and len(df) == len(rows), "the given measures were modified")
    want = []
    for f, (mcs, nxt, path) in spec.items():
        for i, m in enumerate(mcs):
            if not unreachable or m in path:
                want.append((f, i, m, nxt[m], 100 * f + m))
    got = [(ix_[0], ix_[1], int(r["mc"]), None if pd.isna(r["next"]) else int(r["next"]), int(r["extra"])) for ix_, r in out.iterrows()]
    ctx.check([g[:3] for g in got] == [w[:3] for w in want], "the kept measures are not exactly those played when every repeat is skipped")
    ctx.check(got == want, "the successor of a measure is not the latest measure that may follow it")
    ctx.cover("some removed" if len(want) < len(rows) else "none removed")


def unmatched(ctx, kind):
    files = [0, 1]
    kept = {f: [m for m in (1, 2, 3) if ctx.flag(f"keep{f}_{m}")] for f in files}
    ctx.assume(any(kept.values()))
    midx = [(f, i) for f in files for i, _ in enumerate(kept[f])]
    mdf = pd.DataFrame({"mc": pd.array([m for f in files for m in kept[f]], dtype="Int64")}, index=pd.MultiIndex.from_tuples(midx, names=["file_id", "measure_id"]))
    nidx, nmc = [], []
    for f in files:
        for i in range(2 if f == 0 else 1):
            nidx.append((f, i))
            nmc.append(ctx.choice(f"mc{f}_{i}", [1, 2, 3]))
    ndf = pd.DataFrame({"mc": pd.array(nmc, dtype="Int64"), "x": list(range(len(nmc)))}, index=pd.MultiIndex.from_tuples(nidx, names=["file_id", kind]))
    out = cu.remove_unmatched(ndf, mdf)
    want = [(ix, mc, x) for x, (ix, mc) in enumerate(zip(nidx, nmc)) if mc in kept[ix[0]]]
    got = [(ix, int(r["mc"]), int(r["x"])) for ix, r in out.iterrows()]
    ctx.check(got == want, "rows kept are not exactly those whose measure exists in the same piece")
    ctx.check(list(out.index.names) == ["file_id", kind] and list(ndf["x"]) == list(range(len(nmc))), "index changed or argument modified")
    ctx.cover("some dropped" if len(want) < len(nmc) else "all kept")


def cases(tier):
    out = [Case("one_1", repeats, "", ["none removed"], files={0: 1}, unreachable=True, marker=False),
           Case("one_3", repeats, "", ["some removed", "none removed"], files={0: 3}, unreachable=True, marker=True, weight=5),
           Case("one_4", repeats, "", ["some removed"], files={0: 4}, unreachable=True, marker=False, weight=9),
           Case("one_3_all", repeats, "", ["none removed"], files={0: 3}, unreachable=False, marker=True, weight=3),
           Case("two", repeats, "", ["some removed"], files={0: 2, 1: 3}, unreachable=True, marker=False, weight=7),
           Case("unmatched_note", unmatched, "", ["some dropped", "all kept"], kind="note_id", weight=9),
           ]
    if tier == "thorough":
        out += [Case("one_5", repeats, "", ["some removed"], files={0: 5}, unreachable=True, marker=False, weight=20), Case("unmatched_chord", unmatched, "", ["some dropped"], kind="chord_id")]
    return out
