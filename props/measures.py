"""Specification-level model of a score's measures and of absolute time."""
import pandas as pd
from props.common import *

TIMESIGS = {"4/4": (1, Fraction(1, 4), Fraction(1, 8)), "3/4": (Fraction(3, 4), Fraction(1, 4), Fraction(1, 8)),
            "2/2": (1, Fraction(1, 2), Fraction(1, 4)), "6/8": (Fraction(3, 4), Fraction(3, 8), Fraction(1, 8)),
            "3/8": (Fraction(3, 8), Fraction(1, 8), Fraction(1, 16)), "12/8": (Fraction(3, 2), Fraction(3, 8), Fraction(1, 8)),
            "9/16": (Fraction(9, 16), Fraction(3, 16), Fraction(1, 16)), "5/4": (Fraction(5, 4), Fraction(1, 4), Fraction(1, 8))}


def divides(x, l):
    """x is an integer multiple of l (x may be symbolic)"""
    q = x / l
    return q.is_integer() if E.is_sym(q) else Fraction(q).denominator == 1


def level(beat, timesig):
    """spec: 3 downbeat, 2 beat, 1 sub-beat, 0 anything finer"""
    m, b, s = TIMESIGS[timesig]
    return ite(divides(beat, m), 3, ite(divides(beat, b), 2, ite(divides(beat, s), 1, 0)))


class Measures:
    """A piece's measures: consecutive mcs starting anywhere, symbolic actual durations and
    pick-up offsets (position of the measure's first beat inside its notated bar)."""

    def __init__(self, ctx, n, first=0, tag="m", timesig=None, skip=None, offsets=True, durs=True, max_dur=2):
        self.ctx = ctx
        self.mcs = [first + i for i in range(n)]
        if skip is not None:  # mc numbers that playback skips: next jumps over them
            self.order = [m for m in self.mcs if m not in skip]
        else:
            self.order = list(self.mcs)
        self.timesig = {m: timesig or "4/4" for m in self.mcs}
        self.act, self.off, self.start = {}, {}, {}
        for m in self.mcs:
            self.act[m] = ctx.real(f"{tag}_act{m}", 0, max_dur, lo_open=True) if durs else REAL(Fraction(1))
            self.off[m] = ctx.real(f"{tag}_off{m}", 0, max_dur) if offsets else REAL(Fraction(0))
        t = REAL(Fraction(0))
        for m in self.order:
            self.start[m] = t
            t = t + self.act[m]
        self.end = t
        nxt = {a: b for a, b in zip(self.order, self.order[1:])}
        self.next = {m: nxt.get(m) for m in self.mcs}
        if skip:
            for m in skip:
                later = [o for o in self.order if o > m]
                self.next[m] = later[0] if later else None

    def df(self, index=None):
        d = pd.DataFrame({
            "mc": pd.Series(self.mcs, dtype="int64"),
            "timesig": [self.timesig[m] for m in self.mcs],
            "act_dur": pd.Series([self.act[m] for m in self.mcs], dtype=object),
            "mc_offset": pd.Series([self.off[m] for m in self.mcs], dtype=object),
            "next": pd.Series([self.next[m] for m in self.mcs], dtype=object),
            "start": pd.Series([self.start.get(m) for m in self.mcs], dtype=object),
        })
        return d

    def pos(self, tag, mc=None):
        """a symbolic position (mc, beat) inside the measure; mc decided by forking"""
        ctx = self.ctx
        if mc is None:
            mc = ctx.choice(f"{tag}_mc", self.order)
        beat = ctx.real(f"{tag}_beat", 0)
        ctx.assume(AND(beat >= self.off[mc], beat <= self.off[mc] + self.act[mc]))
        return (mc, beat)

    def abs(self, pos):
        mc, beat = pos
        return self.start[mc] + beat - self.off[mc]


def corpus_measures(files):
    """{file_id: Measures} -> corpus-style measures frame after repeat removal (index file_id, measure_id; next is Int64)."""
    rows, idx = [], []
    for f, ms in files.items():
        for i, m in enumerate(ms.order):
            idx.append((f, i))
            rows.append((m, ms.timesig[m], ms.act[m], ms.off[m], ms.next[m]))
    ix = pd.MultiIndex.from_tuples(idx, names=["file_id", "measure_id"])
    df = pd.DataFrame(index=ix)
    df["mc"] = pd.array([r[0] for r in rows], dtype="Int64")
    df["timesig"] = [r[1] for r in rows]
    df["act_dur"] = pd.Series([r[2] for r in rows], dtype=object).to_numpy()
    df["mc_offset"] = pd.Series([r[3] for r in rows], dtype=object).to_numpy()
    df["next"] = pd.array([pd.NA if r[4] is None else r[4] for r in rows], dtype="Int64")
    return df
