from props.common import *
from props.C20 import KEYS, POOL, chord_index, key_index, labelling, segmentation
import harmonic_inference.utils.eval_utils as eu
import harmonic_inference.utils.harmonic_utils as hu
import harmonic_inference.data.piece as P
from harmonic_inference.data.note import Note
from harmonic_inference.data.chord import Chord
from harmonic_inference.data.key import Key
from harmonic_inference.utils.beam_search_utils import State

LEVEL = "model_checking"
B = "harmonic_inference.utils.eval_utils:"
TARGETS = [B + f for f in ("get_annotation_df", "get_label_df", "get_results_df", "get_labels_df", "get_chord_distance", "get_key_distance")] + [
    "harmonic_inference.utils.harmonic_utils:get_chord_label_list", "harmonic_inference.utils.harmonic_utils:get_key_label_list",
    "harmonic_inference.data.chord:Chord.to_pitch_type", "harmonic_inference.data.key:Key.to_pitch_type"]
BOUNDS = ("pieces of 1-3 inputs with arbitrary positions and durations (zero included), every segmentation of ground truth and estimate, labels from pools that differ "
          "in root, type, inversion, tonic or mode; ground truth present, absent, or starting after the first input; tables in the estimate's and in the other pitch type")
OUTSIDE = "longer pieces; result tables of pieces without ground truth or whose ground truth starts late; suspension columns (C26); writing the tables to scores (ms3)"


class World:
    def __init__(self, ctx, n, chords, keys, pt=TPC, late=False, gt=True, chords_change_keys=True, est_pt=None, poolk=None, vary="both"):
        self.n, self.pt = n, pt
        ept = est_pt or pt
        fit = lambda p, r: r if p == TPC else (7 * (r - 15)) % 12
        R = lambda x: REAL(Fraction(x))
        self.d = [ctx.real(f"d{i}", 0, 8) for i in range(n)]
        self.mc = [3, 7, 7, 9][:n]
        self.on = [ctx.real(f"on{i}", 0, 8) for i in range(n)]
        self.mco = [ctx.real(f"mco{i}", 0, 8) for i in range(n)]
        gtc, esc = segmentation(ctx, "g", n), segmentation(ctx, "e", n)
        if late:
            gtc = [c for c in gtc if c] or [n - 1]
        self.gtc, self.esc = gtc, esc
        pick = lambda what, name, pool, i: ctx.choice(f"{name}{i}", pool) if vary in (what, "both") else pool[(i + len(name + what)) % len(pool)]
        gch = [pick("chords", "gc", chords, i) for i in range(len(gtc))] if gt else []
        ech = [pick("chords", "ec", chords, i) for i in range(len(esc))]
        kidx = [0] + [i for i in range(1, len(gtc)) if vary != "chords" and chords_change_keys and ctx.flag(f"kc{i}")]
        gk = [pick("keys", "gk", keys, i) for i in range(len(kidx))] if gt else []
        ek = [pick("keys", "ek", poolk or keys, i) for i in range(len(esc))]
        self.notes = [Note(15, 4, (self.mc[i], self.on[i]), 3, R(1), (7, R(9)), 3, TPC, mc_onset=self.mco[i]) for i in range(n)]
        cs = [Chord(fit(pt, r), fit(pt, r), fit(pt, 15), MAJOR, t, i, (0, R(0)), 3, (0, R(1)), 3, R(1), pt) for r, t, i in gch]
        ks = [Key(fit(pt, t), fit(pt, t), fit(pt, t), m, m, m, pt) for t, m in gk]
        if gt:
            self.piece = P.ScorePiece(None, self.notes, cs, ks, gtc, [(c, n) for c in gtc], kidx)
        else:
            self.piece = P.ScorePiece(None, self.notes, None, None, None, None, None)
        self.piece.duration_cache = np.array(self.d, dtype=object)
        s = State(key=0)
        for (r, t, i), (kt, km), e in zip(ech, ek, esc[1:] + [n]):
            s = State(chord=chord_index(ept, fit(ept, r), t, i), key=key_index(ept, fit(ept, kt), km), change_index=e, prev_state=s)
        self.state = s
        pad = gtc[0] if gt else n
        self.gc = [None] * pad + (labelling(gtc, gch, n)[pad:] if gt and not late else [gch[max(k for k, c in enumerate(gtc) if c <= i)] for i in range(pad, n)])
        kc = [gtc[i] for i in kidx]
        self.gk = [None] * pad + [gk[max(k for k, c in enumerate(kc) if c <= i)] for i in range(pad, n)]
        self.ec, self.ek = labelling(esc, ech, n), labelling(esc, ek, n)

    def sounding(self):
        return [i for i in range(self.n) if bool(NOT(EQ(self.d[i], 0)))]


TYPE_NAMES = {}


def cname(pt, c):
    r, t, i = c
    r = r if pt == TPC else (7 * (r - 15)) % 12
    return hu.get_chord_label_list(pt, use_inversions=True)[chord_index(pt, r, t, i)]


def kname(pt, k):
    t, m = k
    t = t if pt == TPC else (7 * (t - 15)) % 12
    return hu.get_key_label_list(pt)[key_index(pt, t, m)]


def rows(df):
    return [] if len(df) == 0 else df.to_dict("records")


def at(w, i, row):
    return AND(EQ(row["mc"], w.mc[i]), EQ(row["mc_onset"], w.mco[i]), EQ(row["mn_onset"], w.on[i]))


def annotation(ctx, n, pool, pt=TPC, vary="both"):
    w = World(ctx, n, POOL[pool], KEYS[:2], pt=pt, gt=False, vary=vary)
    got = rows(eu.get_annotation_df(w.state, w.piece, pt, pt))
    want, prev = [], (None, None)
    for i in w.sounding():
        if w.ek[i] != prev[0]:
            want.append((i, kname(pt, w.ek[i])))
        if w.ec[i] != prev[1]:
            want.append((i, cname(pt, w.ec[i])))
        prev = w.ek[i], w.ec[i]
    ctx.check([r["label"] for r in got] == [l for _, l in want], "annotated labels are not the label changes of the estimate")
    ctx.check(AND([at(w, i, r) for (i, _), r in zip(want, got)]), "annotation placed at a wrong position")
    ctx.cover("annotation")
    if len(want) > 2:
        ctx.cover("changes")


def colours(ctx, n, pool, mode="full", pt=TPC, vary="both"):
    w = World(ctx, n, POOL[pool], KEYS[:2] if pool != "root" else [KEYS[0], KEYS[2]], pt=pt, gt=mode != "absent", late=mode == "late", poolk=KEYS[:2] if pool != "root" else KEYS[:3], vary=vary)
    got = rows(eu.get_label_df(w.state, w.piece, pt, pt))
    want, pg, pe = [], (None, None), (None, None)
    for i in w.sounding():
        g, e = (w.gk[i], w.gc[i]), (w.ek[i], w.ec[i])
        if g[0] != pg[0] or e[0] != pe[0]:
            colour = "green" if g[0] == e[0] else "yellow" if g[0] is not None and g[0][0] == e[0][0] else "red"
            want.append((i, kname(pt, e[0]) if e[0] != pe[0] else "--", colour))
        if g[1] != pg[1] or e[1] != pe[1]:
            if g[1] == e[1]:
                colour = "green"
            else:
                colour = "yellow" if g[1] is not None and g[1][0] == e[1][0] and TRIAD[g[1][1]] == TRIAD[e[1][1]] else "red"
            want.append((i, cname(pt, e[1]) if e[1] != pe[1] else "--", colour))
        pg, pe = g, e
    ctx.check([(r["label"], r["color_name"]) for r in got] == [x[1:] for x in want], "labels or colours do not follow the changes and correctness of the estimate")
    ctx.check(AND([at(w, x[0], r) for x, r in zip(want, got)]), "label placed at a wrong position")
    ctx.cover("labels")
    for c in ("green", "yellow", "red"):
        if any(x[2] == c for x in want):
            ctx.cover(c)


def results(ctx, n, pool, est, out, vary="both"):
    w = World(ctx, n, POOL[pool], KEYS[:2], pt=TPC, est_pt=est, chords_change_keys=n < 3, vary=vary)
    got = rows(eu.get_results_df(w.piece, w.state, est, est, out, out))
    idx = w.sounding()
    ctx.check(len(got) == len(idx), "not one row per sounding input")
    for r, i in zip(got, idx):
        ctx.check((r["gt_key"], r["gt_chord"]) == (kname(out, w.gk[i]), cname(out, w.gc[i])), "ground truth reported wrongly")
        if est == TPC or out == MIDI:
            ctx.check((r["est_key"], r["est_chord"]) == (kname(out, w.ek[i]), cname(out, w.ec[i])), "estimate reported wrongly")
        ctx.check(EQ(r["duration"], w.d[i]), "duration reported wrongly")
    ctx.cover("results")


def truth(ctx, n, pool, c=None, vary="both"):
    w = World(ctx, n, POOL[pool], KEYS[:3], pt=TPC, vary=vary)
    got = rows(eu.get_labels_df(w.piece) if c is None else eu.get_labels_df(w.piece, tpc_c=c))
    c = 15 if c is None else c
    idx = w.sounding()
    ctx.check(len(got) == len(idx), "not one row per sounding input")
    semi = lambda p: (7 * (p - 15)) % 12
    for r, i in zip(got, idx):
        (root, t, inv), (tonic, mode) = w.gc[i], w.gk[i]
        ctx.check((r["chord_root_tpc"], r["chord_root_midi"], r["chord_type"], r["chord_inversion"]) == (root - 15 + c, semi(root), t, inv), "chord reported wrongly")
        ctx.check((r["key_tonic_tpc"], r["key_tonic_midi"], r["key_mode"]) == (tonic - 15 + c, semi(tonic), mode), "key reported wrongly")
        ctx.check((r["chord_suspension_tpc"], r["chord_suspension_midi"]) == ("", ""), "suspension invented")
        ctx.check(AND(EQ(r["duration"], w.d[i]), EQ(r["mc"], w.mc[i]), EQ(r["mn_onset"], w.on[i])), "duration or position reported wrongly")
    ctx.cover("truth")


def cases(tier):
    k = dict(np_objects=True, floats=True)
    out = [Case(f"annotation_{n}_{p}_{pt.name}_{v}", annotation, covers=["annotation"] + (["changes"] if n > 1 else []), n=n, pool=p, pt=pt, vary=v, **k)
           for n, p, pt, v in ((1, "root", TPC, "both"), (2, "type", TPC, "chords"), (2, "inv", TPC, "both"), (2, "mixed", MIDI, "chords"), (3, "root", TPC, "chords"), (3, "root", TPC, "keys"))]
    out += [Case(f"colours_{n}_{p}_{m}_{v}", colours, covers=["labels"] + (["red"] if m == "absent" else ["green"]), n=n, pool=p, mode=m, vary=v, **k)
            for n, p, m, v in ((1, "type", "full", "both"), (1, "mixed", "full", "both"), (2, "inv", "full", "chords"), (2, "root", "full", "chords"), (2, "root", "full", "keys"),
                               (2, "type", "full", "chords"), (2, "inv", "late", "chords"), (2, "type", "late", "keys"), (2, "mixed", "late", "chords"), (2, "inv", "absent", "both"))]
    out += [Case(f"results_{n}_{p}_{e.name}_{o.name}_{v}", results, covers=["results"], n=n, pool=p, est=e, out=o, vary=v, **k)
            for n, p, e, o, v in ((1, "type", TPC, TPC, "both"), (2, "inv", TPC, TPC, "chords"), (2, "inv", TPC, TPC, "keys"), (2, "root", TPC, MIDI, "chords"), (2, "root", TPC, MIDI, "keys"),
                                  (2, "inv", MIDI, MIDI, "chords"), (1, "mixed", TPC, MIDI, "both"), (1, "root", MIDI, TPC, "both"))]
    out += [Case(f"truth_{n}_{p}_{c}_{v}", truth, covers=["truth"], n=n, pool=p, c=c, vary=v, **k)
            for n, p, c, v in ((1, "type", None, "both"), (2, "inv", 0, "chords"), (2, "root", 0, "keys"), (1, "mixed", 0, "both"))]
    if tier == "thorough":
        out += [Case(f"colours_2_{p}_full_both", colours, covers=["labels"], n=2, pool=p, weight=9, **k) for p in ("inv", "root")]
        out += [Case("annotation_3_inv", annotation, covers=["changes"], n=3, pool="inv", weight=9, **k),
                Case("results_2_inv", results, covers=["results"], n=2, pool="inv", est=TPC, out=MIDI, weight=9, **k),
                Case("truth_2_root", truth, covers=["truth"], n=2, pool="root", weight=9, **k)]
    return out
