from props.common import *
from argparse import ArgumentError
from props.jm import joint, components
import harmonic_inference.models.joint_model as jmod

LEVEL = "model_checking"
JM = "harmonic_inference.models.joint_model:HarmonicInferenceModel."
TARGETS = [JM + "_validate_and_load_forced_labels", JM + "get_harmony"]
BOUNDS = ("pieces of 3 inputs (thorough 4) with symbolic durations (zero = same onset); any sets of forced (non-)changes incl. out-of-range ones; two forced ranges "
          "with arbitrary bounds and symbolic label ids; chord and key forces, each alone and combined")
OUTSIDE = "negative indexes; a forced non-change at input 0 (vacuous); larger pieces"


class _Stop(Exception):
    pass


def run(ctx, n, dur, cc, cn, kc, kn, chords, keys, pt=TPC, red=None, inv=True):
    """get_harmony up to the point where forced labels are accepted -> (accepted, model)"""
    m = joint(components(pt=pt, red=red, inversions=inv))

    class Note:
        def __init__(self, i):
            self.onset, self.onset_level, self.offset, self.offset_level = (0, Fraction(i)), 3, (0, Fraction(i + 1)), 3

    class P:
        DATA_TYPE = PieceType.SCORE

        def get_duration_cache(self):
            return np.array(dur, dtype=object)

        def get_inputs(self):
            return [Note(i) for i in range(n)]

    def stop():
        raise _Stop

    m.get_chord_change_probs = stop
    try:
        m.get_harmony(P(), forced_chord_changes=set(cc), forced_chord_non_changes=set(cn), forced_key_changes=set(kc), forced_key_non_changes=set(kn),
                      forced_chords=dict(chords), forced_keys=dict(keys))
    except _Stop:
        return True, m
    except ArgumentError as exc:
        ctx.check(isinstance(str(exc), str) and m.current_piece is None, "a refusal must leave no piece loaded")
        return False, m
    ctx.fail("unreachable")


def load(n, max_id, ranges):
    """-> (ok, ids)"""
    ids = [-1] * n
    for (s, e), v in ranges.items():
        if bool(OR(v < 0, v >= max_id)):
            return False, None
        for i in range(s, min(e, n)):
            if not (unset(ids[i]) or bool(EQ(ids[i], v))):
                return False, None
            ids[i] = v
    return True, ids


def unset(x):
    return not E.is_sym(x) and x == -1


def own(n, dur, ch, non, max_id, ranges):
    ch = set(ch) - {0}
    if any(i >= n for i in ch | set(non)) or ch & set(non):
        return False, None
    if any(not bool(dur[i - 1] > 0) for i in ch):
        return False, None
    ok, ids = load(n, max_id, ranges)
    if not ok:
        return False, None
    for i in ch:
        if not unset(ids[i]) and not unset(ids[i - 1]) and bool(EQ(ids[i], ids[i - 1])):
            return False, None
    for i in non:
        if not unset(ids[i]) and not unset(ids[i - 1]) and not bool(EQ(ids[i], ids[i - 1])):
            return False, None
    return True, ids


def judge(ctx, n, dur, cc, cn, kc, kn, chords, keys, pt=TPC, red=None, inv=True):
    eff = set((red or {t: t for t in TYPES}).values())
    nch = sum((num_inv(t) if inv else 1) for t in eff) * N[pt]
    okc, cids = own(n, dur, cc, cn, nch, chords)
    okk, kids = own(n, dur, kc, kn, 2 * N[pt], keys)
    ok = okc and okk
    if ok:
        for i in set(kc) - {0}:
            if i in cn or (not unset(cids[i]) and not unset(cids[i - 1]) and bool(EQ(cids[i], cids[i - 1]))):
                ok = False
        for i in cn:
            if not unset(kids[i]) and not unset(kids[i - 1]) and not bool(EQ(kids[i], kids[i - 1])):
                ok = False
    got, m = run(ctx, n, dur, cc, cn, kc, kn, chords, keys, pt, red, inv)
    ctx.check(got == ok, "forced labels refused although consistent" if ok else "inconsistent forced labels accepted")
    if ok:
        ctx.check(AND([EQ(a, b) for a, b in zip(m.forced_chord_ids, cids)] + [EQ(a, b) for a, b in zip(m.forced_key_ids, kids)]), "forced labels loaded onto the wrong inputs")
        ctx.check(m.forced_chord_changes == set(cc) - {0} and m.forced_chord_non_changes == set(cn) and m.forced_key_changes == set(kc) - {0}
                  and m.forced_key_non_changes == set(kn), "forced changes lost")
        ctx.cover("accepted")
    else:
        ctx.cover("refused")


def pick_set(ctx, name, lo, hi, kinds):
    out = {k: set() for k in kinds}
    for i in range(lo, hi):
        k = ctx.choice(f"{name}{i}", [None] + kinds)
        if k:
            for x in k.split("+"):
                out.setdefault(x, set()).add(i)
    return out


def changes(ctx, n, which):
    dur = [ctx.real(f"d{i}", 0, 4) for i in range(n)]
    s = pick_set(ctx, "at", 0, n + 1, ["c", "n"] + (["c+n"]))
    c, nn = s.get("c", set()), s.get("n", set()) - {0}
    if which == "chord":
        judge(ctx, n, dur, c, nn, set(), set(), {}, {})
    else:
        judge(ctx, n, dur, set(), set(), c, nn, {}, {})


def pick_range(ctx, name, n):
    s = ctx.choice(name + "_s", range(n))
    return s, ctx.choice(name + "_e", range(s + 1, n + 2))


def labels(ctx, n, which, pt, red, inv, with_changes):
    dur = [1] * n
    r1, r2 = pick_range(ctx, "r1", n), pick_range(ctx, "r2", n)
    if r1 == r2:
        ctx.assume(False)
    eff = set((red or {t: t for t in TYPES}).values())
    top = sum((num_inv(t) if inv else 1) for t in eff) * N[pt] if which == "chord" else 2 * N[pt]
    ids = [ctx.int("v1", -3, top + 3), ctx.int("v2", -3, top + 3)]
    ranges = {r1: ids[0], r2: ids[1]}
    c = nn = set()
    if with_changes:
        s = pick_set(ctx, "at", 1, n, ["c", "n"])
        c, nn = s["c"], s["n"]
    red = dict(red) if red else None
    if which == "chord":
        judge(ctx, n, dur, c, nn, set(), set(), ranges, {}, pt, red, inv)
    else:
        judge(ctx, n, dur, set(), set(), c, nn, {}, ranges, pt, red, inv)


def both(ctx, n):
    dur = [1] * n
    s = pick_set(ctx, "ch", 1, n, ["c", "n"])
    t = pick_set(ctx, "key", 1, n, ["c", "n"])
    e = ctx.choice("ce", range(1, n))
    chords = {(0, e): ctx.int("c1", 0, 1539), (e, n): ctx.int("c2", 0, 1539)} if ctx.flag("chords") else {}
    e = ctx.choice("ke", range(1, n))
    keys = {(0, e): ctx.int("k1", 0, 69), (e, n): ctx.int("k2", 0, 69)} if ctx.flag("keys") else {}
    judge(ctx, n, dur, s["c"], s["n"], t["c"], t["n"], chords, keys)


def cases(tier):
    deep = tier == "thorough"
    n = 4 if deep else 3
    out = []
    for w in ("chord", "key"):
        out.append(Case(f"changes_{w}", changes, f"{n} inputs", ["accepted", "refused"], np_objects=True, n=n, which=w, weight=5))
        out.append(Case(f"labels_changes_{w}", labels, "3 inputs, 2 ranges, changes", ["accepted", "refused"], np_objects=True, n=3, which=w, pt=TPC, red=None, inv=True, with_changes=True, weight=9))
        out.append(Case(f"labels_midi_{w}", labels, "3 inputs, 2 ranges", ["accepted", "refused"], np_objects=True, n=3, which=w, pt=MIDI, red=None, inv=True, with_changes=False, weight=3))
    out.append(Case("labels_reduced", labels, "3 inputs, 2 ranges", ["accepted", "refused"], np_objects=True, n=3, which="chord", pt=TPC, red=TRIAD, inv=False, with_changes=False, weight=3))
    out.append(Case("labels_noinv", labels, "3 inputs, 2 ranges", ["accepted", "refused"], np_objects=True, n=3, which="chord", pt=TPC, red=None, inv=False, with_changes=False, weight=3))
    out.append(Case("both", both, "3 inputs", ["accepted", "refused"], np_objects=True, n=n, weight=9))
    return out
