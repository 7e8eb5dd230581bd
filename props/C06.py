from props.common import *
import harmonic_inference.data.chord as chord_mod
import harmonic_inference.data.vector_decoding as vd
from harmonic_inference.data.chord import Chord, get_chord_vector_length
from harmonic_inference.data.key import Key
import harmonic_inference.utils.harmonic_utils as hu

LEVEL = "model_checking"
CH, VD = "harmonic_inference.data.chord:", "harmonic_inference.data.vector_decoding:"
TARGETS = [CH + "Chord.to_vec", CH + "Chord.get_one_hot_index", CH + "Chord.get_chord_vector_length", CH + "get_chord_vector_length"] + [
    VD + f for f in ("decode_chord_vector", "decode_chord_and_key_change_vector", "decode_key_change_vector", "infer_chord_vector_pitch_type",
                     "reduce_chord_one_hots", "remove_chord_inversions", "reduce_chord_types")]
BOUNDS = ("chords with any root, bass and tonic of either alphabet (each pair symbolic), every type, inversion, metrical level, key mode, any "
          "non-negative duration; reductions: none, triads, one type; tensors of up to 3 rows whose reduced columns are fully symbolic; one-hot "
          "lists of up to 2 symbolic entries over the complete vocabularies")
OUTSIDE = "float16 rounding of stored values (values are exact in the encoding); tensors of more rows"
RED = {"none": None, "triad": TRIAD, "one": ONE}


def npitch(pt, pad):
    return 12 if pt == MIDI else 29 + (10 if pad else 0)


def rel(pt, pad, p, tonic):
    """spec: block index of a pitch relative to a tonic, and whether it is representable"""
    if pt == MIDI:
        return (p - tonic) % 12, True
    i = p - tonic + 14 + (5 if pad else 0)
    return i, AND(i >= 0, i < npitch(pt, pad))


def mk(**k):
    d = dict(root=15, bass=15, key_tonic=15, key_mode=MAJOR, chord_type=ChordType.MAJOR, inversion=0, onset=(0, 0), onset_level=0,
             offset=(1, 0), offset_level=0, duration=Fraction(1, 2), pitch_type=TPC)
    if k.get("pitch_type") == MIDI:
        d.update(root=0, bass=0, key_tonic=0)
    d.update(k)
    return Chord(**d)


def split(v, n):
    out, i = [], 0
    for w in (n, 12, n, 4, 4, 4, 1, 1):
        out.append(v[i:i + w])
        i += w
    return out


def check_vec(ctx, v, pt, pad, root, ct, bass, inv, on, off, dur, mode):
    n = npitch(pt, pad)
    ctx.check(len(v) == 2 * n + 26, "chord vector has the wrong length")
    b = split(v, n)
    for blk, idx, nm in ((b[0], root, "root"), (b[1], ct.value, "type"), (b[2], bass, "bass"), (b[3], inv, "inversion"), (b[4], on, "onset level"),
                         (b[5], off, "offset level")):
        ctx.check(one_hot(ctx, blk, idx), f"{nm} block is not one-hot at the chord's {nm}")
    ctx.check(close(ctx, b[6][0], dur), "duration entry wrong")
    ctx.check(EQ(b[7][0], 1 if mode == MAJOR else 0), "key mode entry wrong")


def vec_pitch(ctx, pt, pad, which, other_key):
    """root (or bass) and tonic symbolic, everything else fixed"""
    n = N[pt]
    p = ctx.int("pitch", 0, n - 1)
    t = ctx.int("tonic", 0, n - 1)
    k = dict(pitch_type=pt, key_tonic=t)
    k[which] = p
    k["bass" if which == "root" else "root"] = t
    rel_to = None
    if other_key:
        rel_to = Key(t, C[pt], C[pt], MINOR, MAJOR, MAJOR, pt)
        k["key_tonic"] = C[pt]
    c = mk(**k)
    idx, ok = rel(pt, pad, p, t)
    bad, v = raises(ValueError, c.to_vec, relative_to=rel_to, pad=pad)
    ctx.check(EQ(ok, not bad), "an in-range chord was refused or an out-of-range one accepted")
    if bad:
        return
    zero, _ = rel(pt, pad, 0, 0)
    check_vec(ctx, v, pt, pad, idx if which == "root" else zero, ChordType.MAJOR, idx if which == "bass" else zero, 0, 0, 0, Fraction(1, 2),
              MINOR if other_key else MAJOR)
    d = vd.decode_chord_vector(v, pad=pad)
    want = (p - t) if pt == TPC else idx
    ctx.check(EQ(d.root if which == "root" else d.bass, want), "decoding does not give back the relative pitch")
    ctx.check(EQ(d.bass if which == "root" else d.root, 0), "decoding does not give back the relative pitch")
    ctx.check(d.pitch_type == pt, "decoded pitch type wrong")
    ctx.cover("vector")


def vec_cat(ctx, pt, pad, part):
    """type / inversion / levels / mode / duration / reduction symbolic"""
    red = ctx.choice("red", ["none", "triad", "one"]) if part == "type" else "none"
    ct = ctx.choice("ct", TYPES) if part == "type" else ChordType.HALF_DIM7
    inv = ctx.int("inv", 0, 3) if part == "metre" else 1
    on, off = (ctx.int("on", 0, 3), ctx.int("off", 0, 3)) if part == "metre" else (2, 3)
    mode = ctx.choice("mode", [MAJOR, MINOR])
    dur = ctx.real("dur", 0, 16)
    if not ctx.symbolic:
        ctx.assume(dur == 0 or dur > Fraction(1, 1000))
    c = mk(pitch_type=pt, chord_type=ct, inversion=inv, onset_level=on, offset_level=off, key_mode=mode, duration=dur)
    v = c.to_vec(pad=pad) if red == "none" else c.to_vec(pad=pad, reduction=RED[red])
    want = ct if red == "none" else RED[red][ct]
    zero, _ = rel(pt, pad, 0, 0)
    check_vec(ctx, v, pt, pad, zero, want, zero, inv, on, off, dur, mode)
    d = vd.decode_chord_vector(v, pad=pad) if part == "type" and ctx.flag("infer") else vd.decode_chord_vector(v, pad=pad, pitch_type=pt)
    ctx.check(d.chord_type == want, "decoded chord type wrong")
    ctx.check(AND(EQ(d.inversion, inv), EQ(d.onset_level, on), EQ(d.offset_level, off)), "decoded inversion or level wrong")
    ctx.check(d.key_mode == mode, "decoded mode wrong")
    ctx.cover("categories")


def chord_and_key(ctx, pt, pad):
    t, u = ctx.int("t", 0, N[pt] - 1), ctx.int("u", 0, N[pt] - 1)
    if pt == TPC:
        ctx.assume(AND(u - t >= -14, u - t < 15))
    change = ctx.flag("change")
    m2 = ctx.choice("m2", [MAJOR, MINOR])
    k1, k2 = Key(t, t, t, MAJOR, MAJOR, MAJOR, pt), Key(u, u, u, m2, m2, m2, pt)
    inv = 2
    vec = mk(pitch_type=pt, key_tonic=t, root=t, bass=t, inversion=inv).to_vec(pad=pad)
    kv = k1.get_key_change_vector(k2)
    kv = list(kv) if change else [0] * len(kv)
    full = np.concatenate([list(vec), kv, [1 if change else 0]])
    how = ctx.choice("how", ["root", "tonic"])
    ch, key = vd.decode_chord_and_key_change_vector(full, root_type=pt if how == "root" else None, tonic_type=pt if how == "tonic" else None, pad=pad)
    ctx.check(AND(EQ(ch.root, 0), EQ(ch.inversion, inv)), "decoded chord wrong")
    if change:
        ctx.check(key is not None and EQ(key.relative_tonic, u - t if pt == TPC else (u - t) % 12), "decoded key change interval wrong")
        ctx.check(key.relative_mode == m2, "decoded key change mode wrong")
        ctx.cover("key change")
    else:
        ctx.check(key is None, "a key was decoded where there is no key change")
        ctx.assume(t == 20 if pt == TPC else t == 3)
        ctx.assume(u == t)
        junk = ctx.choice("junk", range(len(kv)))
        full[len(vec) + junk] = 1
        bad, _ = raises(ValueError, vd.decode_chord_and_key_change_vector, full, root_type=pt, pad=pad)
        ctx.check(bad, "an inconsistent vector was decoded silently")


def index_method(ctx, pt, relative, pad):
    root, tonic = ctx.int("root", 0, N[pt] - 1), ctx.int("tonic", 0, N[pt] - 1)
    red = ctx.choice("red", ["none", "triad", "one"])
    use_inv = ctx.flag("use_inv")
    ct = ctx.choice("ct", TYPES)
    inv = ctx.choice("inv", range(num_inv(ct)))
    c = mk(pitch_type=pt, root=root, key_tonic=tonic, chord_type=ct, inversion=inv)
    rt = ct if red == "none" else RED[red][ct]
    p, ok = rel(pt, pad, root, tonic) if relative else (root, True)
    if use_inv and inv >= num_inv(rt):
        ok = False
    kw = dict(relative=relative, use_inversion=use_inv, pad=pad, reduction=RED[red])
    bad, got = raises(ValueError, c.get_one_hot_index, **kw)
    ctx.check(EQ(ok, not bad), "label index given or refused wrongly")
    if bad:
        return
    present = sorted({(t if red == "none" else RED[red][t]).value for t in TYPES})
    n = npitch(pt, pad) if relative else N[pt]
    k = (lambda v: num_inv(TYPES[v])) if use_inv else (lambda v: 1)
    want = n * sum(k(v) for v in present if v < rt.value) + k(rt.value) * p + (inv if use_inv else 0)
    ctx.check(got == want, "label index is not the position of the chord in the label order")
    ctx.cover("index")


def lengths(ctx):
    pt = ctx.choice("pt", [TPC, MIDI])
    oh, relative, ui, pad = (ctx.flag(x) for x in ("oh", "rel", "ui", "pad"))
    red = ctx.choice("red", ["none", "triad", "one"])
    want_n = npitch(pt, pad) if relative else N[pt]
    if oh:
        ts = {(t if red == "none" else RED[red][t]) for t in TYPES}
        want = sum((num_inv(t) if ui else 1) for t in ts) * want_n
        ctx.check(want == len(hu.get_chord_label_list(pt, use_inversions=ui, relative=relative, pad=pad, reduction=RED[red])), "label list length")
    else:
        want = 2 * want_n + 26
    kw = dict(one_hot=oh, relative=relative, use_inversions=ui, pad=pad, reduction=RED[red])
    ctx.check(get_chord_vector_length(pt, **kw) == want, "vector length wrong")
    ctx.check(mk(pitch_type=pt).get_chord_vector_length(**kw) == want, "vector length wrong")
    ctx.cover("length")


def infer(ctx):
    pad = ctx.flag("pad")
    n = ctx.int("n", 0, 200)
    bad, pt = raises(ValueError, vd.infer_chord_vector_pitch_type, n, pad)
    tpc = 104 if pad else 84
    ctx.check(EQ(NOT(OR(n == 50, n == tpc)), bad), "pitch type inferred from an impossible length, or refused")
    if not bad:
        ctx.check(EQ(n, 50 if pt == MIDI else tpc), "wrong pitch type inferred")
        ctx.cover("infer")


def tensor(ctx, rows, n, cols, lo, junk=7):
    """rows x n array; the columns [lo, lo+cols) are symbolic 0/1, at most one 1 per row; the rest are distinct constants"""
    t = np.zeros((rows, n), dtype=object if ctx.symbolic else float)
    sym = []
    for r in range(rows):
        for c in range(n):
            t[r, c] = (r * 3 + c) % junk
        cells = [ctx.int(f"c{r}_{j}", 0, 1) for j in range(cols)]
        ctx.assume(sum(cells[1:], cells[0]) <= 1)
        for j in range(cols):
            t[r, lo + j] = cells[j]
        sym.append(cells)
    return t, sym


def red_types(ctx, pt, pad, red, rows):
    n = npitch(pt, pad)
    t, cells = tensor(ctx, rows, 2 * n + 26, 12, n)
    before = t.copy()
    given = ctx.flag("given")
    vd.reduce_chord_types(t, RED[red], pad, pitch_type=pt if given else None)
    for r in range(rows):
        for j in range(12):
            src = [cells[r][k] for k in range(12) if (TYPES[k] if red == "none" else RED[red][TYPES[k]]).value == j]
            ctx.check(EQ(t[r, n + j], sum(src) if src else 0), "reduced type column wrong")
        ctx.check(AND([EQ(t[r, c], before[r, c]) for c in range(2 * n + 26) if not n <= c < n + 12]), "reduction touched other columns")
    ctx.cover("reduced")


def rm_inv(ctx, pt, pad, rows):
    n = npitch(pt, pad)
    lo = 2 * n + 12
    t, cells = tensor(ctx, rows, 2 * n + 26, 4, lo)
    before = t.copy()
    vd.remove_chord_inversions(t, pad, pitch_type=pt if ctx.flag("given") else None)
    for r in range(rows):
        s = sum(cells[r][1:], cells[r][0])
        ctx.check(AND([EQ(t[r, lo + j], s if j == 0 else 0) for j in range(4)]), "inversions not moved to root position")
        ctx.check(AND([EQ(t[r, c], before[r, c]) for c in range(2 * n + 26) if not lo <= c < lo + 4]), "removal touched other columns")
    ctx.cover("removed")


def reduce_one_hots(ctx, pt, relative, pad, inv_present, red_present, red, use_inv):
    n = npitch(pt, pad) if relative else N[pt]
    ts = sorted({(t if red_present == "none" else RED[red_present][t]).value for t in TYPES})
    labels = [(r, TYPES[t], i) for t in ts for r in range(n) for i in (range(num_inv(TYPES[t])) if inv_present else [0])]
    i = ctx.int("i", 0, len(labels) - 1)
    ic = E.concretise(i) if ctx.symbolic else i
    j = (ic * 7 + 3) % len(labels)
    one_hots = [ic, j, ic] if ctx.flag("list") else np.array([j, ic, ic], dtype=np.int64)
    want_ts = sorted({(t if red == "none" else RED[red][t]).value for t in TYPES})

    def spec(idx):
        r, t, v = labels[idx]
        t2 = t if red == "none" else RED[red][t]
        if use_inv and v >= num_inv(t2):
            return None
        k = (lambda w: num_inv(TYPES[w])) if use_inv else (lambda w: 1)
        return n * sum(k(w) for w in want_ts if w < t2.value) + k(t2.value) * r + (v if use_inv else 0)

    want = [spec(int(x)) for x in one_hots]
    bad, got = raises(ValueError, vd.reduce_chord_one_hots, one_hots, pad, pt, inversions_present=inv_present, reduction_present=RED[red_present],
                      relative=relative, reduction=RED[red], use_inversions=use_inv)
    ctx.check(bad == (None in want), "reduction refused or accepted wrongly")
    if not bad:
        ctx.check([int(x) for x in got] == want, "reduced label is not the reduced chord")
        ctx.cover("one-hots")


def cases(tier):
    out = [Case("lengths", lengths, "", ["length"]), Case("infer", infer, "", ["infer"])]
    for pt, pads in ((TPC, (False, True)), (MIDI, (False,))):
        for pad in pads:
            tag = f"{pt.name}{'_pad' if pad else ''}"
            for which in ("root", "bass"):
                for ok in (False, True):
                    out.append(Case(f"vec_{which}_{tag}{'_key' if ok else ''}", vec_pitch, "", ["vector"], pt=pt, pad=pad, which=which, other_key=ok, weight=3))
            for part in ("type", "metre"):
                out.append(Case(f"vec_cat_{part}_{tag}", vec_cat, "", ["categories"], np_objects=True, floats=True, pt=pt, pad=pad, part=part, weight=20))
            out.append(Case(f"chord_and_key_{tag}", chord_and_key, "", ["key change"], pt=pt, pad=pad, weight=10))
            out.append(Case(f"index_rel_{tag}", index_method, "", ["index"], pt=pt, relative=True, pad=pad, weight=5))
            out.append(Case(f"rm_inv_{tag}", rm_inv, "", ["removed"], np_objects=True, pt=pt, pad=pad, rows=3))
            for red in ("triad", "one"):
                out.append(Case(f"red_types_{tag}_{red}", red_types, "", ["reduced"], np_objects=True, pt=pt, pad=pad, red=red, rows=2, weight=15))
        out.append(Case(f"index_abs_{pt.name}", index_method, "", ["index"], pt=pt, relative=False, pad=False, weight=5))
    cfgs = [(True, "none", "triad", False), (True, "none", "triad", True), (True, "none", "none", False), (False, "none", "one", False),
            (True, "triad", "one", True), (True, "triad", "triad", False), (False, "triad", "triad", True)]
    for inv_p, rp, r, ui in cfgs:
        out.append(Case(f"one_hots_MIDI_{inv_p}_{rp}_{r}_{ui}", reduce_one_hots, "", ["one-hots"], pt=MIDI, relative=True, pad=False, inv_present=inv_p,
                        red_present=rp, red=r, use_inv=ui, weight=10))
        out.append(Case(f"one_hots_TPC_{inv_p}_{rp}_{r}_{ui}", reduce_one_hots, "", ["one-hots"], pt=TPC, relative=inv_p, pad=inv_p and ui, inv_present=inv_p,
                        red_present=rp, red=r, use_inv=ui, weight=30))
    return out
