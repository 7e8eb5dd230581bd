from props.common import *
import harmonic_inference.utils.harmonic_utils as hu

LEVEL = "model_checking"
HU = "harmonic_inference.utils.harmonic_utils:"
TARGETS = [HU + f for f in ("get_vector_from_chord_type", "transpose_chord_vector", "get_bass_note", "get_chord_inversion",
                            "get_chord_inversion_count", "transpose_pitch")]
BOUNDS = ("every chord type, root in [-10,50], inversion in [-6,9], both pitch types; arbitrary 0/1 (symbolic) pitch vectors "
          "transposed by every interval in [-40,40]; every figured-bass symbol of up to 2 digits")
OUTSIDE = "larger roots/intervals; figured bass strings longer than 2 characters"


def content(ctx, pt):
    ct = ctx.choice("ct", TYPES)
    root = ctx.int("root", 0, N[pt] - 1)
    v = hu.get_vector_from_chord_type(ct, pt, root=root)
    ctx.check(len(v) == N[pt], "chord vector has the wrong length")
    r = E.concretise(root) if ctx.symbolic else root
    tones = [r + tone(ct, pt, k) for k in range(num_inv(ct))]
    want = {x % 12 for x in tones} if pt == MIDI else {x for x in tones if 0 <= x < 35}
    ctx.check([int(x) for x in v] == [1 if p in want else 0 for p in range(N[pt])], "chord vector does not hold exactly the chord tones")
    base = hu.get_vector_from_chord_type(ct, pt)
    ctx.check([int(x) for x in base] == [int(x) for x in hu.get_vector_from_chord_type(ct, pt, root=C[pt])], "default root must be C")
    ctx.cover("content")


def bass(ctx, pt):
    ct = ctx.choice("ct", TYPES)
    root = ctx.int("root", -10, 50)
    n = num_inv(ct)
    inv = ctx.choice("inv", range(0, n))
    bad, b = raises(ValueError, hu.get_bass_note, ct, root, inv, pt)
    want = root + tone(ct, pt, inv)
    if pt == TPC:
        ctx.check(EQ(AND(want >= 0, want < 35), not bad), "bass note accepted/refused wrongly")
        if not bad:
            ctx.check(b == want, "bass note is not the chord tone of the inversion")
            ctx.cover("bass")
    else:
        ctx.check(not bad, "MIDI bass refused")
        ctx.check(AND(b == want % 12), "bass note is not the chord tone of the inversion")
        ctx.cover("bass")


def bass_modulo(ctx, pt):
    ct = ctx.choice("ct", TYPES)
    root = ctx.int("root", 10, 22) if pt == TPC else ctx.int("root", 0, 11)
    n = num_inv(ct)
    inv = ctx.choice("inv", range(-6, 10))
    want = root + tone(ct, pt, inv % n)
    got = hu.get_bass_note(ct, root, inv, pt, modulo=True)
    ctx.check(got == (want if pt == TPC else want % 12), "robust bass note must take the inversion modulo the chord size")
    if inv >= n:
        bad, _ = raises(IndexError, hu.get_bass_note, ct, root, inv, pt)
        ctx.check(bad, "inversion beyond the chord size must not yield a bass note silently")
    ctx.cover("modulo")


def roll(ctx, pt):
    n = N[pt]
    vec = [ctx.int(f"v{j}", 0, 1) for j in range(n)]
    i = ctx.choice("interval", range(-40, 41))
    arr = np.array(vec, dtype=object) if ctx.symbolic else np.array(vec)
    got = hu.transpose_chord_vector(arr, i, pt)
    ctx.check(len(got) == n, "transposed vector has the wrong length")
    conds = []
    for j in range(n):
        if pt == MIDI:
            conds.append(got[j] == vec[(j - i) % 12])
        else:
            conds.append(got[j] == (vec[j - i] if 0 <= j - i < n else 0))
    ctx.check(AND(conds), "transposed vector is not the shifted vector")
    ctx.check(AND([a == b for a, b in zip(arr, vec)]), "transposition must not modify its argument")
    ctx.cover("shift")


def bass_in_chord(ctx, pt):
    ct = ctx.choice("ct", TYPES)
    root = ctx.int("root", 0, N[pt] - 1)
    inv = ctx.choice("inv", range(num_inv(ct)))
    bad, b = raises(ValueError, hu.get_bass_note, ct, root, inv, pt)
    if bad:
        return
    v = hu.get_vector_from_chord_type(ct, pt, root=root)
    ctx.check(v[b] == 1, "the bass note is not a tone of the chord")
    if inv == 0:
        ctx.check(b == root, "root position must have the root in the bass")
    ctx.cover("member")


def figbass(ctx):
    s = ctx.choice("fig", [None, float("nan"), ""] + [str(d) for d in range(10)] + [f"{a}{b}" for a in range(10) for b in range(10)])
    want = {"7": 0, "6": 1, "65": 1, "43": 2, "64": 2, "2": 3}
    bad, v = raises(ValueError, hu.get_chord_inversion, s)
    if s is None or s != s or s == "":
        ctx.check(not bad and v == 0, "no figure means root position")
    elif s in want:
        ctx.check(not bad and v == want[s], "figured bass gives the wrong inversion")
        ctx.cover("known figure")
    else:
        ctx.check(bad, "unknown figured bass accepted")


def cases(tier):
    out = [Case("figbass", figbass, "", ["known figure"])]
    for pt in (TPC, MIDI):
        out += [Case(f"content_{pt.name}", content, "", ["content"], pt=pt), Case(f"bass_{pt.name}", bass, "", ["bass"], pt=pt),
                Case(f"bass_modulo_{pt.name}", bass_modulo, "", ["modulo"], pt=pt), Case(f"roll_{pt.name}", roll, "", ["shift"], pt=pt, weight=9),
                Case(f"bass_in_chord_{pt.name}", bass_in_chord, "", ["member"], pt=pt, weight=5)]
    return out
