from props.common import *
import harmonic_inference.utils.harmonic_utils as hu

LEVEL = "model_checking"
HU = "harmonic_inference.utils.harmonic_utils:"
TARGETS = [HU + f for f in ("get_chord_one_hot_index", "get_chord_from_one_hot_index", "get_chord_label_list",
                            "get_chord_inversion_count", "get_chord_string", "get_chord_type_from_string")]
BOUNDS = ("every chord type, every root in [-40,80], every inversion in [-2,6], every vocabulary setting "
          "(pitch type, inversions, relative, padded) and chord-type reductions onto every set of at most 2 "
          "(thorough: 4) target types, plus the three shipped reductions; every vocabulary index")
OUTSIDE = "reductions onto more target types than stated; roots/inversions beyond the stated ranges"


def roots_of(pt, relative, pad):
    if relative and pt == TPC:
        lo, hi = REL_MIN, REL_MAX
        if pad:
            lo, hi = lo - REL_EXTRA, hi + REL_EXTRA
        return list(range(lo, hi))
    return list(range(N[pt]))


def spec_vocab(pt, use_inv, relative, pad, targets):
    return [(r, t, i) for t in sorted(targets) for r in roots_of(pt, relative, pad)
            for i in (range(num_inv(t)) if use_inv else [0])]


def pick_reduction(ctx, kind):
    """An arbitrary reduction, up to the set of its target types and the image of `ct`."""
    if kind == "none":
        return None, {t: t for t in TYPES}
    if kind == "triad":
        return dict(TRIAD), TRIAD
    if kind == "one":
        return dict(ONE), ONE
    k = int(kind)
    targets = []
    for j in range(k):
        # in any order: the order in which a mapping lists its targets must not matter
        targets.append(ctx.choice(f"target{j}", TYPES if j < 2 else [t for t in TYPES if t.value >= targets[-1].value]))
    red = {}
    for n, t in enumerate(TYPES):
        # default image cycles through the targets so that all of them really occur
        red[t] = targets[n % k]
    return red, red


def block(vocab, roots, t, use_inv):
    step = num_inv(t) if use_inv else 1
    base = vocab.index((roots[0], t, 0))
    for k, r in enumerate(roots):  # the linear expression really is the vocabulary position
        for i in range(step):
            assert vocab[base + step * k + i] == (r, t, i)
    return base, step


def encode(ctx, pt, use_inv, relative, pad, kind):
    red, eff = pick_reduction(ctx, kind)
    ct = ctx.choice("ct", TYPES if kind in ("none", "triad", "one", "1") else [ChordType.MINOR, ChordType.HALF_DIM7])
    if kind not in ("none", "triad", "one"):
        # arbitrary image of this type
        img = ctx.choice("image", sorted(set(red.values())))
        others = [t for t in TYPES if t != ct]
        tg = list(dict.fromkeys(red.values()))
        red = {t: tg[n % len(tg)] for n, t in enumerate(others)}
        red[ct] = img
        eff = red
    root = ctx.int("root", -40, 80)
    inv = ctx.int("inv", -2, 6)
    tgt = eff[ct]
    targets = set(eff.values())
    roots = roots_of(pt, relative, pad)
    bad, idx = raises(ValueError, hu.get_chord_one_hot_index, ct, root, pt, inversion=inv, use_inversion=use_inv,
                      relative=relative, pad=pad, reduction=red)
    ok = AND(root >= 0, root < len(roots))
    if use_inv:
        ok = AND(ok, inv >= 0, inv < num_inv(tgt))
    ctx.check(EQ(ok, not bad), "index refused/accepted wrongly")
    if bad:
        return
    vocab = spec_vocab(pt, use_inv, relative, pad, targets)
    ctx.check(AND(idx >= 0, idx < len(vocab)), "index outside the vocabulary")
    # position of (root, tgt, inv) in the specified vocabulary, as a linear expression
    base, step = block(vocab, roots, tgt, use_inv)
    ctx.check(idx == base + step * root + (inv if use_inv else 0), "index does not select this chord in the vocabulary")
    ctx.cover("encoded")


def decode(ctx, pt, use_inv, relative, pad, kind):
    red, eff = pick_reduction(ctx, kind)
    vocab = spec_vocab(pt, use_inv, relative, pad, set(eff.values()))
    i = ctx.int("i", 0, len(vocab) - 1)
    r, t, inv = hu.get_chord_from_one_hot_index(i, pt, use_inversions=use_inv, relative=relative, pad=pad, reduction=red)
    n = E.concretise(i) if ctx.symbolic else i
    ctx.check(EQ((r, t, inv), vocab[n]), "index decodes to the wrong chord")
    r0 = roots_of(pt, relative, pad)[0]
    # (re-encoding needs a reduction that maps each target to itself)
    selfred = None if red is None else {x: (x if x in set(red.values()) else red[x]) for x in TYPES}
    back = hu.get_chord_one_hot_index(t, r - r0, pt, inversion=inv, use_inversion=use_inv, relative=relative, pad=pad,
                                      reduction=selfred)
    ctx.check(back == i, "decode then encode is not the identity")
    ctx.cover("decoded")


def listing(ctx, pt, use_inv, relative, pad, kind):
    red, eff = pick_reduction(ctx, kind)
    vocab = spec_vocab(pt, use_inv, relative, pad, set(eff.values()))
    full = hu.get_chord_from_one_hot_index(slice(None, None), pt, use_inversions=use_inv, relative=relative, pad=pad,
                                           reduction=red)
    ctx.check(list(full) == vocab, "decoded vocabulary differs from the specified one")
    ctx.cover("listing")


def labels(ctx, pt, use_inv, relative, pad, kind, rel_to):
    red, eff = pick_reduction(ctx, kind)
    vocab = spec_vocab(pt, use_inv, relative, pad, set(eff.values()))
    rt = None
    if rel_to:
        rt = ctx.int("relative_to", 0, N[pt] - 1)
    got = hu.get_chord_label_list(pt, use_inversions=use_inv, relative=relative, relative_to=rt, pad=pad, reduction=red)
    ctx.check(len(got) == len(vocab), "label list length differs from the vocabulary size")
    if len(got) != len(vocab):
        return
    if rt is not None and ctx.symbolic:
        rt = E.concretise(rt)

    def root_name(r):
        if not relative:
            return hu.get_pitch_string(r, pt)
        if rt is None:
            return str(r)
        if pt == MIDI:
            return hu.get_pitch_string((r + rt) % 12, pt)
        return tpc_name(r + rt) if 0 <= r + rt < 35 else str(r)

    names = {r: root_name(r) for r in roots_of(pt, relative, pad)}
    strings = {ChordType.MAJOR: "M", ChordType.MINOR: "m", ChordType.DIMINISHED: "o", ChordType.AUGMENTED: "+",
               ChordType.MAJ_MAJ7: "MM7", ChordType.MAJ_MIN7: "Mm7", ChordType.MIN_MAJ7: "mM7",
               ChordType.MIN_MIN7: "mm7", ChordType.DIM7: "o7", ChordType.HALF_DIM7: "%7", ChordType.AUG_MIN7: "+7",
               ChordType.AUG_MAJ7: "+M7"}
    want = [f"{names[r]}:{strings[t]}" + (f", inv:{i}" if use_inv else "") for r, t, i in vocab]
    ctx.check(got == want, "a label does not name the chord at its index")
    ctx.cover("labels")


def type_names(ctx):
    t = ctx.choice("t", TYPES)
    s = hu.get_chord_string(t)
    ctx.check(hu.get_chord_type_from_string(s) == t, "chord type name does not parse back")
    ctx.check(hu.get_chord_inversion_count(t) == num_inv(t), "number of inversions is not the number of chord tones")
    bad, _ = raises(ValueError, hu.get_chord_type_from_string, s + "?")
    ctx.check(bad, "unknown chord type name accepted")
    for alias, want in (("It", ChordType.DIMINISHED), ("Ger", ChordType.DIM7), ("Fr", ChordType.MAJ_MIN7)):
        ctx.check(hu.get_chord_type_from_string(alias) == want, "augmented sixth alias wrong")
    ctx.cover("types")


def cases(tier):
    out = [Case("type_names", type_names, "12 chord types", ["types"])]
    kinds = ["none", "triad", "one", "1", "2"] + (["3", "4"] if tier == "thorough" else [])
    for pt in (TPC, MIDI):
        for use_inv in (True, False):
            for relative, pad in ((False, False), (True, False), (True, True)):
                tag = f"{pt.name}_{'inv' if use_inv else 'noinv'}_{'rel' if relative else 'abs'}{'_pad' if pad else ''}"
                for kind in kinds:
                    if tier == "quick" and kind == "2" and (relative and not pad):
                        continue
                    out.append(Case(f"encode_{tag}_{kind}", encode, f"reduction {kind}", ["encoded"], weight=3 if kind == "2" else 2,
                                    pt=pt, use_inv=use_inv, relative=relative, pad=pad, kind=kind))
                for kind in ("none", "triad") + (("2",) if tier == "thorough" else ()):
                    out.append(Case(f"decode_{tag}_{kind}", decode, f"every index, reduction {kind}", ["decoded"], weight=5,
                                    pt=pt, use_inv=use_inv, relative=relative, pad=pad, kind=kind))
                for kind in kinds:
                    out.append(Case(f"listing_{tag}_{kind}", listing, f"reduction {kind}", ["listing"],
                                    pt=pt, use_inv=use_inv, relative=relative, pad=pad, kind=kind))
                for kind in ("none", "triad", "1", "2"):
                    for rel_to in ((False, True) if relative and kind != "2" else (False,)):
                        out.append(Case(f"labels_{tag}_{kind}_{rel_to}", labels, f"reduction {kind}, every reference pitch",
                                        ["labels"], pt=pt, use_inv=use_inv, relative=relative, pad=pad, kind=kind,
                                        rel_to=rel_to))
    return out
