from props.common import *
import harmonic_inference.utils.harmonic_utils as hu
from harmonic_inference.data import key as keymod
from harmonic_inference.data.key import Key
from harmonic_inference.data import vector_decoding as vd

LEVEL = "model_checking"
HU = "harmonic_inference.utils.harmonic_utils:"
TARGETS = [HU + f for f in ("get_key_one_hot_index", "get_key_from_one_hot_index", "get_key_label_list", "absolute_to_relative")] + [
    "harmonic_inference.data.key:Key.get_one_hot_index", "harmonic_inference.data.key:Key.get_key_change_one_hot_index",
    "harmonic_inference.data.key:Key.get_key_change_vector", "harmonic_inference.data.key:get_key_change_vector_length",
    "harmonic_inference.data.vector_decoding:decode_key_change_vector"]
BOUNDS = "every tonic in [-50,80] and mode, every ordered pair of keys with tonics in [0,35), both pitch representations, every index of every key vocabulary"
OUTSIDE = "tonics beyond the stated ranges"
MODES = [MAJOR, MINOR]
MODE_IDX = {MAJOR: 0, MINOR: 1}


def mk(tonic, mode, pt):
    return Key(tonic, tonic, tonic, mode, mode, mode, pt)


def key_index(ctx, pt):
    t = ctx.int("tonic", -50, 80)
    m = ctx.choice("mode", MODES)
    for f in (lambda: hu.get_key_one_hot_index(m, t, pt), lambda: mk(t, m, pt).get_one_hot_index()):
        bad, idx = raises(ValueError, f)
        ctx.check(EQ(AND(t >= 0, t < N[pt]), not bad), "key index accepted/refused wrongly")
        if not bad:
            ctx.check(idx == MODE_IDX[m] * N[pt] + t, "key index is not mode block + tonic")
            ctx.cover("index")


def tonics_of(pt, relative):
    return list(range(KEY_MIN, KEY_MAX)) if relative and pt == TPC else list(range(N[pt]))


def key_decode(ctx, pt, relative):
    ts = tonics_of(pt, relative)
    vocab = [(t, m) for m in MODES for t in ts]
    full = hu.get_key_from_one_hot_index(slice(None, None), pt, relative=relative)
    ctx.check(list(full) == vocab, "key vocabulary differs from the specified one")
    i = ctx.int("i", 0, len(vocab) - 1)
    t, m = hu.get_key_from_one_hot_index(i, pt, relative=relative)
    n = E.concretise(i) if ctx.symbolic else i
    ctx.check(EQ((t, m), vocab[n]), "index decodes to the wrong key")
    if not relative:
        ctx.check(hu.get_key_one_hot_index(m, t, pt) == n, "decode then encode of a key is not the identity")
    ctx.cover("decoded")


def key_labels(ctx, pt, relative, rel_to):
    ts = tonics_of(pt, relative)
    rt = None
    if rel_to:
        rt = ctx.int("relative_to", 0, N[pt] - 1)
    got = hu.get_key_label_list(pt, relative=relative, relative_to=rt)
    if rt is not None and ctx.symbolic:
        rt = E.concretise(rt)

    def name(t):
        if not relative:
            return hu.get_pitch_string(t, pt)
        if rt is None:
            return str(t)
        if pt == MIDI:
            return hu.get_pitch_string((t + rt) % 12, pt)
        return tpc_name(t + rt) if 0 <= t + rt < 35 else str(t)

    want = [f"{name(t).lower() if m == MINOR else name(t)}:{m}" for m in MODES for t in ts]
    ctx.check(list(got) == want, "a key label does not name the key at its index")
    ctx.cover("labels")


def change(ctx, pt):
    a = ctx.int("from", 0, N[pt] - 1)
    b = ctx.int("to", 0, N[pt] - 1)
    ma = ctx.choice("from_mode", MODES)
    mb = ctx.choice("to_mode", MODES)
    k1, k2 = mk(a, ma, pt), mk(b, mb, pt)
    n = 29 if pt == TPC else 12
    ctx.check(k1.get_key_change_vector_length(one_hot=True) == 2 * n, "one-hot key-change length")
    ctx.check(keymod.get_key_change_vector_length(pt, one_hot=True) == 2 * n, "one-hot key-change length")
    ctx.check(keymod.get_key_change_vector_length(pt, one_hot=False) == n + 2, "key-change vector length")
    bad, idx = raises(ValueError, k1.get_key_change_one_hot_index, k2)
    if pt == TPC:
        d = b - a
        ctx.check(EQ(AND(d >= KEY_MIN, d < KEY_MAX), not bad), "key change accepted/refused wrongly")
        off = d - KEY_MIN
    else:
        ctx.check(not bad, "MIDI key change refused")
        off = (b - a) % 12
    if bad:
        ctx.cover("out of range")
        return
    ctx.check(AND(idx == MODE_IDX[mb] * n + off, idx >= 0, idx < 2 * n), "key-change index is not (mode of new key, interval)")
    t, m = hu.get_key_from_one_hot_index(idx, pt, relative=True)
    ctx.check(AND(EQ(m, mb), (a + t - b) % 12 == 0 if pt == MIDI else EQ(a + t, b)), "key-change index does not lead from the old key to the new key")
    ctx.cover("in range")


def vector(ctx, pt):
    a = ctx.int("from", 0, N[pt] - 1)
    b = ctx.int("to", 0, N[pt] - 1)
    ma = ctx.choice("from_mode", MODES)
    mb = ctx.choice("to_mode", MODES)
    k1, k2 = mk(a, ma, pt), mk(b, mb, pt)
    n = 29 if pt == TPC else 12
    v = k1.get_key_change_vector(k2)
    off = (b - a - KEY_MIN) if pt == TPC else (b - a) % 12
    inr = AND(off >= 0, off < n)
    ctx.check(len(v) == n + 2, "key-change vector has the wrong length")
    conds = [EQ(AND(inr, off == j), bool(v[j] == 1)) for j in range(n)]
    conds += [bool(x in (0, 1)) for x in v]
    conds += [bool(v[n + MODE_IDX[x]] == (1 if x == mb else 0)) for x in MODES]
    ctx.check(AND(conds), "key-change vector does not mark exactly the interval and the new mode")
    if inr:
        got = vd.decode_key_change_vector(v)
        ctx.check(type(got.relative_mode) is KeyMode, "decoded key change does not carry a key mode")
        ctx.check(AND(EQ(got.relative_mode, mb), EQ(got.tonic_type, pt)), "decoded key change has the wrong mode or pitch type")
        r = int(got.relative_tonic)
        ctx.check(EQ(r, b - a) if pt == TPC else EQ(r, (b - a) % 12), "decoded key change has the wrong interval")
        ctx.cover("decoded")


def cases(tier):
    out = []
    for pt in (TPC, MIDI):
        out.append(Case(f"key_index_{pt.name}", key_index, "tonic in [-50,80]", ["index"], pt=pt))
        out.append(Case(f"change_{pt.name}", change, "all key pairs", ["in range"], weight=4, pt=pt))
        out.append(Case(f"vector_{pt.name}", vector, "all key pairs", ["decoded"], weight=4, pt=pt))
        for relative in (False, True):
            out.append(Case(f"decode_{pt.name}_{relative}", key_decode, "all indexes", ["decoded"], pt=pt, relative=relative))
            for rel_to in ((False, True) if relative else (False,)):
                out.append(Case(f"labels_{pt.name}_{relative}_{rel_to}", key_labels, "all labels", ["labels"], pt=pt, relative=relative, rel_to=rel_to))
    return out
