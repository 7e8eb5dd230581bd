from props.common import *
import math
import harmonic_inference.utils.beam_search_utils as bsu
from harmonic_inference.utils.beam_search_utils import State
from harmonic_inference.data.chord import Chord
from harmonic_inference.data.key import Key
from props.C02 import spec_vocab

LEVEL = "model_checking"
BS = "harmonic_inference.utils.beam_search_utils:State."
TARGETS = [BS + f for f in ("copy", "chord_transition", "key_transition", "rejoin", "add_ktm_log_prob", "add_csm_prior", "get_csm_input",
                            "get_ktm_input", "get_ksm_input", "get_chord", "get_key", "get_relative_chord_index", "get_chords", "get_keys",
                            "can_key_transition", "is_valid")]
BOUNDS = ("every chord type and inversion, every root and tonic of the alphabet (symbolic), both pitch representations; log-probabilities arbitrary reals; "
          "histories of up to 3 chords (thorough 4), each possibly with key transition model, key change, chord prior, copy and rejoin steps; "
          "priors under no / triad / single-type reduction with and without inversions, chord-based and pitch-based")
OUTSIDE = "longer histories; other chord-type reductions in the prior; torch tensors as hidden states (opaque objects here)"


class Hidden:
    """stands for a hidden state: only identity/equality matter"""

    def __init__(self, n):
        self.n = n

    def equal(self, o):
        return self.n == o.n

    def __deepcopy__(self, memo):
        return Hidden(self.n)


def hid(n):
    return None if n is None else (Hidden(n), Hidden(-n))


def same_hid(h, n):
    if n is None or h is None:
        return n is None and h is None
    return h[0].n == n and h[1].n == -n


def lo_hi(pad):
    return (REL_MIN - REL_EXTRA, REL_MAX + REL_EXTRA) if pad else (REL_MIN, REL_MAX)


def inside(rel, pad):
    lo, hi = lo_hi(pad)
    return AND(rel >= lo, rel < hi)


def pick_chord(ctx, name, pt, types=TYPES, legal=True):
    ct = ctx.choice(name + "_ct", types)
    inv = ctx.choice(name + "_inv", range(num_inv(ct)))
    root = ctx.int(name + "_root", 0, N[pt] - 1)
    bass = root + tone(ct, pt, inv)
    if pt == MIDI:
        bass = bass % 12
    elif legal:
        ctx.assume(AND(bass >= 0, bass < N[TPC]))
    return root, ct, inv, bass


def pick_key(ctx, name, pt):
    return ctx.int(name + "_tonic", 0, N[pt] - 1), ctx.choice(name + "_mode", [MAJOR, MINOR])


def initial(ctx, pt, labels, key=0, **k):
    return State(key=key, hash_length=k.pop("hash_length", None), log_prob=ctx.real("p0"), csm_log_prior="prior0",
                 csm_hidden_state=hid(1), ktm_hidden_state=hid(2), ksm_hidden_state=hid(3), **k)


def snap(s):
    return (s.chord, s.key, s.change_index, s.log_prob, s.prev_state, s.most_recent_csm, s.most_recent_ksm, s.most_recent_ktm, s.csm_log_prior)


def unchanged(a, b):
    return AND([x is y or (not hasattr(x, "chord") and EQ(x, y)) if x is not None and y is not None else x is y for x, y in zip(a, b)])


def chord_step(ctx, pt):
    root, ct, inv, bass = pick_chord(ctx, "c", pt, legal=False)
    tonic, mode = pick_key(ctx, "k", pt)
    labels = {"chord": {7: (root, ct, inv)}, "key": {0: (tonic, mode)}}
    s = initial(ctx, pt, labels, hash_length=2)
    before = snap(s)
    end, lp = ctx.int("end", 1, 9), ctx.real("lp")
    new = s.chord_transition(7, end, lp, pt, labels)
    spell = True if pt == MIDI else AND(bass >= 0, bass < N[TPC])
    rr, rb = root - tonic, bass - tonic
    ok = AND(spell, inside(rr, True), inside(rb, True))
    ctx.check(EQ(ok, new is not None), "a chord transition is refused exactly when root or bass is outside the padded range of the key")
    ctx.check(unchanged(before, snap(s)), "a transition changes the state it starts from")
    if new is None:
        ctx.cover("refused") if pt == TPC else None
        return
    ctx.check(EQ(new.is_valid(check_key=True), AND(inside(rr, False), inside(rb, False))),
              "a state must change key exactly when root or bass is outside the range of its key")
    ctx.check(bool(new.is_valid()), "new state invalid")
    ctx.check(AND(new.chord == 7, new.key == 0, EQ(new.change_index, end), EQ(new.log_prob, s.log_prob + lp), new.prev_state is s), "wrong fields after a chord transition")
    ctx.check(new.get_hash() == (((0, None)), (0, 7)), "wrong history after a chord transition")
    ctx.check(same_hid(new.csm_hidden_state, 1) and same_hid(new.ktm_hidden_state, 2) and same_hid(new.ksm_hidden_state, 3) and new.csm_log_prior == "prior0",
              "hidden states or prior not carried over")
    ctx.check(not new.can_key_transition(), "the first chord cannot change key")
    ctx.cover("step")


def key_step(ctx, pt):
    root, ct, inv, bass = pick_chord(ctx, "c", pt)
    tonic, mode = pick_key(ctx, "k", pt)
    t2, m2 = pick_key(ctx, "n", pt)
    # first chord is the tonic triad; then the chord in question; then the key change
    labels = {"chord": {1: (tonic, ChordType.MAJOR, 0), 2: (root, ct, inv)}, "key": {0: (tonic, mode), 5: (t2, m2)}}
    s0 = initial(ctx, pt, labels, hash_length=3)
    l1, l2 = ctx.real("l1"), ctx.real("l2")
    s1 = s0.chord_transition(1, 2, l1, pt, labels)
    s1.csm_hidden_state, s1.ktm_hidden_state, s1.ksm_hidden_state, s1.csm_log_prior = hid(11), hid(12), hid(13), "prior1"
    s2 = s1.chord_transition(2, 4, l2, pt, labels)
    if s2 is None:
        return
    ctx.check(s2.can_key_transition(), "the second chord may change key")
    s2.ktm_hidden_state, s2.ksm_hidden_state = hid(22), hid(23)
    ktm, ksm, lp = ctx.real("ktm"), ctx.real("ksm"), ctx.real("lp")
    s2.add_ktm_log_prob(ktm)
    before = snap(s2)
    new = s2.key_transition(5, ksm, pt, labels)
    ctx.check(unchanged(before, snap(s2)), "a key transition changes the state it starts from")
    ok = AND(inside(root - t2, False), inside(bass - t2, False))
    ctx.check(EQ(ok, new is not None), "a key transition is refused exactly when root or bass is outside the range of the new key")
    base = s0.log_prob + l1 + l2
    if new is not None:
        ctx.check(AND(new.chord == 2, new.key == 5, new.change_index == 4, EQ(new.log_prob, base + ktm + ksm), new.prev_state is s1), "wrong fields after a key transition")
        ctx.check(bool(new.is_valid(check_key=True)), "a state in a fitting key must be valid")
        ctx.check(new.get_hash() == ((0, None), (0, 1), (5, 2)), "wrong history after a key transition")
        ctx.check(same_hid(new.csm_hidden_state, 11) and new.csm_log_prior == "prior1", "chord sequence state not carried over")
        ctx.check(same_hid(new.ktm_hidden_state, 12) and same_hid(new.ksm_hidden_state, 13), "key model states must be those before this chord")
        k = new.get_key(pt, labels)
        ctx.check(AND(EQ(k.relative_tonic, t2), k.relative_mode == m2, EQ(k.local_tonic, t2), k.local_mode == m2,
                      EQ(k.global_tonic, tonic), k.global_mode == mode, k.tonic_type == pt), "wrong key object")
        # undoing it: the chord continues, in the old key
        r = new.rejoin(6, lp, pt, labels)
        ctx.check(AND(r.key == 0, r.chord == 2, r.change_index == 6, r.prev_state is s1, EQ(r.log_prob, base + lp)), "rejoining does not revert the key change")
        ctx.check(EQ(r.is_valid(check_key=True), AND(inside(root - tonic, False), inside(bass - tonic, False))), "rejoined state's validity in the old key")
        k = r.get_key(pt, labels)
        ctx.check(AND(EQ(k.relative_tonic, tonic), k.relative_mode == mode), "wrong key object after rejoining")
        ctx.cover("key_step")
    else:
        ctx.cover("key_refused") if pt == TPC else None
    # rejoining the unchanged-key state
    r = s2.rejoin(6, lp, pt, labels)
    ctx.check(AND(r.key == 0, r.chord == 2, r.change_index == 6, r.prev_state is s1, EQ(r.log_prob, base + lp)), "rejoining does not remove the key transition probability")
    ctx.check(EQ(r.is_valid(check_key=True), AND(inside(root - tonic, False), inside(bass - tonic, False))), "rejoined state's validity")
    ctx.check(same_hid(r.csm_hidden_state, 11) and same_hid(r.ktm_hidden_state, 12) and same_hid(r.ksm_hidden_state, 13) and r.csm_log_prior == "prior1",
              "a rejoined chord restarts from the models' states before that chord")
    ctx.check(r.get_hash() == ((0, None), (0, 1), (0, 2)), "wrong history after rejoining")


OPS = ["", "copy", "ktm", "ktm+copy", "ktm+key", "ktm+csm", "ktm+copy+key", "ktm+copy+csm"]


def accounting(ctx, n, hashed):
    """log-probability of a state = sum of its own path's parts, whatever was tried, copied or rejoined on the way"""
    pt = TPC
    root, tonic, t2 = 15, 15, 14
    labels = {"chord": {i: (root + i, ChordType.MAJOR, 0) for i in range(6)}, "key": {0: (tonic, MAJOR), 1: (t2, MINOR)}}
    dur = [1] * 12
    onc, lvl = [(0, i) for i in range(13)], [3] * 13
    vocab = spec_vocab(pt, True, True, False, TYPES)
    s = State(key=0, log_prob=ctx.real("p0"), hash_length=2 if hashed else None)
    base = s.log_prob  # up to, not including, the current chord
    seg, extra = 0, 0  # current chord's range parts; its model parts
    prev_base, key, prev_key, at = None, 0, None, 0
    end, chord = 0, None
    for i in range(n):
        act = ctx.choice(f"act{i}", ["new", "rejoin"]) if i else "new"
        lp = ctx.real(f"l{i}")
        prior = np.array([Fraction(j + 1, 7) for j in range(len(vocab))], dtype=object)
        start = end
        end += 1 + i % 2
        if act == "new":
            base, seg, extra, prev_key, at = base + seg + extra, lp, 0, key, start
            chord = i
            s.csm_log_prior = prior
            s = s.chord_transition(chord, end, lp, pt, labels)
        else:
            seg, extra, key = seg + lp, 0, prev_key
            s.csm_log_prior = "not used: the chord's own prior is that before it"
            s = s.rejoin(end, lp, pt, labels)
        ctx.check(s is not None and EQ(s.log_prob, base + seg + extra), "log-probability after a range")
        for op in ctx.choice(f"ops{i}", OPS).split("+"):
            if op == "copy":
                old = s
                s = s.copy()
                ctx.check(s is not old and EQ(s.log_prob, old.log_prob) and s.key == old.key and s.chord == old.chord and s.change_index == old.change_index
                          and s.prev_state is old.prev_state and (not hashed or s.get_hash() == old.get_hash()), "copy differs")
                old.add_ktm_log_prob(ctx.real(f"junk{i}"))  # what happens to the original must not matter
            elif op == "ktm":
                v = ctx.real(f"ktm{i}")
                s.add_ktm_log_prob(v)
                extra = extra + v
            elif op == "key":
                v = ctx.real(f"ksm{i}")
                s = s.key_transition(1 - key, v, pt, labels)
                key, extra = 1 - key, extra + v
            elif op == "csm":
                s.add_csm_prior(False, pt, dur, onc, lvl, labels, True, None)
                rel = labels["chord"][chord][0] - labels["key"][key][0]
                w = Fraction(vocab.index((rel, ChordType.MAJOR, 0)) + 1, 7) * (end - at)
                extra = extra + w
        ctx.check(EQ(s.log_prob, base + seg + extra), "log-probability after the models' terms")
    ctx.cover("accounting")


def paths(ctx, n):
    keys = [ctx.choice(f"k{i}", range(3)) for i in range(n + 1)]
    chords = [ctx.int(f"c{i}", 0, 1500) for i in range(n)]
    ends, e = [0], 0
    s = State(key=keys[0])
    for i in range(n):
        e = e + ctx.int(f"len{i}", 1, 50)
        ends.append(e)
        s = State(key=keys[i + 1], chord=chords[i], change_index=e, prev_state=s)
    cs, ch = s.get_chords()
    ctx.check(len(cs) == n and len(ch) == n + 1 and AND([EQ(a, b) for a, b in zip(cs, chords)] + [EQ(a, b) for a, b in zip(ch, ends)]), "chord path read wrongly")
    want, wc = [], [0]
    for i in range(n):
        if not want or keys[i + 1] != want[-1]:
            want.append(keys[i + 1])
            wc.append(None)
        wc[-1] = ends[i + 1]
    ks, kc = s.get_keys()
    ctx.check(ks == want and len(kc) == len(wc) and AND([EQ(a, b) for a, b in zip(kc, wc)]), "key path read wrongly")
    ctx.cover("paths")


def objects(ctx, pt, changed):
    """chord / key objects and model inputs of a state"""
    root, ct, inv, bass = pick_chord(ctx, "c", pt, types=[ChordType.MINOR, ChordType.DIM7])
    tonic, mode = 15 if pt == TPC else 3, MINOR
    if changed:
        t2, m2 = tonic + ctx.choice("interval", [-3, 4]), ctx.choice("mode", [MAJOR, MINOR])
    else:
        t2, m2 = tonic, mode
    if pt == TPC:
        ctx.assume(AND(inside(root - t2, False), inside(bass - t2, False)))
    labels = {"chord": {1: (tonic, ChordType.MAJOR, 0), 2: (root, ct, inv)}, "key": {0: (tonic, mode), 5: (t2, m2)}}
    n = 5
    dur = np.array([ctx.real(f"d{i}", 0, 4) for i in range(n)], dtype=object)
    onc = [(0, ctx.real(f"o{i}", 0, 9)) for i in range(n + 1)]
    lvl = [3, 0, 2, 1, 3, 0]
    a, b = ctx.choice("ab", [(1, 3), (2, 5), (2, 3)])
    s0 = initial(ctx, pt, labels)
    s1 = State(key=0, chord=1, change_index=a, prev_state=s0)
    s2 = State(key=5 if changed else 0, chord=2, change_index=b, prev_state=s1)
    c = s2.get_chord(pt, dur, onc, lvl, labels)
    D = sum((dur[i] for i in range(a, b)), 0)
    ctx.check(AND(EQ(c.root, root), EQ(c.bass, bass), EQ(c.key_tonic, t2), c.key_mode == m2, c.chord_type == ct, c.inversion == inv,
                  c.onset is onc[a] or EQ(c.onset[1], onc[a][1]), c.offset is onc[b] or EQ(c.offset[1], onc[b][1]), EQ(c.onset_level, lvl[a]), EQ(c.offset_level, lvl[b]),
                  close(ctx, c.duration, D), c.pitch_type == pt), "wrong chord object")
    ctx.check(c is s2.get_chord(pt, dur, onc, lvl, labels), "chord object not stable")
    k = s2.get_key(pt, labels)
    ctx.check(AND(EQ(k.relative_tonic, t2), k.relative_mode == m2, EQ(k.global_tonic, tonic), k.global_mode == mode), "wrong key object")
    ref = Chord(root, bass, t2, m2, ct, inv, onc[a], lvl[a], onc[b], lvl[b], D, pt)
    kv = np.zeros(bsu.get_key_change_vector_length(pt, one_hot=False) + 1, dtype=object)
    if changed:
        old = Key(tonic, tonic, tonic, mode, mode, mode, pt)
        if s2.key != s1.key:
            kv[:-1] = old.get_key_change_vector(Key(t2, t2, tonic, m2, m2, mode, pt))
            kv[-1] = 1
    for pad, got in ((False, s2.get_csm_input(pt, dur, onc, lvl, labels)), (True, s2.get_ktm_input(pt, dur, onc, lvl, labels))):
        want = list(ref.to_vec(pad=pad)) + list(kv)
        ctx.check(np.shape(got) == (1, len(want)), "model input has the wrong shape")
        ctx.check(AND([close(ctx, x, y) for x, y in zip(got[0], want)]), "model input differs from chord vector followed by key change")
    ctx.cover("objects")


def ksm_rows(ctx, n):
    """the key sequence model is fed every chord since it was last run, in order"""
    pt = TPC
    tonic = 15
    labels = {"chord": {i: (12 + i, ChordType.MAJOR, 0) for i in range(6)}, "key": {0: (tonic, MAJOR), 1: (14, MINOR)}}
    dur, onc, lvl = [Fraction(1)] * 12, [(0, Fraction(i)) for i in range(13)], [i % 4 for i in range(13)]
    h = 0
    s = State(key=0)  # never run
    rows, key = [], 0
    for i in range(n):
        run = i > 0 and ctx.flag(f"run{i}")  # the model was run up to the previous chord
        if i:
            key = ctx.choice(f"k{i}", [0, 1])
        if run:
            h += 1
            s.ksm_hidden_state = hid(h)
            rows = []
        s = State(key=key, chord=i, change_index=i + 1, prev_state=s, ksm_hidden_state=s.ksm_hidden_state)
        rows.append(s.get_ktm_input(pt, dur, onc, lvl, labels)[0])
    got = s.get_ksm_input(pt, dur, onc, lvl, labels)
    ctx.check(got.shape == (len(rows), len(rows[0])), "wrong number of chords fed to the key sequence model")
    ctx.check(bool(np.all(got == np.array(rows))), "wrong chords fed to the key sequence model")
    ctx.cover("rows")


def prior(ctx, pt, red, use_inv, first, pitch_based):
    """the chord's prior is read at the chord relative to its key (reduced as the model's output is), times the number of inputs"""
    root, ct, inv, bass = pick_chord(ctx, "c", pt)
    tonic, mode = 15 if pt == TPC else 4, MAJOR
    if pt == TPC:
        ctx.assume(AND(inside(root - tonic, False), inside(bass - tonic, False)))
    labels = {"chord": {1: (tonic, ChordType.MAJOR, 0), 2: (root, ct, inv)}, "key": {0: (tonic, mode)}}
    rd = {"none": None, "triad": dict(TRIAD), "one": dict(ONE)}[red]
    dur, onc, lvl = [Fraction(1)] * 12, [(0, Fraction(i)) for i in range(13)], [3] * 13
    s = State(key=0, log_prob=ctx.real("p0"))
    a = 0
    if not first:
        a = 2
        s = State(key=0, chord=1, change_index=a, prev_state=s, log_prob=ctx.real("p1"))
    b = a + 3
    p = ctx.real("p")
    s = State(key=0, chord=2, change_index=b, prev_state=s, log_prob=p)
    rr = root - tonic
    if pt == MIDI:
        rr = rr % 12
    rr = E.concretise_int(rr) if E.is_sym(rr) else rr
    if first:  # the initial chord prior is already spread over the full vocabulary
        vocab, cc = spec_vocab(pt, True, True, False, TYPES), (rr, ct, inv)
    else:
        eff = rd or {t: t for t in TYPES}
        vocab, cc = spec_vocab(pt, use_inv, True, False, set(eff.values())), (rr, eff[ct], inv if use_inv else 0)
    if not first and use_inv and rd is not None and inv >= num_inv(rd[ct]):
        bad, _ = raises(Exception, s.add_csm_prior, pitch_based, pt, dur, onc, lvl, labels, use_inv, rd)
        return
    if pitch_based and not first:
        n = 29 if pt == TPC else 12
        vals = [(j + 1) / 40 for j in range(n)]
        s.csm_log_prior = np.array(vals)
        s.add_csm_prior(True, pt, dur, onc, lvl, labels, use_inv, rd)
        pos = {(rr + tone(cc[1], pt, i) + (14 if pt == TPC else 0)) % (10**6 if pt == TPC else 12) for i in range(num_inv(cc[1]))}
        want = sum(math.log(v) if j in pos else math.log(1 - v) for j, v in enumerate(vals)) * (b - a)
    else:
        s.csm_log_prior = np.array([Fraction(j + 1, 7) for j in range(len(vocab))], dtype=object)
        s.add_csm_prior(pitch_based, pt, dur, onc, lvl, labels, use_inv, rd)
        want = Fraction(vocab.index(cc) + 1, 7) * (b - a)
    got = s.log_prob - p
    ctx.check(AND(got - want < 1e-6, want - got < 1e-6), "not the prior of this chord, once per input of its range, was added")
    ctx.cover("prior")


def cases(tier):
    deep = tier == "thorough"
    out = []
    for pt in (TPC, MIDI):
        nm = pt.name
        out.append(Case(f"chord_step_{nm}", chord_step, "all chords, roots, tonics", ["step"] + (["refused"] if pt == TPC else []), weight=5))
        out[-1].params["pt"] = pt
        out.append(Case(f"key_step_{nm}", key_step, "all chords, roots, old and new tonics", ["key_step"] + (["key_refused"] if pt == TPC else []), pt=pt, weight=8))
        for ch in (False, True):
            out.append(Case(f"objects_{nm}_{ch}", objects, "symbolic roots, tonics, durations, levels", ["objects"], np_objects=True, floats=True, pt=pt, changed=ch, weight=9))
        for red in ("none", "triad", "one"):
            for use_inv in (True, False):
                if red != "none" and use_inv:
                    continue
                for pb in (False, True):
                    out.append(Case(f"prior_{nm}_{red}_{use_inv}_{pb}", prior, "all chords relative to a fixed tonic", ["prior"], pt=pt, red=red, use_inv=use_inv, first=False,
                                    pitch_based=pb, weight=6))
        out.append(Case(f"prior_first_{nm}", prior, "all chords relative to a fixed tonic", ["prior"], pt=pt, red="triad", use_inv=False, first=True, pitch_based=True, weight=6))
    n = 4 if deep else 3
    for h in (False, True):
        out.append(Case(f"accounting_{h}", accounting, f"{n} ranges", ["accounting"], n=n, hashed=h, weight=8))
    out.append(Case("paths", paths, "4 chords, 3 keys", ["paths"], n=5 if deep else 4))
    out.append(Case("ksm_rows", ksm_rows, "4 chords", ["rows"], n=5 if deep else 4))
    return out
