from props.common import *
import math
from props.jm import joint, components, jm
from props.C02 import spec_vocab
from symx.stubs import from_numpy

LEVEL = "model_checking"
JM = "harmonic_inference.models.joint_model:HarmonicInferenceModel."
TARGETS = [JM + f for f in ("get_harmony", "beam_search", "get_key_change_probs", "get_key_change_states", "run_csm_batched", "get_chord_ranges")]
BOUNDS = ("whole searches over 2-3 inputs with 2-3 candidate chords per range and 3 keys; chord-prior values symbolic (one or two per search), the other component outputs concrete and "
          "generic; wide beams (nothing dropped), narrow beams (1-2 states), hashed beams; forced chords, keys, chord changes, key changes and non-changes; "
          "chords outside the range of the key")
OUTSIDE = ("longer pieces, larger vocabularies, history-dependent component outputs; a chord classifier with a reduced vocabulary (see DESIGN.md); networks themselves")
PT = TPC
VOC = spec_vocab(PT, True, True, False, TYPES)
KEYS = [(t, m) for m in (MAJOR, MINOR) for t in range(35)]  # index = position
K0 = KEYS.index((15, MAJOR))


class Note:
    def __init__(self, i):
        self.onset, self.onset_level, self.offset, self.offset_level = (0, Fraction(i)), 3, (0, Fraction(i + 1)), 3


class Piece:
    DATA_TYPE = PieceType.SCORE

    def __init__(self, n):
        self.n = n

    def get_duration_cache(self):
        return np.array([Fraction(1)] * self.n)

    def get_inputs(self):
        return [Note(i) for i in range(self.n)]

    def get_keys(self):
        return None


def generic(*ix):
    """a fixed 'generic' number in (0,1), different for different arguments"""
    x = 0.5
    for i in ix:
        x = (x * 7.137 + 0.618 * (i + 1) + 0.0931) % 1.0
    return round((0.15 + 0.7 * x) * 256) / 256


class World:
    """Component outputs, the same for the code under test and for the oracle."""

    def __init__(self, ctx, n, chords, kprob, keys, sym, params, exact_stay=None, low=(), change=None):
        self.n, self.chords, self.kprob = n, chords, kprob
        self.change = change or [0.5] + [generic(9, i) for i in range(1, n)]
        rows = {}
        for s in range(n):
            for e in range(s + 1, n + 1):
                w = [generic(s, e, c) for c in range(len(chords))]
                for c in low:
                    w[c] = 0.01
                t = sum(w)
                rows[(s, e)] = [x / t for x in w]
        self.ccm = rows
        self.keyp = keys  # {(interval, mode): log prob}
        # chord priors (log), per relative chord; "sym" of them symbolic
        self.csm, self.icm = {}, {}
        n_sym = 0
        for tn, m in [(15, MAJOR)] + [(15 + i, md) for (i, md) in keys] + [(15 + 2 * i, md) for (i, md) in keys]:
            for root, ct, inv in chords:
                r = (root - tn, ct, inv)
                if r not in self.csm and r in VOC:
                    self.csm[r] = -3 * generic(3, VOC.index(r) % 97, len(self.csm))
                    self.icm[r] = -3 * generic(4, VOC.index(r) % 89, len(self.csm))
        names = list(self.csm)
        for which, k in sym:
            table = self.csm if which == "csm" else self.icm
            table[names[k]] = ctx.real(f"{which}{k}", -6, 0)
        self.params = params

    def model(self):
        c = components(pt=PT)
        m = joint(c, min_chord_change_prob=self.params.get("cmin", 0.01), max_no_chord_change_prob=self.params.get("cmax", 0.99), max_chord_length=Fraction(100),
                  min_key_change_prob=self.params.get("kmin", 0.05), max_no_key_change_prob=self.params.get("kmax", 0.95), beam_size=self.params.get("beam", 1000),
                  max_chord_branching_factor=self.params.get("cb", 2), target_chord_branch_prob=self.params.get("ct", 0.9999),
                  max_key_branching_factor=self.params.get("kb", 2), target_key_branch_prob=0.9999, hash_length=self.params.get("hash"), ksm_exponent=self.params.get("exp", 0.5))
        full = list(m.LABELS["chord"])
        self.ids = [full.index(x) for x in self.chords]
        ids = {i: k for k, i in enumerate(self.ids)}
        m.LABELS = dict(m.LABELS, chord=_Few(full, self.ids))
        W = self

        def vec(table):
            v = np.empty(len(VOC), dtype=object)
            v.fill(-1e9)
            for r, x in table.items():
                v[VOC.index(r)] = x
            return v

        csm_vec, icm_vec = vec(self.csm), vec(self.icm)
        change = self.change

        def init_hidden(b):
            return (from_numpy(np.zeros((1, b, 1))), from_numpy(np.zeros((1, b, 1))))

        def hidden(batch, inc):
            h = np.asarray(batch["hidden_states"][0])  # (batch, 1, 1)
            h = np.array([[[h[b, 0, 0] + inc[b]] for b in range(len(h))]])
            return (from_numpy(h), from_numpy(h + 0.0))

        def step(out):
            def f(batch):
                b = len(batch["inputs"])
                assert np.asarray(batch["inputs"]).shape[1] == 1
                return out(b), hidden(batch, [1] * b)
            return f

        def csm_out(b):
            a = np.empty((b, 1, len(VOC)), dtype=object)
            for i in range(b):
                a[i, 0] = csm_vec
            return from_numpy(a)

        key_vec = np.full(58, -1e9)
        for (iv, md), lp in self.keyp.items():
            key_vec[[(a, b) for a in (MAJOR, MINOR) for b in range(KEY_MIN, KEY_MAX)].index((md, iv))] = lp

        def ksm_get_output(batch):
            lens = [int(x) for x in np.asarray(batch["input_lengths"])]
            return from_numpy(np.array([key_vec] * len(lens))), hidden(batch, lens)

        put = object.__setattr__
        for mod in ("csm", "ktm", "ksm"):
            put(c[mod], "init_hidden", init_hidden)
        put(c["ktm"], "run_one_step", step(lambda b: from_numpy(np.full((b, 1), W.kprob))))
        put(c["csm"], "run_one_step", step(csm_out))
        put(c["ksm"], "get_output", ksm_get_output)
        put(c["icm"], "get_prior", lambda minor, log=True: icm_vec)
        m.get_chord_change_probs = lambda: np.array(change, dtype=float)

        def classify(windows, idxs):
            return np.log(np.array([W.ccm[(i, e)] for (_, e), i in zip(windows, idxs)]))

        m.get_chord_classifications = classify
        return m


class _Few:
    """chord labels; chord ids of this search are positions in the list of candidate chords"""

    def __init__(self, full, ids):
        self.full, self.ids = full, ids

    def __getitem__(self, i):
        return self.full[self.ids[i]]

    def __len__(self):
        return len(self.ids)


def bass_of(c):
    return c[0] + tone(c[1], PT, c[2])


def rel_ok(c, tonic, pad):
    lo, hi = (REL_MIN - REL_EXTRA, REL_MAX + REL_EXTRA) if pad else (REL_MIN, REL_MAX)
    return lo <= c[0] - tonic < hi and lo <= bass_of(c) - tonic < hi and 0 <= bass_of(c) < 35


def count_for(ps, target, most):
    tot = 0
    for k, p in enumerate(ps):
        tot += p
        if tot >= target:
            return max(1, min(k + 1, most))
    return 1


def oracle(W, F):
    """every labelling the limits allow -> list of (groups, log-probability); a group is (start, end, chord, key, changed)"""
    n, P = W.n, W.params
    cmin, cmax = P.get("cmin", 0.01), P.get("cmax", 0.99)
    kmin, kmax, expo = P.get("kmin", 0.05), P.get("kmax", 0.95), P.get("exp", 0.5)
    p = list(W.change)
    for i in F["cc"] | F["kc"]:
        p[i] = 1.0
    for i in F["cn"]:
        p[i] = 0.0
    log = lambda x: math.log(x) if x > 0 else -math.inf
    one = lambda ids, s, e: len({x for x in ids[s:e] if x != -1}) <= 1
    ranges = {}
    for s in range(n):
        for e in range(s + 1, n + 1):
            if any(p[i] > cmax for i in range(s + 1, e)) or (e < n and p[e] < cmin) or not one(F["ci"], s, e) or not one(F["ki"], s, e):
                continue
            ranges.setdefault(s, []).append((e, sum(log(1 - p[i]) for i in range(s + 1, e)) + (log(p[e]) if e < n else 0)))
    keyrank = sorted(W.keyp.items(), key=lambda kv: -kv[1])
    kcount = count_for([math.exp(v) for _, v in keyrank], 0.9999, P.get("kb", 2))
    paths = []
    seen = set()

    def keyed(groups, start, end, chord, parts, key):
        """decide the key of the group in question -> states"""
        tonic = KEYS[key][0]
        first = not groups
        kp = 0.0 if first else W.kprob
        L = end - start
        stay = kp <= kmax and rel_ok(W.chords[chord], tonic, False)
        change = kp >= kmin
        ids = {x for x in F["ki"][start:end] if x != -1}
        if len(ids) > 1:
            return
        forced = next(iter(ids)) if ids else None
        if forced is not None:
            change = forced != key
            stay = forced == key and rel_ok(W.chords[chord], tonic, False)
        if start in F["kc"] and start > 0:
            stay, change = False, True
        elif start in F["kn"]:
            change = False
            stay = (forced is None or forced == key) and rel_ok(W.chords[chord], tonic, False)
        if stay:
            r = (W.chords[chord][0] - tonic, W.chords[chord][1], W.chords[chord][2])
            prior = (W.icm if first else W.csm)[r]
            yield key, False, log(1 - kp) * L, prior * L
        if change and kp > 0:
            k = 0
            rest = [((i, a), -1e9) for a in (MAJOR, MINOR) for i in range(KEY_MIN, KEY_MAX) if (i, a) not in W.keyp] if forced is not None else []
            for (iv, md), lp in keyrank + rest:
                t2 = tonic + iv
                if not 0 <= t2 < 35:
                    continue
                k2 = KEYS.index((t2, md))
                if (forced is not None and k2 != forced) or k2 == key or not rel_ok(W.chords[chord], t2, False):
                    continue
                yield k2, True, log(kp) * L, lp * expo * L
                k += 1
                if k >= kcount:
                    break

    def go(pos, groups, key_before, total, cur):
        """cur: (start, chord, parts, key, changed, terms) of the last group, or None"""
        if pos == n:
            start, chord, parts, key, ch, terms = cur
            sig = (tuple(groups), start, chord, key, tuple(parts))
            if sig in seen:
                return
            seen.add(sig)
            lp = total
            for x in list(parts) + list(terms):
                lp = lp + x
            paths.append(([g[:4] for g in groups] + [(start, n, chord, key)], lp))
            return
        for e, rlp in ranges.get(pos, []):
            row = W.ccm[(pos, e)]
            order = sorted(range(len(row)), key=lambda c: -row[c])
            k = count_for([row[c] for c in order], P.get("ct", 0.9999), P.get("cb", 2))
            last = cur[1] if cur else None
            if k == 1 and order[0] == last:
                k = 2
            f = {x for x in F["ci"][pos:e] if x != -1}
            cand = [next(iter(f))] if f else order[:k]
            for c in cand:
                add = rlp + math.log(row[c]) * (e - pos)
                if c == last:
                    parts = cur[2] + [add, log(1 - p[pos]) - log(p[pos])]
                    start, gr, tot, kb = cur[0], groups, total, key_before
                else:
                    key = cur[3] if cur else K0
                    if not rel_ok(W.chords[c], KEYS[key][0], True):
                        continue
                    parts, start, kb = [add], pos, key
                    if cur:
                        gr = groups + [(cur[0], pos, cur[1], cur[3], tuple(cur[2]))]
                        tot = total
                        for x in list(cur[2]) + list(cur[5]):
                            tot = tot + x
                    else:
                        gr, tot = [], total
                if any(isinstance(x, float) and x == -math.inf for x in parts):
                    continue
                for k2, ch, a, b in keyed(gr, start, e, c, parts, kb):
                    go(e, gr, kb, tot, (start, c, parts, k2, ch, [a, b]))

    go(0, [], K0, 0.0, None)
    return paths


def decode(W, top):
    """labels of the returned state, one (chord, key) per input, and the groups"""
    cs, ch = top.get_chords()
    ks, kc = top.get_keys()
    out, groups, j = [], [], 0
    for i, c in enumerate(cs):
        while kc[j + 1] < ch[i + 1]:
            j += 1
        groups.append((ch[i], ch[i + 1], c, ks[j]))
    return cs, ch, ks, kc, groups


def search(ctx, n, chords, sym, params, kprob=0.25, keys=None, forces=None, low=(), change=None):
    keys = keys or {(1, MAJOR): math.log(0.5), (-3, MINOR): math.log(0.375), (0, MAJOR): math.log(0.125)}
    W = World(ctx, n, chords, kprob, keys, sym, params, low=low, change=change)
    F = dict(cc=set(), cn=set(), kc=set(), kn=set(), ci=[-1] * n, ki=[K0] + [-1] * (n - 1))
    forces = forces(ctx, n) if callable(forces) else (forces or {})
    F.update({k: v for k, v in forces.items() if k in F})
    m = W.model()
    fchords = {(i, i + 1): F["ci"][i] for i in range(n) if F["ci"][i] != -1}
    fkeys = {(i, i + 1): F["ki"][i] for i in range(n) if F["ki"][i] != -1}
    with np.errstate(all="ignore"):
        top = m.get_harmony(Piece(n), forced_chord_changes=set(F["cc"]), forced_chord_non_changes=set(F["cn"]), forced_key_changes=set(F["kc"]),
                            forced_key_non_changes=set(F["kn"]), forced_chords=fchords, forced_keys=fkeys)
    legal = oracle(W, F)
    wide = params.get("beam", 1000) >= 1000
    if top is None:
        ctx.check(not legal or not wide, "no harmony found although there is a possible one")
        ctx.cover("none")
        return
    cs, ch, ks, kc, groups = decode(W, top)
    ctx.check(ch[0] == 0 and ch[-1] == n and all(a < b for a, b in zip(ch, ch[1:])) and len(ch) == len(cs) + 1, "chords do not tile the piece")
    ctx.check(kc[0] == 0 and kc[-1] == n and all(a < b for a, b in zip(kc, kc[1:])) and len(kc) == len(ks) + 1 and set(kc) <= set(ch), "keys do not tile the piece at chord changes")
    ctx.check(all(a != b for a, b in zip(cs, cs[1:])), "a chord is followed by itself")
    for s, e, c, k in groups:
        ctx.check(0 <= c < len(chords) and rel_ok(chords[c], KEYS[k][0], False), "a chord that cannot be in its key")
        ctx.check(set(F["ci"][s:e]) <= {-1, c} and set(F["ki"][s:e]) <= {-1, k}, "forced chord or key not respected")
    ctx.check(F["cc"] <= set(ch) and not (F["cn"] & set(ch[1:-1])), "forced chord change or non-change not respected")
    ctx.check(F["kc"] <= set(kc[1:-1]) and not (F["kn"] & set(kc[1:-1])), "forced key change or non-change not respected")
    if not E.is_sym(top.log_prob) and float(top.log_prob) == -math.inf:
        ctx.check(not legal or not wide, "an impossible harmony returned although there is a possible one")
        ctx.cover("none")
        return
    mine = [lp for g, lp in legal if [tuple(x) for x in g] == [tuple(x) for x in groups]]
    ctx.check(len(mine) > 0, "the result is not a labelling the settings allow")
    eps = Fraction(1, 10**9)
    ctx.check(OR([AND(top.log_prob - x <= eps, x - top.log_prob <= eps) for x in mine]), "log-probability is not that of the returned labelling")
    if wide:
        ctx.check(AND([x - top.log_prob <= eps for _, x in legal]), "a more likely labelling exists although nothing was dropped from the beam")
    # every component was run once per chord, on this path only
    h = lambda x: 0 if x is None else float(np.asarray(x[0]).reshape(-1)[0])
    ctx.check(h(top.ktm_hidden_state) == len(groups), "key transition model was not run on exactly this path")
    last_change = max([i + 1 for i in range(1, len(groups)) if groups[i][3] != groups[i - 1][3]] or [0])
    ctx.check(h(top.ksm_hidden_state) == last_change, "key sequence model was not run on exactly the chords up to the last key change")
    ctx.check(h(top.csm_hidden_state) == len(groups) - 1, "chord sequence model was not run on exactly this path")
    ctx.check(m.current_piece is None, "the model still holds the piece")
    ctx.cover("found")
    if len(groups) > 1:
        ctx.cover("several")
    if len(ks) > 1:
        ctx.cover("modulates")


def labels(ctx, pt, what):
    """the label tables agree with the encodings the components are trained on"""
    from harmonic_inference.data.key import Key
    m = joint(components(pt=pt))
    t1, m1 = ctx.int("t1", 0, N[pt] - 1), ctx.choice("m1", [MAJOR, MINOR])
    a = Key(t1, t1, t1, m1, m1, m1, pt)
    if what == "key":
        tonic, mode = m.LABELS["key"][a.get_one_hot_index()]
        ctx.check(AND(EQ(tonic, t1), mode == m1), "key labels do not match the key encoding")
    else:
        t2, m2 = ctx.int("t2", 0, N[pt] - 1), ctx.choice("m2", [MAJOR, MINOR])
        b = Key(t2, t2, t2, m2, m2, m2, pt)
        iv = t2 - t1 if pt == TPC else (t2 - t1) % 12
        if pt == TPC:
            ctx.assume(AND(iv >= KEY_MIN, iv < KEY_MAX))
        mode, interval = m.LABELS["relative_key"][a.get_key_change_one_hot_index(b)]
        ctx.check(AND(mode == m2, EQ(interval, iv)), "relative key labels do not match the key change encoding")
    ctx.cover("labels")


MAJ, DOM, MIN6 = (15, ChordType.MAJOR, 0), (16, ChordType.MAJ_MIN7, 1), (18, ChordType.MINOR, 0)
FAR = (30, ChordType.MAJOR, 0)  # root 15 fifths above C: only expressible after a key change
TWO, THREE = [MAJ, DOM], [MAJ, DOM, MIN6]


def force_chords(ctx, n):
    return dict(ci=[ctx.choice(f"ci{i}", [-1, 0, 1]) for i in range(n)])


def force_keys(ctx, n):
    return dict(ki=[K0] + [ctx.choice(f"ki{i}", [-1, K0, KEYS.index((16, MAJOR)), KEYS.index((12, MINOR))]) for i in range(1, n)])


def force_changes(ctx, n):
    k = [ctx.choice(f"k{i}", ["", "c", "n"]) for i in range(1, n)]
    return dict(cc={i + 1 for i, x in enumerate(k) if x == "c"}, cn={i + 1 for i, x in enumerate(k) if x == "n"})


def force_keys_and_change(ctx, n):
    return dict(force_keys(ctx, n), cc={ctx.choice("cc", list(range(1, n)))})


def force_chords_and_change(ctx, n):
    out = dict(force_chords(ctx, n), cc={ctx.choice("cc", list(range(1, n)))})
    ctx.assume(all(out["ci"][i] == -1 or out["ci"][i] != out["ci"][i - 1] for i in out["cc"]))  # otherwise refused (C22)
    return out


def force_key_changes(ctx, n):
    k = [ctx.choice(f"k{i}", ["", "c", "n"]) for i in range(1, n)]
    return dict(kc={i + 1 for i, x in enumerate(k) if x == "c"}, kn={i + 1 for i, x in enumerate(k) if x == "n"})


def cases(tier):
    deep = tier == "thorough"
    out = [Case(f"labels_{w}_{pt.name}", labels, "every pair of keys", ["labels"], pt=pt, what=w) for pt in (TPC, MIDI) for w in ("key", "relative_key")]

    def add(name, covers, weight=5, **k):
        out.append(Case(name, search, f"{k['n']} inputs, symbolic {k['sym']}", covers, weight=weight, **k))

    S1, S2 = [("csm", 0)], [("csm", 0), ("icm", 1)]
    add("wide_2", ["found", "several"], n=2, chords=TWO, sym=S2, params={})
    for j in range(4):
        add(f"wide_3_csm{j}", ["found", "several"], n=3, chords=TWO, sym=[("csm", j)], params=dict(kb=1), weight=9)
    add("wide_3_icm", ["found", "several"], n=3, chords=TWO, sym=[("icm", 0)], params=dict(kb=1), weight=9)
    add("wide_3_keys", ["found", "several", "modulates"], n=3, chords=TWO, sym=[("csm", 1)], params=dict(kb=1), kprob=0.96, weight=9)
    add("wide_2_three", ["found"], n=2, chords=THREE, sym=S2, params=dict(cb=3))
    add("wide_2_branch", ["found"], n=2, chords=THREE, sym=S2, params=dict(cb=3, ct=0.6))
    add("must_change", ["found", "modulates"], n=3, chords=[MAJ, FAR], sym=[("csm", 0)], params=dict(kb=2, cb=2), keys={(1, MAJOR): math.log(0.5), (3, MAJOR): math.log(0.25), (-1, MINOR): math.log(0.25)},
        change=[0.5, 0.995, 0.5], weight=8)
    add("hashed_3", ["found", "several"], n=3, chords=TWO, sym=[("csm", 0)], params=dict(hash=2, kb=1), weight=8)
    add("hashed_wide_2", ["found", "several"], n=2, chords=TWO, sym=S2, params=dict(hash=3))
    add("branch_1", ["found", "several"], n=3, chords=TWO, sym=[("csm", 0)], params=dict(kb=1, cb=1), weight=8)
    add("branch_1_must", ["found", "several"], n=3, chords=TWO, sym=[("csm", 0)], params=dict(kb=1, cb=1), change=[0.5, 0.995, 0.5], weight=8)
    for b in (1, 2):
        add(f"narrow_{b}", ["found"], n=3, chords=TWO, sym=S2, params=dict(beam=b), weight=8)
        add(f"narrow_hashed_{b}", ["found"], n=3, chords=TWO, sym=S2, params=dict(beam=b, hash=2), weight=8)
    add("forced_chords", ["found"], n=3, chords=TWO, sym=S1, params=dict(kb=1), forces=force_chords, weight=9)
    add("forced_keys", ["found", "modulates"], n=3, chords=TWO, sym=S1, params=dict(kb=1), forces=force_keys, weight=9)
    add("forced_keys_likely", ["found", "modulates"], n=3, chords=TWO, sym=S1, params=dict(kb=1), forces=force_keys, kprob=0.97, weight=9)
    add("forced_keys_unlikely", ["found", "modulates"], n=3, chords=TWO, sym=S1, params=dict(kb=1), forces=force_keys, kprob=0.03, weight=9)
    for kp in (0.03, 0.97):
        add(f"forced_keys_change_{kp}", ["found"], n=2, chords=TWO, sym=S1, params=dict(kb=1), forces=force_keys_and_change, kprob=kp, weight=5)
    add("forced_impossible", ["none"], n=2, chords=[MAJ, FAR], sym=S1, params=dict(kb=1), forces=dict(ki=[K0, K0], cc={1}), weight=5)
    add("forced_chords_change", ["found"], n=2, chords=TWO, sym=S1, params=dict(kb=1), forces=force_chords_and_change, weight=5)
    add("forced_changes", ["found"], n=3, chords=TWO, sym=S1, params=dict(kb=1), forces=force_changes, weight=9)
    add("forced_key_changes", ["found", "modulates"], n=3, chords=TWO, sym=S1, params=dict(kb=1), forces=force_key_changes, weight=9)
    add("forced_key_changes_likely", ["found", "modulates"], n=3, chords=TWO, sym=S1, params=dict(kb=1), forces=force_key_changes, kprob=0.97, weight=9)
    if deep:
        add("wide_3_deep", ["found", "several"], n=3, chords=TWO, sym=S2, params=dict(kb=2), weight=10)
        add("wide_4", ["found", "several"], n=4, chords=TWO, sym=S1, params=dict(kb=1), weight=10)
    return out
