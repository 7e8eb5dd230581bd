from props.common import *
from props.jm import joint, set_forces

LEVEL = "model_checking"
JM = "harmonic_inference.models.joint_model:HarmonicInferenceModel."
TARGETS = [JM + "get_chord_ranges", JM + "_apply_forced_chord_changes"]
BOUNDS = ("up to 4 inputs (thorough 5) with arbitrary (symbolic) change probabilities in (0,1), durations (zero = same onset), thresholds and maximum chord length; "
          "forced chords/keys on any inputs (3 values); forced changes and non-changes on any inputs")
OUTSIDE = ("more inputs; a range reaching the end of the piece whose last input alone makes it exceed the maximum length (the code's own reading of the maximum is ambiguous there and not judged); "
           "minimum change probability 0")


def spec(ctx, n, probs, dur, lo, hi, maxlen, fc, fk):
    """-> list of (start, end, must_exist) in terms of decided conditions"""
    first = [i == 0 or bool(dur[i - 1] > 0) for i in range(n)]

    def one(ids, s, e):
        return len({x for x in ids[s:e] if x != -1}) <= 1

    out = {}
    reach, done = [0], set()
    while reach:
        s = min(reach)
        reach.remove(s)
        if s in done:
            continue
        done.add(s)
        total = Fraction(0)
        for e in range(s + 1, n + 1):
            before = total
            total = total + dur[e - 1]
            if not (one(fc, s, e) and one(fk, s, e)):
                break
            if e == n:
                if bool(before <= maxlen):
                    out[(s, n)] = bool(total <= maxlen)  # otherwise optional
                break
            if not first[e]:
                continue
            if bool(total > maxlen):
                break
            if bool(probs[e] >= lo):
                out[(s, e)] = True
                reach.append(e)
            if bool(probs[e] > hi):
                break
    return out, first


def ranges(ctx, n, forced, changes, limits):
    m = joint()
    if changes:
        kinds = [ctx.choice(f"kind{i}", ["free", "change", "stay"]) if i else "free" for i in range(n)]
    else:
        kinds = ["free"] * n
    p = [ctx.real(f"p{i}", 0, 1, lo_open=True, hi_open=True) for i in range(n)]
    if changes == "pattern":
        dur = [ctx.choice(f"d{i}", [Fraction(0), Fraction(1)]) for i in range(n)]
    else:
        dur = [ctx.real(f"d{i}", 0, 4) for i in range(n)]
    lo, hi = ctx.real("lo", 0, 1, lo_open=True), ctx.real("hi", 0, 1)
    if not ctx.symbolic:
        p, lo, hi = [float(x) for x in p], float(lo), float(hi)
    ctx.assume(lo <= hi)
    if changes:
        ctx.assume(hi < 1)
    fc, fk = [-1] * n, [-1] * n
    if forced:
        pat = forced if isinstance(forced, str) else "c"
        fc = [ctx.choice(f"fc{i}", [-1, 3, 7]) if "c" in pat else -1 for i in range(n)]
        fk = [ctx.choice(f"fk{i}", [-1, 2, 4]) if "k" in pat else -1 for i in range(n)]
    maxlen = ctx.real("maxlen", 0, 20) if limits else Fraction(100)
    m.min_chord_change_prob, m.max_no_chord_change_prob, m.max_chord_length = lo, hi, maxlen
    m.duration_cache = np.array(dur, dtype=object)
    set_forces(m, n, fc, fk, cc=[i for i in range(n) if kinds[i] == "change"], cn=[i for i in range(n) if kinds[i] == "stay"])
    probs = np.array(p, dtype=object)
    m._apply_forced_chord_changes(probs)
    for i in range(n):
        want = {"free": p[i], "change": 1, "stay": 0}[kinds[i]]
        ctx.check(EQ(probs[i], want), "forced (non-)change not applied to its input only")
    eff = [{"free": p[i], "change": 1, "stay": 0}[kinds[i]] for i in range(n)]
    logged = E.sym_log if ctx.symbolic else (lambda x: float(np.log(float(x))) if x > 0 else -np.inf)
    with np.errstate(divide="ignore", invalid="ignore"):
        r, lp, rj = m.get_chord_ranges(probs if ctx.symbolic else np.array([float(x) for x in probs]))
    want, first = spec(ctx, n, eff, dur, lo, hi, maxlen, fc, fk)
    ctx.check(len(r) == len(lp) == len(rj) and len(set(r)) == len(r), "ranges and their log-probabilities do not match up")
    for x in r:
        ctx.check(tuple(x) in want, "a range is offered that cannot be a chord")
    for x, must in want.items():
        ctx.check(not must or x in set(map(tuple, r)), "a possible chord range is missing")
    for (s, e), a, b in zip(r, lp, rj):
        if not all(k == "free" for k in kinds):
            inner = [i for i in range(s + 1, e) if first[i]]
            inf = any(kinds[i] == "change" for i in inner) or (e < n and kinds[e] == "stay")
            ctx.check(inf == (not E.is_sym(a) and float(a) == -np.inf), "an impossible range has to have probability zero, others not")
            continue
        tot = 0
        for i in range(s + 1, e):
            if first[i]:
                tot = tot + logged(1 - p[i])
        if e < n:
            tot = tot + logged(p[e])
        ctx.check(close(ctx, a, tot, 1e-6), "range log-probability wrong")
        ctx.check(close(ctx, b, logged(1 - p[s]) - logged(p[s]), 1e-6), "rejoin log-probability wrong")
    if (0, n) in want:
        ctx.cover("whole")
    if len(want) > 1:
        ctx.cover("several")


def cases(tier):
    deep = tier == "thorough"
    n = 5 if deep else 4
    out = [Case("free", ranges, f"{n} inputs, no forces", ["whole", "several"], np_objects=True, n=n, forced="", changes="", limits=False, weight=9),
           Case("limits", ranges, f"{n - 1} inputs, maximum length", ["whole", "several"], np_objects=True, n=n - 1, forced="", changes="", limits=True, weight=9),
           Case("forced_chords", ranges, "3 inputs, forced chords", ["whole", "several"], np_objects=True, n=3, forced="c", changes="", limits=False, weight=8),
           Case("forced_keys", ranges, "3 inputs, forced keys", ["whole", "several"], np_objects=True, n=3, forced="k", changes="", limits=False, weight=8),
           Case("forced_changes", ranges, f"{n} inputs, forced changes", ["whole", "several"], np_objects=True, n=n, forced="", changes="pattern", limits=False, weight=8),
           Case("one", ranges, "1 input", ["whole"], np_objects=True, n=1, forced="c", changes="", limits=True)]
    if deep:
        out.append(Case("forced_both", ranges, "3 inputs, forced chords and keys", ["whole", "several"], np_objects=True, n=3, forced="ck", changes="", limits=True, weight=8))
        out.append(Case("forced_chords_4", ranges, "4 inputs, forced chords", ["whole", "several"], np_objects=True, n=4, forced="c", changes="", limits=False, weight=8))
    return out
