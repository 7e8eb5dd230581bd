from props.common import *
from harmonic_inference.utils.beam_search_utils import Beam, HashedBeam, State

LEVEL = "model_checking"
BS = "harmonic_inference.utils.beam_search_utils:"
TARGETS = [BS + f for f in ("Beam.fits_in_beam", "Beam.add", "Beam.get_top_state", "Beam.empty", "HashedBeam.fits_in_beam", "HashedBeam.add",
                            "HashedBeam._fix_beam_min", "HashedBeam.empty", "State.get_hash", "State.__lt__")]
BOUNDS = ("histories of up to 5 additions (plain beam) or 5 additions over up to 3 distinct hashes (hashed beam; thorough 6 / 6), beam sizes 1-3, every log-probability "
          "an arbitrary (symbolic) real incl. ties, every addition forced or not, an emptying at any point of the history")
OUTSIDE = "longer histories, larger beams; NaN log-probabilities"


def lt(a, b):
    return bool(a.log_prob < b.log_prob)


def spec_add(contents, s, size, hashed, force):
    """-> (new contents, added?) for contents = list of states"""
    if hashed:
        same = [c for c in contents if c.tag == s.tag]
        if same:
            if lt(same[0], s):
                return [c for c in contents if c is not same[0]] + [s], True
            return contents, False
    if force or len(contents) < size:
        return contents + [s], True
    # a full beam makes room by dropping (one of) the least likely
    worse = [c for c in contents if lt(c, s)]
    if not worse:
        return contents, False
    m = worse[0]
    for c in worse[1:]:
        if lt(c, m):
            m = c
    return ("minus one of", m, contents, s), True


def history(ctx, hashed, size, n, forces, empty_at, tags, known=False):
    beam = (HashedBeam if hashed else Beam)(size)
    contents = []
    prev = State(key=0, hash_length=2) if hashed else None
    for i in range(n):
        if empty_at == i:
            beam.empty()
            contents = []
            ctx.check(len(beam) == 0 and list(beam) == [], "an emptied beam still holds states")
            ctx.check(beam.get_top_state() is None, "an empty beam has a top state")
            ctx.cover("emptied")
        p = ctx.real(f"p{i}")
        tag = 0
        if hashed:
            tag = ctx.choice(f"tag{i}", range(min(i + 1, tags)))
            # equal hashes from distinct states: same recent (key, chord) history
            s = State(chord=tag // 2, key=tag % 2, change_index=1, log_prob=p, prev_state=prev, hash_length=2)
        else:
            s = State(chord=0, key=0, change_index=1, log_prob=p)
        s.tag = tag
        force = forces and ctx.flag(f"force{i}")
        want, added = spec_add(contents, s, size, hashed, force)
        if not force:
            ctx.check(bool(beam.fits_in_beam(s)) == added, "the fit test disagrees with what adding does")
            if hashed:
                glob = len(contents) < size or any(lt(c, s) for c in contents)
                ctx.check(bool(beam.fits_in_beam(s, check_hash=False)) == glob, "the size-only fit test is wrong")
        got = beam.add(s, force=force)
        ctx.check(bool(got) == added, "addition reported wrongly")
        now = list(beam)
        ctx.check(len(now) == len(beam), "length differs from the number of states")
        ids = {id(c) for c in now}
        ctx.check(len(ids) == len(now), "a state occurs twice")
        if isinstance(want, tuple):
            _, m, old, s = want
            dropped = [c for c in old + [s] if id(c) not in ids]
            ctx.check(ids <= {id(c) for c in old + [s]} and len(dropped) == 1, "a full beam must drop exactly one state")
            ctx.check(EQ(dropped[0].log_prob, m.log_prob), "the state dropped is not the least likely one")
            ctx.check(dropped[0] is not s, "the better state was dropped")
            contents = [c for c in old + [s] if c is not dropped[0]]
            ctx.cover("dropped")
        else:
            contents = want
            ctx.check(ids == {id(c) for c in contents}, "the beam does not hold exactly the most likely states")
        if hashed:
            ctx.check(len({c.get_hash() for c in now}) == len(now), "two states with the same hash")
        top = beam.get_top_state()
        ctx.check((top is None) == (not contents), "top state missing")
        if top is not None:
            ctx.check(id(top) in ids and AND([NOT(top.log_prob < c.log_prob) for c in now]), "top state is not the most likely one")
    ctx.cover("history")


def hashes(ctx):
    """two states share a hash iff their last `length` (key, chord) pairs agree"""
    length = ctx.choice("length", [1, 2, 3])
    n = ctx.choice("n", [1, 2, 3])
    st, seqs = [], []
    for w in "ab":
        s = State(key=0, hash_length=length)
        seq = [(0, None)]
        for i in range(n):
            kc = ctx.choice(f"{w}{i}", [(0, 1), (1, 1), (0, 2)])
            s = State(key=kc[0], chord=kc[1], change_index=i + 1, log_prob=ctx.real(f"{w}p{i}"), prev_state=s, hash_length=length)
            seq.append(kc)
        st.append(s)
        seqs.append(([None] * length + seq)[-length:])
    ctx.check((st[0].get_hash() == st[1].get_hash()) == (seqs[0] == seqs[1]), "hash does not identify the most recent keys and chords")
    x, y = State(key=0), State(key=0)
    ctx.check(x.get_hash() != y.get_hash(), "without a hash length states must not be merged")
    ctx.cover("hashes")


def cases(tier):
    deep = tier == "thorough"
    out = [Case("hashes", hashes, "histories of up to 3 states, hash length 1-3", ["hashes"])]
    for size in (1, 2, 3):
        n = 6 if deep else 5
        out.append(Case(f"beam_{size}", history, f"{n} additions", ["history", "dropped"], hashed=False, size=size, n=n, forces=False, empty_at=None, tags=1, weight=5))
        out.append(Case(f"beam_force_{size}", history, "4 additions, any forced", ["history", "dropped"], hashed=False, size=size, n=4, forces=True, empty_at=None, tags=1, weight=5))
        n = 6 if deep else 5
        out.append(Case(f"hashed_{size}", history, f"{n} additions, 3 hashes", ["history"], hashed=True, size=size, n=n, forces=False, empty_at=None, tags=3, weight=9))
        out.append(Case(f"hashed_force_{size}", history, "3 additions, any forced", ["history"], hashed=True, size=size, n=3, forces=True, empty_at=None, tags=3, weight=7))
    for h in (False, True):
        for at in (0, 1, 2):
            out.append(Case(f"empty_{'hashed' if h else 'plain'}_{at}", history, f"emptied before addition {at}", ["history", "emptied"], hashed=h, size=2, n=4 if not h else 3,
                            forces=False, empty_at=at, tags=2, weight=3))
    return out
