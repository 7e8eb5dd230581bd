import contextlib
import os
import shutil
import tempfile
from pathlib import Path

from props.dsets import *
from props import C24
import harmonic_inference.data.datasets as ds

LEVEL = "model_checking"
D = "harmonic_inference.data.datasets:"
TARGETS = [D + f for f in ("HarmonicDataset.pad", "HarmonicDataset.to_h5", "HarmonicDataset.__getitem__", "KeyHarmonicDataset.__getitem__", "KeyHarmonicDataset.__len__", "h5_to_dataset",
                           "pad_array", "get_split_file_ids_and_pieces", "get_dataset_splits")]
BOUNDS = ("round trips: 5 dataset types x 2 pitch types x plain/reduced/pitch-based settings, 3-4 layouts of 1-4 pieces, symbolic durations and input weights; into RAM in chunks of 1 or 2, streamed with too little memory, and copied; "
          "padding: 1-3 arrays of symbolic reals of 0-3 rows, 0-2 inner dimensions; splits: 1-4 (thorough 6) pieces, 2-3 splits with symbolic proportions 0..4, pieces without chords, measures or notes or failing to build, 3 shuffles")
OUTSIDE = ("h5py itself: a stand-in keeps the arrays written; what float compression or a full disk would do. Rows beyond an input's length are not part of the item. np.random.shuffle is replaced by chosen permutations")


# --- a stand-in for h5py: keeps what is written under a token stored in the file ------------------
class Data:
    def __init__(self, a, low_memory):
        self.a, self.low = a, low_memory

    def __getitem__(self, i):
        if self.low and isinstance(i, slice):
            raise MemoryError
        x = self.a[i]
        return x.copy() if isinstance(x, np.ndarray) else x

    def __array__(self, dtype=None):
        return np.array(self.a) if dtype is None else np.array(self.a, dtype=dtype)

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        return iter(self.a.copy())

    shape = property(lambda self: self.a.shape)


class H5:
    def __init__(self):
        self.store, self.low, self.open = {}, False, 0

    def File(self, path, mode="r"):
        h5 = self

        class File:
            def __init__(self):
                if mode == "w":
                    self.token = f"h5-{len(h5.store)}"
                    h5.store[self.token] = {}
                    with open(path, "w") as f:
                        f.write(self.token)
                else:
                    with open(path) as f:
                        self.token = f.read()
                h5.open += 1

            def create_dataset(self, name, data=None, **k):
                a = np.array(data)
                if not (a.dtype == object and any(E.is_sym(x) for x in a.flat)):
                    a = np.array(a, dtype=float) if a.dtype == object else a
                h5.store[self.token][name] = a.view(C24.ObjArray) if a.dtype == object else a

            def __contains__(self, k):
                return k in h5.store[self.token]

            def __getitem__(self, k):
                return Data(h5.store[self.token][k], h5.low)

            def keys(self):
                return list(h5.store[self.token])

            def close(self):
                h5.open -= 1

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()

        return File()


@contextlib.contextmanager
def world(cls, chunk):
    h5, d = H5(), tempfile.mkdtemp()
    saved, size = ds.h5py, cls.__dict__.get("chunk_size")
    ds.h5py = h5
    cls.chunk_size = chunk
    try:
        yield h5, Path(d)
    finally:
        ds.h5py = saved
        cls.chunk_size = size
        shutil.rmtree(d)


# --- pieces for each dataset --------------------------------------------------------------------
def pieces_for(ctx, cls, pt, layout):
    out = []
    for p, sections in enumerate(layout):
        dur = lambda n: ctx.real(n, Fraction(1, 4), 16)
        if cls is ds.ChordTransitionDataset:
            n = sum(sections)
            out.append(P(notes=[mk_note(15 + i + p, pt, 3 + i) for i in range(n)], durs=[dur(f"d{p}_{i}") for i in range(n)], changes=np.cumsum([0] + list(sections[:-1]))))
        elif cls is ds.ChordClassificationDataset:
            key = mk_key(15, MAJOR, pt)
            chords, mats = [], []
            for i, s in enumerate(sections):
                chords.append(mk_chord(15 + 3 * p - i, 15 + 3 * p - i, key, TYPES[(3 * p + i) % 12], (i + p) % 3, Fraction(1), pt))
                rows = [list(mk_note(14 + i + k, pt, 4).to_vec()) for k in range(s)]
                for k, r in enumerate(rows):
                    r[-1] = ctx.real(f"w{p}_{i}_{k}", 0, Fraction(1, 2))
                mats.append(C24.matrix(ctx, rows))
            out.append(P(chords=chords, note_inputs=mats))
        else:
            out.append(C24.keyed_piece(ctx, pt, p + 1, sections, dur)[0])
    return out


def settings(cls, kind):
    if cls is ds.ChordClassificationDataset:
        return dict(transposition_range=[-1, 1]) if kind == "plain" else dict(use_inversions=False, transposition_range=[0, 0])
    if cls is ds.ChordSequenceDataset:
        return {} if kind == "plain" else dict(input_reduction=C24.TRIAD_REDUCTION, use_inversions_output=False, pitch_based=kind == "pitch")
    if cls in (ds.KeyTransitionDataset, ds.KeySequenceDataset):
        return {} if kind == "plain" else dict(reduction=C24.TRIAD_REDUCTION, use_inversions=False)
    return {}


def same_value(ctx, a, b):
    if isinstance(b, dict):
        return AND([set(a) == set(b)] + [same_value(ctx, a[k], b[k]) for k in b])
    a, b = np.asarray(a), np.asarray(b)
    return AND([a.shape == b.shape] + [close(ctx, x, y) for x, y in zip(a.flat, b.flat)])


def same_item(ctx, got, want, what):
    keyed = not isinstance(want["targets"], np.ndarray) and "intermediate_targets" not in want
    ctx.check(set(got) == set(want), f"{what}: an item has other fields")
    for k in want:
        a, b = got[k], want[k]
        if k == "inputs" and E.is_sym(want["input_lengths"]) is False and want["input_lengths"] >= 0:
            n = int(want["input_lengths"])
            ctx.check(len(a) == len(b), f"{what}: inputs have another shape")
            a, b = a[:n], b[:n]          # what lies behind the input's length is not part of it
        ctx.check(same_value(ctx, a, b), f"{what}: {k} of an item differ")


def roundtrip(ctx, cls, pt, kind, layouts):
    layout = ctx.choice("layout", layouts)
    mode = ctx.choice("mode", ["ram", "low memory", "copy"])
    chunk = ctx.choice("chunk", [1, 2]) if mode == "ram" else 64
    pieces = pieces_for(ctx, cls, pt, layout)
    kw = settings(cls, kind)
    want_set = cls(pieces, **kw)
    want = [want_set[i] for i in range(len(want_set))]
    with world(cls, chunk) as (h5, d):
        path = d / "deep" / "x.h5"
        ids = [7 + 2 * i for i in range(len(pieces))]
        written = cls(pieces, **kw)
        if mode == "ram":
            written[0]
        written.to_h5(str(path) if mode == "ram" else path, file_ids=ids)
        stored = h5.store[path.read_text()]
        ctx.check([int(x) for x in stored["file_ids"]] == ids, "file ids not stored")
        again = [written[i] for i in range(len(written))]
        ctx.check(len(again) == len(want), "padding the dataset changed its length")
        for g, w in zip(again, want):
            same_item(ctx, g, w, "after padding")
        h5.low = mode == "low memory"
        loaded = ds.h5_to_dataset(path, cls, dataset_kwargs=kw)
        if mode == "copy":
            other = d / "other.h5"
            loaded.to_h5(other)
            ctx.check(other.read_text() == path.read_text(), "the file was not copied")
        ctx.check(len(loaded) == len(want), "number of items differs after loading")
        idx = list(range(len(want)))
        for i in idx[::-1] + idx[:1]:
            same_item(ctx, loaded[i], want[i], "loaded")
        ctx.check(loaded.in_ram is (mode != "low memory"), "data kept in RAM although there is no room, or not although there is")
        ctx.check(h5.open == 0, "a file was left open")
    ctx.cover(mode)


def padding(ctx, lens, shape):
    arrs = []
    for i, n in enumerate(lens):
        a = np.empty((n,) + shape, dtype=object)
        for j, ix in enumerate(np.ndindex(*a.shape)):
            a[ix] = ctx.real(f"x{i}_{j}", -64, 64)
        if not ctx.symbolic:
            a = np.array(a, dtype=float)
        arrs.append(a)
    out, lengths = ds.pad_array(arrs)
    ctx.check([int(x) for x in lengths] == list(lens), "recorded lengths wrong")
    ctx.check(out.shape == (len(lens), max(lens)) + shape, "padded shape wrong")
    for i, a in enumerate(arrs):
        ctx.check(AND([close(ctx, x, y) for x, y in zip(np.asarray(out[i][:len(a)]).flat, a.flat)]), "the original cannot be recovered")
        ctx.check(AND([EQ(x, 0) for x in np.asarray(out[i][len(a):]).flat]), "padding is not zero")
    ctx.cover("padded")


# --- splits -------------------------------------------------------------------------------------
class Frame:
    """just enough of the corpus tables"""

    def __init__(self, ids, kind):
        self.ids, self.kind = ids, kind
        self.index = self
        self.loc = self

    def __iter__(self):
        return iter(self.ids)

    def __len__(self):
        return len(self.ids)

    def get_level_values(self, level):
        assert level in (0, "file_id")
        return self.ids

    def __getitem__(self, i):
        if i not in self.ids:
            raise KeyError(i)
        return Row(i, self.kind)


class Row:
    def __init__(self, i, kind):
        self.file_id, self.kind = i, kind
        self.corpus_name, self.file_name = "corpus", f"file{i}"


class Token:
    def __init__(self, i):
        self.file_id = i


def splits(ctx, n, k, source):
    props = [ctx.real(f"p{i}", 0, 4) for i in range(k)]
    total = sum(props)
    ctx.assume(total > 0)
    ids = [11 + 3 * i for i in range(n)] if source == "dfs" else list(range(n))
    missing = {}
    if source == "dfs":
        for i in ids[:2]:
            m = ctx.choice(f"m{i}", ["ok", "chords", "measures", "notes", "fails"] if i == ids[0] else ["ok", "fails"])
            if m != "ok":
                missing[i] = m
    good = [i for i in ids if i not in missing]
    perm = None

    def shuffle(x):
        r = ctx.choice("perm", [0, 1, 2])
        y = list(x)
        y = y[::-1] if r == 1 else y[1:] + y[:1] if r == 2 else y
        for i, v in enumerate(y):
            x[i] = v

    def build(notes, chords, measures, *a, **k):
        ctx.check(notes.kind == "notes" and chords.kind == "chords" and measures.kind == "measures" and notes.file_id == chords.file_id == measures.file_id, "tables of different pieces were combined")
        if missing.get(notes.file_id) == "fails":
            raise ValueError("broken piece")
        return Token(notes.file_id)

    saved = (np.random.shuffle, ds.get_score_piece_from_data_frames, ds.get_score_piece_from_music_xml)
    np.random.shuffle, ds.get_score_piece_from_data_frames = shuffle, build
    ds.get_score_piece_from_music_xml = lambda x, c, *a, **k: Token(int(x[1:]) if x[1:] == c[1:] else None)
    try:
        if source == "dfs":
            kw = dict(data_dfs={"files": Frame(ids, "files"), **{t: Frame([i for i in ids if missing.get(i) != t], t) for t in ("chords", "measures", "notes")}})
        else:
            kw = dict(xml_and_csv_paths={"xmls": [f"x{i}" for i in ids], "csvs": [f"c{i}" for i in ids]})
        made = []

        class DS:
            def __init__(self, pieces):
                self.pieces = list(pieces)
                made.append(self)

        dsets, got_ids, got_pieces = ds.get_dataset_splits([DS, DS], splits=props, seed=3 if ctx.flag("seed") else None, **kw)
    finally:
        np.random.shuffle, ds.get_score_piece_from_data_frames, ds.get_score_piece_from_music_xml = saved
    ctx.check(len(got_ids) == k and len(got_pieces) == k, "not one entry per split")
    flat = []
    for s in range(k):
        i_s, p_s = [int(x) for x in got_ids[s]], list(got_pieces[s])
        ctx.check([p.file_id for p in p_s] == i_s, "ids and pieces of a split do not match")
        flat += i_s
        ctx.check(AND(len(p_s) * total <= props[s] * len(good) + total, len(p_s) * total >= props[s] * len(good) - total), "a split's size is not proportional")
        for row in dsets:
            if len(p_s) == 0:
                ctx.check(row[s] is None, "an empty split has a dataset")
            else:
                ctx.check([p.file_id for p in row[s].pieces] == i_s, "a dataset does not hold the pieces of its split")
        ctx.cover("empty split" if len(p_s) == 0 else "split")
    ctx.check(sorted(flat) == sorted(good), "the splits do not hold every usable piece exactly once")
    if missing:
        ctx.cover("skipped")


CLS = [ds.ChordTransitionDataset, ds.ChordClassificationDataset, ds.ChordSequenceDataset, ds.KeyTransitionDataset, ds.KeySequenceDataset]
LAYOUTS = [[(2, 1), (1, 1, 2), (1, 2)], [(1, 1, 3), (2, 1)], [(2, 2, 1)], [(1, 1), (1, 1, 1), (3,), (1, 2, 1)]]


def cases(tier):
    full = tier == "thorough"
    out = []
    for cls in CLS:
        for pt in (TPC, MIDI):
            for kind in ["plain"] + (["reduced"] if cls is not ds.ChordTransitionDataset else []) + (["pitch"] if cls is ds.ChordSequenceDataset else []):
                out.append(Case(f"roundtrip_{cls.__name__}_{pt.name}_{kind}", roundtrip, cls=cls, pt=pt, kind=kind, layouts=LAYOUTS if full else LAYOUTS[:3], np_objects=True, np_ints=True, floats=True,
                                covers=("ram", "low memory", "copy")))
    for lens, shape in (((2, 3), ()), ((1, 0, 2), (2,)), ((2,), (1, 2))):
        out.append(Case(f"pad_{len(lens)}_{len(shape)}", padding, lens=lens, shape=shape, np_objects=True, floats=True, covers=("padded",)))
    for n, k, src in [(3, 3, "dfs"), (4, 2, "xml"), (1, 3, "xml"), (2, 2, "dfs")] + ([(5, 3, "dfs"), (6, 3, "xml")] if full else []):
        out.append(Case(f"splits_{n}_{k}_{src}", splits, n=n, k=k, source=src, np_objects=True, floats=True, covers=("split",) + (("skipped",) if src == "dfs" else ())))
    return out
