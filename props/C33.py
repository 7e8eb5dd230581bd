import argparse
import contextlib
import importlib.util
import inspect
import io
import json
import logging
import os
import pathlib
import pickle
import runpy
import shutil
import sys
import tempfile
from pathlib import Path

import pandas as pd

from props.common import *
from props.jm import components
from symx import runner as R
from symx.stubs import _StubModule
import harmonic_inference.data.corpus_reading as cr
import harmonic_inference.data.datasets as ds
import harmonic_inference.data.piece as pc
import harmonic_inference.models.chord_classifier_models as ccm
import harmonic_inference.models.chord_sequence_models as csm
import harmonic_inference.models.chord_transition_models as ctm
import harmonic_inference.models.initial_chord_models as icm
import harmonic_inference.models.joint_model as jm
import harmonic_inference.models.key_sequence_models as ksm
import harmonic_inference.models.key_transition_models as ktm
import harmonic_inference.utils.data_utils as du
import harmonic_inference.utils.eval_utils as eu

LEVEL = "model_checking"
TARGETS = ["annotate:annotate", "annotate:set_default_args", "write_to_score:write_tsvs_to_scores", "harmonic_inference.models.joint_model:from_args",
           "harmonic_inference.models.joint_model:add_joint_model_args"]
BOUNDS = ("annotate.py: up to 2 pieces (thorough 3) with any of 6 names or none, with or without a labelling; the script with every hyperparameter given (symbolic values), every CSM version and choice of defaults; "
          "write_to_score.py: up to 2 tables (thorough 3) in 4 places, any of which cannot be written; grid_search.py: every pair of options with up to 2 values each, every passed-on option; "
          "create_h5_data.py: symbolic proportions of the splits, 3 pieces in any of the splits, corpus filters, 3 MusicXML scores with and without labels; train.py: every kind of model, symbolic learning rate and seed; create_ml_course_data.py: 2 pieces of 3 composers, either unreadable")
OUTSIDE = ("how numbers and paths are parsed from text (argparse's conversion of a value is replaced by the symbolic value); the functions which the scripts call, which are the subject of the other properties; test.py's own code, except that it accepts the commands of a grid search")
HYPER = {"min_chord_change_prob": "r", "max_no_chord_change_prob": "r", "max_chord_length": "r", "min_key_change_prob": "r", "max_no_key_change_prob": "r", "beam_size": "i", "max_chord_branching_factor": "i",
         "target_chord_branch_prob": "r", "max_key_branching_factor": "i", "target_key_branch_prob": "r", "hash_length": "i", "ksm_exponent": "r"}
F = Fraction
# the published settings (in the order of HYPER)
PUBLISHED = {
    ("--defaults", 0): (F(1, 4), F(9, 20), 8, F(1, 10), F(3, 4), 50, 5, F(3, 4), 2, F(1, 2), 5, 100),
    ("--defaults", 1): (F(1, 4), F(1, 2), 8, F(1, 20), F(3, 4), 50, 5, F(3, 4), 2, F(1, 2), 5, 50),
    ("--defaults", 2): (F(1, 4), F(9, 20), 8, F(1, 20), F(3, 4), 50, 5, F(1, 2), 2, F(1, 2), 5, 50),
    ("--fh-defaults", 0): (F(3, 10), F(2, 5), 8, F(1, 10), F(7, 10), 50, 5, F(3, 4), 2, F(1, 2), 5, 30),
}
for _v in (1, 2):
    PUBLISHED["--fh-defaults", _v] = PUBLISHED["--fh-defaults", 0]
for _d in ("--defaults", "--fh-defaults"):
    PUBLISHED[_d, None] = PUBLISHED[_d, 2]


@contextlib.contextmanager
def patched(*todo):
    missing = object()
    saved = [(o, k, getattr(o, k, missing)) for o, k, _ in todo]
    for o, k, v in todo:
        setattr(o, k, v)
    try:
        yield
    finally:
        for o, k, v in reversed(saved):
            if v is missing:
                delattr(o, k)
            else:
                setattr(o, k, v)


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="c33_")
    try:
        yield Path(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Calls(list):
    """records the calls of a function, by its parameters' names"""

    def of(self, fn, result=None):
        sig = inspect.signature(fn)

        def f(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            self.append(dict(b.arguments))
            return result(b.arguments) if result else None

        return f


def script(name, argv, tokens, *todo):
    """run a script of the repository on a command line, in which tokens stand for (symbolic) values -> (exit code, what it printed)"""
    real = argparse.ArgumentParser._get_value

    def value(self, action, text):
        return tokens[text] if text in tokens else real(self, action, text)

    if "pytorch_lightning.profiler" not in sys.modules:
        sys.modules["pytorch_lightning.profiler"] = _StubModule("pytorch_lightning.profiler")
    out, code = io.StringIO(), 0
    quiet = (logging, "basicConfig", lambda *a, **k: None)
    with patched((argparse.ArgumentParser, "_get_value", value), (sys, "argv", [name] + [str(x) for x in argv]), quiet, *todo):
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                runpy.run_path(os.path.join(R.REPO, name), run_name="__main__")
        except SystemExit as e:
            code = e.code or 0
    return code, out.getvalue()


def fresh(name):
    """a script as a module, imported now: what it imports by name is what is in place now"""
    spec = importlib.util.spec_from_file_location(name[:-3] + "_under_check", os.path.join(R.REPO, name))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


# --- annotate.py ------------------------------------------------------------------------
NAMES = [("0: one/a.tsv", "one/a.tsv"), ("1: two/a.tsv", "two/a.tsv"), ("2: one/b.mxl", "one/b.tsv"), ("3: one/String Quartet a.mxl", "one/String Quartet a.tsv"),
         ("4: op.1/c.d.tsv", "op.1/c.d.tsv"), ("10: a.mxl", "a.tsv"), (None, None)]


class Named:
    def __init__(self, i, name):
        self.i, self.name = i, name


def labels(ctx, k):
    """every piece's labels are written to a table of its own"""
    at = [ctx.choice(f"name{i}", list(range(len(NAMES)))) for i in range(k)]
    ctx.assume(len(set(a for a in at if NAMES[a][0] is not None)) == len([a for a in at if NAMES[a][0] is not None]))
    found = [ctx.flag(f"found{i}") for i in range(k)]
    pieces = [Named(i, NAMES[a][0]) for i, a in enumerate(at)]
    asked = []

    class Model:
        CHORD_OUTPUT_TYPE, KEY_OUTPUT_TYPE = TPC, MIDI

        def get_harmony(self, piece, *a, **kw):
            asked.append(piece.i)
            return ("state", piece.i) if found[piece.i] else None

    def table(a):
        s, p = a["state"], a["piece"]
        ok = a["root_type"] == TPC and a["tonic_type"] == MIDI
        return pd.DataFrame({"label": [f"{s[1]}-{p.i}-{ok}"], "mc": [0]})

    calls = Calls()
    with scratch() as d, patched((eu, "get_annotation_df", calls.of(eu.get_annotation_df, table)), (eu, "log_state", lambda *a, **kw: None), (sys.modules["tqdm"], "tqdm", lambda it, **kw: it)):
        out = d / "out" if ctx.flag("output") else None
        fresh("annotate.py").annotate(Model(), pieces, output_tsv_dir=out if out is None or ctx.flag("path") else str(out))
        got = {str(p.relative_to(d / "out")): p.read_text() for p in (d / "out").rglob("*") if p.is_file()} if (d / "out").exists() else {}
    ctx.check(asked == list(range(k)), "not every piece is labelled, once")
    want = {NAMES[a][1]: i for i, a in enumerate(at) if found[i] and NAMES[a][1] is not None and out is not None}
    ctx.check(set(got) == set(want), "not one table of labels for each labelled piece, at its own path")
    for path, i in want.items():
        rows = [r.split("\t") for r in got[path].splitlines()]
        ctx.check(len(rows) == 2 and rows[0][1:] == ["label", "mc"] and rows[1][1] == f"{i}-{i}-True", "a piece's table has other labels than its own")
    ctx.cover("table" if want else "none")


def hyper(ctx):
    vals = {o: ctx.int(o, 1, 99) if t == "i" else ctx.real(o, 0, 1) for o, t in HYPER.items()}
    ctx.assume(AND(vals["min_chord_change_prob"] <= vals["max_no_chord_change_prob"], vals["min_key_change_prob"] <= vals["max_no_key_change_prob"]))
    return vals


def as_options(names):
    return [x for o in names for x in ("--" + o.replace("_", "-"), "@" + o)]


def run_annotate(ctx, given):
    """the joint model is made with the options given, or with the published settings"""
    vals = hyper(ctx)
    default = ctx.choice("defaults", [None, "--defaults", "--fh-defaults"])
    version = ctx.choice("version", [None, 0, 1, 2, 3])
    xml, one = ctx.flag("xml"), ctx.flag("one")
    ident = ctx.int("id", 0, 999)
    argv = as_options(HYPER if given else []) + ([default] if default else []) + (["--csm-version", version] if version is not None else [])
    argv += (["-x"] if xml else []) + (["--id", "@id"] if one else []) + ["-i", "some/where", "-o", "to", "--checkpoint", "there"]
    loaded, made, pieces, ran = Calls(), [], Calls(), []
    real = jm.from_args

    def from_args(models, ARGS):
        made.append((models, real(models, ARGS)))
        made[-1][1].get_harmony = lambda p, *a, **k: ran.append(p)
        return made[-1][1]

    models = components()
    code, _ = script("annotate.py", argv, {**{"@" + o: v for o, v in vals.items()}, "@id": ident},
                     (du, "load_models_from_argparse", loaded.of(du.load_models_from_argparse, lambda a: models)),
                     (du, "load_pieces", pieces.of(du.load_pieces, lambda a: [Named(0, "0: a"), Named(1, "1: b")])), (jm, "from_args", from_args), (sys.modules["tqdm"], "tqdm", lambda it, **k: it))
    if default and version == 3:
        ctx.check(code == 1 and not made, "settings of a version which has none")
        ctx.cover("refused")
        return
    ctx.check(code == 0 and len(made) == 1 and made[0][0] is models, "the joint model is not made from the models which were loaded")
    ctx.check(len(ran) == 2 and [p.i for p in ran] == [0, 1], "not all of the pieces which were loaded are labelled")
    m = made[0][1]
    if default:
        want = dict(zip(HYPER, PUBLISHED[default, version]))
        ctx.cover("published")
    elif given:
        want = vals
        ctx.cover("given")
    else:
        plain = jm.HarmonicInferenceModel(components())
        want = {o: getattr(plain, o) for o in HYPER}
    for o, v in want.items():
        x = getattr(m, o)
        ctx.check(EQ(x, v) if E.is_sym(v) or E.is_sym(x) else abs(float(x) - float(v)) < 1e-9, f"{o} is neither as given nor as published")
    a = loaded[0]["ARGS"]
    ctx.check(a.csm_version == version and a.checkpoint == "there" and a.output == Path("to"), "an option does not arrive")
    ctx.check(len(pieces) == 1, "pieces are loaded once")
    p = pieces[0]
    ctx.check(bool(p["xml"]) == xml and Path(p["input_path"]) == Path("some/where") and not p["piece_dicts_path"] and not p["file_ids"], "other pieces than asked for")
    ctx.check(EQ(p["specific_id"], ident) if one else p["specific_id"] is None, "another piece than the one asked for")


# --- write_to_score.py -------------------------------------------------------------------
def to_scores(ctx, k, how):
    places = ["one/a.tsv", "one/b.tsv", "two/a.tsv", "c.d.tsv"]
    at = [ctx.choice(f"place{i}", places) for i in range(k)]
    ctx.assume(len(set(at)) == k)
    bad = ctx.choice("fails", [None] + list(range(k)))
    calls = Calls()

    def write(a):
        if bad is not None and Path(str(a["labels_dir"])) / (a["basename"] + ".tsv") == out / at[bad]:
            raise ValueError

    with scratch() as d:
        out, ann = d / "out", d / "ann"
        for p in at:
            (out / p).parent.mkdir(parents=True, exist_ok=True)
            (out / p).write_text("x")
            (out / p).with_suffix(".txt").write_text("y")
        with patched((eu, "write_labels_to_score", calls.of(eu.write_labels_to_score, write)), (sys.modules["tqdm"], "tqdm", lambda it, **kw: it)):
            if how == "script":
                script("write_to_score.py", ["-o", out, "--annotations", ann], {}, (sys.modules["tqdm"], "tqdm", lambda it, **k: it))
            else:
                fresh("write_to_score.py").write_tsvs_to_scores(str(out) if ctx.flag("str") else out, ann)
        got = sorted((Path(c["labels_dir"]).relative_to(out), Path(c["annotations_dir"]).relative_to(ann), c["basename"]) for c in calls)
    ctx.check(got == sorted((Path(p).parent, Path(p).parent, Path(p).stem) for p in at), "not every table is written to the score at its place, once")
    ctx.cover("scores")


# --- grid_search.py -----------------------------------------------------------------------
PASSED = [(["--threads", "3"], "threads", 3), (["--seed", "7"], "seed", 7), (["-h5", "some/h5"], "h5_dir", Path("some/h5")), (["--icm-json", "i.json"], "icm_json", "i.json"), (["--checkpoint", "ck"], "checkpoint", "ck"),
          (["-x"], "xml", True), (["--test"], "test", True), (["--input", "inp"], "input", Path("inp")), (["--csm-version", "0"], "csm_version", 0), (["--ktm", "k.ckpt"], "ktm", "k.ckpt"), (["--ccm-version", "2"], "ccm_version", 2),
          (["-o", "res"], None, None)]
VALUES = {"r": ["0.5", "0.53125"], "i": ["3", "12"]}


def parsed_by_test(argv):
    """the arguments with which test.py would run"""
    seen = []

    class Done(Exception):
        pass

    def stop(ARGS, *a, **k):
        seen.append(ARGS)
        raise Done

    try:
        code, _ = script("test.py", argv, {}, (du, "load_models_from_argparse", stop))
    except Done:
        return seen[0]
    return None


def grid(ctx, first):
    order = list(HYPER)
    second = ctx.choice("second", [None] + [o for o in order if order.index(o) > order.index(first)])
    tried = {o: ctx.choice("n_" + str(j), [1, 2]) for j, o in enumerate(x for x in (first, second) if x)}
    extra, field, value = ctx.choice("passed", PASSED) if second is None else PASSED[order.index(second) % len(PASSED)]
    argv = [x for o, n in tried.items() for x in ["--" + o.replace("_", "-")] + VALUES[HYPER[o]][:n]] + extra
    code, text = script("grid_search.py", argv, {})
    lines = [l.split() for l in text.splitlines() if l.strip()]
    ctx.check(code == 0 and all(l[:2] == ["python", "test.py"] for l in lines), "not commands which run test.py")
    with scratch() as d:
        runs = []
        cwd = os.getcwd()
        os.chdir(d)    # test.py makes its output directory
        try:
            runs = [parsed_by_test(l[2:]) for l in lines]
        finally:
            os.chdir(cwd)
    ctx.check(all(r is not None for r in runs), "test.py does not accept a command")
    base = parsed_by_test([])
    want = sorted(itertools.product(*[[float(v) for v in VALUES[HYPER[o]][:n]] for o, n in tried.items()]))
    ctx.check(sorted(tuple(float(getattr(r, o)) for o in tried) for r in runs) == want, "not exactly one command for each combination of values")
    ctx.check(len({str(r.output) for r in runs}) == len(runs), "two commands write to the same directory")
    for r in runs:
        ctx.check(r.log == "test.log" and Path("res" if field is None else "output") in r.output.parents, "the results do not go where they should")
        for k, v in vars(base).items():
            if k not in tried and k not in ("log", "output"):
                ctx.check(getattr(r, k) == (value if k == field else v), f"{k} is not passed on")
    ctx.cover("grid")


# --- create_h5_data.py ----------------------------------------------------------------------
SPLITS = ["train", "valid", "test"]


class Stored:
    def __init__(self, mark):
        self.mark = mark
        self.h5 = []

    def to_dict(self):
        return {"mark": self.mark}

    def to_h5(self, h5_path, file_ids=None):
        self.h5.append((Path(h5_path).name, Path(h5_path).parent, file_ids))


def create(ctx, corpus):
    xs = [ctx.real(f"split{i}", -1, 3) for i in range(3)]
    seed = ctx.choice("seed", [0, 7])
    given = corpus is not None
    home = [ctx.choice(f"home{i}", [0, 1, 2]) for i in range(3)]
    files = pd.DataFrame({"corpus_name": ["Bach - one", "Corelli", "Bach"], "file_name": ["a", "b", "c"]}, index=[0, 1, 2])
    ids = [[f for f in range(3) if home[f] == s] for s in range(3)]
    pieces = [[Stored(f) for f in ids[s]] for s in range(3)]
    data = {}
    calls, reads = Calls(), Calls()

    def split(a):
        for i, c in enumerate(a["datasets"]):
            for s in range(3):
                data[c.__name__, SPLITS[s]] = Stored((c, s)) if ids[s] else None
        return [[data[c.__name__, s] for s in SPLITS] for c in a["datasets"]], ids, pieces

    with scratch() as d:
        argv = ["-i", "in", "-o", d / "h5", "--splits", "@0", "@1", "@2", "-s", str(seed)] + (["-c"] + list(corpus) if given else [])
        code, _ = script("create_h5_data.py", argv, {f"@{i}": x for i, x in enumerate(xs)}, (ds, "get_dataset_splits", calls.of(ds.get_dataset_splits, split)),
                         (cr, "load_clean_corpus_dfs", reads.of(cr.load_clean_corpus_dfs, lambda a: (files, "measures", "chords", "notes"))))
        dumps = {p.name: [x["mark"] for x in pickle.loads(p.read_bytes())] for p in (d / "h5").glob("*.pkl")} if (d / "h5").exists() else {}
        made = d / "h5"
    legal = AND([x >= 0 for x in xs] + [NOT(AND([EQ(x, 0) for x in xs]))])
    ctx.check(legal if code == 0 else NOT(legal), "illegal proportions accepted, or legal ones refused")
    if code != 0:
        ctx.check(not calls and not dumps, "data in spite of illegal proportions")
        ctx.cover("illegal")
        return
    c = calls[0]
    ctx.check(len(calls) == 1 and len(reads) == 1 and Path(reads[0]["dir_path"]) == Path("in"), "another corpus is read")
    total = xs[0] + xs[1] + xs[2]
    ctx.check(len(c["splits"]) == 3 and AND([EQ(s * total, x) if ctx.symbolic else abs(float(s) * float(total) - float(x)) < 1e-6 for s, x in zip(c["splits"], xs)]), "the proportions are not those given")
    ctx.check(c["seed"] == seed and not c["xml_and_csv_paths"], "another seed or other pieces")
    want = [f for f in range(3) if not given or any(n in files.loc[f, "corpus_name"] for n in corpus)]
    ctx.check(list(c["data_dfs"]["files"].index) == want and all(c["data_dfs"][k] == k for k in ("measures", "chords", "notes")), "not exactly the pieces of the named corpora")
    ctx.check(dumps == {f"pieces_{s}_seed_{seed}.pkl": ids[i] for i, s in enumerate(SPLITS) if ids[i]}, "the pieces stored for a split are not those of the split")
    kinds = {"ChordTransitionDataset", "ChordClassificationDataset", "ChordSequenceDataset", "KeyTransitionDataset", "KeySequenceDataset"}
    ctx.check({k for k, _ in data} == kinds, "not data of every kind")
    for (k, s), v in data.items():
        if v is not None:
            ctx.check(v.h5 == [(f"{k}_{s}_seed_{seed}.h5", made, ids[SPLITS.index(s)])], "the data of a split are stored as another's, or with other pieces' ids")
    ctx.cover("created")


def create_xml(ctx):
    """MusicXML scores with the labels which belong to them; a score without labels is left out"""
    have = {p: ctx.flag(f"labels{i}") for i, p in enumerate(("one/a", "one/b", "two/a"))}
    calls = Calls()
    with scratch() as d:
        for p, labelled in have.items():
            who, name = p.split("/")
            for k, suffix in (("mxl", ".mxl"), ("chords", ".csv")):
                (d / "in" / who / k).mkdir(parents=True, exist_ok=True)
                if k == "mxl" or labelled:
                    (d / "in" / who / k / (name + suffix)).write_text("x")
        (d / "in" / "two" / "chords" / "c.csv").write_text("x")
        script("create_h5_data.py", ["-x", "-i", d / "in", "-o", d / "h5"], {}, (ds, "get_dataset_splits", calls.of(ds.get_dataset_splits, lambda a: ([[None] * 3 for _ in a["datasets"]], [[]] * 3, [[]] * 3))))
        ctx.check(len(calls) == 1 and not calls[0]["data_dfs"], "other data than the scores")
        ctx.check([round(float(x), 6) for x in calls[0]["splits"]] == [0.8, 0.1, 0.1] and calls[0]["seed"] == 0, "other proportions than the default ones")
        got = calls[0]["xml_and_csv_paths"]
        pairs = sorted((str(Path(x).relative_to(d / "in")), str(Path(c).relative_to(d / "in"))) for x, c in zip(got["xmls"], got["csvs"]))
        ctx.check(len(got["xmls"]) == len(got["csvs"]) and pairs == sorted((p.replace("/", "/mxl/") + ".mxl", p.replace("/", "/chords/") + ".csv") for p, h in have.items() if h), "not each labelled score with its own labels")
    ctx.cover("xml")


# --- train.py ----------------------------------------------------------------------------------
KINDS = {"ccm": (ccm, "SimpleChordClassifier", "ChordClassificationDataset"), "ctm": (ctm, "SimpleChordTransitionModel", "ChordTransitionDataset"), "csm": (csm, "SimpleChordSequenceModel", "ChordSequenceDataset"),
         "pcsm": (csm, "PitchBasedChordSequenceModel", "ChordSequenceDataset"), "ktm": (ktm, "SimpleKeyTransitionModel", "KeyTransitionDataset"), "ksm": (ksm, "SimpleKeySequenceModel", "KeySequenceDataset")}


def train(ctx):
    kind = ctx.choice("kind", list(KINDS))
    lr = ctx.real("lr", 0, 1)
    seed = ctx.choice("seed", [0, 7])
    kw = ctx.choice("kwargs", [None, {"lstm_layers": 3}])
    made, fits, trainers, loaded = [], [], [], Calls()

    def recorder(name, cls):
        params = [p for p in inspect.signature(cls.__init__).parameters][1:]

        class Model:
            def __init__(self, *a, **k):
                self.name, self.k = name, dict(zip(params, a), **k)
                made.append(self)

            def get_dataset_kwargs(self):
                return {"of": name}

        return Model

    class Loader:
        def __init__(self, dataset, batch_size=1, shuffle=False, **k):
            self.dataset, self.batch_size, self.shuffle = dataset, batch_size, shuffle

    class Trainer:
        def __init__(self, *a, **k):
            trainers.append(k)

        def fit(self, model, *a, **k):
            fits.append((model, list(a) + list(k.values())))

    with scratch() as d:
        argv = ["-m", "csm" if kind == "pcsm" else kind, "--checkpoint", d / "ck", "-h5", "some", "-lr", "@lr", "-s", seed] + (["--pitch-based"] if kind == "pcsm" else [])
        if kw:
            (d / "k.json").write_text(json.dumps(kw))
            argv += ["--model-kwargs", d / "k.json"]
        todo = [(m, c, recorder(c, getattr(m, c))) for m, c, _ in KINDS.values()]
        code, _ = script("train.py", argv, {"@lr": lr}, *todo, (ds, "h5_to_dataset", loaded.of(ds.h5_to_dataset, lambda a: dict(a))), (sys.modules["torch.utils.data"], "DataLoader", Loader),
                         (sys.modules["pytorch_lightning"], "Trainer", Trainer))
        ctx.check(code == 0 and len(made) == 1 and len(fits) == 1 and fits[0][0] is made[0], "not one model is trained")
        m = made[0]
        ctx.check(m.name == KINDS[kind][1], "a model of another kind is trained")
        ctx.check(EQ(m.k.pop("learning_rate"), lr), "another learning rate")
        ctx.check(m.k.pop("lstm_layers", None) == (3 if kw else None), "the model's settings are not those of the file")
        ctx.check(all(v == (PieceType.SCORE if k == "input_type" else TPC) for k, v in m.k.items()), "a model for other data")
        ctx.check(len(fits[0][1]) == 2, "training and validation data")
        dataset = getattr(ds, KINDS[kind][2])
        for dl, s in zip(fits[0][1], ("train", "valid")):
            a = dl.dataset
            ctx.check(Path(a["h5_path"]) == Path(f"some/{dataset.__name__}_{s}_seed_{seed}.h5") and a["dataset_class"] is dataset and a["dataset_kwargs"] == {"of": m.name} and a["transform"] is not None, f"the {s} data are not those stored for it")
            ctx.check(dl.batch_size == getattr(dataset, s + "_batch_size") and dl.shuffle == (s == "train"), f"{s} batches")
        ctx.check(len(trainers) == 1 and Path(trainers[0]["default_root_dir"]) == d / "ck" / ("csm" if kind == "pcsm" else kind), "the trained model is saved with another kind's")
    ctx.cover("trained")


def train_prior(ctx):
    k = ctx.choice("k", [1, 2])
    xml = ctx.flag("xml")
    seed = ctx.choice("seed", [0, 7])
    ids = [[4], [2, 9]][k - 1]
    pieces = [type("P", (), {"get_chords": lambda self, i=i: [f"first{i}", f"second{i}"]})() for i in range(k)]
    opened, loads, trained = [], Calls(), Calls()

    class File(dict):
        def __init__(self, path, mode="r"):
            opened.append(Path(path))
            dict.__init__(self, file_ids=ids)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    with scratch() as d:
        code, _ = script("train.py", ["-m", "icm", "--checkpoint", d / "ck", "-i", "in", "-h5", "some", "-s", seed] + (["-x"] if xml else []), {}, (sys.modules["h5py"], "File", File),
                         (du, "load_pieces", loads.of(du.load_pieces, lambda a: pieces)), (icm, "train_icm", trained.of(icm.train_icm)))
        ctx.check(code == 0 and len(trained) == 1 and len(loads) == 1, "the prior is trained once")
        ctx.check(trained[0]["chords"] == [f"first{i}" for i in range(k)] and trained[0]["add_n_smoothing"] == 1 and Path(trained[0]["json_path"]) == d / "ck" / "icm" / "initial_chord_prior.json", "not trained on the first chords")
        a = loads[0]
        ctx.check(bool(a["xml"]) == xml and Path(a["input_path"]) == Path("in") and list(a["file_ids"]) == ids and a["specific_id"] is None and Path(a["piece_dicts_path"]) == Path(f"some/pieces_train_seed_{seed}.pkl")
                  and opened == [Path(f"some/ChordTransitionDataset_train_seed_{seed}.h5")], "not trained on the pieces of the training split")
    ctx.cover("prior")


def aggregate(ctx):
    only = ctx.flag("only")
    calls = Calls()
    code, _ = script("aggregate_corpus_data.py", ["-i", "in", "-o", "out"] + (["--notes-only"] if only else []), {}, (cr, "aggregate_annotation_dfs", calls.of(cr.aggregate_annotation_dfs)))
    ctx.check(code == 0 and len(calls) == 1 and Path(calls[0]["annotations_path"]) == Path("in") and Path(calls[0]["out_dir"]) == Path("out") and bool(calls[0]["notes_only"]) == only, "the options do not arrive")
    ctx.cover("aggregated")


# --- create_ml_course_data.py -------------------------------------------------------------------
DEGREES = {0: "I", 1: "V", -1: "IV", 2: "II"}
PAIRS = [(MAJOR, 0), (MAJOR, 1), (MINOR, -1)]
TRIPLES = [(0, ChordType.MAJOR, "MAJ"), (1, ChordType.MAJOR, "MAJ"), (2, ChordType.MINOR, "MIN"), (-1, ChordType.DIMINISHED, "DIM")]


def course(ctx):
    """the key and chord sequences of every piece, by composer, and the labels which occur"""
    corpora = ["Bach - one", "WFBach", "Corelli"]
    who = [ctx.choice(f"who{i}", corpora) for i in range(2)]
    bad = ctx.choice("unreadable", [None, 0, 1])
    spec = {}
    for f in range(2):
        glob = ctx.choice(f"mode{f}", [MAJOR, MINOR]) if f == 0 else MINOR
        keys = [(glob, 0)] + ([ctx.choice(f"key{f}", PAIRS)] if f == 0 else [])
        chords = [[(TRIPLES[1] if f else ctx.choice(f"chord{f}", TRIPLES)), TRIPLES[0]]] + [[TRIPLES[2]] for _ in keys[1:]]
        spec[f] = (glob, keys, chords)
    obj = lambda **k: type("X", (), k)()

    class Labelled:
        def __init__(self, f):
            self.glob, self.keys, self.chords = spec[f]

        def get_keys(self):
            return [obj(local_tonic=20 + i, global_tonic=20, global_mode=self.glob, local_mode=m, relative_tonic=20 + i, relative_mode=m) for m, i in self.keys]

        def get_chords(self):
            return [obj(root=20 + k[1] + i, key_tonic=20 + k[1], key_mode=k[0], chord_type=t) for k, cs in zip(self.keys, self.chords) for i, t, _ in cs]

        def get_key_change_indices(self):
            return [sum(len(c) for c in self.chords[:i]) for i in range(len(self.keys))]

    def piece(a):
        f = a["notes_df"]["f"].iloc[0]
        if not (a["chords_df"]["f"].iloc[0] == a["measures_df"]["f"].iloc[0] == f) or f == bad:
            raise ValueError
        return Labelled(f)

    files = pd.DataFrame({"corpus_name": who, "file_name": ["a", "b"]}, index=[0, 1])
    table = pd.DataFrame({"f": [0, 0, 1]}, index=pd.MultiIndex.from_tuples([(0, 0), (0, 1), (1, 0)], names=["file_id", "i"]))
    calls = Calls()
    with scratch() as d:
        (d / "ML_course_data" / "chord").mkdir(parents=True)
        (d / "ML_course_data" / "chord" / "old.csv").write_text("old")
        cwd = os.getcwd()
        os.chdir(d)
        try:
            code, _ = script("create_ml_course_data.py", [], {}, (cr, "load_clean_corpus_dfs", lambda *a, **k: (files, table, table, table)),
                             (pc, "get_score_piece_from_data_frames", calls.of(pc.get_score_piece_from_data_frames, piece)), (sys.modules["tqdm"], "tqdm", lambda it, **k: it))
        finally:
            os.chdir(cwd)
        got = {str(p.relative_to(d / "ML_course_data")): p.read_text().splitlines() for p in (d / "ML_course_data").rglob("*") if p.is_file()}
    ctx.check(code == 0, "the script fails")
    ctx.check(all(c["chord_reduction"] == TRIAD and not c["use_inversions"] and not c["use_relative"] for c in calls), "not triads without inversions and applied chords")
    want, labels = {}, {(k, m): set() for k in ("key", "chord") for m in (MAJOR, MINOR)}
    for composer in sorted(set(w.split(" ")[0] for w in who)):
        for f in range(2):
            if who[f].split(" ")[0] != composer or f == bad:
                continue
            glob, keys, chords = spec[f]
            names = [DEGREES[i] + ":" + m.name for m, i in keys]
            want.setdefault(f"key/{composer}.csv", []).append(",".join(names))
            labels["key", glob] |= set(names)
            for (m, _), cs in zip(keys, chords):
                names = [DEGREES[i] + ":" + n for i, _, n in cs]
                want.setdefault(f"chord/{composer}.csv", []).append(m.name + ";" + ",".join(names))
                labels["chord", m] |= set(names)
    for k in ("key", "chord"):
        want[f"{k}_vocab_major.txt"], want[f"{k}_vocab_minor.txt"] = sorted(labels[k, MAJOR]), sorted(labels[k, MINOR])
        want[f"{k}_vocab_full.txt"] = sorted(labels[k, MAJOR] | labels[k, MINOR])
    ctx.check(got == want, "not exactly the sequences and labels of the pieces")
    ctx.cover("course")


def cases(tier):
    deep = tier == "thorough"
    out = [Case(f"labels_{k}", labels, "", ["table", "none"], k=k, weight=2 * k) for k in ((1, 2) if not deep else (1, 2, 3))]
    out += [Case(f"annotate_{'given' if g else 'plain'}", run_annotate, "", ["published", "refused"] + (["given"] if g else []), given=g, weight=5) for g in (True, False)]
    out += [Case(f"scores_{how}_{k}", to_scores, "", ["scores"], k=k, how=how, weight=2) for how in ("call", "script") for k in ((1, 2) if not deep else (1, 2, 3))]
    out += [Case(f"grid_{o}", grid, "", ["grid"], first=o, weight=5) for o in HYPER]
    out += [Case(f"create_{n}", create, "", ["created", "illegal"], corpus=c, weight=3) for n, c in (("all", None), ("one", ("Bach",)), ("two", ("Cor", "one")))]
    out += [Case("train", train, "", ["trained"], weight=3), Case("course", course, "", ["course"], weight=5), Case("create_xml", create_xml, "", ["xml"]), Case("aggregate", aggregate, "", ["aggregated"]), Case("train_prior", train_prior, "", ["prior"])]
    return out
