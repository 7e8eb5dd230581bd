import contextlib
import json
import logging
import os
import pickle
import shutil
import tempfile
from pathlib import Path
from props.common import *
import pandas as pd
import harmonic_inference.utils.data_utils as du
import harmonic_inference.utils.eval_utils as eu
import harmonic_inference.data.corpus_reading as cr

LEVEL = "model_checking"
TARGETS = ["harmonic_inference.utils.data_utils:load_pieces", "harmonic_inference.utils.data_utils:load_kwargs_from_json",
           "harmonic_inference.data.corpus_reading:aggregate_annotation_dfs", "harmonic_inference.utils.eval_utils:average_results"]
BOUNDS = ("3 MusicXML files in 2 folders or 3 pieces of a corpus, every set of existing label files or labelled pieces, 9 selections of pieces (all, subsets, other orders) and every single piece, with stored pieces for all, some or none of the selected ones, "
          "or no such file; a single MusicXML file; settings: every enum value and every chord type of a reduction; aggregation: 2 pieces in different corpora, every combination of present, missing and unreadable tables; "
          "averages: 3 (thorough 4) lines of results with symbolic values")
OUTSIDE = "the building of the pieces themselves (C14, C27); checkpoints of the neural networks"
PITCH, PIECE, CHORD = list(PitchType), list(PieceType), list(ChordType)


@contextlib.contextmanager
def scratch(**patches):
    d = tempfile.mkdtemp()
    saved = {}
    mod = patches.pop("mod", du)
    for k, v in patches.items():
        saved[k] = mod.__dict__.get(k, scratch)
        setattr(mod, k, v)
    log = logging.root.manager.disable
    logging.disable(logging.CRITICAL)
    try:
        yield Path(d)
    finally:
        logging.disable(log)
        for k, v in saved.items():
            if v is scratch:
                delattr(mod, k)
            else:
                setattr(mod, k, v)
        shutil.rmtree(d)


def quiet(it, *a, **k):
    return it


def picks(ctx, ids):
    """which pieces to load -> (file_ids, specific_id, the ids to expect)"""
    a, b, c = ids
    chosen = ctx.choice("file_ids", [None, [a], [b], [c], [a, c], [c, a], [b, c], [a, b, c], [c, b, a]])
    full = list(ids) if chosen is None else chosen
    single = ctx.flag("one")
    if not single:
        return chosen, None, full
    one = ctx.choice("specific_id", [a, b, c, 99])
    return chosen, one, [one] if one in full else None


def stored(ctx, d, full, n):
    """a file of stored pieces aligned with the selected ones -> (path, {id: stored})"""
    kind = ctx.choice("stored", ["no", "missing", "yes"])
    if kind == "no":
        return None, {}
    path = d / "pieces.pkl"
    if kind == "missing":
        return path, {}
    dicts = [{"id": f} if ctx.flag(f"stored{i}") else None for i, f in enumerate(full)]
    with open(path, "wb") as f:
        pickle.dump(dicts, f)
    return (path if len(full) % 2 else str(path)), {f: x for f, x in zip(full, dicts) if x}


def load(ctx, want, **k):
    bad, got = raises(ValueError, du.load_pieces, **k)
    ctx.check(bad == (want is None), "a piece outside of the selection is loaded, or one inside of it refused")
    if bad:
        ctx.cover("refused")
        return None
    ctx.check(len(got) == len(want), "not exactly the selected pieces")
    return got


def xml(ctx):
    with scratch(get_score_piece_from_music_xml=lambda music_xml_path, label_csv_path=None, *a, **k: ("xml", music_xml_path, label_csv_path, k.get("name", a[0] if a else None)),
                 get_score_piece_from_dict=lambda measures_df, piece_dict, *a, **k: ("dict", measures_df, piece_dict, k.get("name", a[0] if a else None)),
                 get_measures_df_from_music21_score=lambda s, *a, **k: ("measures", s), parse=lambda p, *a, **k: ("parsed", Path(p)), tqdm=quiet) as d:
        names = ["a/scores/x.mxl", "a/scores/y.mxl", "b/scores/w.mxl"]
        labelled = [ctx.flag(f"csv{i}") for i in range(3)]
        for n, lab in zip(names, labelled):
            (d / "in" / n).parent.mkdir(parents=True, exist_ok=True)
            (d / "in" / n).touch()
            csv = (d / "in" / n).parent.parent / "chords" / (Path(n).stem + ".csv")
            csv.parent.mkdir(exist_ok=True)
            if lab:
                csv.touch()
        ids, one, want = picks(ctx, [0, 1, 2])
        pkl, dicts = stored(ctx, d, ids or [0, 1, 2], 3) if not any(labelled) or all(labelled) else (None, {})
        got = load(ctx, want, xml=True, input_path=d / "in" if labelled[0] else str(d / "in"), piece_dicts_path=pkl, file_ids=ids, specific_id=one)
        for f, g in zip(want or [], got or []):
            path = d / "in" / names[f]
            csv = path.parent.parent / "chords" / (path.stem + ".csv")
            if f in dicts:
                ctx.check(g[:3] == ("dict", ("measures", ("parsed", path)), dicts[f]), "a stored piece is given the score of another one")
                ctx.cover("stored")
            else:
                ctx.check(g[0] == "xml" and Path(g[1]) == path, "another score is loaded")
                ctx.check(g[2] is None if not labelled[f] else g[2] is not None and Path(g[2]) == csv, "a score is given labels of another one, or not its own")
                ctx.cover("labelled" if labelled[f] else "unlabelled")
            ctx.check(g[3] == f"{f}: {names[f]}", "a piece has the name of another one")


def single(ctx):
    with scratch(get_score_piece_from_music_xml=lambda music_xml_path, label_csv_path=None, *a, **k: ("xml", music_xml_path, label_csv_path, k.get("name", a[0] if a else None)), tqdm=quiet) as d:
        path = d / ctx.choice("file", ["x.mxl", "y.xml"])
        path.touch()
        got = du.load_pieces(xml=True, input_path=ctx.choice("as", [str, Path])(str(path)))
        ctx.check(len(got) == 1 and Path(got[0][1]) == path and got[0][2] is None and got[0][3] == f"0: {path.name}", "a single score is not loaded alone")
        ctx.cover("loaded")


def dfs(ctx, shared):
    ids = [0, 3, 4] if shared else [7, 2, 5]
    labelled = ctx.choice("labelled", [None, [], [ids[0]], [ids[1], ids[2]], ids])

    def frame(which, name):
        rows = [(f, i) for f in which for i in range(2)]
        return pd.DataFrame({"v": [f"{name}{f}_{i}" for f, i in rows]}, index=pd.MultiIndex.from_tuples(rows, names=["file_id", "i"]) if rows else pd.MultiIndex.from_arrays([[], []], names=["file_id", "i"]))

    files_df = pd.DataFrame({"corpus_name": [f"c{f}" for f in ids], "file_name": [f"f{f}.tsv" for f in ids]}, index=ids)
    tables = lambda path, *a, **k: (files_df, frame(ids, "m"), None if labelled is None else frame(labelled, "c"), frame(ids, "n"))
    show = lambda x: None if x is None else list(x["v"])
    with scratch(load_clean_corpus_dfs=tables, tqdm=quiet,
                 get_score_piece_from_data_frames=lambda n, c, m, *a, **k: ("dfs", show(n), show(c), show(m), k.get("name", a[0] if a else None)),
                 get_score_piece_from_dict=lambda m, p, *a, **k: ("dict", show(m), p, k.get("name", a[0] if a else None))) as d:
        sel, one, want = picks(ctx, ids)
        pkl, dicts = stored(ctx, d, sel or ids, 3) if labelled in (None, ids) else (None, {})
        got = load(ctx, want, input_path=d, piece_dicts_path=pkl, file_ids=sel, specific_id=one)
        for f, g in zip(want or [], got or []):
            rows = lambda name: [f"{name}{f}_{i}" for i in range(2)]
            if f in dicts:
                ctx.check(g[:3] == ("dict", rows("m"), dicts[f]), "a stored piece is given the measures of another one")
                ctx.cover("stored")
            else:
                ctx.check(g[:2] == ("dfs", rows("n")) and g[3] == rows("m"), "a piece is given notes or measures of another one")
                lab = labelled is not None and f in labelled
                ctx.check(g[2] == rows("c") if lab else g[2] is None, "a piece is given labels of another one, or not its own")
                ctx.cover("labelled" if lab else "unlabelled")
            ctx.check(g[-1] == f"{f}: c{f}/f{f}.tsv", "a piece has the name of another one")


def settings(ctx):
    ctx.check(du.load_kwargs_from_json(None) == {}, "settings without a file")
    pt, kind = ctx.choice("pitch", PITCH), ctx.choice("piece", PIECE)
    src, dst = ctx.choice("from", CHORD), ctx.choice("to", CHORD)
    red = {str(t): str(t) for t in CHORD}
    red[str(src)] = str(dst)
    plain = {"units": 128, "rate": 0.25, "name": "Pitch", "flag": False, "nothing": None, "list": [1, "x"], "other": {"a": 1}}
    with scratch() as d:
        raw = {"input_pitch": str(pt), "piece_type": str(kind), "reduction": red, "output_reduction": red, **plain}
        with open(d / "k.json", "w") as f:
            json.dump(raw, f)
        got = du.load_kwargs_from_json(ctx.choice("as", [str, Path])(str(d / "k.json")))
    ctx.check(list(got) == list(raw), "not exactly the settings of the file")
    ctx.check(got["input_pitch"] is pt and got["piece_type"] is kind, "a pitch or piece type is misread")
    for r in ("reduction", "output_reduction"):
        ctx.check(got[r] == {t: dst if t is src else t for t in CHORD} and all(type(x) is ChordType for x in got[r].values()), "a reduction is misread")
    ctx.check({k: got[k] for k in plain} == plain, "an ordinary setting changed")
    ctx.cover("read")


def aggregate(ctx, notes_only):
    real = pd.read_csv

    def read(*a, **k):
        k.pop("low_memory", None)
        return real(*a, **{**k, "engine": "python"})        # pandas' C reader does not work under this interpreter

    files = ["aa/{}/one.tsv", "bb/{}/two.tsv"]
    have = {}
    with scratch(mod=cr, tqdm=quiet) as d:
        for i, f in enumerate(files):
            for t in ("harmonies", "notes", "measures"):
                state = ctx.choice(f"{t}{i}", ["rows", "missing"] + (["empty"] if t == "notes" else []))
                p = d / "in" / f.format(t)
                p.parent.mkdir(parents=True, exist_ok=True)
                if state != "missing":
                    p.write_text("" if state == "empty" else "mc\tval\n" + "".join(f"{k + 1}\t{t[0]}{i}{k}\n" for k in range(2)))
                have[i, t] = state
        pd.read_csv = read
        try:
            cr.aggregate_annotation_dfs(str(d / "in") if have[0, "notes"] == "rows" else d / "in", d / "out" / "x", notes_only=notes_only)
        finally:
            pd.read_csv = real
        listed = [i for i in (0, 1) if have[i, "notes" if notes_only else "harmonies"] != "missing"]
        if not listed:
            ctx.check(not (d / "out").exists() or not list((d / "out").rglob("*.tsv")), "tables of no piece")
            ctx.cover("none")
            return

        def rows(name):
            p = d / "out" / "x" / name
            return None if not p.exists() else [l.split("\t") for l in p.read_text().rstrip("\n").split("\n")]

        fl = rows("files.tsv")
        ctx.check(fl is not None and fl[0][1:] == ["corpus_name", "file_name"], "no list of pieces")
        where = {tuple(r[1:]): r[0] for r in fl[1:]}
        ctx.check(len(fl) - 1 == len(listed) and set(where) == {(files[i].split("/")[0], files[i].split("/")[2]) for i in listed}, "not exactly the pieces of the corpora")
        ctx.check(sorted(where.values()) == [str(i) for i in range(len(listed))], "the ids of the pieces are not consecutive")
        for t, name in (("harmonies", "chords.tsv"), ("notes", "notes.tsv"), ("measures", "measures.tsv")):
            want = []
            for i in listed:
                if have[i, t] == "rows":
                    f = where[files[i].split("/")[0], files[i].split("/")[2]]
                    want += [[f, str(k), str(k + 1), f"{t[0]}{i}{k}"] for k in range(2)]
            got = rows(name)
            ctx.check((got is None) == (not want), "a table without rows, or no table of existing rows")
            if got:
                ctx.check(sorted(got[1:]) == sorted(want), "rows are lost, changed or given to another piece")
                ctx.check([r[0] for r in got[1:]] == sorted(r[0] for r in got[1:]), "the rows of a piece are not together")
                ctx.check(got[0][2:] == ["mc", "val"] and got[0][0] == "file_id", "columns of a table changed")
                ctx.cover("table")


def averages(ctx, n):
    code, lines, want = {}, [], {}
    for i in range(n):
        k = ctx.choice(f"key{i}", ["Chord accuracy", "INFO: Key accuracy", "loss", "noise", "two"])
        v = ctx.real(f"v{i}", 0, 1)
        text = f"0.{1000003 + i}"
        code[text] = v
        lines.append({"noise": "Evaluating the accuracy of a piece\n", "two": f"accuracy = x = {text}\n"}.get(k, f"{'  ' if i % 2 else ''}{k} = {text}\n"))
        if "accuracy" in k:
            want.setdefault(k, []).append(v)
    with scratch(mod=eu, float=lambda x: code[x.strip()] if isinstance(x, str) and x.strip() in code else float(x)) as d:
        (d / "r.txt").write_text("".join(lines))
        got = eu.average_results(d / "r.txt" if n % 2 else str(d / "r.txt"))
    ctx.check(set(got) == set(want), "not exactly the accuracies of the file")
    for k, vs in want.items():
        ctx.check(close(ctx, got[k], sum(vs[1:], vs[0]) / len(vs), 1e-9), "an average is not the mean of its values")
        ctx.cover("average")


def cases(tier):
    th = tier == "thorough"
    out = [Case("xml", xml, "MusicXML folder", ["labelled", "unlabelled", "stored", "refused"], weight=6), Case("single", single, "one file", ["loaded"]),
           Case("settings", settings, "json", ["read"], weight=4)]
    out += [Case(f"dfs_{s}", dfs, "corpus", ["labelled", "unlabelled", "stored", "refused"], weight=6, shared=s) for s in (True, False)]
    out += [Case(f"aggregate_{o}", aggregate, "aggregation", ["table", "none"], weight=6, notes_only=o) for o in (True, False)]
    out += [Case(f"averages_{n}", averages, "averages", ["average"], weight=n, np_objects=True, n=n) for n in ((1, 3, 4) if th else (1, 3))]
    return out
