"""Writes the per-property part of DESIGN.md (between the markers) from the harness modules, seeds and findings:
   PYTHONPATH=.:/repo /opt/venv/bin/python tools/design.py"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from symx import stubs

stubs.install()

# how each property is encoded and against what
HOW = {
    "C01": "Pitch, interval and tonic are symbolic integers; get_pitch_string/from_string loop over the symbolic pitch (forking per octave of accidentals). Oracle: the line of fifths, name = letter F C G D A E B plus accidentals, MIDI = 7*(p-15) mod 12.",
    "C02": "Type by case, root and inversion symbolic integers; index arithmetic becomes linear integer terms. Oracle: position in the list of (type, inversion, root) written independently; bijection by injectivity of the symbolic index and by decoding every symbolic index.",
    "C03": "Tonic and index symbolic; modes by case. Oracle: mode*count + tonic, and key + change = new key.",
    "C04": "Numerals are text, so they are chosen path by path (all of them); tonics and intervals are symbolic. Oracle: table of scale degrees in fifths.",
    "C05": "Presence vectors of 35/12 symbolic bits shifted by a symbolic interval (exploded per value when used as a slice bound). Oracle: chord tones in fifths.",
    "C06": "to_vec is run with all chord fields symbolic into an object array of terms; every cell is asserted equal to the specified block layout; decoding is run on symbolic vectors.",
    "C07": "Rows of the note table with symbolic beat/duration; the level cache is primed with arbitrary earlier reads. Oracle: block layout of note vectors, metrical grid arithmetic with symbolic modulo.",
    "C08": "Every field symbolic; equality, repetition and merging are compared with field-wise specifications; to_dict/from_dict round trips.",
    "C09": "Measure tables with symbolic durations and offsets, positions symbolic. Oracle: score time = prefix sums over the playback order.",
    "C10": "add_note_offsets on tables of symbolic rationals inside pandas object columns; pandas' own row plumbing runs concretely. Oracle: walking the measures.",
    "C11": "add_chord_metrical_data likewise; oracle: next chord's onset or end of piece, duration by score time.",
    "C12": "merge_ties with symbolic onsets and durations and every combination of tie flags; oracle: a note continues where a tied-in note of the same pitch (staff, voice) starts at its offset.",
    "C13": "remove_repeats over every next-pointer table of the bounded size (choices are decided by path), oracle: reachability in the playback graph.",
    "C14": "get_score_piece_from_data_frames end to end with symbolic positions and roots; oracle: grouping of equal consecutive labels and order comparisons of positions.",
    "C15": "Piece queries on pieces with symbolic positions; oracle: elapsed score time and set of sounding chords written over positions.",
    "C16": "A history of operations with symbolic log-probabilities; the real heap code forks on comparisons; an abstract list of offered states is maintained beside it.",
    "C17": "State objects built through the real transition functions with symbolic chords, keys and log-probability terms; the accumulated sum is compared term by term with the path's own terms.",
    "C18": "get_chord_ranges with symbolic change probabilities; log is uninterpreted with monotonicity; oracle: an independent definition of admissible ranges checked in both directions (every offered range is admissible, every admissible one is offered) with its probability.",
    "C19": "The whole beam search is run with stand-in component models whose outputs are symbolic chord priors (solver branches on every comparison); oracle: all labellings of the bounded piece enumerated as terms, asserted <= the returned one when nothing is dropped; legality, forces and exact score always.",
    "C20": "Durations symbolic, labels and segmentations by path; accuracy compared as exact quotient with the sum over matching inputs.",
    "C21": "Tables for symbolic durations/positions; rows compared with an independent list of changes.",
    "C22": "Forced sets with symbolic bounds and ids through the real validation; oracle: the documented consistency rules as one formula, asserted equivalent to refusal.",
    "C23": "Priors are arrays of symbolic reals; training output intercepted at json.dump; oracle: per-label sum over the chords it stands for.",
    "C24": "Datasets built from pieces with symbolic durations / note weights; every cell of items compared with the block layouts and reductions of the specification; the joint model's inputs to the networks are captured and compared with the same reductions.",
    "C25": "to_h5 and h5_to_dataset run against an in-memory stand-in of h5py holding the symbolic arrays; every cell of every loaded item compared. Split proportions are symbolic reals through the real rounding.",
    "C26": "Tonic and root symbolic, alterations chosen path by path; oracle: letter arithmetic on the line of fifths.",
    "C27": "Stand-in music21 scores with symbolic measure lengths, note and label times; real pandas tables and the real csv reader around them (codes in the csv are replaced by symbolic times). Oracle: walking the listed measures.",
    "C28": "Symbolic positions of notes and forces through the real bisection; for scores, a stand-in for ms3 yields real pandas tables whose positions are symbolic and whose texts are chosen from the whole label grammar. Oracle: the label grammar, read directly.",
    "C29": "The tables are written as real tsv files in which codes stand for symbolic lengths, positions and durations; the real reader (python engine), converters, repeat removal, offsets, tie merging and chord durations all run. Oracle: the list of rows that lie in played measures, on an absolute time line.",
    "C30": "Existence of label files, tables and stored pieces, and the selection, are solver-chosen branches over real files in a scratch folder; the piece builders are replaced by recorders of what they are given. Averages run on symbolic values.",
    "C31": "The step and evaluation functions run on stand-in tensors whose targets, key-change flags and network outputs are symbolic; masks are decided by branching, counts and means are solver terms. Losses are linear stand-ins, distinct per output and target, so that any other mean is another term.",
    "C32": "The networks' own code runs on linear stand-in layers which check shapes as torch does, with symbolic inputs; the outputs of a batch, of its items alone and of single steps are compared as terms. Representations, component types and options are solver-chosen branches.",
    "C33": "The scripts themselves are run (as __main__) on command lines in which tokens stand for values: argparse's conversion of a token gives the symbolic value, so that the hyperparameters, learning rate and split proportions reach the code as solver variables, while names, outcomes and options are solver choices. The functions a script hands over to (loading, splitting, training, writing) are replaced by recorders which bind arguments by the real function's signature; files are written to scratch directories and read back. The commands printed by grid_search.py are parsed by running test.py itself up to the point where it loads its models.",
}
HOW_MORE = {}
TESTS = "What the tests cannot reach: they call none of this or sample a handful of points; the encoding covers every value within the bounds, including boundaries and ties."


def main():
    try:
        from tools import design_more
        HOW.update(design_more.HOW)
    except ImportError:
        pass
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    na = {x["property_id"] if "property_id" in x else x.get("property"): x for x in json.load(open(os.path.join(HERE, "MANIFEST.json"))).get("not_applicable", [])}
    found = [json.loads(l) for l in open(os.path.join(HERE, "KNOWN_FINDINGS.jsonl")) if l.startswith("{")]
    seeds = {}
    for s in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        m = json.load(open(os.path.join(HERE, "seeded", s, "meta.json")))
        seeds.setdefault(m["property"], []).append((s, m))
    out = []
    for p in sorted(props, key=lambda p: p["id"]):
        i = p["id"]
        out.append(f"### {i} {p['title']}\n")
        if i in na:
            out.append(f"Not applicable: {na[i]['reason']}\n")
            continue
        m = importlib.import_module("props." + i)
        out.append(f"*Encoding and oracle.* {HOW[i]}\n")
        out.append(f"*Functions.* {', '.join('`' + t.split(':')[1] + '`' for t in m.TARGETS)}\n")
        out.append(f"*Bounds.* {m.BOUNDS}.\n")
        out.append(f"*Outside.* {m.OUTSIDE}.\n")
        f = [x for x in found if x["property"] == i]
        if f:
            out.append("*Defects found.* " + "; ".join(x["line"].split(" ", 2)[2] if x["status"] == "fixed" else x["line"] + " (open)" for x in f) + ".\n")
        if i in seeds:
            out.append("*Planted bugs.* " + "; ".join(f"{s}: {x['what_it_breaks']} (needs: {x['needs']})" for s, x in seeds[i]) + ".\n")
    path = os.path.join(HERE, "DESIGN.md")
    s = open(path).read()
    a, b = "<!-- properties -->\n", "<!-- end of properties -->\n"
    head, rest = s.split(a)
    tail = rest.split(b)[1]
    open(path, "w").write(head + a + "\n".join(out) + b + tail)


main()
