"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/meta.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
U, D = "harmonic_inference/utils/", "harmonic_inference/data/"
P = []


def prop(id, title, statement, text, tests, files, mech, over=("inputs",), note=""):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, tests=tests, files=files, mech=mech, note=note))


NOTEST = "No existing test calls this code; even if one did, it would sample a few points of the stated domain."

prop("C01", "Pitch names, transposition and relative pitches are exact inverses",
     "Every tonal or MIDI pitch has one name that parses back to the same pitch in either representation, and a spelling is refused exactly when it lies outside the 35-note tonal alphabet. "
     "Transposing adds the interval (tonal pitches, refusing results outside the alphabet) or works modulo 12 (MIDI), is undone by the opposite interval and commutes with conversion to MIDI. "
     "A pitch made relative to a tonic (including the padded range) plus that tonic gives the pitch back and is refused exactly when outside the relative range.",
     "every pitch, spelling, interval and tonic in the stated integer ranges, both pitch representations",
     "The unit tests sample a few pitches and intervals; the claim is about all of them and about exactly which are refused.",
     [U + "harmonic_utils.py", U + "harmonic_constants.py"],
     [("pitch naming, parsing, transposition", U + "harmonic_utils.py")])
prop("C02", "Chord vocabularies: index, label and chord are in bijection",
     "For every vocabulary setting (pitch representation, inversions or not, absolute or relative roots, padding, any chord-type reduction) the chords in the vocabulary are numbered consecutively without gaps or clashes, index to chord to index is the identity, and the label list names exactly the chord at each index. "
     "Roots or inversions outside the vocabulary are refused rather than mapped onto another chord. Chord-type names parse back to their type and unknown names are refused.",
     "every chord type, root, inversion, vocabulary setting and reduction within the bounds; every index",
     "The tests check isolated indices for the default settings; the bijection concerns all settings and all indices jointly.",
     [U + "harmonic_utils.py", U + "harmonic_constants.py"],
     [("one-hot index arithmetic and label lists", U + "harmonic_utils.py")], over=("inputs", "configurations"))
prop("C03", "Key vocabularies and key-change encodings are lossless",
     "Keys are numbered consecutively by mode and tonic, index to key to index is the identity, labels name the key at their index, and tonics outside the alphabet are refused. "
     "For any two keys, the key-change index and the key-change vector determine exactly the interval and the new mode, so that old key plus change gives the new key; changes outside the interval range are refused. "
     "Decoding a key-change vector gives back that interval, mode and pitch representation.",
     "every key, every ordered pair of keys, both pitch representations, every index",
     "Tests cover a handful of key indices and no key-change encodings.",
     [U + "harmonic_utils.py", D + "key.py", D + "vector_decoding.py"],
     [("key one-hot arithmetic", U + "harmonic_utils.py"), ("key change encoding", D + "key.py"), ("decoding", D + "vector_decoding.py")])
prop("C04", "Scale degrees and relative keys resolve to the right interval, tonic, mode",
     "Every roman or arabic scale degree with accidentals before or behind it denotes the diatonic interval of the given mode shifted by its accidentals, in both pitch representations, and every interval has a scale degree that denotes it again. "
     "A slash-separated chain of relative keys resolves, from the innermost outwards, to the tonic and mode obtained by applying each numeral in turn (lower case meaning minor), and is refused exactly when a tonic leaves the tonal alphabet.",
     "every numeral with up to 4 accidentals, every interval, mode, tonic, and chain of bounded length",
     "Tests sample some numerals; chains of relative keys from all tonics are not covered.",
     [U + "harmonic_utils.py"], [("scale degree arithmetic, relative key decoding", U + "harmonic_utils.py")])
prop("C05", "Chord pitch content, bass note and figured bass agree with the chord",
     "The pitch-presence vector of a chord holds exactly its tones, transposing a vector shifts it by the interval without wrapping in the tonal representation and without changing its input, and the bass note of a chord in some inversion is the corresponding chord tone (refused when outside the alphabet). "
     "Each figured-bass symbol denotes its inversion and unknown symbols are refused.",
     "every chord type, root, inversion, arbitrary presence vectors, every interval in the bounds, every symbol of up to 2 digits",
     "Tests fix single chords; here vectors and intervals are arbitrary.",
     [U + "harmonic_utils.py", U + "harmonic_constants.py"], [("chord vectors, bass, inversions", U + "harmonic_utils.py")])
prop("C06", "Chord feature vectors encode each field in its place and decode back",
     "A chord's feature vector has exactly the declared length and marks root and bass relative to the key, chord type, inversion, metrical levels, duration and mode, each in its own block and nothing else, under any chord-type reduction; chords that do not fit are refused. "
     "Decoding it (alone or followed by a key change) gives the same chord and key change back, and inconsistent vectors are refused. "
     "Reducing encoded chords (chord types, inversions, labels) equals encoding the reduced chord and leaves all other columns untouched.",
     "every chord field symbolic, every reduction listed, tensors with arbitrary reduced columns",
     NOTEST, [D + "chord.py", D + "vector_decoding.py"],
     [("chord vector layout", D + "chord.py"), ("decoding and reduction", D + "vector_decoding.py")])
prop("C07", "Notes are read and encoded exactly, and note vectors decode and transpose",
     "A note read from a score table keeps its pitch, octave, positions, duration and metrical levels regardless of what was read before, and is dropped exactly when its pitch is outside the alphabet; its MIDI number is 12 times the octave plus the semitone pitch class. "
     "Its feature vector has the declared length and marks pitch, octave, levels, proportions of the chord's range, neighbour distances, and absolute and window-relative pitch height, each in its own block. "
     "Decoding gives the note back; transposing moves the pitch block only, refuses results outside the range and leaves its input unchanged.",
     "every pitch, octave, rational position and duration, time signature in the list, window and chord range",
     NOTEST, [D + "note.py", D + "vector_decoding.py"], [("note construction and vectors", D + "note.py"), ("decode / transpose", D + "vector_decoding.py")],
     over=("inputs", "histories"))
prop("C08", "Converting, copying, comparing and merging musical objects loses nothing",
     "Converting a note, chord or key to another pitch representation gives a new object with the same sounding pitches and every other field unchanged; its dictionary form rebuilds an equal object, and equality depends on every field. "
     "Chord and key repetition tests hold exactly when the relevant fields agree (inversion and suspensions only if asked for). "
     "Merging two chords yields a chord from the first onset to the second offset with the summed duration and changes nothing else; the predefined chord-type reductions map each type to its triad, itself or the single type.",
     "every field of notes, chords and keys symbolic; pairs differing in any subset of fields",
     NOTEST, [D + "note.py", D + "chord.py", D + "key.py", D + "data_types.py"],
     [("conversion, equality, merging", D + "chord.py"), ("reductions", D + "data_types.py")])
prop("C09", "Score time: range lengths, proportions and metrical levels are exact",
     "The length between two score positions is the elapsed score time through all measures between them (counting actual durations and pick-up offsets), is additive over adjacent ranges and changes sign when reversed. "
     "A note's onset, offset and duration as proportions of a range are its elapsed time divided by the range length. "
     "A beat's metrical level is 3, 2, 1 or 0 for bar, beat, sub-beat or other, according to the time signature (compound and simple).",
     "symbolic measure durations, offsets and positions; all time signatures n/d within bounds and any rational beat",
     "The tests check metrical levels for sample beats and never the range length.",
     [U + "rhythmic_utils.py"], [("score time arithmetic", U + "rhythmic_utils.py")])
prop("C10", "Note offsets lie exactly one duration after the onset",
     "For every note of every piece the computed offset position is the onset plus the duration in elapsed score time, following the playback order of the measures. "
     "It is expressed in a measure that is actually played and before that measure's end (except at the very end of the piece), and no note is lost, reordered or has its onset changed.",
     "symbolic onsets, durations, measure lengths, pick-up offsets and playback skips, several pieces",
     "No test runs the offset computation; it spans arbitrary measure chains.", [U + "corpus_utils.py"], [("measure-by-measure carry", U + "corpus_utils.py")])
prop("C11", "Chords tile the piece: each lasts until the next one starts",
     "For every piece of a corpus each chord's end is the onset of the next chord of the same piece, the last chord ends at the end of the piece's last measure, and each duration is the elapsed score time in between. "
     "Pieces never affect each other, also when the corpus holds just one piece, and no chord is lost, reordered or moved.",
     "symbolic chord onsets, measure lengths, offsets and playback skips, one or several pieces",
     "No test runs this; the claim is about all layouts.", [U + "corpus_utils.py"], [("shifted merge per piece", U + "corpus_utils.py")])
prop("C12", "Merging tied notes preserves sounding time and exactly joins chains",
     "Merging ties replaces each chain of tied notes by its first note, extended to the end of the last one with the summed duration and no longer marked as tied. "
     "The total sounding duration is unchanged, untied notes and grace notes are untouched, notes stay in order, and a note continues at most one other, preferring its own staff and voice.",
     "every combination of tie markings, pitches, and symbolic onsets and durations in the bounds, several pieces",
     "No test runs tie merging; chains interact in ways a few samples miss.", [U + "corpus_utils.py"], [("tie matching", U + "corpus_utils.py")])
prop("C13", "Removing repeats keeps exactly the measures played with repeats skipped",
     "After removing repeats, each kept measure is followed by the latest measure that may follow it, exactly the measures reachable from each piece's first measure that way are kept, and the given table is not modified. "
     "Dropping unmatched notes or chords keeps exactly the rows whose measure exists in the same piece, in order and with unchanged indexes.",
     "every small measure graph with forward, backward and end-of-piece targets, one or two pieces",
     "The tests use a few fixed repeat structures.", [U + "corpus_utils.py"], [("repeat removal", U + "corpus_utils.py")])

NA = []
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "meta_more.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["tests"],
                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))) + "\n")
    na = {n["property"] for n in NA}
    checks = [dict(property=p["id"], quick_cmd=f"./run.sh {p['id']} --tier quick", thorough_cmd=f"./run.sh {p['id']} --tier thorough",
                   technique="solver-based: symbolic execution of the real Python functions (proxy values), Z3 decides every branch and assertion over all inputs in the bounds; counterexamples are replayed on the unpatched code",
                   level="model_checking",
                   level_note=p["note"] or "bounded: every path and every input within the bounds stated in the evidence; no claim beyond them")
              for p in P if p["id"] not in na]
    man = dict(version=1, setup_cmd="bash ./setup.sh", checks=checks, not_applicable=NA,
               notes="No hooks in /repo. One engine (symx/), one harness module per property (props/). See DESIGN.md.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
