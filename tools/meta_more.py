# further properties
BS, JM, PC, PCC = U + "beam_search_utils.py", "harmonic_inference/models/joint_model.py", D + "piece.py", D + "corpus_reading.py"

prop("C16", "A beam keeps exactly the most likely distinct search states",
     "Whatever sequence of states is offered, a beam never holds more than its size unless additions are forced; a full beam makes room by dropping its least likely state, takes a new state exactly when there is room or it is strictly more likely than the worst, and its top state is its most likely one. "
     "A hashed beam holds at most one state per recent chord/key history, always the most likely of those offered since it was last emptied or the history was dropped. "
     "The fit test predicts exactly what adding does, an emptied beam is empty and reusable, and two states share a hash exactly when their recent keys and chords agree.",
     "every history of additions of bounded length with arbitrary log-probabilities (ties included), forced or not, emptied at any point",
     NOTEST, [BS], [("beams and state hashing", BS)], over=("histories", "inputs"))
prop("C17", "A search state's path, key, validity and log-probability stay consistent",
     "A chord transition is refused exactly when the chord's root or bass note cannot be expressed (in the padded range) in the current key, and must be followed by a key change exactly when it is outside the normal range; a key change is refused exactly when the chord is outside the new key's range. "
     "A state's log-probability is always the sum of the range, chord, key-transition, key and chord-prior terms of its own path: rejoining replaces the terms of the last chord, reverts its key change and restarts the models where they were before it, and copies are independent. "
     "The chords, keys, change positions, chord objects and model inputs read from a state are those of its path, and the chord prior added is that of the chord relative to its key, per input of its range.",
     "every chord, key and log-probability, every bounded history of transitions, key changes, copies and rejoins, both pitch representations",
     NOTEST, [BS], [("search states", BS)], over=("histories", "inputs"))

prop("C18", "Chord ranges searched are exactly those change probabilities and forces allow",
     "For every piece and every vector of chord change probabilities, the ranges offered to the search are exactly those that start at a reachable change, end where a change is probable enough (or at the end of the piece), contain no position where a change is certain, are no longer than the maximum chord length and contain no two different forced chords or keys; simultaneous notes are never split. "
     "Each range carries the log-probability of no change inside it and of the change ending it, and the correction for rejoining it to its predecessor; forced chord changes and non-changes are applied as certainties.",
     "arbitrary change probabilities, durations (including simultaneous notes), thresholds, maximum length and forced labels, for bounded numbers of inputs",
     NOTEST, [JM], [("range construction", JM)], over=("inputs", "configurations"))
prop("C19", "Joint decoding returns a complete, legal, correctly scored, best labelling",
     "The result of the joint search (component models over the full chord vocabulary) covers the whole piece with consecutive chords and keys: no gaps, keys change only where chords change, no chord directly follows itself, and every chord can be expressed in its key. "
     "Forced chords, keys, chord changes, key changes and non-changes are all respected. Its log-probability is exactly the sum of the component models' terms for that labelling, each component model having been run on exactly that path. "
     "If nothing has to be dropped from the beam, no allowed labelling is more likely; None is returned only if there is no allowed labelling. The model's label tables agree with the encodings of keys and key changes.",
     "every value of the chord priors within the bounds, every combination of forced labels, beam sizes and branching limits of the listed searches",
     NOTEST, [JM, BS], [("beam search over joint states", JM)], over=("inputs", "configurations", "histories"))
prop("C22", "Forced labels are accepted exactly when consistent, and kept unchanged",
     "A set of forced chord/key changes and non-changes (by input) and forced chord/key labels (by range) is refused with an ArgumentError exactly when it is contradictory: an index beyond the piece, a position both changed and unchanged, a change at an input that is not the first of its onset, a label id outside the vocabulary, one input forced to two labels, "
     "a change between two inputs forced to the same label, a non-change between inputs forced to different labels, or a key change where the chord may not change. "
     "Otherwise every input carries exactly the labels forced onto it, and the changes are kept unaltered (a change at the first input is ignored). After a refusal the model holds no piece.",
     "every combination of forced labels over bounded pieces, with symbolic positions and label ids",
     NOTEST, [JM], [("validation of forced labels", JM)], over=("inputs", "configurations"))
prop("C14", "A piece built from annotations keeps every note, chord and key in its place",
     "Building a piece from note, label and measure tables keeps all notes in order; turns the labelled rows into chords with the annotated root, type, inversion and bass in the annotated key; and merges exactly those consecutive labels that repeat the same chord (under the chosen reduction, inversion and suspension options), a merged chord running from its first onset to its last offset with the summed duration. "
     "Each chord changes at the first note starting with or after it, its notes begin with the first one still sounding at its onset and end before the next change, and keys change exactly where the effective key of the chords changes. Unlabelled rows are ignored, pieces of a single note or chord and pieces without labels are supported.",
     "every placement of notes and labels, every root, and every combination of options, types, keys and applied chords within the bounds",
     NOTEST, [PC, D + "chord.py", D + "key.py"], [("piece construction", PC), ("chord and key parsing", D + "chord.py")], over=("inputs", "configurations"))
prop("C15", "What a piece reports about its notes and chords agrees with the score",
     "The duration to the next input is the elapsed time to the next note (for the last one: to the end of the last chord, or of the last sounding note), asking again gives the same answer. The chords within a range of inputs are exactly those sounding in it. "
     "The input window of a chord contains exactly its notes and the requested number of neighbours, zeros beyond the piece, and each row is the note's features relative to the chord's onset, duration and to the notes in the window. "
     "Storing a piece as a dictionary and loading it again gives an equal piece.",
     "every placement of notes, chords and measures, every range and window size within the bounds",
     NOTEST, [PC], [("piece queries", PC)], over=("inputs",))

EV, IC = U + "eval_utils.py", "harmonic_inference/models/initial_chord_models.py"
prop("C20", "Reported accuracies are exactly the share of the duration labelled correctly",
     "For a piece labelled from its first input, the chord accuracy of an estimate is the summed duration of the inputs whose estimated chord matches the ground truth, divided by the total duration; inversions count exactly when asked for and chord types are compared after the given reduction. "
     "Key accuracy likewise compares tonic and (unless only the tonic is asked for) mode, and joint accuracy counts the inputs where both match. Inputs of no duration never matter. "
     "By default full chords and full keys are compared. The chord and key distances are 0 for matching labels and 1 otherwise.",
     "every duration, segmentation and label of bounded pieces, every pair of chords or keys and every setting",
     NOTEST, [EV], [("accuracy measures", EV)], over=("inputs", "configurations"))
prop("C21", "Output tables state exactly the estimated and the true labels, where they change",
     "The annotation table has one row for each change of the estimated key and of the estimated chord between sounding inputs (the first included, keys before chords), at the position of that input, and no other row. "
     "The label table additionally has a row where only the ground truth changes (label '--') and colours each row green for a full match, yellow for a partial one (same tonic; same root and triad type) and red otherwise, also where there is no ground truth. "
     "The results table and the ground-truth table have one row per sounding input with its true labels (results: also the estimate), in the requested pitch type, and its duration.",
     "every duration, position, segmentation and label of bounded pieces; ground truth present, late or absent",
     NOTEST, [EV], [("annotation and result tables", EV)], over=("inputs", "configurations"))
prop("C23", "The initial-chord prior is the smoothed frequency of first chords",
     "Training writes, for each mode, a prior over the full relative chord vocabulary equal to the chord's count plus its share of the smoothing mass, divided by the total. "
     "Loading it with a reduction or without inversions (given as arguments or in the file; combined with what the file already lacks) gives each label the total prior of the chords it stands for, and records the settings in force; the log prior is its logarithm, and the mode selects the prior. "
     "Evaluation compares first chords in the same layout.",
     "every smoothing mass and prior value, chords of both modes, every combination of settings",
     NOTEST, [IC], [("initial chord prior", IC)], over=("inputs", "configurations"))

DS_, VD = D + "datasets.py", D + "vector_decoding.py"
prop("C24", "Training items state exactly the pieces' chords and keys, as used at inference",
     "Each dataset has one item per piece (chord transitions, chord sequences), per chord and transposition (chord classification) or per key (change), giving the same content whatever is asked for before. "
     "Targets mark chord and key changes, chords (absolute, transposed or relative to their key, reduced as configured) and key changes exactly as annotated, and leave unmeasured what cannot be one; inputs are the encoded notes or chords, reduced as configured, up to and including the first chord of the next key heard in the old key. "
     "A transposed chord is dropped exactly when its root, bass or one of its notes would leave the alphabet. "
     "During inference the key and chord sequence models receive chords reduced exactly as in training.",
     "every duration, set of changes, transposition, reduction and pitch type over bounded pieces, in any order of access",
     NOTEST, [DS_, VD, JM], [("dataset items", DS_), ("reductions", VD), ("model inputs during inference", JM)], over=("inputs", "configurations", "histories"))
prop("C25", "Stored, streamed and split data are the data that went in",
     "Writing a dataset to file and loading it again, wholly into memory in chunks of any size, or item by item when it does not fit, or copying a loaded one, gives the same items with the same settings, and file ids are kept; writing does not change the dataset. "
     "Padding keeps each array and its length and adds only zeros. "
     "Splitting a corpus uses every piece that can be built exactly once, keeps ids, pieces and datasets of a split aligned, combines only tables of the same piece, gives each split its share of the pieces (within one), and no dataset to an empty split.",
     "every value stored, every split proportion, every combination of usable and unusable pieces within the bounds, each way of loading",
     NOTEST, [DS_], [("storage and splits", DS_)], over=("inputs", "configurations", "fault_sequences"))
prop("C26", "Chord alterations resolve to exactly the replaced and added pitches",
     "A string of chord alterations splits into exactly its alterations: optional + v or ^, accidentals, and a number from 2 to 14. "
     "Each resolves to the pitch that many steps above the chord's root in the scale of its key, adjusted by its accidentals and marked when above the octave, and to the chord tone it replaces: none after + or for numbers other than 2, 4 and 6, the tone above after ^ or a sharp (but #6 adds to a triad), the tone below otherwise; all of them in order. "
     "The ground-truth table lists exactly these for the chord of each sounding input, in both representations.",
     "every alteration, key, root and chord type within the bounds; tables with arbitrary durations",
     NOTEST, [U + "harmonic_utils.py", EV], [("alterations", U + "harmonic_utils.py"), ("ground-truth table", EV)])
prop("C27", "MusicXML scores and label files are read in full and in place",
     "A score's measures are listed in order without first endings, each with its metre, start, length, metrical position of its start (0 unless a pickup or the rest of a split measure) and successor. "
     "Each note of a listed measure (chord members included) keeps its spelling, octave and duration; its onset and offset are the measure and metrical position reached by walking the listed measures, and its levels those of these positions. "
     "Each label of the csv file that starts at or after 0 and is not empty becomes a chord with its degree's root in its (possibly applied) key, type, inversion, bass and positions, in minor with 7 meaning the leading note; it is refused exactly when a tonic, root or bass leaves the alphabet. "
     "Chords change at the first note starting with or after them, their notes begin with the first still sounding one, and keys change exactly where the labels' keys do.",
     "every pickup and split length, position and duration of notes and labels in the bounds; all degrees, keys and types listed",
     NOTEST, [PC, D + "note.py", D + "chord.py", D + "key.py"], [("MusicXML import", PC), ("notes", D + "note.py"), ("labels", D + "chord.py")])

FO = U + "forces.py"
prop("C28", "Forces written in a score are read as exactly the changes and labels they name",
     "A label or lyric of a MuseScore file reading !C, =C, !K or =K forces a chord change, no chord change, a key change or no key change at its position; C= with a root, a chord type and optionally an inversion forces that chord (root position if no inversion is given), and K= with a tonic (capital: major) that key. "
     "Every such text gives exactly one force of its kind, with its position, whether the score has annotations, lyrics or both; other texts give none. "
     "A forced position becomes the index of the first note starting there, keeping the forced label, and is refused with a ValueError exactly when no note starts there, also after the last note.",
     "every chord and key label, every mixture of labels and lyrics, every position of notes and forces within the bounds",
     NOTEST, [FO, U + "harmonic_utils.py"], [("forces", FO)], over=("inputs",))
CR = D + "corpus_reading.py"
prop("C29", "Loading a corpus keeps exactly its valid notes and labels, with their pieces",
     "Loading returns the pieces asked for (all, or the first few), their measures as played without repeats, and exactly their notes and labels that start inside one of these measures; labels which name no chord (empty or @none) or last no time are left out. "
     "Kept notes keep position and pitch and get the offset one duration after their onset, tied notes becoming one; labels last until the next kept one or the end of the piece. Nothing moves between pieces. "
     "Positions found only under their old column names (offset, onset) are used. Pieces without labels, or a corpus without any, load all the same.",
     "every measure length, pickup offset, position and duration within the bounds; repeats and endings; labels for all, some or no pieces; every number of pieces asked for",
     NOTEST, [CR, U + "corpus_utils.py", D + "corpus_constants.py"], [("loading", CR), ("cells", D + "corpus_constants.py")], over=("inputs", "configurations"))
DU = U + "data_utils.py"
prop("C30", "Selected pieces are loaded with their own score, labels, stored data and name",
     "Loading pieces, from MusicXML files or from a corpus, gives exactly the selected ones in the order of the selection (all by default), or the one asked for, which is refused with a ValueError exactly when it is not selected. "
     "Each piece is built from its own score or notes and measures, and its own labels if it has any, or from its own stored data if there are some, and is named by its own id and file; other files' missing labels change nothing. "
     "Settings read from a file are those written there, with enum values and chord reductions resolved. Aggregating corpora keeps each readable table's rows under the id of their piece. Averaged results are the means of each accuracy.",
     "every selection, every set of existing labels, stored pieces and tables within the bounds; every enum value; every averaged value",
     NOTEST, [DU, CR, EV], [("loading pieces", DU), ("aggregation", CR), ("averages", EV)], over=("inputs", "configurations", "fault_sequences"))
MO = "harmonic_inference/models/"
prop("C31", "Models are trained and judged on exactly the positions that count",
     "The loss a model is trained with, the validation loss and accuracy it logs, and the loss and accuracy of an evaluation are the mean loss and the percentage of right answers over exactly the positions that count, each with its own output and target, whatever the lengths, the padding and the size of the batches. "
     "Positions that count: chord changes and key changes with a target of 0 or 1 within the sequence (not -100), key sequences and chord classifications with a target (not -1), and for chord sequences each chord but the first unless the key changes there, judged on the output of the chord before it. "
     "The network is given each item's own rows and length.",
     "every target, ignored position, key change, network output, length and batch size within the bounds",
     NOTEST, [MO + "chord_classifier_models.py", MO + "chord_sequence_models.py", MO + "chord_transition_models.py", MO + "key_sequence_models.py", MO + "key_transition_models.py"],
     [("training, validation and evaluation", MO + "chord_sequence_models.py"), ("ignored targets", MO + "chord_classifier_models.py")], over=("inputs", "configurations"))
prop("C32", "Networks fit their data and each other, and batching changes nothing",
     "The output for a sequence does not depend on the other sequences of its batch nor on padding, in batches of any size including one; stepping through a sequence while handing on the state gives the outputs of the whole sequence. "
     "A network made for some pitch type, reduction and use of inversions accepts the items of the dataset made with its own settings and has one output per label of that vocabulary. "
     "Components are joined exactly when pitch and piece types that one hands to another agree, and none is missing or of another kind. "
     "Every option of the command line sets that parameter of the joint model and no other; thresholds in the wrong order are refused.",
     "every input, length and batch composition within the bounds; every combination of representations, component types and options",
     NOTEST, [MO + "chord_classifier_models.py", MO + "chord_sequence_models.py", MO + "chord_transition_models.py", MO + "key_sequence_models.py", MO + "key_transition_models.py", JM],
     [("networks", MO + "chord_classifier_models.py"), ("joint model", JM)], over=("inputs", "configurations"))
prop("C33", "The scripts do exactly what their options say, for every piece",
     "annotate.py makes the joint model with exactly the hyperparameters given on the command line, or with the published ones of the chosen CSM version when --defaults or --fh-defaults is given, labels every piece loaded for the given input, and writes the labels of each piece for which a labelling was found to a table of its own in the output directory, at the piece's path, whatever the other pieces are called and whether or not they could be labelled. "
     "write_to_score.py puts every table onto the score at the same place, once, even if another cannot be written. grid_search.py prints exactly one command per combination of the values given, each of which test.py reads as that combination with every other option passed on, and each with its own output directory. "
     "create_h5_data.py refuses negative or all-zero proportions, normalises the others, uses exactly the pieces of the corpora named, and stores the pieces and the data of every kind of each split under that split's name and seed with its own file ids. "
     "train.py trains the kind of model asked for, with the given learning rate and settings, on the training and validation data stored for it under the given seed, and the initial-chord prior on the first chords of the training pieces; create_ml_course_data.py writes exactly the key and chord sequences of each composer's pieces and the labels occurring in them.",
     "every value of the hyperparameters, learning rate and proportions; every combination of piece names, outcomes, options and splits within the bounds",
     NOTEST, ["annotate.py", "write_to_score.py", "grid_search.py", "create_h5_data.py", "train.py", "create_ml_course_data.py", JM],
     [("scripts", "annotate.py")], over=("inputs", "configurations"))
