From 7027c2be1510878b1d6e0342502be80d431557e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:43 +0000
Subject: [PATCH 01/50] fix: decode key change vectors to a KeyMode, not an
 array of KeyModes

---
 harmonic_inference/data/vector_decoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/data/vector_decoding.py b/harmonic_inference/data/vector_decoding.py
index ca2ad2f..d7d2076 100644
--- a/harmonic_inference/data/vector_decoding.py
+++ b/harmonic_inference/data/vector_decoding.py
@@ -105,7 +105,7 @@ def decode_key_change_vector(key_change_vector: np.array) -> Key:
         relative_tonic += MIN_KEY_CHANGE_INTERVAL_TPC
 
     # Absolute mode of next key
-    key_mode = np.array(KeyMode)[key_change_vector[-2:] == 1]
+    key_mode = np.array(KeyMode)[key_change_vector[-2:] == 1][0]
 
     print(f"Relative tonic: {relative_tonic}, Mode: {key_mode}")
 
-- 
2.43.0


From b595f7bd6289d30dca8cbf574cfefe2a93629d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:43 +0000
Subject: [PATCH 02/50] fix: keep chord types that a reduction maps to
 themselves

---
 harmonic_inference/data/vector_decoding.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/harmonic_inference/data/vector_decoding.py b/harmonic_inference/data/vector_decoding.py
index d7d2076..a60c3ba 100644
--- a/harmonic_inference/data/vector_decoding.py
+++ b/harmonic_inference/data/vector_decoding.py
@@ -445,9 +445,6 @@ def reduce_chord_types(
     new_chord_type_vectors = np.zeros_like(chord_type_vectors)
 
     for from_type, to_type in reduction.items():
-        if from_type == to_type:
-            continue
-
         from_index = from_type.value
         to_index = to_type.value
 
-- 
2.43.0


From fc9a6efcf1b9ad38c3e31baca98a1fc82f3391ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:16 +0000
Subject: [PATCH 03/50] fix: MIDI note number of MIDI-typed notes uses 12
 pitches per octave

---
 harmonic_inference/data/note.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/data/note.py b/harmonic_inference/data/note.py
index d1c8402..36524cc 100644
--- a/harmonic_inference/data/note.py
+++ b/harmonic_inference/data/note.py
@@ -125,7 +125,7 @@ class Note:
             The MIDI note number of this Note's pitch.
         """
         if self.pitch_type == PitchType.MIDI:
-            return NUM_PITCHES[PitchType.TPC] * self.octave + self.pitch_class
+            return NUM_PITCHES[PitchType.MIDI] * self.octave + self.pitch_class
 
         midi_pitch_class = get_pitch_from_string(
             get_pitch_string(self.pitch_class, self.pitch_type), PitchType.MIDI
-- 
2.43.0


From cba6e153bebdd7207a4a8a07b4b960a8fea5b83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:16 +0000
Subject: [PATCH 04/50] fix: decode note vectors according to the layout they
 are encoded with

---
 harmonic_inference/data/vector_decoding.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/harmonic_inference/data/vector_decoding.py b/harmonic_inference/data/vector_decoding.py
index a60c3ba..f7974f9 100644
--- a/harmonic_inference/data/vector_decoding.py
+++ b/harmonic_inference/data/vector_decoding.py
@@ -63,17 +63,21 @@ def decode_note_vector(note_vector: np.array) -> Note:
     offset_level = np.where(offset_level_vector == 1)[0][0]
 
     current_idx += 4
-    mc, onset, dur, dur_from_prev, dur_to_next = note_vector[current_idx : current_idx + 3]
-    is_min = note_vector[-1] == 1
+    onset, offset, dur, dur_from_prev, dur_to_next = note_vector[current_idx : current_idx + 5]
+
+    current_idx += 5
+    is_min = note_vector[current_idx] == 1
 
     print(f"Pitch: {get_pitch_string(pitch, pitch_type)}, octave {octave}")
     print(f"Onset level: {onset_level}")
     print(f"Offset level: {offset_level}")
-    print(f"Onset position: ({mc}, {onset})")
+    print(f"Onset position: {onset}, Offset position: {offset}")
     print(f"Duration: {dur} (from prev: {dur_from_prev}, to_next: {dur_to_next}")
-    print(f"Is{' not ' if is_min else ' '}lowest pitch")
+    print(f"Is{' ' if is_min else ' not '}lowest pitch")
 
-    return Note(pitch, octave, onset, onset_level, dur, None, offset_level, pitch_type)
+    return Note(
+        pitch, octave, onset, onset_level, dur, offset, offset_level, pitch_type, mc_onset=onset
+    )
 
 
 def decode_key_change_vector(key_change_vector: np.array) -> Key:
-- 
2.43.0


From d40082d1c9000f29e36cebb3d019132ce2304732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:16 +0000
Subject: [PATCH 05/50] fix: refuse note vector transpositions that leave the
 pitch range

---
 harmonic_inference/data/vector_decoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/data/vector_decoding.py b/harmonic_inference/data/vector_decoding.py
index f7974f9..0581204 100644
--- a/harmonic_inference/data/vector_decoding.py
+++ b/harmonic_inference/data/vector_decoding.py
@@ -563,7 +563,7 @@ def transpose_note_vector(
     old_pitch = np.arange(NUM_PITCHES[pitch_type])[np.where(note_vector == 1)[0][0]]
     new_pitch = old_pitch + interval
 
-    if not (0 <= old_pitch < NUM_PITCHES[pitch_type]):
+    if not (0 <= new_pitch < NUM_PITCHES[pitch_type]):
         raise ValueError(
             f"Transposed note {decode_note_vector(note_vector)} + {interval} "
             f"outside of valid range (0 - {NUM_PITCHES[pitch_type]}"
-- 
2.43.0


From ac13507009c0a9b1e4b9980c3f737b9f6d14ed61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:24 +0000
Subject: [PATCH 06/50] fix: convert MIDI black-key pitches to TPC by picking
 one of their spellings

---
 harmonic_inference/utils/harmonic_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/harmonic_utils.py b/harmonic_inference/utils/harmonic_utils.py
index 770bd5e..a26a884 100755
--- a/harmonic_inference/utils/harmonic_utils.py
+++ b/harmonic_inference/utils/harmonic_utils.py
@@ -1021,7 +1021,7 @@ def get_pitch_from_string(pitch_string: str, pitch_type: PitchType) -> int:
     pitch : int
         An integer representing the given pitch string as the given type.
     """
-    if pitch_type == PitchType.MIDI and "/" in pitch_string:
+    if "/" in pitch_string:
         pitch_string = pitch_string.split("/")[0]
 
     accidental_adjustment, pitch_string = get_accidental_adjustment(pitch_string, in_front=False)
-- 
2.43.0


From 09963c8d51e18bdf3f0e6a107d1ececa52323f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:13 +0000
Subject: [PATCH 07/50] fix: find the first and last measure and chord of a
 corpus with a single piece

---
 harmonic_inference/utils/corpus_utils.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/harmonic_inference/utils/corpus_utils.py b/harmonic_inference/utils/corpus_utils.py
index ca41395..c3a91bf 100755
--- a/harmonic_inference/utils/corpus_utils.py
+++ b/harmonic_inference/utils/corpus_utils.py
@@ -71,9 +71,11 @@ def remove_repeats(measures: pd.DataFrame, remove_unreachable: bool = True) -> p
 
     # Find potential last measures of each piece
     last_measures = (next_lengths == 0) | [-1 in n for n in measures["next"]]  # Default case
-    last_measures |= np.roll(
+    file_last_measures = np.roll(
         measures.index.get_level_values("file_id").to_numpy(), -1
     ) != measures.index.get_level_values("file_id")
+    file_last_measures[-1:] = True  # np.roll wraps around: a single file has no change of file_id
+    last_measures |= file_last_measures
 
     next_lengths[last_measures] = 0
 
@@ -97,6 +99,7 @@ def remove_repeats(measures: pd.DataFrame, remove_unreachable: bool = True) -> p
         start_measures = np.roll(
             measures.index.get_level_values("file_id").to_numpy(), 1
         ) != measures.index.get_level_values("file_id")
+        start_measures[:1] = True  # np.roll wraps around: a single file has no change of file_id
         start_indices = list(measures.index.to_numpy()[start_measures])
 
         # Save to reset type later. Needs to be nullable for the merge to work
@@ -179,10 +182,11 @@ def add_chord_metrical_data(chords: pd.DataFrame, measures: pd.DataFrame) -> pd.
     chords.loc[:, f"{CHORD_ONSET_BEAT}_next"] = chords[CHORD_ONSET_BEAT].shift(-1)
 
     # For the last chord of each piece, it is more complicated
-    last_chords = chords.loc[
-        chords.index.get_level_values("file_id")
-        != np.roll(chords.index.get_level_values("file_id"), -1)
-    ]
+    last_chords_mask = chords.index.get_level_values("file_id") != np.roll(
+        chords.index.get_level_values("file_id"), -1
+    )
+    last_chords_mask[-1:] = True  # np.roll wraps around: a single file has no change of file_id
+    last_chords = chords.loc[last_chords_mask]
     last_measures = measures.loc[measures.next.isnull()]
     last_merged = pd.merge(
         last_chords.reset_index(),
-- 
2.43.0


From e73dafea3eb474e045e95414f04c2dc151287619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:08 +0000
Subject: [PATCH 08/50] fix: an emptied HashedBeam can be iterated and reused

---
 harmonic_inference/utils/beam_search_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/beam_search_utils.py b/harmonic_inference/utils/beam_search_utils.py
index d91cc34..6a1d4fd 100644
--- a/harmonic_inference/utils/beam_search_utils.py
+++ b/harmonic_inference/utils/beam_search_utils.py
@@ -1095,7 +1095,7 @@ class HashedBeam(Beam):
         Empty this beam.
         """
         self.beam = []
-        self.state_dict = []
+        self.state_dict = {}
 
     def __iter__(self) -> Iterator[State]:
         return self.state_dict.values().__iter__()
-- 
2.43.0


From ef32f9484a4820f8bcd3f854c36b44131721ca53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:53 +0000
Subject: [PATCH 09/50] fix: copying a State keeps its most recent CSM, KSM and
 KTM log-probabilities

---
 harmonic_inference/utils/beam_search_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/harmonic_inference/utils/beam_search_utils.py b/harmonic_inference/utils/beam_search_utils.py
index 6a1d4fd..5c1d9f6 100644
--- a/harmonic_inference/utils/beam_search_utils.py
+++ b/harmonic_inference/utils/beam_search_utils.py
@@ -158,6 +158,9 @@ class State:
             csm_log_prior=self.csm_log_prior,
             key_obj=self.key_obj,
             must_key_transition=self._must_key_transition,
+            most_recent_csm=self.most_recent_csm,
+            most_recent_ksm=self.most_recent_ksm,
+            most_recent_ktm=self.most_recent_ktm,
         )
 
     def chord_transition(
-- 
2.43.0


From 706f1f424da34bcd3de25973927d6f882dc550d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:53 +0000
Subject: [PATCH 10/50] fix: a chord whose bass note cannot be spelled is an
 invalid chord transition

---
 harmonic_inference/utils/beam_search_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/beam_search_utils.py b/harmonic_inference/utils/beam_search_utils.py
index 5c1d9f6..1a1f6cd 100644
--- a/harmonic_inference/utils/beam_search_utils.py
+++ b/harmonic_inference/utils/beam_search_utils.py
@@ -195,7 +195,11 @@ class State:
             result in an invalid State (chord root too far away from key tonic).
         """
         root, chord_type, inversion = labels["chord"][chord]
-        bass = hu.get_bass_note(chord_type, root, inversion, pitch_type)
+        try:
+            bass = hu.get_bass_note(chord_type, root, inversion, pitch_type)
+        except ValueError:
+            # The chord's bass note cannot be spelled in this pitch type
+            return None
 
         tonic = self.get_key(pitch_type, labels).relative_tonic
         relative_root = root - tonic
-- 
2.43.0


From fd1363defff523964704db81a4acac24b72c8f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:12 +0000
Subject: [PATCH 11/50] fix: read a pitch-based chord sequence prior from the
 minimum relative pitch, as it is trained

---
 harmonic_inference/utils/beam_search_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/harmonic_inference/utils/beam_search_utils.py b/harmonic_inference/utils/beam_search_utils.py
index 1a1f6cd..004af8b 100644
--- a/harmonic_inference/utils/beam_search_utils.py
+++ b/harmonic_inference/utils/beam_search_utils.py
@@ -480,6 +480,10 @@ class State:
                 reduction=output_reduction,
             )
 
+            if pitch_type == PitchType.TPC:
+                # The pitch-based prior begins at the minimum relative pitch
+                relative_root -= hc.MIN_RELATIVE_TPC
+
             chord_vector = hu.get_vector_from_chord_type(
                 chord_type,
                 pitch_type,
-- 
2.43.0


From 665e439b08c32be1c98475906fec00f0e343c172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:24 +0000
Subject: [PATCH 12/50] fix: count the duration of the first input only once in
 chord ranges starting at 0

---
 harmonic_inference/models/joint_model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index d283949..3ed86ad 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -714,8 +714,7 @@ class HarmonicInferenceModel:
             start = heapq.heappop(starts)
 
             running_log_prob = 0.0
-            # Special case for start == 0 because it is always invalid, but can have duration > 0
-            running_duration = self.duration_cache[start] if start == 0 else Fraction(0)
+            running_duration = Fraction(0)
             reached_end = True
             forced_chords = set()
             forced_keys = set()
-- 
2.43.0


From e66c632bc79639d103ba30d14e810b80ae065bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:24 +0000
Subject: [PATCH 13/50] fix: check every input of a chord range for conflicting
 forced chords and keys

---
 harmonic_inference/models/joint_model.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 3ed86ad..f3292ca 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -738,9 +738,6 @@ class HarmonicInferenceModel:
                 ),
                 start=start + 1,
             ):
-                if invalid[index]:
-                    continue
-
                 # Ensure range doesn't contain multiple different forced chords
                 if forced_chord != -1:
                     forced_chords.add(forced_chord)
@@ -755,6 +752,9 @@ class HarmonicInferenceModel:
                         reached_end = False
                         break
 
+                if invalid[index]:
+                    continue
+
                 # Ensure duration is still <= max_chord_length
                 running_duration += duration
                 if running_duration > self.max_chord_length:
@@ -778,6 +778,12 @@ class HarmonicInferenceModel:
                 # No change can occur
                 running_log_prob += no_change_log_prob
 
+            # The last input is part of a range which reaches the end of the piece
+            forced_chords |= set(self.forced_chord_ids[-1:]) - set([-1])
+            forced_keys |= set(self.forced_key_ids[-1:]) - set([-1])
+            if len(forced_chords) > 1 or len(forced_keys) > 1:
+                reached_end = False
+
             # Detect if a chord reaches the end of the piece and add it here if so
             if reached_end:
                 chord_ranges.append((start, len(change_probs)))
-- 
2.43.0


From cede3436e8edcc10d5d86530e8bc421ef1cea56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:01 +0000
Subject: [PATCH 14/50] fix: add the no-key-change log-probability to the state
 which does not change key

---
 harmonic_inference/models/joint_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index f3292ca..69f336e 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -1069,7 +1069,7 @@ class HarmonicInferenceModel:
                         to_ksm_states.append(change_state)
 
                 if can_not_change:
-                    change_state.add_ktm_log_prob(no_change_log_prob * range_length)
+                    state.add_ktm_log_prob(no_change_log_prob * range_length)
                     if current_start == 0 or all_states[state.change_index].fits_in_beam(
                         state, check_hash=True
                     ):
-- 
2.43.0


From c9fcc5149d35b33ab7635901ccae6768eda44d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:01 +0000
Subject: [PATCH 15/50] fix: only skip a range as not fitting into a beam which
 is full

---
 harmonic_inference/models/joint_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 69f336e..c13673f 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -972,7 +972,7 @@ class HarmonicInferenceModel:
 
                 if (
                     current_start != 0
-                    and len(all_states[range_end]) > 0
+                    and len(all_states[range_end]) >= self.beam_size
                     and all_states[range_end].beam[0].log_prob >= state.log_prob + range_log_prob
                 ):
                     # Quick exit if range will never get into resulting beam
-- 
2.43.0


From 23e5a2cc09711603612ef55ac27f45754751cf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:01 +0000
Subject: [PATCH 16/50] fix: refuse invalid forced labels with the
 ArgumentError that is caught, not a TypeError

---
 harmonic_inference/models/joint_model.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index c13673f..b35a24f 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -392,12 +392,14 @@ class HarmonicInferenceModel:
 
             if len(forced_changes) > 0 and max(forced_changes) >= len(self.duration_cache):
                 raise ArgumentError(
+                    None,
                     f"Maximum forced change ({max(forced_changes)}) is beyond the end of the piece"
                     f" (maximum index {len(self.duration_cache) - 1})."
                 )
 
             if len(forced_non_changes) > 0 and max(forced_non_changes) >= len(self.duration_cache):
                 raise ArgumentError(
+                    None,
                     f"Maximum forced non-change ({max(forced_non_changes)}) is beyond the end of "
                     f"the piece (maximum index {len(self.duration_cache) - 1})."
                 )
@@ -405,6 +407,7 @@ class HarmonicInferenceModel:
             # Ensure that no index is both a forced change and a force non-change
             if len(forced_changes & forced_non_changes) > 0:
                 raise ArgumentError(
+                    None,
                     f"{forced_changes & forced_non_changes} are both forced {type_str} "
                     f"changes and forced {type_str} non-changes."
                 )
@@ -413,6 +416,7 @@ class HarmonicInferenceModel:
             for change_index in forced_changes:
                 if self.duration_cache[change_index - 1] == 0:
                     raise ArgumentError(
+                        None,
                         f"{change_index} is an invalid index for a forced change because it is not "
                         "the first note at its metrical postiion."
                     )
@@ -435,6 +439,7 @@ class HarmonicInferenceModel:
             for (start, end), label_id in forced_labels.items():
                 if label_id < 0 or label_id >= max_id:
                     raise ArgumentError(
+                        None,
                         f"Forced {type_str}_id {label_id} is outside of the valid range for "
                         f"{type_str}s (0-{max_id})."
                     )
@@ -442,7 +447,8 @@ class HarmonicInferenceModel:
                 valid_indexes = np.isin(forced_ids[start:end], [-1, label_id])
                 if not np.all(valid_indexes):
                     raise ArgumentError(
-                        f"The following indexes are forced to multiple different {type_str}s: ",
+                        None,
+                        f"The following indexes are forced to multiple different {type_str}s: "
                         f"{np.where(valid_indexes == False)[0] + start}",
                     )
 
@@ -455,6 +461,7 @@ class HarmonicInferenceModel:
                     and forced_ids[change_index] != -1
                 ):
                     raise ArgumentError(
+                        None,
                         f"Forced {type_str} change at index {change_index} but forced {type_str} "
                         f"is {forced_ids[change_index]} both before and after."
                     )
@@ -465,10 +472,11 @@ class HarmonicInferenceModel:
                     and -1 not in forced_ids[change_index - 1 : change_index + 1]
                 ):
                     raise ArgumentError(
+                        None,
                         f"Forced non {type_str} change at index {change_index} but forced "
                         f"{type_str} changes at that index are "
-                        f"({self.forced_chords[change_index - 1]} before and "
-                        f"{self.forced_chords[change_index]} after)."
+                        f"({forced_ids[change_index - 1]} before and "
+                        f"{forced_ids[change_index]} after)."
                     )
 
         # Second, check compatability between chord and key forces
@@ -477,6 +485,7 @@ class HarmonicInferenceModel:
         for change_index in self.forced_key_changes:
             if change_index in self.forced_chord_non_changes:
                 raise ArgumentError(
+                    None,
                     f"Index {change_index} has a forced key change, but a forced non-chord change."
                     " This is illegal: all key changes must be accompanied by a chord change."
                 )
@@ -486,6 +495,7 @@ class HarmonicInferenceModel:
                 and self.forced_chord_ids[change_index] != -1
             ):
                 raise ArgumentError(
+                    None,
                     f"Index {change_index} has a forced key change, but the chord is forced to id "
                     f"{self.forced_chord_ids[change_index]} both before and after."
                 )
@@ -497,6 +507,7 @@ class HarmonicInferenceModel:
                 and -1 not in self.forced_chord_ids[change_index]
             ):
                 raise ArgumentError(
+                    None,
                     f"Index {change_index} has a forced non-chord change, but the key changes from"
                     f" {self.forced_key_ids[change_index - 1]} to "
                     f"{self.forced_key_ids[change_index]} at that index."
-- 
2.43.0


From a8de3260287253078cbdd9ed42096a82072023f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:01 +0000
Subject: [PATCH 17/50] fix: check forced chord non-changes against the forced
 keys around them

---
 harmonic_inference/models/joint_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index b35a24f..51cc3fd 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -504,7 +504,7 @@ class HarmonicInferenceModel:
         for change_index in self.forced_chord_non_changes:
             if (
                 self.forced_key_ids[change_index - 1] != self.forced_key_ids[change_index]
-                and -1 not in self.forced_chord_ids[change_index]
+                and -1 not in self.forced_key_ids[change_index - 1 : change_index + 1]
             ):
                 raise ArgumentError(
                     None,
-- 
2.43.0


From d7905f600a72203315f53fd6ae38b09a35413540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:22 +0000
Subject: [PATCH 18/50] fix: do not rejoin chords across different forced keys

---
 harmonic_inference/models/joint_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 51cc3fd..1c3ca44 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -1058,6 +1058,9 @@ class HarmonicInferenceModel:
                 forced_key_ids = set(
                     self.forced_key_ids[state.prev_state.change_index : state.change_index]
                 ) - set([-1])
+                if len(forced_key_ids) > 1:
+                    # Rejoining has put multiple different forced keys into a single chord
+                    continue
                 if len(forced_key_ids) > 0:
                     forced_key_id = list(forced_key_ids)[0]
                     if state.key == forced_key_id:
-- 
2.43.0


From 9e9942f92dea472560401cc92990407950a71927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:22 +0000
Subject: [PATCH 19/50] fix: enforce forced key changes and non-changes

---
 harmonic_inference/models/joint_model.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 1c3ca44..f3b91d2 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -674,7 +674,8 @@ class HarmonicInferenceModel:
             A List of the chord change probability on each input of the given Piece. This
             will be modified in place.
         """
-        change_probs[list(self.forced_chord_changes)] = 1.0
+        # All key changes must be accompanied by a chord change
+        change_probs[list(self.forced_chord_changes | self.forced_key_changes)] = 1.0
         change_probs[list(self.forced_chord_non_changes)] = 0.0
 
     def get_chord_ranges(
@@ -1071,6 +1072,15 @@ class HarmonicInferenceModel:
                         can_not_change = False
                         can_change = True  # Drop the min_key_change_prob requirement
 
+                # Enforce forced key changes and non-changes at the start of this chord
+                if state.prev_state.change_index in self.forced_key_changes:
+                    can_not_change = False
+                    can_change = True
+                elif state.prev_state.change_index in self.forced_key_non_changes:
+                    can_change = False
+                    if len(forced_key_ids) == 0:
+                        can_not_change = state.is_valid(check_key=True)
+
                 # Make a copy only if necessary
                 change_state = state.copy() if can_change and can_not_change else state
 
-- 
2.43.0


From 44d6deb020a93741572cead8f87a418e0dea05d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:42 +0000
Subject: [PATCH 20/50] fix: never rejoin two chord ranges across a forced
 change

---
 harmonic_inference/models/joint_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index f3b91d2..cb501b1 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -1003,6 +1003,10 @@ class HarmonicInferenceModel:
                 # Branch
                 for chord_id in chord_priors_argsort[:max_index]:
                     if chord_id == state.chord:
+                        if current_start in self.forced_chord_changes | self.forced_key_changes:
+                            # A forced change is never undone
+                            continue
+
                         # Same chord as last range: rejoin a split range
                         new_state = state.rejoin(
                             range_end,
-- 
2.43.0


From e7d7aad0d658397c62feb3611cb5e5f40b3e6c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:12 +0000
Subject: [PATCH 21/50] fix: read pieces with a single note or a single chord

---
 harmonic_inference/data/piece.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/data/piece.py b/harmonic_inference/data/piece.py
index 1ec1f9a..f8902b0 100755
--- a/harmonic_inference/data/piece.py
+++ b/harmonic_inference/data/piece.py
@@ -635,8 +635,8 @@ def get_score_piece_from_data_frames(
         ]
     )
     notes, note_ilocs = np.hsplit(notes_list, 2)
-    notes = np.squeeze(notes)
-    note_ilocs = np.squeeze(note_ilocs).astype(int)
+    notes = np.squeeze(notes, axis=1)
+    note_ilocs = np.squeeze(note_ilocs, axis=1).astype(int)
 
     if chords_df is None:
         # Quick check for pieces without ground truth chords
@@ -670,8 +670,8 @@ def get_score_piece_from_data_frames(
         ]
     )
     chords_list, chord_ilocs = np.hsplit(chords_list, 2)
-    chords_list = np.squeeze(chords_list)
-    chord_ilocs = np.squeeze(chord_ilocs).astype(int)
+    chords_list = np.squeeze(chords_list, axis=1)
+    chord_ilocs = np.squeeze(chord_ilocs, axis=1).astype(int)
 
     # Remove accidentally repeated chords
     non_repeated_mask = get_reduction_mask(
-- 
2.43.0


From 97c43809cefebe892b965727253ce07a35c3eb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:08 +0000
Subject: [PATCH 22/50] fix: chords within a range which starts before the
 first chord

---
 harmonic_inference/data/piece.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/data/piece.py b/harmonic_inference/data/piece.py
index f8902b0..bb8162d 100755
--- a/harmonic_inference/data/piece.py
+++ b/harmonic_inference/data/piece.py
@@ -280,12 +280,13 @@ class Piece:
         start_index = bisect.bisect_left(chord_change_indices, start)
         if start_index == len(chord_change_indices) or chord_change_indices[start_index] != start:
             # Subtract 1 to get end of partial chord if exact match is not found
-            start_index -= 1
+            # (there is no such partial chord before the first chord)
+            start_index = max(start_index - 1, 0)
 
         if stop is None:
             return chords[start_index:]
 
-        end_index = bisect.bisect_left(chord_change_indices, stop, lo=max(start_index, 0))
+        end_index = bisect.bisect_left(chord_change_indices, stop, lo=start_index)
 
         return chords[start_index:end_index]
 
-- 
2.43.0


From dfa9496ce5b878c44ff5235a7b36d322dfe783d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:57 +0000
Subject: [PATCH 23/50] fix: label tables of pieces without (or with late)
 ground truth

---
 harmonic_inference/utils/eval_utils.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/harmonic_inference/utils/eval_utils.py b/harmonic_inference/utils/eval_utils.py
index 30ba8dd..b12228a 100755
--- a/harmonic_inference/utils/eval_utils.py
+++ b/harmonic_inference/utils/eval_utils.py
@@ -742,7 +742,7 @@ def get_label_df(
     labels_list = []
 
     gt_chord_labels = np.full(len(piece.get_inputs()), -1, dtype=int)
-    if len(piece.get_chords()) > 0:
+    if piece.get_chords() is not None and len(piece.get_chords()) > 0:
         gt_chords = piece.get_chords()
         gt_changes = piece.get_chord_change_indices()
         for chord, start, end in zip(gt_chords, gt_changes, gt_changes[1:]):
@@ -759,10 +759,9 @@ def get_label_df(
         estimated_chord_labels[start:end] = chord
 
     gt_key_labels = np.full(len(piece.get_inputs()), -1, dtype=int)
-    if len(piece.get_keys()) > 0:
+    if piece.get_keys() is not None and len(piece.get_keys()) > 0:
         gt_keys = piece.get_keys()
         gt_changes = piece.get_key_change_input_indices()
-        gt_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
         for key, start, end in zip(gt_keys, gt_changes, gt_changes[1:]):
             gt_key_labels[start:end] = key.get_one_hot_index()
         gt_key_labels[gt_changes[-1] :] = gt_keys[-1].get_one_hot_index()
@@ -791,8 +790,9 @@ def get_label_df(
         if duration == 0:
             continue
 
-        gt_chord_string = chord_label_list[gt_chord_label]
-        gt_key_string = key_label_list[gt_key_label]
+        # Inputs without ground truth (-1) match no label
+        gt_chord_string = None if gt_chord_label == -1 else chord_label_list[gt_chord_label]
+        gt_key_string = None if gt_key_label == -1 else key_label_list[gt_key_label]
 
         est_chord_string = chord_label_list[est_chord_label]
         est_key_string = key_label_list[est_key_label]
@@ -807,7 +807,11 @@ def get_label_df(
             continue
 
         if gt_key_string != prev_gt_key_string or est_key_string != prev_est_key_string:
-            gt_tonic, gt_mode = hu.get_key_from_one_hot_index(int(gt_key_label), tonic_type)
+            gt_tonic, gt_mode = (
+                hu.get_key_from_one_hot_index(int(gt_key_label), tonic_type)
+                if gt_key_string is not None
+                else (None, None)
+            )
             est_tonic, est_mode = hu.get_key_from_one_hot_index(int(est_key_label), tonic_type)
 
             full_key_distance = get_key_distance(
@@ -843,14 +847,16 @@ def get_label_df(
             )
 
         if gt_chord_string != prev_gt_chord_string or est_chord_string != prev_est_chord_string:
-            gt_root, gt_chord_type, gt_inversion = hu.get_chord_from_one_hot_index(
-                gt_chord_label, root_type, use_inversions=True
-            )
-
             est_root, est_chord_type, est_inversion = hu.get_chord_from_one_hot_index(
                 est_chord_label, root_type, use_inversions=True
             )
 
+            gt_root, gt_chord_type, gt_inversion = (
+                hu.get_chord_from_one_hot_index(gt_chord_label, root_type, use_inversions=True)
+                if gt_chord_string is not None
+                else (None, est_chord_type, None)
+            )
+
             full_chord_distance = get_chord_distance(
                 gt_root,
                 gt_chord_type,
-- 
2.43.0


From b975ef520f1a09b8d7052745bc624a955104414b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:22 +0000
Subject: [PATCH 24/50] fix: load an initial chord model with a reduction or
 without inversions

---
 .../models/initial_chord_models.py            | 25 ++++++++++++-------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/harmonic_inference/models/initial_chord_models.py b/harmonic_inference/models/initial_chord_models.py
index dab7fa7..b7d4bb5 100644
--- a/harmonic_inference/models/initial_chord_models.py
+++ b/harmonic_inference/models/initial_chord_models.py
@@ -6,8 +6,9 @@ from typing import Dict, List, Union
 
 import numpy as np
 
+import harmonic_inference.utils.harmonic_constants as hc
 from harmonic_inference.data.chord import Chord, get_chord_vector_length
-from harmonic_inference.data.data_types import NO_REDUCTION, ChordType, KeyMode
+from harmonic_inference.data.data_types import NO_REDUCTION, ChordType, KeyMode, PitchType
 from harmonic_inference.data.piece import Piece
 from harmonic_inference.utils.harmonic_utils import (
     get_chord_from_one_hot_index,
@@ -107,12 +108,14 @@ class SimpleInitialChordModel:
 
                 self.reduction = new_reduction
 
-        if reduction is not None or not use_inversions:
-            num_labels = get_chord_label_list(
-                self.PITCH_TYPE,
-                use_inversions,
-                relative=True,
-                reduction=reduction,
+        if self.reduction != reduction_present or self.use_inversions != inversions_present:
+            num_labels = len(
+                get_chord_label_list(
+                    self.PITCH_TYPE,
+                    self.use_inversions,
+                    relative=True,
+                    reduction=self.reduction,
+                )
             )
             self.major_prior = np.zeros(num_labels)
             self.minor_prior = np.zeros(num_labels)
@@ -128,14 +131,18 @@ class SimpleInitialChordModel:
                     use_inversions=inversions_present,
                 ),
             ):
+                if self.PITCH_TYPE == PitchType.TPC:
+                    # One-hot indexes count relative roots from the minimum one
+                    root -= hc.MIN_RELATIVE_TPC
+
                 index = get_chord_one_hot_index(
                     chord_type,
                     root,
                     self.PITCH_TYPE,
                     inversion=inversion,
-                    use_inversion=use_inversions,
+                    use_inversion=self.use_inversions,
                     relative=True,
-                    reduction=reduction,
+                    reduction=self.reduction,
                 )
 
                 self.major_prior[index] += major_prior
-- 
2.43.0


From 8e40d1ac0cca5e423104ec888419d6acdfbc7c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:22 +0000
Subject: [PATCH 25/50] fix: evaluate an initial chord model in its own label
 layout

---
 harmonic_inference/models/initial_chord_models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/models/initial_chord_models.py b/harmonic_inference/models/initial_chord_models.py
index b7d4bb5..4ce0c59 100644
--- a/harmonic_inference/models/initial_chord_models.py
+++ b/harmonic_inference/models/initial_chord_models.py
@@ -194,7 +194,10 @@ class SimpleInitialChordModel:
 
         for piece in pieces:
             first_chord_one_hot = piece.get_chords()[0].get_one_hot_index(
-                relative=True, use_inversion=True, pad=False
+                relative=True,
+                use_inversion=self.use_inversions,
+                pad=False,
+                reduction=self.reduction,
             )
 
             if piece.get_keys()[0].relative_mode == KeyMode.MAJOR:
-- 
2.43.0


From aebdf43c4af8a69a4dac2f0c2484f3cc7846070a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:18 +0000
Subject: [PATCH 26/50] fix: build key dataset items from a padded copy of the
 piece's inputs

The items of a piece share its stored input. When no padding was needed the key
change replacement was written into (or past the end of) the stored input.
---
 harmonic_inference/data/datasets.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/data/datasets.py b/harmonic_inference/data/datasets.py
index e9d8284..49df165 100755
--- a/harmonic_inference/data/datasets.py
+++ b/harmonic_inference/data/datasets.py
@@ -826,6 +826,7 @@ class KeyHarmonicDataset(HarmonicDataset):
             assert self.h5_path is not None, "Data must be either in ram or in an h5_file."
             with h5py.File(self.h5_path, "r") as h5_file:
                 piece_input = h5_file["inputs"][piece_idx]
+                max_input_length = len(piece_input)
                 input_length = h5_file["input_lengths"][item]
                 start_index = h5_file["input_lengths"][item - 1] if prev_in_piece else 0
                 key_change_replacement = h5_file["key_change_replacements"][item]
@@ -837,13 +838,15 @@ class KeyHarmonicDataset(HarmonicDataset):
             start_index = self.input_lengths[item - 1] if prev_in_piece else 0
             if self.max_input_length is None:
                 self.max_input_length = np.max(self.input_lengths)
+            max_input_length = self.max_input_length
             key_change_replacement = self.key_change_replacements[item]
             target = self.targets[item]
 
-            if len(piece_input) < self.max_input_length:
-                padded_input = np.zeros((self.max_input_length + 1, piece_input.shape[1]))
-                padded_input[: len(piece_input)] = piece_input
-                piece_input = padded_input
+        # Use a copy (the stored input is shared by all of the items of a piece),
+        # with space for the key_change_replacement
+        padded_input = np.zeros((max_input_length + 1, piece_input.shape[1]))
+        padded_input[: len(piece_input)] = piece_input
+        piece_input = padded_input
 
         # Create target list (if KTD)
         if isinstance(self, KeyTransitionDataset):
-- 
2.43.0


From 3d23ae494e9276c988bf7ea73879b82a3738c703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:18 +0000
Subject: [PATCH 27/50] fix: load the whole input of each piece of a key
 dataset from h5

The lengths of these datasets are per item, not per piece: pieces were cut at the
length of an unrelated item.
---
 harmonic_inference/data/datasets.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/data/datasets.py b/harmonic_inference/data/datasets.py
index 49df165..36056d3 100755
--- a/harmonic_inference/data/datasets.py
+++ b/harmonic_inference/data/datasets.py
@@ -1116,12 +1116,17 @@ def h5_to_dataset(
                     lengths = np.array(h5_file[f"{data}_lengths"])
                     data_list = []
 
+                    # With piece_lengths, there is one input per piece, and many lengths per input
+                    stored_lengths = lengths
+                    if data == "input" and "piece_lengths" in h5_file:
+                        stored_lengths = lengths[np.cumsum(h5_file["piece_lengths"]) - 1]
+
                     for chunk_start in tqdm(
-                        range(0, len(lengths), chunk_size),
+                        range(0, len(stored_lengths), chunk_size),
                         desc=f"Loading {data} chunks from {h5_path}",
                     ):
                         chunk = h5_file[f"{data}s"][chunk_start : chunk_start + chunk_size]
-                        chunk_lengths = lengths[chunk_start : chunk_start + chunk_size]
+                        chunk_lengths = stored_lengths[chunk_start : chunk_start + chunk_size]
                         data_list.extend(
                             [
                                 np.array(item[:length], dtype=np.float16)
-- 
2.43.0


From 3310d4626b4386e85f4b45115f6a1a67be3c1f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:18 +0000
Subject: [PATCH 28/50] fix: load target pitch type and piece lengths when data
 is too large for RAM

---
 harmonic_inference/data/datasets.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/data/datasets.py b/harmonic_inference/data/datasets.py
index 36056d3..58e6506 100755
--- a/harmonic_inference/data/datasets.py
+++ b/harmonic_inference/data/datasets.py
@@ -1110,6 +1110,11 @@ def h5_to_dataset(
         dataset.in_ram = False
         chunk_size = dataset.chunk_size
 
+        # These are needed even when the rest of the data is read from the h5 file
+        for key in ["piece_lengths", "key_change_replacements", "target_pitch_type"]:
+            if key in h5_file:
+                setattr(dataset, key, np.array(h5_file[key]))
+
         try:
             for data in ["input", "target"]:
                 if f"{data}_lengths" in h5_file:
@@ -1140,10 +1145,6 @@ def h5_to_dataset(
                 else:
                     setattr(dataset, f"{data}s", np.array(h5_file[f"{data}s"], dtype=np.float16))
 
-            for key in ["piece_lengths", "key_change_replacements", "target_pitch_type"]:
-                if key in h5_file:
-                    setattr(dataset, key, np.array(h5_file[key]))
-
             dataset.in_ram = True
 
         except MemoryError:
-- 
2.43.0


From 0b1a8a18ccd1bb6f03d4f52bea7fe59096a63731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:56 +0000
Subject: [PATCH 29/50] fix: reduce chord vectors which include key change
 vectors

The chord sequence and key datasets always append them, so any reduction raised
a ValueError.
---
 harmonic_inference/data/vector_decoding.py | 37 ++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/data/vector_decoding.py b/harmonic_inference/data/vector_decoding.py
index 0581204..eb5eb71 100644
--- a/harmonic_inference/data/vector_decoding.py
+++ b/harmonic_inference/data/vector_decoding.py
@@ -233,6 +233,39 @@ def infer_chord_vector_pitch_type(vector_length: int, pad: bool) -> PitchType:
     raise ValueError(f"Could not find valid pitch type for vector length {vector_length}.")
 
 
+def infer_chord_input_pitch_type(vector_length: int, pad: bool) -> PitchType:
+    """
+    Infer the pitch type used in a model's chord input vector of the given length with the
+    given padding. This may be either a plain chord vector, or a chord vector followed by a
+    key change vector and a key change flag.
+
+    Parameters
+    ----------
+    vector_length : int
+        The length of the vector.
+    pad : bool
+        Whether padding is used in the chord vector.
+
+    Returns
+    -------
+    pitch_type : PitchType
+        The pitch type used in the chord vector.
+
+    Raises
+    ------
+    ValueError
+        If no known PitchType results in the given vector length.
+    """
+    for tonic_type in PitchType:
+        key_vector_length = get_key_change_vector_length(tonic_type, one_hot=False) + 1
+        try:
+            return infer_chord_vector_pitch_type(vector_length - key_vector_length, pad)
+        except ValueError:
+            pass
+
+    return infer_chord_vector_pitch_type(vector_length, pad)
+
+
 def get_chord_vector_inversion_index(
     vector_length: int,
     pad: bool,
@@ -405,7 +438,7 @@ def remove_chord_inversions(tensor: np.array, pad: bool, pitch_type: PitchType =
         The pitch type used in the tensor. If known, this will speed up computation.
     """
     if pitch_type is None:
-        pitch_type = infer_chord_vector_pitch_type(len(tensor[0]), pad)
+        pitch_type = infer_chord_input_pitch_type(len(tensor[0]), pad)
 
     inversion_index = get_chord_vector_inversion_index(len(tensor[0]), pad, pitch_type=pitch_type)
 
@@ -441,7 +474,7 @@ def reduce_chord_types(
         return tensor
 
     if pitch_type is None:
-        pitch_type = infer_chord_vector_pitch_type(len(tensor[0]), pad)
+        pitch_type = infer_chord_input_pitch_type(len(tensor[0]), pad)
 
     chord_type_index = get_chord_vector_chord_type_index(len(tensor[0]), pad, pitch_type=pitch_type)
 
-- 
2.43.0


From b97dd8a15e304dd2b3fc1b1c053caaeecf81186f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:56 +0000
Subject: [PATCH 30/50] fix: reduce key and chord sequence model inputs during
 inference as in training

---
 harmonic_inference/data/datasets.py      |  4 ++++
 harmonic_inference/models/joint_model.py | 10 ++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/data/datasets.py b/harmonic_inference/data/datasets.py
index 58e6506..0cb1ae4 100755
--- a/harmonic_inference/data/datasets.py
+++ b/harmonic_inference/data/datasets.py
@@ -690,6 +690,10 @@ class ChordSequenceDataset(HarmonicDataset):
         if not self.use_inversions_input:
             remove_chord_inversions(data["inputs"], pad=False)
 
+        # During inference, we have no targets
+        if "targets" not in data:
+            return
+
         data["targets"] = reduce_chord_one_hots(
             data["targets"],
             False,
diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index cb501b1..cffaf96 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -1174,7 +1174,9 @@ class HarmonicInferenceModel:
             )
 
         # Generate KTM loader
-        reduce = ds.KeyTransitionDataset([], self.key_transition_model.get_dataset_kwargs()).reduce
+        reduce = ds.KeyTransitionDataset(
+            [], **self.key_transition_model.get_dataset_kwargs()
+        ).reduce
         ktm_dataset = ds.HarmonicDataset()
         ktm_dataset.inputs = ktm_inputs
         ktm_dataset.set_hidden_states(ktm_hidden_states)
@@ -1247,7 +1249,7 @@ class HarmonicInferenceModel:
             )
 
         # Generate KSM loader
-        reduce = ds.KeySequenceDataset([], self.key_sequence_model.get_dataset_kwargs()).reduce
+        reduce = ds.KeySequenceDataset([], **self.key_sequence_model.get_dataset_kwargs()).reduce
         ksm_dataset = ds.HarmonicDataset([])
         ksm_dataset.inputs = ksm_inputs
         ksm_dataset.set_hidden_states(ksm_hidden_states)
@@ -1381,8 +1383,8 @@ class HarmonicInferenceModel:
             )
 
         # Generate CSM loader
-        reduce = ds.ChordTransitionDataset(
-            [], self.key_transition_model.get_dataset_kwargs()
+        reduce = ds.ChordSequenceDataset(
+            [], **self.chord_sequence_model.get_dataset_kwargs()
         ).reduce
         csm_dataset = ds.HarmonicDataset([])
         csm_dataset.inputs = csm_inputs
-- 
2.43.0


From 3115ce825b87ffd03079e3f5068a49a0d951b88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:45 +0000
Subject: [PATCH 31/50] fix: keep added and removed pitches aligned after an
 added pitch

---
 harmonic_inference/utils/harmonic_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/harmonic_inference/utils/harmonic_utils.py b/harmonic_inference/utils/harmonic_utils.py
index a26a884..fd90cc2 100755
--- a/harmonic_inference/utils/harmonic_utils.py
+++ b/harmonic_inference/utils/harmonic_utils.py
@@ -227,6 +227,7 @@ def get_added_and_removed_pitches(
         if change[0] == "+":
             # Added pitch only - no deletion
             removed_pitches.append("")
+            continue
 
         _, new_change = get_accidental_adjustment(change, in_front=True)
 
-- 
2.43.0


From 3d973ca73801a39de49c96488b37843bcccf5655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:45 +0000
Subject: [PATCH 32/50] fix: keep all of a chord's added pitches

As a dict keyed by the replaced pitch, only the last of several additions (or of
several replacements of one pitch) was kept.
---
 harmonic_inference/utils/eval_utils.py     |  4 ++--
 harmonic_inference/utils/harmonic_utils.py | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/harmonic_inference/utils/eval_utils.py b/harmonic_inference/utils/eval_utils.py
index b12228a..24c11eb 100755
--- a/harmonic_inference/utils/eval_utils.py
+++ b/harmonic_inference/utils/eval_utils.py
@@ -174,7 +174,7 @@ def get_labels_df(piece: Piece, tpc_c: int = hc.TPC_C) -> pd.DataFrame:
         if chord.suspension is None:
             return "", ""
 
-        change_mapping = hu.get_added_and_removed_pitches(
+        changed_pitches = hu.get_added_and_removed_pitches(
             chord.root,
             chord.chord_type,
             chord.suspension,
@@ -184,7 +184,7 @@ def get_labels_df(piece: Piece, tpc_c: int = hc.TPC_C) -> pd.DataFrame:
 
         mappings_midi = []
         mappings_tpc = []
-        for orig, new in change_mapping.items():
+        for orig, new in changed_pitches:
             if orig == "":
                 orig_midi = ""
                 orig_tpc = ""
diff --git a/harmonic_inference/utils/harmonic_utils.py b/harmonic_inference/utils/harmonic_utils.py
index fd90cc2..fa1a680 100755
--- a/harmonic_inference/utils/harmonic_utils.py
+++ b/harmonic_inference/utils/harmonic_utils.py
@@ -144,9 +144,9 @@ def get_added_and_removed_pitches(
     changes: str,
     key_tonic_tpc: int,
     key_mode: KeyMode,
-) -> Dict[str, str]:
+) -> List[Tuple[str, str]]:
     """
-    Get a mapping of pitch alterations from the given chord. Pitches are given
+    Get a list of pitch alterations from the given chord. Pitches are given
     and returned with PitchType TPC because accidental-specific math is required
     to correctly apply accidentals.
 
@@ -165,9 +165,9 @@ def get_added_and_removed_pitches(
 
     Returns
     -------
-    changed_pitches : Dict[str, str]
-        A dictionary representing pitch alterations to the given chord. Each entry represents
-        a mapping of original_pitch -> new_pitch, represented as a string of their TPC integer.
+    changed_pitches : List[Tuple[str, str]]
+        A list representing pitch alterations to the given chord, in order. Each entry is a
+        pair (original_pitch, new_pitch), each represented as a string of their TPC integer.
         If original_pitch is empty, then the new_pitch is simply added. If new_pitch begins
         with "+", then it is added in an upper octave.
     """
@@ -253,7 +253,7 @@ def get_added_and_removed_pitches(
             # No removed pitch
             removed_pitches.append("")
 
-    return {removed: added for removed, added in zip(removed_pitches, added_pitches)}
+    return list(zip(removed_pitches, added_pitches))
 
 
 def get_chord_from_one_hot_index(
-- 
2.43.0


From c83f2bc23c996e532a001deefc368f3c48ae5fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:39 +0000
Subject: [PATCH 33/50] fix: offsets of MusicXML notes which start or end in an
 incomplete measure

---
 harmonic_inference/data/note.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/harmonic_inference/data/note.py b/harmonic_inference/data/note.py
index 36524cc..b07383f 100644
--- a/harmonic_inference/data/note.py
+++ b/harmonic_inference/data/note.py
@@ -473,17 +473,14 @@ class Note:
 
         # Find the offset measure
         offset_measure = onset_measure
-        tmp_duration = note_duration + note_start - onset_measure[MEASURE_OFFSET]
+        tmp_duration = note_duration + note_start
         while tmp_duration >= offset_measure["act_dur"] and not pd.isna(offset_measure["next"]):
             tmp_duration -= offset_measure["act_dur"]
             offset_measure = measures_df.loc[measures_df["mc"] == offset_measure["next"]].iloc[0]
 
-        onset_beat = note_start
+        onset_beat = note_start + onset_measure[MEASURE_OFFSET]
         offset_beat = tmp_duration + offset_measure[MEASURE_OFFSET]
 
-        onset_beat += onset_measure[MEASURE_OFFSET]
-        offset_beat += offset_measure[MEASURE_OFFSET]
-
         levels = [None, None]
 
         for i, (beat, measure) in enumerate(
-- 
2.43.0


From fa907fd25afe32ff320ea21cbb8d8d9e99880764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:53 +0000
Subject: [PATCH 34/50] fix: read MusicXML scores with a single measure

---
 harmonic_inference/data/piece.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/data/piece.py b/harmonic_inference/data/piece.py
index bb8162d..60d41d6 100755
--- a/harmonic_inference/data/piece.py
+++ b/harmonic_inference/data/piece.py
@@ -777,7 +777,9 @@ def get_measures_df_from_music21_score(m21_score: music21.stream.Score) -> pd.Da
     mns = []
 
     # The start of the 2nd measure (the first full measure in the case of an anacrusis)
-    ts_epoch = Fraction(list(m21_score.measureOffsetMap().keys())[1] / 4)
+    # (a score with a single measure starts with a full one)
+    measure_starts = list(m21_score.measureOffsetMap().keys())
+    ts_epoch = Fraction(measure_starts[1] / 4) if len(measure_starts) > 1 else Fraction(0)
 
     # Default time signature
     time_signature = "4/4"
-- 
2.43.0


From 0e7e9127069ac87fe04711f83941db9e8365f003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:41 +0000
Subject: [PATCH 35/50] fix: forced positions after the last note raised
 IndexError rather than ValueError

---
 harmonic_inference/utils/forces.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/utils/forces.py b/harmonic_inference/utils/forces.py
index 7e04281..282c882 100644
--- a/harmonic_inference/utils/forces.py
+++ b/harmonic_inference/utils/forces.py
@@ -58,9 +58,10 @@ def convert_score_positions_to_note_indexes(
     for i, force in enumerate(forces):
         index = bisect.bisect_left(note_positions, force[:2])
 
-        if note_positions[index] != force[:2]:
+        if index == len(note_positions) or note_positions[index] != force[:2]:
             raise ValueError(
-                f"Position {force[:2]} is not a note onset. Closest is {note_positions[index]}"
+                f"Position {force[:2]} is not a note onset. Closest is "
+                f"{note_positions[min(index, len(note_positions) - 1)]}"
             )
 
         new_forces[i] = index if len(force) == 2 else (index, force[-1])
-- 
2.43.0


From cc53fc56665eba599ebef9bb325aa6188eb4eff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:41 +0000
Subject: [PATCH 36/50] fix: forced seventh chords and chords without an
 inversion could not be read from a score

---
 harmonic_inference/utils/forces.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/utils/forces.py b/harmonic_inference/utils/forces.py
index 282c882..8f84031 100644
--- a/harmonic_inference/utils/forces.py
+++ b/harmonic_inference/utils/forces.py
@@ -25,7 +25,13 @@ PITCH_REGEX = r"[A-Ga-g](#{0,2}|b{0,2})"
 
 CHORD_REGEX = re.compile(
     f"C=({PITCH_REGEX})"  # Root
-    "(" + "|".join(list(CHORD_TYPE_TO_STRING.values())).replace("+", "\\+") + ")"  # Chord type
+    "("
+    + "|".join(
+        # Longest first, so that (e.g.) MM7 is not matched as M
+        re.escape(string)
+        for string in sorted(CHORD_TYPE_TO_STRING.values(), key=len, reverse=True)
+    )
+    + ")"  # Chord type
     r"(_[0-3])?"  # Inversion
 )
 KEY_REGEX = re.compile(f"K={PITCH_REGEX}")
@@ -172,7 +178,7 @@ def extract_forces_from_musescore(
                 STRING_TO_CHORD_TYPE[label_df[2]],
                 get_pitch_from_string(label_df[0], PitchType.TPC),
                 PitchType.TPC,
-                inversion=0 if len(label_df[3]) == 0 else int(label_df[3][-1]),
+                inversion=0 if pd.isnull(label_df[3]) else int(label_df[3][-1]),
             ),
         )
         for mc, mn_onset, (_, label_df) in zip(
-- 
2.43.0


From 614bc29b8d49c2af5d2b226c45087976f831cfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:41 +0000
Subject: [PATCH 37/50] fix: forces could not be read from a score without
 lyrics

---
 harmonic_inference/utils/forces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/forces.py b/harmonic_inference/utils/forces.py
index 8f84031..414a47f 100644
--- a/harmonic_inference/utils/forces.py
+++ b/harmonic_inference/utils/forces.py
@@ -121,7 +121,7 @@ def extract_forces_from_musescore(
 
     chord_labels = score.mscx.get_chords(lyrics=True)
     chord_labels = chord_labels.loc[~chord_labels["lyrics"].isnull()]
-    chord_labels["label"] = chord_labels["lyrics"]
+    chord_labels["label"] = chord_labels["lyrics"].astype(str)
 
     chord_changes = pd.concat(
         [
-- 
2.43.0


From a5fbb9845fcd0184bf06fc7e1e5b62f0288e896b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:25 +0000
Subject: [PATCH 38/50] fix: load PieceType values from json as piece types

---
 harmonic_inference/utils/data_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/utils/data_utils.py b/harmonic_inference/utils/data_utils.py
index 79a549e..cb5e4c7 100644
--- a/harmonic_inference/utils/data_utils.py
+++ b/harmonic_inference/utils/data_utils.py
@@ -13,7 +13,7 @@ from tqdm import tqdm
 
 import harmonic_inference.models.initial_chord_models as icm
 from harmonic_inference.data.corpus_reading import load_clean_corpus_dfs
-from harmonic_inference.data.data_types import ChordType, PitchType
+from harmonic_inference.data.data_types import ChordType, PieceType, PitchType
 from harmonic_inference.data.piece import (
     Piece,
     get_measures_df_from_music21_score,
@@ -50,8 +50,10 @@ def load_kwargs_from_json(json_path: Union[Path, str, None]) -> Dict[str, Any]:
 
     for key, value in parsed_kwargs.items():
         if isinstance(value, str):
-            if value.startswith("PitchType") or value.startswith("PieceType"):
+            if value.startswith("PitchType"):
                 parsed_kwargs[key] = PitchType[value[10:]]
+            elif value.startswith("PieceType"):
+                parsed_kwargs[key] = PieceType[value[10:]]
 
         elif isinstance(value, dict) and "reduction" in key:
             parsed_kwargs[key] = {
-- 
2.43.0


From 706a95b682a52cd201a6da2b62b614b52b10b9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:25 +0000
Subject: [PATCH 39/50] fix: MusicXML files without labels shifted the labels
 of the files after them

---
 harmonic_inference/utils/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/data_utils.py b/harmonic_inference/utils/data_utils.py
index cb5e4c7..3c862b4 100644
--- a/harmonic_inference/utils/data_utils.py
+++ b/harmonic_inference/utils/data_utils.py
@@ -121,7 +121,7 @@ def load_pieces(
 
                 if music_xml_path.exists():
                     xmls.append(music_xml_path)
-                    csvs.append(label_csv_path) if label_csv_path.exists() else None
+                    csvs.append(label_csv_path if label_csv_path.exists() else None)
 
     else:
         files_df, measures_df, chords_df, notes_df = load_clean_corpus_dfs(input_path)
-- 
2.43.0


From 7c1b84902dcd116bf306a27a555ca2c721be1a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:25 +0000
Subject: [PATCH 40/50] fix: load a single MusicXML file given as a string

---
 harmonic_inference/utils/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/data_utils.py b/harmonic_inference/utils/data_utils.py
index 3c862b4..25bddbd 100644
--- a/harmonic_inference/utils/data_utils.py
+++ b/harmonic_inference/utils/data_utils.py
@@ -104,7 +104,7 @@ def load_pieces(
         csvs = []
 
         if Path(input_path).is_file():
-            xmls = [input_path]
+            xmls = [Path(input_path)]
             csvs = [None]
             input_path = Path(input_path).parent
 
-- 
2.43.0


From 38e41296be759e36d7b34bc1a9c70c7d5093e270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:25 +0000
Subject: [PATCH 41/50] fix: load pieces from their source when the given
 pickle file does not exist

---
 harmonic_inference/utils/data_utils.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/harmonic_inference/utils/data_utils.py b/harmonic_inference/utils/data_utils.py
index 25bddbd..5bc0dc5 100644
--- a/harmonic_inference/utils/data_utils.py
+++ b/harmonic_inference/utils/data_utils.py
@@ -130,11 +130,9 @@ def load_pieces(
         file_ids = list(files_df.index) if not xml else list(range(len(xmls)))
 
     # Load from pkl if available
-    if piece_dicts_path:
-        pkl_path = Path(piece_dicts_path)
-        if pkl_path.exists():
-            with open(pkl_path, "rb") as pkl_file:
-                piece_dicts = pickle.load(pkl_file)
+    if piece_dicts_path and Path(piece_dicts_path).exists():
+        with open(piece_dicts_path, "rb") as pkl_file:
+            piece_dicts = pickle.load(pkl_file)
     elif xml:
         piece_dicts = [None] * len(xmls)
     else:
-- 
2.43.0


From 424b04634ae5ee37b844ea9f75e59bb843081352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:26 +0000
Subject: [PATCH 42/50] fix: load pieces without labels from a corpus where
 other pieces have labels

---
 harmonic_inference/utils/data_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/data_utils.py b/harmonic_inference/utils/data_utils.py
index 5bc0dc5..c0f8728 100644
--- a/harmonic_inference/utils/data_utils.py
+++ b/harmonic_inference/utils/data_utils.py
@@ -171,7 +171,9 @@ def load_pieces(
         pieces = [
             get_score_piece_from_data_frames(
                 notes_df.loc[file_id],
-                chords_df.loc[file_id] if chords_df is not None else None,
+                chords_df.loc[file_id]
+                if chords_df is not None and file_id in chords_df.index.get_level_values(0)
+                else None,
                 measures_df.loc[file_id],
                 name=(
                     f"{file_id}: {files_df.loc[file_id, 'corpus_name']}/"
-- 
2.43.0


From 3041c75a5493565e3d790d86c1eae2d768315b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:26 +0000
Subject: [PATCH 43/50] fix: load the first pieces of a corpus when one of them
 has no labels

---
 harmonic_inference/data/corpus_reading.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/data/corpus_reading.py b/harmonic_inference/data/corpus_reading.py
index b9de122..722e806 100755
--- a/harmonic_inference/data/corpus_reading.py
+++ b/harmonic_inference/data/corpus_reading.py
@@ -104,7 +104,7 @@ def load_clean_corpus_dfs(dir_path: Union[str, Path], count: int = None):
         measures_df = measures_df.loc[files_df.index]
         notes_df = notes_df.loc[files_df.index]
         if chords_df is not None:
-            chords_df = chords_df.loc[files_df.index]
+            chords_df = chords_df.loc[chords_df.index.get_level_values(0).isin(files_df.index)]
 
     # Bugfix for Couperin piece "next" error
     files_df = files_df.loc[~(files_df["file_name"] == "c11n08_Rondeau.tsv")]
-- 
2.43.0


From a89b4fbe188cda3a9509ca953ff7c7adf6fbfe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:12 +0000
Subject: [PATCH 44/50] fix: weight the batches of a key sequence evaluation by
 their number of targets

---
 harmonic_inference/models/key_sequence_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/models/key_sequence_models.py b/harmonic_inference/models/key_sequence_models.py
index 11f8871..3293c8e 100755
--- a/harmonic_inference/models/key_sequence_models.py
+++ b/harmonic_inference/models/key_sequence_models.py
@@ -128,7 +128,7 @@ class KeySequenceModel(pl.LightningModule, ABC):
 
             outputs, _ = self(inputs, input_lengths)
 
-            batch_count = len(batch)
+            batch_count = len(targets)
             loss = F.nll_loss(outputs, targets)
             acc = 100 * (outputs.argmax(-1) == targets).sum().float() / len(targets)
 
-- 
2.43.0


From 63e91cd54a31b2182fb8f8a148a41156ee53bb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:12 +0000
Subject: [PATCH 45/50] fix: leave chords without a valid target out of the
 evaluation of a chord classifier

---
 harmonic_inference/models/chord_classifier_models.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/models/chord_classifier_models.py b/harmonic_inference/models/chord_classifier_models.py
index e9b4f78..fe52356 100755
--- a/harmonic_inference/models/chord_classifier_models.py
+++ b/harmonic_inference/models/chord_classifier_models.py
@@ -133,8 +133,16 @@ class ChordClassifierModel(pl.LightningModule, ABC):
             notes_lengths = batch["input_lengths"]
             targets = batch["targets"].long()
 
-            batch_count = len(targets)
             outputs = self(notes, notes_lengths)
+
+            mask = targets != -1
+            outputs = outputs[mask]
+            targets = targets[mask]
+
+            batch_count = len(targets)
+            if batch_count == 0:
+                continue
+
             loss = F.cross_entropy(outputs, targets)
             acc = 100 * (outputs.argmax(-1) == targets).sum().float() / len(targets)
 
-- 
2.43.0


From c4d0ada7919f3bdd4d27e22c534c580745363814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:12 +0000
Subject: [PATCH 46/50] fix: classify a batch with a single chord

---
 harmonic_inference/models/chord_classifier_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/models/chord_classifier_models.py b/harmonic_inference/models/chord_classifier_models.py
index fe52356..f2fe3f4 100755
--- a/harmonic_inference/models/chord_classifier_models.py
+++ b/harmonic_inference/models/chord_classifier_models.py
@@ -316,7 +316,7 @@ class SimpleChordClassifier(ChordClassifierModel):
         lstm_out_lengths_tensor = (
             lstm_out_lengths.unsqueeze(1).unsqueeze(2).expand((-1, 1, lstm_out_forward.shape[2]))
         ).to(self.device)
-        last_forward = torch.gather(lstm_out_forward, 1, lstm_out_lengths_tensor - 1).squeeze()
+        last_forward = torch.gather(lstm_out_forward, 1, lstm_out_lengths_tensor - 1).squeeze(1)
         last_backward = lstm_out_backward[:, 0, :]
         lstm_out = torch.cat((last_forward, last_backward), 1)
 
-- 
2.43.0


From 8df84b49755cb8ef4dc7b0292ab05ea643eaab8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:41 +0000
Subject: [PATCH 47/50] fix: check the chord pitch type of the key transition
 model

---
 harmonic_inference/models/joint_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index cffaf96..cbfd4ba 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -344,8 +344,8 @@ class HarmonicInferenceModel:
         ), "CSM output pitch type does not match KSM input chord pitch type"
         assert (
             self.chord_sequence_model.OUTPUT_PITCH_TYPE
-            == self.key_sequence_model.INPUT_CHORD_PITCH_TYPE
-        ), "CSM output pitch type does not match KSM input chord pitch type"
+            == self.key_transition_model.INPUT_CHORD_PITCH_TYPE
+        ), "CSM output pitch type does not match KTM input chord pitch type"
         assert (
             self.chord_sequence_model.OUTPUT_PITCH_TYPE
             == self.chord_sequence_model.INPUT_CHORD_PITCH_TYPE
-- 
2.43.0


From c0f62d5f39fe719d8ca72bf9d940cc5c453126a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:40 +0000
Subject: [PATCH 48/50] fix: annotate.py applies --defaults and --fh-defaults

---
 annotate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/annotate.py b/annotate.py
index c0784f8..22533b8 100644
--- a/annotate.py
+++ b/annotate.py
@@ -320,6 +320,8 @@ if __name__ == "__main__":
         filemode="w",
     )
 
+    set_default_args(ARGS)
+
     # Load models
     models = load_models_from_argparse(ARGS)
 
-- 
2.43.0


From f7ca7e38a629e8d8cf2cb97ffe60d95cb1c53fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:40 +0000
Subject: [PATCH 49/50] fix: labels of pieces with the same file name do not
 overwrite each other

---
 annotate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/annotate.py b/annotate.py
index 22533b8..7f5d053 100644
--- a/annotate.py
+++ b/annotate.py
@@ -170,8 +170,8 @@ def annotate(
             )
 
             if piece.name is not None and output_tsv_dir is not None:
-                piece_name = Path(piece.name.split(" ")[-1])
-                output_tsv_path = output_tsv_dir / (piece_name.stem + ".tsv")
+                piece_name = Path(piece.name.split(": ", 1)[-1])
+                output_tsv_path = output_tsv_dir / piece_name.parent / (piece_name.stem + ".tsv")
 
                 try:
                     output_tsv_path.parent.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From d6ccaad1c1d2c2340a3a25bcee3e440d2fe37aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:19 +0000
Subject: [PATCH 50/50] fix: collect the vocabularies of the ML course data

---
 create_ml_course_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/create_ml_course_data.py b/create_ml_course_data.py
index c1b24b9..1abdf58 100644
--- a/create_ml_course_data.py
+++ b/create_ml_course_data.py
@@ -65,7 +65,7 @@ for composer in composers:
                 + str(key.local_mode).split(".")[1]
                 for key in piece.get_keys()
             ]
-            key_labels[piece.get_keys()[0].global_mode].add([symbol for symbol in key_symbols])
+            key_labels[piece.get_keys()[0].global_mode].update(key_symbols)
             key_file.write(",".join(key_symbols) + "\n")
 
         with open(chord_dir / f"{composer}.csv", "a+") as chord_file:
@@ -82,7 +82,7 @@ for composer in composers:
                     + str(chord.chord_type).split(".")[1][:3]
                     for chord in piece.get_chords()[start:end]
                 ]
-                chord_labels[mode].add([symbol for symbol in chord_symbols])
+                chord_labels[mode].update(chord_symbols)
                 chord_file.write(str(mode).split(".")[1] + ";" + ",".join(chord_symbols) + "\n")
 
 Path(base_dir / "chord_vocab_major.txt").write_text("\n".join(sorted(chord_labels[KeyMode.MAJOR])))
-- 
2.43.0

