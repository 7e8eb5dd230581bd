"""Joint model made of stand-in component models (for demonstrations)."""
import os, sys
os.environ["TQDM_DISABLE"] = "1"
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install()
from fractions import Fraction
import numpy as np
import harmonic_inference.models.joint_model as jm
from harmonic_inference.data.data_types import *
TPC = PitchType.TPC
C = jm.MODEL_CLASSES


def stub(cls, **attrs):
    m = object.__new__(cls)
    for k, v in attrs.items():
        object.__setattr__(m, k, v)
    return m


def joint(**params):
    pt = TPC
    c = {
        "ccm": stub(C["ccm"][0], INPUT_TYPE=PieceType.SCORE, INPUT_PITCH=TPC, OUTPUT_PITCH=pt, reduction=None, use_inversions=True, transposition_range=[0, 0]),
        "ctm": stub(C["ctm"][0], INPUT_TYPE=PieceType.SCORE, PITCH_TYPE=TPC),
        "csm": stub(C["csm"][0], INPUT_CHORD_PITCH_TYPE=pt, INPUT_KEY_PITCH_TYPE=pt, OUTPUT_PITCH_TYPE=pt, input_reduction=None, output_reduction=None, use_input_inversions=True, use_output_inversions=True),
        "ktm": stub(C["ktm"][0], INPUT_CHORD_PITCH_TYPE=pt, INPUT_KEY_PITCH_TYPE=pt, reduction=None, use_inversions=True),
        "ksm": stub(C["ksm"][0], INPUT_CHORD_PITCH_TYPE=pt, INPUT_KEY_PITCH_TYPE=pt, OUTPUT_PITCH_TYPE=pt, reduction=None, use_inversions=True),
        "icm": stub(C["icm"][0], PITCH_TYPE=pt),
    }
    return jm.HarmonicInferenceModel(c, **params), c


class Note:
    def __init__(self, i):
        self.onset, self.onset_level, self.offset, self.offset_level = (0, Fraction(i)), 3, (0, Fraction(i + 1)), 3


class Piece:
    DATA_TYPE = PieceType.SCORE

    def __init__(self, n, dur=None):
        self.n, self.dur = n, dur or [1] * n

    def get_duration_cache(self):
        return np.array([Fraction(x) for x in self.dur])

    def get_inputs(self):
        return [Note(i) for i in range(self.n)]

    def get_keys(self):
        return None


def search(n, change, ccm, kprob=0.0, keyp=None, csm=lambda r: -1.0, forces=None, **params):
    """ccm: {(s, e): {chord: prob}}; keyp: {(mode, interval): log prob}"""
    p = dict(min_chord_change_prob=0.01, max_no_chord_change_prob=0.99, max_chord_length=Fraction(100), min_key_change_prob=0.05, max_no_key_change_prob=0.95,
             beam_size=1000, max_chord_branching_factor=3, target_chord_branch_prob=0.9999, max_key_branching_factor=2, target_key_branch_prob=0.9999, hash_length=None, ksm_exponent=1.0)
    p.update(params)
    m, c = joint(**p)
    full = list(m.LABELS["chord"])
    fh = stubs.from_numpy
    hid = lambda b: (fh(np.zeros((1, b, 1))), fh(np.zeros((1, b, 1))))
    def adv(batch, inc):
        h = np.asarray(batch["hidden_states"][0])
        h = np.array([[[h[b, 0, 0] + inc[b]] for b in range(len(h))]])
        return fh(h), fh(h + 0.0)
    import harmonic_inference.utils.harmonic_utils as hu
    rel = hu.get_chord_from_one_hot_index(slice(None, None), TPC, relative=True)
    vec = np.array([csm(r) for r in rel], dtype=float)
    kv = np.full(len(m.LABELS["relative_key"]), -1e9)
    for k, v in (keyp or {}).items():
        kv[m.LABELS["relative_key"].index(k)] = v
    put = object.__setattr__
    for x in ("csm", "ktm", "ksm"):
        put(c[x], "init_hidden", hid)
    put(c["ktm"], "run_one_step", lambda b: (fh(np.full((len(b["inputs"]), 1), kprob)), adv(b, [1] * len(b["inputs"]))))
    put(c["csm"], "run_one_step", lambda b: (fh(np.array([[vec]] * len(b["inputs"]))), adv(b, [1] * len(b["inputs"]))))
    put(c["ksm"], "get_output", lambda b: (fh(np.array([kv] * len(b["inputs"]))), adv(b, [int(x) for x in np.asarray(b["input_lengths"])])))
    put(c["icm"], "get_prior", lambda minor, log=True: vec)
    m.get_chord_change_probs = lambda: np.array(change, dtype=float)

    def classify(windows, idxs):
        out = []
        for (_, e), s in zip(windows, idxs):
            row = np.full(len(full), 1e-12)
            for ch, pr in ccm[(s, e)].items():
                row[full.index(ch)] = pr
            out.append(np.log(row))
        return np.array(out)
    m.get_chord_classifications = classify
    k0 = m.LABELS["key"].index((15, KeyMode.MAJOR))
    with np.errstate(all="ignore"):
        return m, m.get_harmony(Piece(n), **dict(dict(forced_keys={(0, 1): k0}), **(forces or {})))
