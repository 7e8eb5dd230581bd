"""A joint model made of stand-in component models (the networks' outputs are inputs of the harness)."""
from props.common import *
import harmonic_inference.models.joint_model as jm


def stub(cls, **attrs):
    m = object.__new__(cls)
    for k, v in attrs.items():
        object.__setattr__(m, k, v)
    return m


def components(pt=TPC, red=None, inversions=True, pitch_based=False, csm_red=None, csm_inv=True):
    C = jm.MODEL_CLASSES
    return {
        "ccm": stub(C["ccm"][0], INPUT_TYPE=PieceType.SCORE, INPUT_PITCH=TPC, OUTPUT_PITCH=pt, reduction=red, use_inversions=inversions, transposition_range=[0, 0]),
        "ctm": stub(C["ctm"][0], INPUT_TYPE=PieceType.SCORE, PITCH_TYPE=TPC),
        "csm": stub(C["csm"][1 if pitch_based else 0], INPUT_CHORD_PITCH_TYPE=pt, INPUT_KEY_PITCH_TYPE=pt, OUTPUT_PITCH_TYPE=pt, input_reduction=None,
                    output_reduction=csm_red, use_input_inversions=True, use_output_inversions=csm_inv),
        "ktm": stub(C["ktm"][0], INPUT_CHORD_PITCH_TYPE=pt, INPUT_KEY_PITCH_TYPE=pt, reduction=None, use_inversions=True),
        "ksm": stub(C["ksm"][0], INPUT_CHORD_PITCH_TYPE=pt, INPUT_KEY_PITCH_TYPE=pt, OUTPUT_PITCH_TYPE=pt, reduction=None, use_inversions=True),
        "icm": stub(C["icm"][0], PITCH_TYPE=pt),
    }


def joint(models=None, **params):
    return jm.HarmonicInferenceModel(models or components(), **params)


def set_forces(m, n, chord_ids=None, key_ids=None, cc=(), cn=(), kc=(), kn=()):
    m.forced_chord_ids = np.array(chord_ids if chord_ids is not None else [-1] * n)
    m.forced_key_ids = np.array(key_ids if key_ids is not None else [-1] * n)
    m.forced_chord_changes, m.forced_chord_non_changes = set(cc), set(cn)
    m.forced_key_changes, m.forced_key_non_changes = set(kc), set(kn)
    m.forced_chords, m.forced_keys = {}, {}
