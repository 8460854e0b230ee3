"""C20 unified decoder: field rectification restricted to steady bits, then bit statistics"""
from vt import combref
from decoders import CombinedUnifiedDecoder

RULE = ("histories of 5-16 telemetry buffers through the unified decoder with a recording inner decoder: 1-3 buffer types (classified, round robin), learned and "
        "supplied field models, learned and given structures, thresholds, factors, clipping, confidence, windows, flipping and scaling. Every word handed to the inner decoder is "
        "compared with a recomputation. Non-trivial: both models were in use")
REQUIRED = ["long history", "words compared", "no structure", "good bits", "bad bits", "forced bits", "recognised message", "supplied model", "entropy evidence", "clipped",
            "structure learned", "failed buffer learned", "training phase plain", "wrong number of structures", "flipped", "too few buffers to rectify",
            "settings left out", "one type, classifier on"]


def history(case):
    combref.history(case, CombinedUnifiedDecoder, True)


WORKLOADS = [("history", history, 480, 8000)]
