"""C19 combined decoder: field rectification, then bit statistics"""
from vt import combref
from decoders import CombinedDecoder

RULE = ("histories of 5-16 telemetry buffers through the combined decoder with a recording inner decoder: 1-3 buffer types (classified, round robin), learned and "
        "supplied field models, learned and given structures, thresholds, factors, clipping, confidence, windows. Every word handed to the inner decoder is "
        "compared with a recomputation. Non-trivial: both models were in use")
SCALE = 2
REQUIRED = ["long history", "words compared", "no structure", "good bits", "bad bits", "forced bits", "recognised message", "supplied model", "entropy evidence", "clipped",
            "structure learned", "failed buffer learned", "training phase plain", "wrong number of structures", "settings left out",
            "one type, classifier on"]


def history(case):
    combref.history(case, CombinedDecoder, False)


WORKLOADS = [("history", history, 480, 8000)]
