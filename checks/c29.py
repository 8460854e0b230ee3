"""C29 performance measures"""
import warnings
import numpy as np
import decoders.mavlink_decoder
import decoders.combined_decoder
import decoders.combined_unified_decoder
from utils.performance_analysis import stats, ber

RULE = ("label vectors (1-80 samples, 2-6 classes, perfect, random, collapsed and systematically wrong predictions; classes without samples or predictions), matrices "
        "given directly, bit vectors of several types, and detection results over 1-200 positions. Non-trivial: some errors")
REQUIRED = ["labels", "given matrix", "recall", "precision", "f1", "accuracy", "never predicted", "no samples", "f1 of nothing right", "ber", "ber unsigned", "ber bool",
            "detections", "nothing detected", "nothing to detect"]


def judge(case, cm, out):
    got, recall, precision, f1, acc = out
    n = cm.shape[0]
    case.array_equal(got, cm, "confusion matrix")
    case.equal((len(recall), len(precision), len(f1)), (n, n, n), "number of classes")
    case.close(acc, np.trace(cm) / cm.sum(), "accuracy")
    case.hit("accuracy")
    for i in range(n):
        there, pred, right = int(cm[i].sum()), int(cm[:, i].sum()), int(cm[i, i])
        if there:
            case.close(recall[i], right / there, f"recall of class {i}")
            case.hit("recall")
        if pred:
            case.close(precision[i], right / pred, f"precision of class {i}")
        else:
            case.close(precision[i], 0.0 if there else 1.0, f"precision of class {i}, which is never predicted")
            case.hit("never predicted")
        case.hit("precision")
        case.hit("no samples", there == 0)
        if there:
            case.close(f1[i], 2 * right / (there + pred), f"f1 of class {i}")
            case.hit("f1")
            case.hit("f1 of nothing right", right == 0)


def labels(case):
    rnd, rng = case.rnd, case.rng
    k, n = rnd.randint(2, 6), rnd.choice([1, 3, rnd.randint(2, 80)])
    offset = rnd.choice([0, 0, 1, 10])
    actual = rng.integers(0, k, n)
    style = rnd.choice(["perfect", "random", "collapsed", "wrong", "noisy"])
    pred = {"perfect": actual, "random": rng.integers(0, k, n), "collapsed": np.full(n, rng.integers(k)), "wrong": (actual + 1) % k,
            "noisy": np.where(rng.random(n) < 0.3, rng.integers(0, k, n), actual)}[style].copy()
    case.note(k, n, style, offset, actual.tolist(), pred.tolist())
    case.interesting(bool((actual != pred).any()))
    names = sorted(set(actual.tolist()) | set(pred.tolist()))
    cm = np.array([[int(np.sum((actual == a) & (pred == p))) for p in names] for a in names])
    ka, kp = actual + offset, pred + offset
    a, p = ka.copy(), kp.copy()
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        judge(case, cm, stats(a, p))
        case.check(np.array_equal(a, ka) and np.array_equal(p, kp), "labels were altered")
        case.hit("labels")
        full = np.array([[int(np.sum((actual == i) & (pred == j))) for j in range(k)] for i in range(k)])
        kept = full.copy()
        judge(case, kept, stats(cm=full))
        case.array_equal(full, kept, "the given matrix was altered")
        case.hit("given matrix")


def bits(case):
    rnd, rng = case.rnd, case.rng
    n = rnd.choice([1, 8, rnd.randint(1, 500)])
    t = rnd.choice([np.int_, np.uint8, np.bool_, np.float64, np.int8])
    t2 = rnd.choice([t, np.int_, np.uint8, np.bool_])
    a = rng.integers(0, 2, n)
    b = a ^ (rng.random(n) < rnd.choice([0, 0.05, 0.5, 1]))
    case.note(n, np.dtype(t).name, np.dtype(t2).name, a.tolist()[:80], b.tolist()[:80])
    case.interesting(bool((a != b).any()))
    case.close(ber(a.astype(t), b.astype(t2)), np.sum(a != b) / n, "bit error rate")
    case.hit("ber")
    case.hit("ber unsigned", t == np.uint8)
    case.hit("ber bool", t == np.bool_)


def detections(case):
    rnd, rng = case.rnd, case.rng
    n = rnd.randint(1, 200)
    actual = np.flatnonzero(rng.random(n) < rnd.choice([0, 0.1, 0.5, 1]))
    found = rng.permutation(np.flatnonzero(rng.random(n) < rnd.choice([0, 0.1, 0.5, 1])))
    if rnd.random() < 0.5:
        found = rng.permutation(np.unique(np.concatenate((found, actual[rng.random(len(actual)) < 0.7])).astype(int)))
    case.note(n, actual.tolist(), found.tolist())
    case.interesting(set(actual.tolist()) != set(found.tolist()))
    a, f = set(actual.tolist()), set(found.tolist())
    arg = found.astype(int) if rnd.random() < 0.5 else [int(v) for v in found]
    tp, fp = len(a & f), len(f - a)
    for mod in (decoders.mavlink_decoder, decoders.combined_decoder, decoders.combined_unified_decoder):
        if not hasattr(mod, "confusion"):
            continue
        got = mod.confusion(arg, actual, n - len(a))
        case.equal([int(v) for v in got], [tp, fp, n - len(a) - fp, len(a - f), len(a), n - len(a)],
                   f"true/false positives, true/false negatives, positives, negatives ({mod.__name__})")
    case.hit("detections")
    case.hit("nothing detected", not f)
    case.hit("nothing to detect", not a)


WORKLOADS = [("labels", labels, 1200, 24000), ("bits", bits, 1000, 10000), ("detections", detections, 1000, 20000)]
