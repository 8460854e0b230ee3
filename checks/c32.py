"""C32 matching of clusters to classes"""
import importlib.util
import os
import numpy as np
from vt import core

spec = importlib.util.spec_from_file_location("cluster_functions", os.path.join(core.REPO, "runs/clsutering_analysis/functions.py"))
functions = importlib.util.module_from_spec(spec)
spec.loader.exec_module(functions)
relabel = functions.relabel

RULE = ("cluster labels of 0-120 samples in 2-7 classes (perfect under a permutation, noisy, collapsed, random, classes never found), with real labels given and with "
        "the classes in consecutive order. Non-trivial: the clustering is not already the labelling")
REQUIRED = ["matchings", "one to one", "relabelled", "greedy order", "perfect clustering", "collapsed", "consecutive order", "real labels", "input untouched"]


def matchings(case):
    rnd, rng = case.rnd, case.rng
    k = rnd.randint(2, 7)
    given = rnd.random() < 0.6
    n = rnd.randint(1, 120) if given else k * rnd.randint(1, 20)
    real = rng.integers(0, k, n) if given else np.arange(n) % k
    perm = rng.permutation(k)
    style = rnd.choice(["perfect", "noisy", "collapsed", "random", "merged"])
    pred = perm[real]
    if style == "noisy":
        pred = np.where(rng.random(n) < rnd.choice([0.1, 0.4]), rng.integers(0, k, n), pred)
    elif style == "collapsed":
        pred = np.full(n, rng.integers(k))
    elif style == "random":
        pred = rng.integers(0, k, n)
    elif style == "merged":
        pred = np.where(pred == perm[0], perm[-1], pred)
    pred = pred.astype(rnd.choice([np.int64, np.int64, np.int32]))
    case.note(k, given, style, real.tolist(), pred.tolist())
    case.interesting(not np.array_equal(real, pred))
    kp, kr = pred.copy(), real.copy()
    out, mapping = relabel(pred, k, real) if given else relabel(pred, k)
    case.check(np.array_equal(pred, kp) and np.array_equal(real, kr), "the labels were altered")
    case.hit("input untouched")
    mapping = {int(a): int(b) for a, b in mapping.items()}
    case.equal((sorted(mapping), sorted(mapping.values())), (list(range(k)), list(range(k))), "clusters and classes are not matched one to one")
    case.hit("one to one")
    case.array_equal(np.asarray(out), [mapping[int(v)] for v in pred], "labels are not the matched classes")
    case.hit("relabelled")
    counts = np.array([[int(np.sum((real == r) & (pred == p))) for p in range(k)] for r in range(k)])
    rows, cols = set(range(k)), set(range(k))
    left = dict(mapping)
    while left:  # each match is one of the largest overlaps among what is left, whichever way ties are broken
        best = max(counts[r, p] for r in rows for p in cols)
        p = max(left, key=lambda c: counts[left[c], c])
        case.equal(int(counts[left[p], p]), int(best), f"match of {left} although a larger overlap is left")
        rows.discard(left[p])
        cols.discard(p)
        del left[p]
    case.hit("greedy order")
    if style == "perfect":
        case.array_equal(np.asarray(out), real, "a perfect clustering was not recognised")
        case.hit("perfect clustering")
    case.hit("collapsed", style == "collapsed")
    case.hit("real labels" if given else "consecutive order")
    case.hit("matchings")


WORKLOADS = [("matchings", matchings, 2000, 40000)]
