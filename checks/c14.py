"""C14 soft input handed to the code by the classifying decoder: channel evidence plus model evidence, bounded"""
import numpy as np
from vt import dec
from decoders import ClassifyingEntropyDecoder

RULE = ("histories of 5-40 buffers through the classifying decoder with a recording inner decoder: 1-4 data types, thresholds, clipping factors, confidence "
        "settings, assumed bit flip, windows, supplied models, binary symmetric / Gaussian / one-sided / all-zero received words. The word handed to the inner "
        "decoder is compared with a recomputation from the buffers learned. Non-trivial: model evidence was added at least once")
REQUIRED = ["long history", "words compared", "model evidence added", "no model evidence", "clipped", "first buffers ignored", "supplied model", "unstructured bits unchanged",
            "received all ones", "types kept apart", "training phase plain", "settings left out", "one type, classifier on"]


def received(case, word):
    rnd, rng = case.rnd, case.rng
    r = rnd.random()
    if r < 0.06:
        return -np.abs(rng.normal(2, 1, len(word)))   # everything received as one
    if r < 0.1:
        return np.abs(rng.normal(2, 1, len(word)))
    if r < 0.12:
        return np.zeros(len(word))
    llr, _ = dec.noisy(rng, word, rnd.choice([0, 0.05, 0.2]), rnd.choice(["bsc", "awgn"]))
    return llr


def history(case):
    rnd, rng = case.rnd, case.rng
    k, m = rnd.choice([8, 16, 32]), rnd.choice([8, 16])
    code = dec.Code(rng, k, m)
    ml = rnd.choice([k, k, k // 2, k + 3, code.n])
    ldpc = dec.SpyLogSpa(code, rng)
    types = rnd.randint(1, 4)
    clustered = types > 1 and rnd.random() < 0.6
    train = rnd.randint(2, 8)
    w = rnd.choice([None, 1, 2, 5, 9])
    f = rnd.choice([0, 0, 0.01, 0.1, 0.2])
    thr = rnd.choice([0.0, 0.2, 0.5, 0.72, 1.0, 1.5])
    factor = rnd.choice([0.5, 1, 2, 10, 100])
    center, slope = rnd.choice([(1, 1.0), (4, 0.35), (10, 2.0), (40, 0.35), (2, 0)])
    supplied = None
    if rnd.random() < 0.25:
        p = np.where(rng.random(ml + 2) < 0.4, rng.integers(0, 2, ml + 2), rng.random(ml + 2))
        supplied = np.column_stack((1 - p, p))
    flag = int(clustered) if types > 1 else rnd.choice([0, 1])  # with one type there is nothing to classify
    kw = dict(window_length=w, conf_center=center, conf_slope=slope, bit_flip=f, cluster=flag, data_model=supplied)
    d = ClassifyingEntropyDecoder(ldpc, ml, thr, factor, train, types, **dec.trim(case, ClassifyingEntropyDecoder, kw))
    refs = [dec.BitRef(w, f) for _ in range(types)]
    if supplied is not None:
        for r in refs:
            r.fixed = supplied[:ml, 1].copy()
    draw = dec.source(rng, k, types)
    n = rnd.randint(5, 40)
    if case.index % 150 == 7:
        n = rnd.randint(260, 330)   # long enough for counters to overflow a byte
        case.hit("long history")
    case.note(k, m, ml, types, clustered, train, w, f, thr, factor, center, slope, supplied is not None, n)
    for i in range(n):
        t = i % types if not clustered else rnd.randrange(types)
        word = code.encode(draw(t))
        llr = received(case, word)
        case.hit("received all ones", (llr < 0).all())
        ldpc.plan = [word if rnd.random() < 0.4 else (word + (rng.random(code.n) < 0.2)) % 2]
        r = d.decode_buffer(llr)
        est, ok, label = r[0], r[2], int(r[8])
        got = ldpc.calls[-1]
        dec.expect_label(case, label, i, types, clustered, train)
        case.hit("one type, classifier on", types == 1 and flag)
        if label < 0:
            case.array_equal(got, llr, "model evidence while the classifier trains")
            case.hit("training phase plain")
            continue
        ref = refs[label]
        bound = factor * np.max(np.abs(llr))
        want = llr.copy()
        check = np.ones(code.n, dtype=bool)
        if ref.p1() is not None:
            conf = 1.0 if supplied is not None else dec.confidence(ref.size, center, slope)
            model, s, near = ref.llr(thr, conf)
            want[:ml] += model
            check[:ml] &= ~near
            case.hit("model evidence added" if conf > 0 and s.any() else "no model evidence")
            case.interesting(conf > 0 and s.any())
            case.hit("first buffers ignored", supplied is None and ref.size == 1 and bool(s.any()))
            case.hit("unstructured bits unchanged", int((~s).sum()))
            case.hit("supplied model", supplied is not None)
            case.hit("types kept apart", types > 1 and conf > 0)
        clipped = np.clip(want, -bound, bound)
        case.hit("clipped", int((clipped != want).sum()))
        case.close(got[check], clipped[check], f"word handed to the code (type {label}, {ref.size} buffers learned)", atol=1e-9)
        case.check(np.all(np.abs(got) <= bound * (1 + 1e-12)), "soft input exceeds its bound", bound)
        case.hit("words compared")
        ref.add((est if ok else (llr < 0))[:ml])


WORKLOADS = [("history", history, 1000, 20000)]
