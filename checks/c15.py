"""C15 input of the bit flipping decoders: four ways of using the model"""
import numpy as np
from vt import dec
from checks.c14 import received
from decoders import ClassifyingEntropyDecoder
from ldpc.decoder import WbfVariant

RULE = ("histories of 5-30 buffers through the classifying decoder on a recording weighted bit flipping or Gallager decoder, reliability methods 0-3, "
        "1-3 data types, thresholds, confidence settings, assumed bit flip, windows, supplied models. Samples and prior reliabilities handed over are compared "
        "with a recomputation from the buffers learned. Non-trivial: model evidence was used at least once")
REQUIRED = ["long history", "words compared", "hard input", "method 0", "method 1", "method 2", "method 3", "model evidence used", "model scaled down", "bits forced",
            "not enough data to force", "no model: plain word", "training phase plain", "types kept apart", "supplied model", "settings left out",
            "one type, classifier on", "nothing to wait for: nothing forced"]


def history(case):
    rnd, rng = case.rnd, case.rng
    k, m = rnd.choice([8, 16, 32]), rnd.choice([8, 16])
    code = dec.Code(rng, k, m)
    ml = rnd.choice([k, k, k // 2])
    gal = rnd.random() < 0.4
    ldpc = dec.SpyGal(code, rng) if gal else dec.SpyWbf(code, rng, variant=rnd.choice(list(WbfVariant)))
    method = rnd.choice([0, 1, 2, 3])
    types = rnd.randint(1, 3)
    clustered = types > 1 and rnd.random() < 0.6
    train = rnd.randint(2, 6)
    w = rnd.choice([None, 1, 2, 5, 9])
    f = rnd.choice([0, 0, 0.01, 0.1])
    thr = rnd.choice([0.2, 0.5, 0.72, 1.0])
    center, slope = rnd.choice([(1, 1.0), (4, 0.35), (10, 2.0), (2, 0), (40, 0.35)])
    supplied = None
    if rnd.random() < 0.2:
        p = np.where(rng.random(ml + 2) < 0.4, rng.integers(0, 2, ml + 2), rng.random(ml + 2))
        supplied = np.column_stack((1 - p, p))
    flag = int(clustered) if types > 1 else rnd.choice([0, 1])  # with one type there is nothing to classify
    kw = dict(window_length=w, conf_center=center, conf_slope=slope, bit_flip=f, cluster=flag, data_model=supplied, reliability_method=method)
    d = ClassifyingEntropyDecoder(ldpc, ml, thr, 2, train, types, **dec.trim(case, ClassifyingEntropyDecoder, kw))
    refs = [dec.BitRef(w, f) for _ in range(types)]
    if supplied is not None:
        for r in refs:
            r.fixed = supplied[:ml, 1].copy()
    draw = dec.source(rng, k, types)
    n = rnd.randint(5, 30)
    if case.index % 150 == 7:
        n = rnd.randint(260, 330)   # long enough for counters to overflow a byte
        case.hit("long history")
    case.note("gal" if gal else "wbf", method, k, m, ml, types, clustered, train, w, f, thr, center, slope, supplied is not None, n)
    for i in range(n):
        t = i % types if not clustered else rnd.randrange(types)
        word = code.encode(draw(t))
        llr = received(case, word)
        if not np.any(llr):
            llr = np.ones(code.n)
        ldpc.plan = [word if rnd.random() < 0.4 else (word + (rng.random(code.n) < 0.2)) % 2]
        r = d.decode_buffer(llr)
        est, ok, label = r[0], r[2], int(r[8])
        got = np.asarray(ldpc.calls[-1])
        prior = np.zeros(code.n) if gal else ldpc.priors[-1]
        hard = (llr < 0).astype(int)
        dec.expect_label(case, label, i, types, clustered, train)
        case.hit("one type, classifier on", types == 1 and flag)
        if label < 0:
            case.array_equal(got, hard if gal else llr, "a model was used while the classifier trains")
            case.array_equal(prior, np.zeros(code.n), "priors while the classifier trains")
            case.hit("training phase plain")
            continue
        ref = refs[label]
        want, want_prior = llr.copy(), np.zeros(code.n)
        check = np.ones(code.n, dtype=bool)
        whole = True   # whether normalisations are decidable
        if ref.p1() is not None:
            conf = 1.0 if supplied is not None else dec.confidence(ref.size, center, slope)
            model, s, near = ref.llr(thr, conf)
            whole = not near.any()
            full = np.zeros(code.n)
            full[:ml] = model
            peak, mx = np.max(np.abs(full)), np.max(np.abs(llr))
            case.hit("supplied model", supplied is not None)
            case.hit("types kept apart", types > 1)
            if peak > 0:
                case.interesting()
                case.hit("model evidence used")
                case.hit(f"method {method}")
                if method == 0:
                    case.hit("model scaled down", peak > mx)
                    want = llr + (full * mx / peak if peak > mx else full)
                    top = np.max(np.abs(want))
                    if top > 1e-9:
                        want = want * mx / top
                    else:
                        whole = False
                elif method in (1, 2):
                    coef = 1.0 if method == 1 else np.sqrt(np.mean(llr ** 2)) / code.h.sum(axis=1).mean()
                    want_prior = -np.sign(llr * full) * np.abs(full)
                    pk = np.max(np.abs(want_prior))
                    target = min(pk, mx, coef)
                    case.hit("model scaled down", target < pk)
                    if pk > 0:
                        want_prior = want_prior * target / pk
                else:
                    want = hard.copy()
                    if w is None or supplied is not None:
                        case.hit("nothing to wait for: nothing forced")
                    elif ref.size >= w:
                        want[:ml][s] = (ref.p1()[s] > 0.5).astype(int)
                        case.hit("bits forced", int((want != hard).sum()))
                    else:
                        case.hit("not enough data to force")
            else:
                case.hit("no model: plain word")
        if gal:
            # near zero the sign of a sum may differ by rounding
            unsure = (np.abs(want) < 1e-9) & (want != 0) if method != 3 else np.zeros(code.n, dtype=bool)
            want_hard = want if want.dtype.kind == "i" else (want < 0).astype(int)
            if whole:
                case.array_equal(got[~unsure], want_hard[~unsure], f"hard word handed to the code (method {method})")
                case.check(set(np.unique(got)) <= {0, 1}, "not a hard word")
                case.hit("hard input")
        elif whole:
            case.close(got, want, f"samples handed to the code (method {method})", atol=1e-9)
            case.close(prior, want_prior, f"prior reliabilities (method {method})", atol=1e-9)
        case.hit("words compared", whole)
        ref.add((est if ok else (llr < 0))[:ml])


WORKLOADS = [("history", history, 1000, 20000)]
