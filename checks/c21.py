"""C21 denoising decoder: the soft input is the channel evidence plus what the per bit denoisers infer"""
import numpy as np
from vt import dec, duderef
from checks.c14 import received
from decoders import ClassifyingDudeDecoder

RULE = ("histories of 5-30 buffers through the denoising decoder with a recording inner decoder: 1-3 data types (classified, round robin), context lengths 0-3, "
        "bit flip 0.01-0.2, clipping, confidence; the word handed over and the denoised bits are compared with per bit reference denoisers. Non-trivial: "
        "denoiser evidence had weight")
REQUIRED = ["long history", "words compared", "evidence weighted", "first buffer of a type ignored", "clipped", "training phase plain", "types kept apart", "denoised bits",
            "context filling", "bits outside the model unchanged", "settings left out", "one type, classifier on"]


def history(case):
    rnd, rng = case.rnd, case.rng
    k, m = rnd.choice([4, 8, 16]), 8
    code = dec.Code(rng, k, m)
    ldpc = dec.SpyLogSpa(code, rng)
    ml = rnd.choice([k, k, k // 2, k + 2])
    types = rnd.randint(1, 3)
    clustered = types > 1 and rnd.random() < 0.5
    train = rnd.randint(2, 6)
    ctx = rnd.choice([0, 1, 2, 3])
    f = rnd.choice([0, 0.01, 0.05, 0.1, 0.2])
    factor = rnd.choice([0.5, 1, 2, 20])
    center, slope = rnd.choice([(1, 1.0), (4, 0.35), (10, 2.0), (2, 0), (40, 0.35)])
    flag = int(clustered) if types > 1 else rnd.choice([0, 1])  # with one type there is nothing to classify
    kw = dict(conf_center=center, conf_slope=slope, bit_flip=f, cluster=flag)
    d = ClassifyingDudeDecoder(ldpc, ml, factor, train, types, ctx, **dec.trim(case, ClassifyingDudeDecoder, kw))
    channel, loss = np.array([[1 - f, f], [f, 1 - f]]), 1 - np.eye(2)
    refs = [[duderef.OnlineRef(channel, loss, ctx, False, 2) for _ in range(ml)] for _ in range(types)]
    sizes = [0] * types
    draw = dec.source(rng, k, types)
    n = rnd.randint(5, 30)
    if case.index % 150 == 7:
        n = rnd.randint(260, 330)   # long enough for counters to overflow a byte
        case.hit("long history")
    case.note(k, ml, types, clustered, train, ctx, f, factor, (center, slope), n)
    for i in range(n):
        t = i % types if not clustered else rnd.randrange(types)
        word = code.encode(draw(t))
        llr = received(case, word)
        keep = llr.copy()
        ldpc.plan = [word if rnd.random() < 0.5 else (word + (rng.random(code.n) < 0.2)) % 2]
        r = d.decode_buffer(llr)
        label, denoised = int(r[4]), np.asarray(r[5])
        got = ldpc.calls[-1]
        case.array_equal(llr, keep, "the received word was altered")
        dec.expect_label(case, label, i, types, clustered, train)
        case.hit("one type, classifier on", types == 1 and flag)
        if label < 0:
            case.array_equal(got, keep, "a model was used while the classifier trains")
            case.array_equal(denoised, keep < 0, "denoised bits while the classifier trains")
            case.hit("training phase plain")
            continue
        sizes[label] += 1
        conf = dec.confidence(sizes[label], center, slope)
        want, check = keep.copy(), np.ones(code.n, dtype=bool)
        for b in range(ml):
            post, _, sure = refs[label][b].step(int(keep[b] < 0))
            want[b] += conf * np.log((1 - post[1] + dec.EPS) / (post[1] + dec.EPS))
            check[b] = sure
        bound = factor * np.max(np.abs(keep))
        clipped = np.clip(want, -bound, bound)
        case.close(got[check], clipped[check], f"word handed to the code (type {label}, buffer {sizes[label]} of it)", rtol=1e-6, atol=1e-8)
        case.array_equal(denoised, got < 0, "denoised bits against the word handed over")
        case.hit("denoised bits", int((denoised != (keep < 0)).sum()))
        case.hit("words compared")
        case.hit("clipped", int((clipped != want).sum()))
        case.hit("evidence weighted", conf > 0)
        case.hit("first buffer of a type ignored", conf == 0)
        case.hit("types kept apart", types > 1 and conf > 0)
        case.hit("context filling", sizes[label] <= ctx)
        case.hit("bits outside the model unchanged", code.n - ml)
        case.interesting(conf > 0)


WORKLOADS = [("history", history, 600, 10000)]
