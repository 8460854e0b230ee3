"""C17 two-model decoder: how the model of recovered buffers and the model of all buffers weigh against the channel"""
import numpy as np
from vt import dec, mav
from vt.traffic import Traffic
from checks.c16 import compact
from decoders.entropy_bitwise_decoder import EntropyBitwiseWeightedDecoder

RULE = ("histories of 5-25 telemetry buffers through the two-model decoder with a recording inner decoder; all six confidence schemes, both estimators, "
        "assumed bit flip with and without correction, windows, clipping; success, recovery, other data and failures mixed. The word of the second attempt is "
        "compared with a recomputation. Non-trivial: the models added evidence")
REQUIRED = ["long history", "second attempts", "evidence added", "clipped", "no model yet", "plain success"] + [f"scheme {i}" for i in range(6)] + ["estimator MLE", "estimator Bayes", "Bayes rescaled", "settings left out"]


def scheme_weights(scheme, a, b, va, vb):
    if scheme == 1 and a + b > 0:
        return a * a / (a + b), b * b / (a + b)
    if scheme == 2 and 2 * a + b > 0:
        s = 2 * a + b
        return 2 * a * a / s, b * b / s
    if scheme == 3:
        return a, 0.0
    if scheme == 4:
        g = lambda v: 1 - np.exp(-0.1 / v) if v > 0 else 1.0
        return a * g(va), b * g(vb)
    if scheme == 5:
        return 0.0, b
    return a, b


def variance(ref, est, f):
    """spread of the estimates, relative to a uniform one"""
    if est == "Bayes":
        return ref.variance()
    if not ref.rows:
        return 1.0
    p = ref.p1()
    return 2 * np.mean(p - p ** 2)


def history(case):
    rnd, rng = case.rnd, case.rng
    small = [m for m in mav.SCALAR_IDS if mav.HC[m]["length"] <= 24]
    tr = compact(Traffic(rnd, 1, n_msgs=1, pad=0, ids=small))
    k, m = tr.length * 8, rnd.choice([8, 16])
    code = dec.Code(rng, k, m)
    ldpc = dec.SpyLogSpa(code, rng)
    scheme = case.index % 6
    est = rnd.choice(["MLE", "Bayes"])
    w = rnd.choice([None, 1, 3, 6]) if est == "MLE" else rnd.choice([3, 5, 8, 1000])
    f, corrected = rnd.choice([0, 0.01, 0.1]), rnd.random() < 0.5
    thr = rnd.choice([0.2, 0.5, 0.72, 1.0])
    factor = rnd.choice([0.5, 1, 2, 50])
    ac, asl = rnd.choice([(2, 1.0), (5, 0.35), (20, 0.35)])
    bc, bsl = rnd.choice([(2, 1.0), (7, 0.5), (40, 0.35)])
    kw = dict(window_length=w, a_conf_center=ac, a_conf_slope=asl, b_conf_center=bc, b_conf_slope=bsl, confidence=scheme, estimator=est, bit_flip=f,
              corrected_dist=corrected)
    d = EntropyBitwiseWeightedDecoder(ldpc, k, thr, factor, **dec.trim(case, EntropyBitwiseWeightedDecoder, kw))
    ff = f if (corrected or est == "Bayes") else 0
    a, b = (dec.BayesRef(w, ff), dec.BayesRef(w, ff)) if est == "Bayes" else (dec.BitRef(w, ff), dec.BitRef(w, ff))
    n = rnd.randint(5, 25)
    if case.index % 150 == 7:
        n = rnd.randint(260, 330)   # long enough for counters to overflow a byte
        case.hit("long history")
    case.note(tr.types, scheme, est, w, f, corrected, thr, factor, (ac, asl), (bc, bsl), n)

    def word_of(kind):
        info = tr.info(0)
        if kind == "damaged":
            info[rnd.randrange(k)] ^= 1
        elif kind == "random":
            info = rng.integers(0, 2, k)
        return code.encode(info)

    def broken(word):
        word = word.copy()
        word[k + rnd.randrange(m)] ^= 1
        return word

    kinds = ["telemetry", "telemetry", "telemetry", "damaged", "random"]
    for i in range(n):
        sent = word_of("telemetry")
        llr, _ = dec.noisy(rng, sent, rnd.choice([0, 0.02, 0.2]), rnd.choice(["bsc", "awgn"]))
        if rnd.random() < 0.1:
            llr = -np.abs(llr)
        keep = llr.copy()
        first, second = word_of(rnd.choice(kinds)), word_of(rnd.choice(kinds))
        direct = rnd.random() < 0.35
        second = second if rnd.random() < 0.6 else broken(second)
        ldpc.plan = [first] if direct else [broken(first), second]
        ldpc.calls.clear()
        d.decode_buffer(llr)
        ldpc.plan = []
        case.array_equal(llr, keep, "the received word was altered")
        case.array_equal(ldpc.calls[0], keep, "the first attempt does not use the received word")
        case.equal(len(ldpc.calls), 1 if direct else 2, "number of attempts")
        if direct:
            case.hit("plain success")
        else:
            got = ldpc.calls[1]
            want = keep.copy()
            check = np.ones(code.n, dtype=bool)
            ca, cb = dec.confidence(a.size, ac, asl), dec.confidence(b.size, bc, bsl)
            wa, wb = scheme_weights(scheme, ca, cb, variance(a, est, ff), variance(b, est, ff))
            any_s = unsure = False
            for ref, wt in ((a, wa), (b, wb)):
                if ref.p1() is None:
                    continue
                model, s, near = ref.llr(thr, wt)
                any_s |= bool(s.any())
                unsure |= bool(near.any())
                want[:k] += model
                check[:k] &= ~near
                case.interesting(wt > 0 and s.any())
                case.hit("evidence added", wt > 0 and s.any())
            if any_s:
                bound = factor * np.max(np.abs(keep))
                clipped = np.clip(want, -bound, bound)
                case.hit("clipped", int((clipped != want).sum()))
                want = clipped
            else:
                case.hit("no model yet", a.size + b.size == 0)
            if any_s or not unsure:
                case.close(got[check], want[check], f"word of the second attempt (scheme {scheme}, {a.size} recovered, {b.size} in all)", atol=1e-9)
                case.hit("second attempts")
                case.hit(f"scheme {scheme}")
                case.hit(f"estimator {est}")
                case.hit("Bayes rescaled", est == "Bayes" and b.rescaled > 0)
        final = first if direct else second
        full = "UNKNOWN" not in mav.segment(np.packbits(final[:k].astype(np.uint8)).tobytes())[0]
        if full:
            a.add(final[:k])
        if direct or full:
            b.add(final[:k])
        else:
            b.add((keep < 0)[:k])


WORKLOADS = [("history", history, 600, 9000)]
