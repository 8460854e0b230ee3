"""C13 learned bit statistics are those of the buffers learned"""
import numpy as np
from vt import dec, mav
from vt.traffic import Traffic
from decoders import ClassifyingEntropyDecoder
from decoders.entropy_bitwise_decoder import EntropyBitwiseWeightedDecoder
from utils.custom_exceptions import IncorrectBufferLength

RULE = ("histories of 5-40 buffers through the classifying decoder (1-4 data types, classified or round robin, belief propagation and bit flipping inner "
        "decoders, windows None and 1-9, assumed bit flip 0-0.2, supplied models) and through the two-model decoder (both estimators). Every reported "
        "distribution and every reported set of structural bits is compared with a recount. Non-trivial: >= 3 buffers learned")
REQUIRED = ["long history", "distributions", "learned decoded word", "learned received word", "window exceeded", "several types", "training not learned", "supplied model kept",
            "structural bits", "flip correction", "recovered model", "any-data model", "Bayes estimate", "Bayes rescaled", "not telemetry", "wrong length",
            "settings left out", "one type, classifier on", "reported distributions kept"]


def compare(case, ref, dist, struct, thr, idx, what):
    p = ref.p1()
    if p is None:
        case.equal((np.size(dist), np.size(struct)), (0, 0), f"{what}: a model before any data")
        return
    dist = np.asarray(dist)
    case.close(dist[:, 1], p, f"{what}: probability of a one", atol=1e-9)
    case.close(dist.sum(axis=1), np.ones(len(p)), f"{what}: distribution does not sum to one")
    sure, near = ref.structural(thr)
    struct = np.asarray(struct, dtype=int)
    got = np.isin(idx, struct)
    case.check(len(struct) == len(set(struct.tolist())) and set(struct.tolist()) <= set(idx.tolist()), f"{what}: structural bits outside the model", struct)
    case.array_equal(got[~near], sure[~near], f"{what}: structural bits")
    case.hit("structural bits", int(sure.sum()))
    case.hit("distributions")


def classifying(case):
    rnd, rng = case.rnd, case.rng
    k, m = rnd.choice([8, 16, 32]), rnd.choice([8, 16])
    code = dec.Code(rng, k, m)
    ml = rnd.choice([k, k, k // 2, k + 3, code.n])  # the model may also cover parity bits
    kind = rnd.choice(["bp", "bp", "wbf", "gal"])
    ldpc = {"bp": dec.SpyLogSpa, "wbf": dec.SpyWbf, "gal": dec.SpyGal}[kind](code, rng)
    types = rnd.randint(1, 4)
    clustered = types > 1 and rnd.random() < 0.6
    train = rnd.randint(2, 8)
    w = rnd.choice([None, 1, 2, 5, 9])
    f = rnd.choice([0, 0, 0.01, 0.1, 0.2])
    thr = rnd.choice([0.0, 0.2, 0.5, 0.72, 1.0, 1.5])
    supplied = None
    if rnd.random() < 0.2:
        p = np.where(rng.random(ml + 2) < 0.4, rng.integers(0, 2, ml + 2), rng.random(ml + 2))
        supplied = np.column_stack((1 - p, p))
    flag = int(clustered) if types > 1 else rnd.choice([0, 1])  # with one type there is nothing to classify
    kw = dict(window_length=w, conf_center=rnd.choice([1, 4, 40]), conf_slope=rnd.choice([1.0, 0.35]), bit_flip=f, cluster=flag, data_model=supplied,
              reliability_method=rnd.choice([0, 0, 1, 2] + ([3] if w else [])))
    d = ClassifyingEntropyDecoder(ldpc, ml, thr, rnd.choice([1, 3]), train, types, **dec.trim(case, ClassifyingEntropyDecoder, kw))
    idx = np.arange(ml)
    refs = [dec.BitRef(w, f) for _ in range(types)]
    if supplied is not None:
        keep = supplied.copy()
        for r in refs:
            r.fixed = keep[:ml, 1]
    draw = dec.source(rng, k, types)
    n = rnd.randint(5, 40)
    if case.index % 100 == 7:
        n = rnd.randint(260, 330)   # long enough for counters to overflow a byte
        case.hit("long history")
    case.note("classifying", kind, k, m, ml, types, clustered, train, w, f, thr, supplied is not None, n)
    learned, reported = 0, []
    for i in range(n):
        t = i % types if not clustered else rnd.randrange(types)
        word = code.encode(draw(t))
        llr, err = dec.noisy(rng, word, rnd.choice([0, 0.05, 0.2]), "awgn")
        other = code.encode(draw(t))
        ldpc.plan = [word if rnd.random() < 0.4 else other if rnd.random() < 0.3 else (word + (rng.random(code.n) < 0.2)) % 2]
        r = d.decode_buffer(llr)
        est, ok, dist, struct, label = r[0], r[2], r[6], r[7], int(r[8])
        dec.expect_label(case, label, i, types, clustered, train)
        case.hit("one type, classifier on", types == 1 and flag)
        if label < 0:
            case.equal((np.size(dist), np.size(struct)), (0, 0), "a model is reported while the classifier trains")
            case.hit("training not learned")
            continue
        if supplied is None:
            refs[label].add((est if ok else (llr < 0))[idx])
            learned += 1
            case.hit("learned decoded word" if ok else "learned received word")
            case.hit("window exceeded", w is not None and learned > w * types)
            case.hit("flip correction", f > 0)
        else:
            case.array_equal(supplied, keep, "the supplied model was altered")
            case.hit("supplied model kept")
        compare(case, refs[label], dist, struct, thr, idx, f"type {label}")
        reported.append((dist, np.array(dist)))
        case.hit("several types", types > 1)
    for dist, was in reported:
        case.array_equal(np.asarray(dist), was, "a distribution changed after it was reported")
    case.hit("reported distributions kept", len(reported) > 1)
    if supplied is None:
        for length in (ml - 1, ml + 1):
            case.raises(IncorrectBufferLength, lambda: d.update_model(np.zeros(length, dtype=int), 0), "a word of another length was learned")
            case.hit("wrong length")
    case.interesting(learned >= 3 or supplied is not None)


def two_models(case):
    rnd, rng = case.rnd, case.rng
    tr = Traffic(rnd, rnd.choice([1, 1, 2]), n_msgs=rnd.randint(1, 2), pad=0)
    for j, (st, ln) in enumerate(tr.types):  # no gaps: buffers must be made of messages alone to count as recovered
        pos, items = 0, []
        for _, mid in st.items():
            items.append((pos, mid))
            pos += mav.HC[mid]["length"] + 8
        tr.types[j] = (dict(items), pos)
    ln = tr.types[0][1]
    k, m = ln * 8, 16
    code = dec.Code(rng, k, m)
    ldpc = dec.SpyLogSpa(code, rng)
    est_kind = rnd.choice(["MLE", "MLE", "Bayes"])
    w = rnd.choice([None, 1, 3, 6]) if est_kind == "MLE" else rnd.choice([2, 3, 5, 8, 1000])
    f, corrected = rnd.choice([0, 0.01, 0.1]), rnd.random() < 0.5
    thr = rnd.choice([0.2, 0.5, 0.72, 1.0])
    kw = dict(window_length=w, confidence=rnd.randint(0, 5), estimator=est_kind, bit_flip=f, corrected_dist=corrected,
              a_conf_center=rnd.choice([2, 20]), a_conf_slope=1.0, b_conf_center=rnd.choice([2, 40]), b_conf_slope=1.0)
    d = EntropyBitwiseWeightedDecoder(ldpc, k, thr, rnd.choice([1, 3]), **dec.trim(case, EntropyBitwiseWeightedDecoder, kw))
    ff = f if (corrected or est_kind == "Bayes") else 0
    a, b = (dec.BayesRef(w, ff), dec.BayesRef(w, ff)) if est_kind == "Bayes" else (dec.BitRef(w, ff), dec.BitRef(w, ff))
    idx = np.arange(k)
    n = rnd.randint(4, 14) if est_kind == "MLE" else rnd.randint(4, 24)
    case.note("two models", est_kind, w, f, corrected, thr, tr.types[0], n)
    case.interesting()

    def intact(bits):
        return "UNKNOWN" not in mav.segment(np.packbits(np.asarray(bits, dtype=np.uint8)).tobytes())[0]

    def rand_word(kind):
        if kind == "telemetry":
            info = tr.info(0)[:k]
        elif kind == "damaged":
            info = tr.info(0)[:k]
            info[rnd.randrange(k)] ^= 1
        else:
            info = rng.integers(0, 2, k)
        word = code.encode(info)
        return word

    def broken(word):
        word = word.copy()
        word[k + rnd.randrange(m)] ^= 1  # a failed parity check, the information bits may well be right
        return word

    for i in range(n):
        sent = rand_word("telemetry")
        llr, err = dec.noisy(rng, sent, rnd.choice([0, 0.02, 0.2]), rnd.choice(["bsc", "awgn"]))
        first = rand_word(rnd.choice(["telemetry", "telemetry", "damaged", "random"]))
        second = rand_word(rnd.choice(["telemetry", "telemetry", "damaged", "random"]))
        if rnd.random() < 0.4:
            ldpc.plan = [first]
        else:
            ldpc.plan = [broken(first), second if rnd.random() < 0.6 else broken(second)]
        r = d.decode_buffer(llr)
        ldpc.plan = []
        word, ok = np.asarray(r[0]), r[2]
        direct = len(ldpc.answers) and ldpc.answers[-1][2] and np.array_equal(word, first)
        full = intact(word[:k])
        n_msgs = len(mav.segment(np.packbits(word[:k].astype(np.uint8)).tobytes())[1])
        case.equal(int(r[6]), n_msgs, "number of messages found")
        attempts = len(ldpc.answers)
        ldpc.answers.clear()
        if full:
            a.add(word[:k])
            case.hit("recovered model")
        if attempts == 1 or full:
            b.add(word[:k])
        else:
            b.add((llr < 0)[:k])
            case.hit("learned received word")
        case.hit("any-data model")
        case.hit("not telemetry", not full)
        case.hit("Bayes estimate", est_kind == "Bayes")
        case.hit("Bayes rescaled", est_kind == "Bayes" and b.rescaled > 0)
        case.hit("window exceeded", est_kind == "MLE" and w is not None and b.size >= w and i >= w)
        compare(case, a, r[7], r[9], thr, idx, "model of recovered buffers")
        compare(case, b, r[8], r[10], thr, idx, "model of all buffers")
        case.hit("learned decoded word", full)
    for update in (d.update_model_a, d.update_model_b):
        for length in (k - 1, k + 1):
            case.raises(IncorrectBufferLength, lambda: update(np.zeros(length, dtype=int)), "a word of another length was learned")
            case.hit("wrong length")


WORKLOADS = [("classifying", classifying, 800, 16000), ("two models", two_models, 240, 4000)]
