"""C18 MAVLink rectification: which received values are trusted more, less, or overruled"""
import numpy as np
from vt import dec, mav, fieldref, rectref
from vt.traffic import Traffic
from decoders import MavlinkRectifyingDecoder
from inference import BufferModel

RULE = ("histories of 4-14 telemetry buffers through the rectifying decoder with a recording inner decoder: 1-3 buffer types (classified, round robin), learned and "
        "supplied field models, learned and given structures, 1-3 rectification passes, thresholds, factors, confidence, windows. Every word handed to the inner "
        "decoder, the recognised bits and the good / bad field lists are compared with a recomputation. Non-trivial: a structure was known and a model used")
SCALE = 2
REQUIRED = ["long history", "words compared", "plain: no structure", "good bits", "bad bits", "forced bits", "recognised in received word", "recognised after rectification",
            "several passes", "structure learned", "structure given", "supplied model", "training phase plain", "failed buffer learned", "field lists", "wrong number of structures",
            "bits outside fields unchanged", "no message in buffer", "settings left out", "one type, classifier on"]


def compare_lists(case, got, want, what):
    sure, unsure = want
    got = [int(x) for x in got]
    case.equal([x for x in got if x not in unsure], sure, what)
    case.hit("field lists")


def history(case):
    rnd, rng = case.rnd, case.rng
    types = rnd.choice([1, 1, 2, 3])
    small = [m for m in mav.SCALAR_IDS if mav.HC[m]["length"] <= 40]
    tr = Traffic(rnd, types, n_msgs=rnd.randint(1, 2), ids=small)
    k, m = tr.length * 8, 16
    code = dec.Code(rng, k, m)
    ldpc = dec.SpyLogSpa(code, rng)
    clustered = types > 1 and rnd.random() < 0.4
    train = rnd.randint(2, 5)
    params = dict(valid_thr=rnd.choice([0, 0.05, 0.3, 0.6]), invalid_thr=rnd.choice([0, 0.01, 0.1, 0.3]), valid_factor=rnd.choice([1.2, 2, 5]),
                  invalid_factor=rnd.choice([0.2, 0.5, 0.9]))
    w = rnd.choice([None, None, 2, 5])
    center, slope = rnd.choice([(0, 0), (2, 1.0), (5, 0.35)])
    passes = rnd.choice([1, 1, 2, 3])
    supplied, ref = None, fieldref.RefModel(w)
    if rnd.random() < 0.3:
        supplied = BufferModel(window_size=w)
        for _ in range(rnd.randint(1, 6)):
            t = rnd.randrange(types)
            b = tr.buffer(t)
            supplied.add_buffer(b, tr.types[t][0])
            ref.add(b, tr.types[t][0])
    flag = clustered if types > 1 else rnd.random() < 0.5   # with one type there is nothing to classify
    kw = dict(classifier_training_size=train if clustered else None, cluster=flag, window_length=w, data_model=supplied, conf_center=center,
              conf_slope=slope, segmentation_iterations=passes)
    d = MavlinkRectifyingDecoder(ldpc, k, n_clusters=types, **params, **dec.trim(case, MavlinkRectifyingDecoder, kw))
    learning = supplied is None
    structures = [None] * types
    if not learning or rnd.random() < 0.3:
        structures = [dict(st) for st, _ in tr.types]
        for bad in (types - 1, types + 1):
            case.raises(ValueError, lambda: d.set_buffer_structures([tr.types[0][0]] * bad), "structures for another number of types")
            case.hit("wrong number of structures")
        d.set_buffer_structures([dict(st) for st, _ in tr.types])
        case.hit("structure given")
    n = rnd.randint(4, 14)
    if case.index % 240 == 7:
        n = rnd.randint(260, 330)   # long enough for counters to overflow a byte
        case.hit("long history")
    case.note(tr.types, types, clustered, train, params, w, (center, slope), passes, learning, n)
    for i in range(n):
        t = i % types if not clustered else rnd.randrange(types)
        info = tr.info(t)
        if rnd.random() < 0.06:
            info = rng.integers(0, 2, k)   # not telemetry at all
        word = code.encode(info)
        llr, err = dec.noisy(rng, word, rnd.choice([0, 0.004, 0.01, 0.05, 0.2]), rnd.choice(["bsc", "awgn"]))
        if rnd.random() < 0.15:  # errors only in known constant header bytes: rectification repairs the message
            llr, err = dec.noisy(rng, word, 0, "bsc")
            st = tr.types[t][0]
            pos = 8 * rnd.choice(list(st)) + rnd.randrange(8)
            llr[pos] *= -1
            err = np.array([pos])
        keep = llr.copy()
        plan = [word if rnd.random() < 0.35 else (word + (rng.random(code.n) < 0.03)) % 2 for _ in range(passes)]
        ldpc.plan = [x.copy() for x in plan]
        ldpc.calls.clear()
        ldpc.answers.clear()
        r = d.decode_buffer(llr, err)
        est, label, segmented, good_f, bad_f = r[0], int(r[6]), r[7], r[8], r[9]
        case.array_equal(llr, keep, "the received word was altered")
        case.equal(int(r[3]), sum(a[3] for a in ldpc.answers), "iterations over all passes")
        dec.expect_label(case, label, i, types, clustered, train)
        case.hit("one type, classifier on", types == 1 and flag)
        if label < 0:
            case.equal(len(ldpc.calls), 1, "attempts while the classifier trains")
            case.array_equal(ldpc.calls[0], keep, "a model was used while the classifier trains")
            case.equal((np.size(segmented), list(good_f), list(bad_f)), (0, [], []), "findings while the classifier trains")
            case.hit("training phase plain")
            continue
        obs = keep
        for a, (got, ans) in enumerate(zip(ldpc.calls, ldpc.answers)):
            st = structures[label]
            if st is None:
                case.array_equal(got, obs, f"pass {a}: a word was rectified without a known structure")
                case.hit("plain: no structure")
                if a == len(ldpc.calls) - 1:
                    case.equal((np.size(segmented), list(good_f), list(bad_f)), (0, [], []), "findings without a structure")
            else:
                conf = dec.confidence(ref.size, center, slope)
                e = rectref.rectify(ref, st, obs, k, params, learning, conf)
                c = e["check"]
                case.close(got[c], e["word"][c], f"pass {a}: rectified word (type {label}, {ref.size} buffers learned, {e['source']})", atol=1e-9)
                case.hit("words compared", bool(c.any()))
                case.interesting(ref.size > 0)
                case.hit("good bits", int((e["good"] & c).sum()))
                case.hit("bad bits", int((e["bad"] & c).sum()))
                case.hit("forced bits", int((e["forced"] & c).sum()))
                case.hit("bits outside fields unchanged", int(np.isnan(e["j"].p).sum()))
                case.hit("recognised in received word", e["source"] == "received")
                case.hit("recognised after rectification", e["source"] == "rectified")
                case.hit("no message in buffer", not st)
                case.hit("supplied model", not learning)
                if a == len(ldpc.calls) - 1:
                    if e["segmented"] is not None:
                        case.array_equal(np.asarray(segmented, dtype=bool), e["segmented"], "recognised bits")
                    compare_lists(case, good_f, e["good_fields"], "good fields")
                    compare_lists(case, bad_f, e["bad_fields"], "bad fields")
            obs = ans[1]
            case.hit("several passes", a > 0)
        success = ldpc.answers[-1][2]
        case.check(success or len(ldpc.calls) == passes, "gave up before the last pass", len(ldpc.calls))
        if learning:
            if success:
                if structures[label] is None:
                    structures[label] = mav.segment(np.packbits(est[:k].astype(np.uint8)).tobytes())[1]
                    case.hit("structure learned")
                ref.add(np.packbits(est.astype(np.uint8)).tobytes(), structures[label])
            elif structures[label] is not None:
                ref.add(np.packbits((keep < 0).astype(np.uint8)).tobytes(), structures[label])
                case.hit("failed buffer learned")


WORKLOADS = [("history", history, 480, 8000)]
