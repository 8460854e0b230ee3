"""shared workload of the two combined decoders"""
import numpy as np
from vt import dec, mav, fieldref, rectref
from vt.traffic import Traffic
from inference import BufferModel
from utils.custom_exceptions import IncorrectBufferLength


def history(case, cls, unified):
    rnd, rng = case.rnd, case.rng
    types = rnd.choice([1, 1, 2, 3])
    small = [m for m in mav.SCALAR_IDS if mav.HC[m]["length"] <= 40]
    tr = Traffic(rnd, types, n_msgs=rnd.randint(1, 2), ids=small)
    k, m = tr.length * 8, 16
    code = dec.Code(rng, k, m)
    ldpc = dec.SpyLogSpa(code, rng)
    ml = rnd.choice([k, k, 8 * max(1, tr.length // 2), code.n])
    clustered = types > 1 and rnd.random() < 0.4
    train = rnd.randint(2, 5)
    params = dict(valid_thr=rnd.choice([0, 0.05, 0.3, 0.6]), invalid_thr=rnd.choice([0, 0.01, 0.1, 0.3]), valid_factor=rnd.choice([1.2, 2, 5]),
                  invalid_factor=rnd.choice([0.2, 0.5, 0.9]))
    w = rnd.choice([None, None, 2, 5])
    center, slope = rnd.choice([(0, 0), (2, 1.0), (4, 0.35), (1, 0.5)])
    thr, factor, f = rnd.choice([0.2, 0.5, 0.72, 0.95]), rnd.choice([0.5, 1, 3, 30]), rnd.choice([0, 0, 0.01, 0.1])
    flip = unified and rnd.random() < 0.5
    supplied, ref = None, fieldref.RefModel(w)
    if rnd.random() < 0.35:
        supplied = BufferModel(window_size=w)
        for _ in range(rnd.randint(1, 6)):
            t = rnd.randrange(types)
            b = tr.buffer(t)
            supplied.add_buffer(b, tr.types[t][0])
            ref.add(b, tr.types[t][0])
    kw = dict(flip=flip) if unified else {}
    flag = clustered if types > 1 else rnd.random() < 0.5   # with one type there is nothing to classify
    kw.update(classifier_training_size=train if clustered else None, cluster=flag, window_length=w, data_model=supplied, conf_center=center,
              conf_slope=slope, bit_flip=f)
    d = cls(ldpc, ml, n_clusters=types, entropy_threshold=thr, clipping_factor=factor, **params, **dec.trim(case, cls, kw))
    learning = supplied is None
    structures = [None] * types
    if rnd.random() < (0.85 if supplied is not None else 0.3):
        structures = [dict(st) for st, _ in tr.types]
        for bad in (types - 1, types + 1):
            case.raises(ValueError, lambda: d.set_buffer_structures([tr.types[0][0]] * bad), "structures for another number of types")
            case.hit("wrong number of structures")
        d.set_buffer_structures([dict(st) for st, _ in tr.types])
    bits = [dec.BitRef(w, f) for _ in range(types)]
    n = rnd.randint(5, 16)
    if case.index % 160 == 7:
        n = rnd.randint(260, 330)   # long enough for counters to overflow a byte
        case.hit("long history")
    case.note(tr.types, ml, clustered, train, params, w, (center, slope), thr, factor, f, flip, learning, n)
    for i in range(n):
        t = i % types if not clustered else rnd.randrange(types)
        info = tr.info(t)
        if rnd.random() < 0.05:
            info = rng.integers(0, 2, k)
        word = code.encode(info)
        llr, err = dec.noisy(rng, word, rnd.choice([0, 0.004, 0.01, 0.05, 0.2]), rnd.choice(["bsc", "awgn"]))
        if rnd.random() < 0.15:
            llr, err = dec.noisy(rng, word, 0, "bsc")
            pos = 8 * rnd.choice(list(tr.types[t][0])) + rnd.randrange(8)
            llr[pos] *= -1
            err = np.array([pos])
        keep = llr.copy()
        ldpc.plan = [word.copy() if rnd.random() < 0.4 else (word + (rng.random(code.n) < 0.03)) % 2]
        ldpc.calls.clear()
        if unified and rnd.random() < 0.3:
            r = d.decode_buffer(llr)
        else:
            r = d.decode_buffer(llr, err)
        est, ok, label = np.asarray(r[0]), r[2], int(r[4])
        case.array_equal(llr, keep, "the received word was altered")
        case.equal(len(ldpc.calls), 1, "attempts")
        got = ldpc.calls[0]
        dec.expect_label(case, label, i, types, clustered, train)
        case.hit("one type, classifier on", types == 1 and flag)
        if label < 0:
            case.array_equal(got, keep, "a model was used while the classifier trains")
            case.hit("training phase plain")
            continue
        st, br = structures[label], bits[label]
        want, check = keep.copy(), np.ones(code.n, dtype=bool)
        if st is not None:
            conf = dec.confidence(ref.size, center, slope)
            if unified:
                active = br.size > center
                e = rectref.rectify_unified(ref, st, keep, k, params, learning, conf, br, thr, ml, active, flip)
                case.hit("too few buffers to rectify", not active)
                case.hit("flipped", int((e["bad"] & e["check"]).sum()) if flip else 0)
            else:
                e = rectref.rectify(ref, st, keep, k, params, learning, conf)
            want, check = e["word"], e["check"]
            case.hit("good bits", int((e["good"] & check).sum()))
            case.hit("bad bits", int((e["bad"] & check).sum()))
            case.hit("forced bits", int((e["forced"] & check).sum()))
            case.hit("recognised message", e["source"] is not None)
            case.hit("supplied model", not learning)
        else:
            case.hit("no structure")
        if br.p1() is not None:
            bound = factor * np.max(np.abs(keep))
            model, s, near = br.llr(thr, dec.confidence(br.size, center, slope))
            want[:ml] += np.clip(model, -bound, bound)
            check[:ml] &= ~near
            case.hit("entropy evidence", int((model != 0).sum()))
            case.hit("clipped", int((np.abs(model) > bound).sum()))
            case.interesting(bool((model != 0).any()) and st is not None)
        case.close(got[check], want[check], f"word handed to the code (type {label}, {ref.size} field / {br.size} bit samples)", atol=1e-9)
        case.hit("words compared", bool(check.any()))
        if learning:
            if ok:
                if st is None:
                    structures[label] = mav.segment(np.packbits(est[:k].astype(np.uint8)).tobytes())[1]
                    case.hit("structure learned")
                ref.add(np.packbits(est.astype(np.uint8)).tobytes(), structures[label])
            elif st is not None:
                ref.add(np.packbits((keep < 0).astype(np.uint8)).tobytes(), st)
                case.hit("failed buffer learned")
        br.add((est if ok else (keep < 0))[:ml])
        case.close(d.distributions[label][:, 1], br.p1(), "learned distribution", atol=1e-9)
    case.raises(IncorrectBufferLength, lambda: d.update_entropy_model(np.zeros(ml + 1, dtype=int), 0), "a word of another length was learned")
