"""C34 diagnostics tell the truth and change nothing"""
import contextlib
import io
import numpy as np
from vt import dec, mav, fieldref, rectref
from vt.traffic import Traffic
from checks.c33 import same
from decoders import MavlinkRectifyingDecoder, CombinedDecoder, CombinedUnifiedDecoder, ClassifyingEntropyDecoder
from decoders.turbo import TurboDecoder
from inference import BufferModel

RULE = ("the same history of 4-12 telemetry buffers through a decoder with and without diagnostics (rectifying, combined, unified combined, turbo), same inner decoder "
        "answers; the reported diagnostics of the rectifying decoder are recomputed from the returned findings, the true error positions and the field statistics. "
        "Non-trivial: diagnostics were reported")
REQUIRED = ["pairs of runs", "buffers", "mavlink", "combined", "unified", "turbo", "field detection", "no damaged field", "forcing counts", "forced bits exact", "forced values exact",
            "cold start", "supplied model", "errors in any order", "without diagnostics nothing reported", "asked directly: MavlinkRectifyingDecoder", "asked directly: CombinedDecoder",
            "asked directly: CombinedUnifiedDecoder"]


def table(found, actual, total):
    f, a = set(int(x) for x in found), set(int(x) for x in actual)
    fp = len(f - a)
    return [len(f & a), fp, total - len(a) - fp, len(a - f), len(a), total - len(a)]


def diagnose(case, d, r, keep, err, st, ref, learning, params, last_obs, conf, k, n):
    """judge the reported diagnostics of one buffer"""
    good_f, bad_f, cp, fp = [int(x) for x in r[8]], [int(x) for x in r[9]], r[10], r[11]
    fields = mav.layout(st) if st else []
    if not fields:
        case.equal((cp, fp), ({}, {}), "diagnostics although nothing was predicted")
        case.hit("cold start")
        return
    damaged = sorted({i for i, (_, _, b, ln) in enumerate(fields) if any(8 * b <= e < 8 * (b + ln) for e in err)})
    if not damaged:
        case.equal(dict(cp), {}, "field detection reported although no field is damaged")
        case.hit("no damaged field")
    else:
        good = [i for i in range(len(fields)) if i not in damaged]
        case.equal((int(cp["n_fields_in_buffer"]), int(cp["n_damaged_fields_in_buffer"])), (len(fields), len(damaged)), "numbers of (damaged) fields")
        case.equal([int(v) for v in cp["bad_fields_performance"]], table(bad_f, damaged, len(fields)), "detection of damaged fields")
        case.equal([int(v) for v in cp["good_fields_performance"]], table(good_f, good, len(fields)), "detection of intact fields")
        case.hit("field detection")
    bits, flips, q = [int(v) for v in fp["bits_confusion_matrix"]], [int(v) for v in fp["flipping_confusion_matrix"]], [float(v) for v in fp["forcing_quality"]]
    e = len(err)
    for what, t in (("forced", bits), ("flipped", flips)):
        case.check(min(t) >= 0 and t[4] == e and t[5] == n - e and t[0] + t[3] == e and t[1] + t[2] == n - e, f"{what} bits do not add up", t, e, n)
    case.equal(q[:2], [float(e), float(bits[0] + bits[1])], "errors and forced bits in the forcing summary")
    case.equal(q[2:5], [float(flips[0] + flips[1]), float(flips[0]), float(flips[1])], "flipped bits in the forcing summary")
    case.check(flips[0] <= bits[0] and flips[1] <= bits[1], "more bits flipped than forced", bits, flips)
    case.check(0 <= q[5] <= 1, "share of wrongly forced bits", q)
    case.hit("forcing counts")
    exp = rectref.rectify(ref, st, last_obs, k, params, learning, conf)
    if not (exp["j"].unsure & exp["j"].is_const).any():
        f = np.flatnonzero(exp["forced"])
        case.equal(bits, table(f, err, n), "forced bits against the errors")
        case.hit("forced bits exact", len(f) > 0)
        if not learning:
            v = exp["j"].const[f]
            rx = (keep < 0).astype(int)
            sent = rx.copy()
            sent[err] ^= 1
            case.equal(flips, table(f[v != rx[f]], err, n), "flipped bits against the errors")
            case.close(q[5], np.mean(v != sent[f]) if len(f) else 0.0, "share of wrongly forced bits")
            case.hit("forced values exact", len(f) > 0)


def runs(case):
    rnd, rng = case.rnd, case.rng
    kind = ("mavlink", "mavlink", "combined", "unified", "turbo")[case.index % 5]
    types = rnd.choice([1, 1, 2]) if kind != "turbo" else 1
    small = [m for m in mav.SCALAR_IDS if mav.HC[m]["length"] <= 40]
    tr = Traffic(rnd, types, n_msgs=rnd.randint(1, 2), ids=small)
    k, m = tr.length * 8, 16
    code = dec.Code(rng, k, m)
    w = rnd.choice([None, 3, 5])
    passes = rnd.choice([1, 1, 2]) if kind == "mavlink" else 1
    params = dict(valid_thr=rnd.choice([0.05, 0.3, 0.6]), invalid_thr=rnd.choice([0.01, 0.1, 0.3]), valid_factor=rnd.choice([1.2, 2, 5]),
                  invalid_factor=rnd.choice([0.2, 0.5, 0.9]))
    center, slope = rnd.choice([(0, 0), (2, 1.0), (5, 0.35)])
    model, ref = None, fieldref.RefModel(w)
    if rnd.random() < 0.4 and kind != "turbo":
        model = BufferModel(window_size=w)
        for _ in range(rnd.randint(2, 5)):
            t = rnd.randrange(types)
            b = tr.buffer(t)
            model.add_buffer(b, tr.types[t][0])
            ref.add(b, tr.types[t][0])
    learning = model is None
    structures = [dict(st) for st, _ in tr.types] if not learning or rnd.random() < 0.3 else [None] * types
    given = structures[0] is not None
    seed = rnd.randrange(2 ** 31)
    extra = dict(entropy_threshold=0.3, clipping_factor=2, bit_flip=0.01)
    flip = rnd.random() < 0.5

    def make(debug):
        ldpc = dec.SpyLogSpa(code, np.random.default_rng(seed))
        kw = dict(n_clusters=types, cluster=False, window_length=w, data_model=model, conf_center=center, conf_slope=slope, debug=debug, **params)
        if kind == "turbo":
            first = ClassifyingEntropyDecoder(ldpc, k, 0.3, 2, 3, 1, conf_center=2, conf_slope=1.0)
            return TurboDecoder(first, ldpc, passes + 1, debug), ldpc
        if kind == "mavlink":
            d = MavlinkRectifyingDecoder(ldpc, k, segmentation_iterations=passes, **kw)
        elif kind == "combined":
            d = CombinedDecoder(ldpc, k, **kw, **extra)
        else:
            d = CombinedUnifiedDecoder(ldpc, k, **kw, **extra, flip=flip)
        if given:
            d.set_buffer_structures([dict(st) for st, _ in tr.types])
        return d, ldpc

    (a, la), (b, lb) = make(False), make(True)
    n = rnd.randint(4, 12)
    case.note(kind, tr.types, passes, params, w, (center, slope), learning, given, n, flip)
    for i in range(n):
        t = i % types
        info = tr.info(t) if rnd.random() < 0.95 else rng.integers(0, 2, k)
        word = code.encode(info)
        llr, err = dec.noisy(rng, word, rnd.choice([0, 0.004, 0.01, 0.05]), rnd.choice(["bsc", "awgn"]))
        if rnd.random() < 0.5:
            err = rng.permutation(err)    # the positions may come in any order
            case.hit("errors in any order", len(err) > 1)
        plan = [word if rnd.random() < 0.5 else (word + (rng.random(code.n) < 0.03)) % 2 for _ in range(2 * passes + 2)]
        out = []
        for d, l in ((a, la), (b, lb)):
            l.plan = [x.copy() for x in plan]
            l.calls.clear()
            l.answers.clear()
            with contextlib.redirect_stdout(io.StringIO()):
                told = err.copy()
                out.append(d.decode_buffer(llr.copy(), told))
            case.array_equal(told, err, "the given error positions were altered")
            l.plan = []
        upto = {"mavlink": 10, "turbo": 4}.get(kind, 5)
        case.check(same(out[0][:upto], out[1][:upto]), f"buffer {i}: the result differs with diagnostics", out[0][:upto], out[1][:upto])
        case.check(same(la.calls, lb.calls), f"buffer {i}: the words decoded differ with diagnostics")
        case.hit("buffers")
        case.hit(kind)
        case.hit("supplied model", not learning)
        if kind == "turbo":
            case.equal(int(out[0][4]), 0, "errors counted without diagnostics")
        if kind != "mavlink":
            case.interesting()
            continue
        case.equal((dict(out[0][10]), dict(out[0][11])), ({}, {}), "diagnostics reported although not asked for")
        case.hit("without diagnostics nothing reported")
        label = int(out[1][6])
        obs = llr if len(lb.calls) == 1 else lb.answers[-2][1]
        conf = dec.confidence(ref.size, center, slope)
        case.interesting(bool(out[1][10]))
        # a structure learned in an earlier pass counts from then on; those passes never succeed, so it cannot be learned in between
        diagnose(case, b, out[1], llr, err, structures[label], ref, learning, params, obs, conf, k, code.n)
        if learning:
            est, ok = out[1][0], lb.answers[-1][2]
            if ok:
                if structures[label] is None:
                    structures[label] = mav.segment(np.packbits(est[:k].astype(np.uint8)).tobytes())[1]
                ref.add(np.packbits(est.astype(np.uint8)).tobytes(), structures[label])
            elif structures[label] is not None:
                ref.add(np.packbits((llr < 0).astype(np.uint8)).tobytes(), structures[label])
    case.hit("pairs of runs")


def reports(case):
    """the analyses of all three telemetry decoders, asked for directly"""
    rnd, rng = case.rnd, case.rng
    cls = (MavlinkRectifyingDecoder, CombinedDecoder, CombinedUnifiedDecoder)[case.index % 3]
    types = rnd.choice([1, 2])
    small = [m for m in mav.SCALAR_IDS if mav.HC[m]["length"] <= 40]
    tr = Traffic(rnd, types, n_msgs=rnd.randint(1, 3), ids=small)
    k, m = tr.length * 8, 8 * rnd.randint(2, 4)
    code = dec.Code(rng, k, m)
    ldpc = dec.SpyLogSpa(code, rng)
    model, ref = BufferModel(), fieldref.RefModel(None)
    for _ in range(rnd.randint(1, 4)):
        for t in range(types):
            b = tr.buffer(t)
            model.add_buffer(b, tr.types[t][0])
            ref.add(b, tr.types[t][0])
    kw = dict(valid_thr=0.1, invalid_thr=0.1, n_clusters=types, valid_factor=2, invalid_factor=0.5, cluster=False, data_model=model, debug=True)
    d = cls(ldpc, k, **kw) if cls is MavlinkRectifyingDecoder else cls(ldpc, k, entropy_threshold=0.3, clipping_factor=2, **kw)
    label = rnd.randrange(types)
    none = np.array([], dtype=int)
    rx = rng.integers(0, 2, code.n)
    case.equal((dict(d.classifier_analysis([0], [1], np.array([3]), 5, label)), dict(d.forcing_analysis(none, none, rx, label))), ({}, {}),
               "an analysis without a known structure")
    d.set_buffer_structures([dict(st) for st, _ in tr.types])
    st = tr.types[label][0]
    fields = mav.layout(st)
    nf, n = len(fields), code.n
    err = np.flatnonzero(rng.random(n) < rnd.choice([0, 0.003, 0.02, 0.2]))
    if rnd.random() < 0.2:
        err = np.sort(rng.choice(np.arange(k, n), size=rnd.randint(0, n - k), replace=False))    # parity bits alone: no field is damaged
    if rnd.random() < 0.5:
        err = rng.permutation(err)
    told, hard = err.copy(), rx.copy()
    good_f = sorted(rnd.sample(range(nf), rnd.randint(0, nf)))
    bad_f = sorted(rnd.sample([i for i in range(nf) if i not in good_f], rnd.randint(0, nf - len(good_f))))
    case.note(cls.__name__, tr.types, label, err.tolist(), good_f, bad_f)
    cp = dict(d.classifier_analysis(good_f, bad_f, told, nf, label))
    damaged = [i for i, (_, _, b, ln) in enumerate(fields) if ((err >= 8 * b) & (err < 8 * (b + ln))).any()]
    if not damaged:
        case.equal(cp, {}, "field detection reported although no field is damaged")
    else:
        case.equal((int(cp["n_fields_in_buffer"]), int(cp["n_damaged_fields_in_buffer"])), (nf, len(damaged)), "numbers of (damaged) fields")
        case.equal([int(v) for v in cp["bad_fields_performance"]], table(bad_f, damaged, nf), "detection of damaged fields")
        case.equal([int(v) for v in cp["good_fields_performance"]], table(good_f, [i for i in range(nf) if i not in damaged], nf), "detection of intact fields")
    j = rectref.Judgement(ref, st, rx)
    const = np.flatnonzero(j.is_const & ~j.unsure)
    f = np.sort(rng.choice(const, size=rnd.randint(0, len(const)), replace=False)) if len(const) and rnd.random() < 0.85 else none
    fp = d.forcing_analysis(f.copy(), told, hard, label)
    case.check(np.array_equal(told, err) and np.array_equal(hard, rx), "the given errors or word were altered")
    sent = rx.copy()
    sent[err] ^= 1
    v = j.const[f]
    flips = table(f[v != rx[f]], err, n)
    case.equal([int(x) for x in fp["bits_confusion_matrix"]], table(f, err, n), "forced bits against the errors")
    case.equal([int(x) for x in fp["flipping_confusion_matrix"]], flips, "flipped bits against the errors")
    case.close(fp["forcing_quality"], [len(err), len(f), flips[0] + flips[1], flips[0], flips[1], np.mean(v != sent[f]) if len(f) else 0.0], "forcing summary")
    case.hit("asked directly")
    case.hit("asked directly: " + cls.__name__)
    case.interesting(bool(damaged) or len(f) > 0)


WORKLOADS = [("runs", runs, 500, 8000), ("reports", reports, 450, 6000)]
