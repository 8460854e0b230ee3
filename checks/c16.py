"""C16 two-stage entropy decoders: the plain word first, then the word corrected by the bits known to be constant"""
import numpy as np
from vt import dec, mav
from vt.traffic import Traffic
from decoders.entropy_bitwise_decoder import EntropyBitwiseDecoder, EntropyBitwiseFlippingDecoder
from utils.custom_exceptions import IncorrectBufferLength

RULE = ("histories of 4-20 telemetry buffers through the soft and the hard two-stage decoder with a recording inner decoder; plain attempts which succeed or "
        "fail, second attempts which recover telemetry, recover something else, or fail; learned and supplied models, windows, minimum data, thresholds, "
        "clipping. The words of both attempts are compared with a recomputation. Non-trivial: a second attempt with a model took place")
REQUIRED = ["long history", "plain success", "second attempt", "second attempt with a model", "second attempt without enough data", "learned buffer", "not telemetry: not learned",
            "supplied model", "clipped", "hard words", "soft words", "window exceeded", "message count", "wrong length", "settings left out"]


def compact(tr):
    """buffers made of messages alone"""
    for j, (st, ln) in enumerate(tr.types):
        pos, items = 0, []
        for _, mid in st.items():
            items.append((pos, mid))
            pos += mav.HC[mid]["length"] + 8
        tr.types[j] = (dict(items), pos)
        tr.pad_bytes[j] = b""
    tr.length = max(t[1] for t in tr.types)
    return tr


def history(case):
    rnd, rng = case.rnd, case.rng
    small = [m for m in mav.SCALAR_IDS if mav.HC[m]["length"] <= 30]
    tr = compact(Traffic(rnd, 1, n_msgs=rnd.randint(1, 2), pad=0, ids=small))
    k, m = tr.length * 8, rnd.choice([8, 16])
    code = dec.Code(rng, k, m)
    ldpc = dec.SpyLogSpa(code, rng)
    hard = rnd.random() < 0.4
    thr = rnd.choice([0.2, 0.5, 0.72, 1.0])
    w, min_data = rnd.choice([None, 1, 2, 5]), rnd.choice([1, 2, 3, 6])
    factor = rnd.choice([0.5, 1, 2, 50])
    supplied = None
    if rnd.random() < 0.25:
        p = np.where(rng.random(k + 3) < 0.5, rng.integers(0, 2, k + 3), rng.random(k + 3))
        supplied = np.column_stack((1 - p, p))
    kw = dec.trim(case, EntropyBitwiseDecoder, dict(window_length=w, model=supplied))
    d = EntropyBitwiseFlippingDecoder(ldpc, k, thr, min_data, **kw) if hard else EntropyBitwiseDecoder(ldpc, k, thr, factor, min_data, **kw)
    ref = dec.BitRef(w)
    if supplied is not None:
        ref.fixed = supplied[:k, 1].copy()
    n = rnd.randint(4, 20)
    if case.index % 200 == 7:
        n = rnd.randint(260, 330)   # long enough for counters to overflow a byte
        case.hit("long history")
    case.note("hard" if hard else "soft", tr.types, thr, w, min_data, factor, supplied is not None, n)

    def word_of(kind):
        info = tr.info(0)
        if kind == "damaged":
            info[rnd.randrange(k)] ^= 1
        elif kind == "random":
            info = rng.integers(0, 2, k)
        return code.encode(info)

    def broken(word):
        word = word.copy()
        word[k + rnd.randrange(m)] ^= 1
        return word

    kinds = ["telemetry", "telemetry", "telemetry", "damaged", "random"]
    for i in range(n):
        sent = word_of("telemetry")
        llr, err = dec.noisy(rng, sent, rnd.choice([0, 0.02, 0.2]), rnd.choice(["bsc", "awgn"]))
        obs = (llr < 0).astype(int) if hard else llr
        keep = obs.copy()
        first = word_of(rnd.choice(kinds))
        direct = rnd.random() < 0.4
        second = word_of(rnd.choice(kinds))
        second = second if rnd.random() < 0.6 else broken(second)
        ldpc.plan = [first] if direct else [broken(first), second]
        ldpc.calls.clear()
        r = d.decode_buffer(obs)
        ldpc.plan = []
        case.array_equal(obs, keep, "the received word was altered")
        case.array_equal(ldpc.calls[0], keep, "the first attempt does not use the received word")
        if direct:
            case.equal(len(ldpc.calls), 1, "attempts after a plain success")
            case.hit("plain success")
        else:
            case.equal(len(ldpc.calls), 2, "attempts after a plain failure")
            got = ldpc.calls[1]
            usable = ref.fixed is not None or (ref.size > 0 and ref.size >= min_data)
            want = keep.copy()
            check = np.ones(code.n, dtype=bool)
            if usable:
                p = ref.p1()
                s, near = ref.structural(thr)
                check[:k] &= ~near
                if hard:
                    want[:k][s] = (p[s] > 0.5).astype(int)
                else:
                    bound = factor * np.max(np.abs(keep))
                    ev = log_ratio = dec.log_ratio(p)
                    case.hit("clipped", int((np.abs(log_ratio[s]) > bound).sum()))
                    want[:k] += np.where(s, np.clip(ev, -bound, bound), 0)
                case.hit("second attempt with a model")
                case.interesting(bool(s.any()))
                case.hit("supplied model", ref.fixed is not None)
            else:
                case.hit("second attempt without enough data")
            case.close(got[check], want[check], f"word of the second attempt ({ref.size} buffers learned)", atol=1e-9)
            case.hit("hard words" if hard else "soft words")
            case.hit("second attempt")
        final = first if direct else second
        case.array_equal(r[0], final, "reported word")
        parts, st = mav.segment(np.packbits(final[:k].astype(np.uint8)).tobytes())
        case.equal(int(r[4]), len(st), "number of messages found")
        case.hit("message count")
        if "UNKNOWN" not in parts:
            case.hit("window exceeded", w is not None and ref.size >= w)
            ref.add(final[:k])
            case.hit("learned buffer", supplied is None)
        else:
            case.hit("not telemetry: not learned")
    if supplied is None:
        case.raises(IncorrectBufferLength, lambda: d.update_model(np.zeros(k - 1, dtype=int)), "a word of another length was learned")
        case.hit("wrong length")


WORKLOADS = [("history", history, 400, 8000)]
