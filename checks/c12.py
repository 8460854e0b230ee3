"""C12 decoder soundness: what is reported is what the code decided"""
import numpy as np
from vt import dec, zoo, mav
from vt.traffic import Traffic
from inference import BufferClassifier
from ldpc.decoder import DecoderWiFi, bsc_llr
from ldpc.encoder import EncoderWiFi
from ldpc.wifi_spec_codes import WiFiSpecCode

RULE = ("every decoder of the repository over histories of 6-16 buffers (telemetry and random sources, clean to hopeless channels, binary symmetric and "
        "Gaussian) with random settings, on random codes with a recording stand-in for the inner decoder, on the same codes with the real belief "
        "propagation / bit flipping decoders, and on the 802.11n code. Non-trivial: the history holds a success and a failure")
REQUIRED = ["buffers", "successes", "failures", "flag against parity checks", "real belief propagation", "real bit flipping", "802.11n code",
            "clean words", "training labels", "round robin labels", "cluster labels", "several attempts", "input untouched", "code untouched", "labels against a classifier"] + ["decoder " + k for k in zoo.KINDS]


def observe(case, u, ldpc, code, llr, err, state):
    """run one buffer, and judge the result against the record of the inner decoder"""
    keep, keep_err = llr.copy(), err.copy()
    before = len(ldpc.answers)
    out = u.run(llr, err)
    case.check(np.array_equal(llr, keep) and llr.dtype == keep.dtype, f"{u.kind}: the received word was altered")
    case.array_equal(err, keep_err, f"{u.kind}: the error positions were altered")
    case.hit("input untouched")
    ans = ldpc.answers[before:]
    case.check(len(ans) >= 1, f"{u.kind}: the code was never decoded")
    last = ans[-1]
    case.array_equal(out["estimate"], last[0], f"{u.kind}: reported word is not the one decoded")
    est = np.asarray(out["estimate"])
    case.check(est.shape == (code.n,) and set(np.unique(est)) <= {0, 1}, f"{u.kind}: not a word of bits", est.shape)
    bitflip = u.kind in zoo.BITFLIP
    ok = last[1] if bitflip else last[2]
    it = [a[2] if bitflip else a[3] for a in ans]
    case.equal(bool(out["success"]), bool(ok), f"{u.kind}: success flag")
    parity = not code.syndrome(est).any()
    if bitflip:
        case.check(parity or not out["success"], f"{u.kind}: success reported for a word which fails the parity checks")
        case.equal(np.size(out["llr"]), 0, f"{u.kind}: soft output of a hard decoder")
    else:
        case.equal(bool(out["success"]), parity, f"{u.kind}: success flag against the parity checks")
        case.close(out["llr"], last[1], f"{u.kind}: soft output")
        case.array_equal(est, np.asarray(out["llr"]) < 0, f"{u.kind}: word against soft output")
    case.hit("flag against parity checks")
    if "iterations" in out:
        if u.kind == "mavlink":
            case.equal(int(out["iterations"]), sum(it), "mavlink: iterations over all attempts")
            case.check(len(ans) <= u.params.get("segmentation_iterations", 1), "mavlink: more attempts than asked for", len(ans))
        elif u.kind in ("entropy", "flipping", "weighted"):
            case.check(len(ans) <= 2, f"{u.kind}: more than two attempts")
            case.equal(int(out["iterations"]), it[-1], f"{u.kind}: iterations")
        else:
            case.equal(len(ans), 1, f"{u.kind}: attempts")
            case.equal(int(out["iterations"]), it[-1], f"{u.kind}: iterations")
    case.hit("several attempts", len(ans) > 1)
    for a in ans[:-1]:
        case.check(not (a[1] if bitflip else a[2]), f"{u.kind}: decoding went on after a success")
    if "syndrome" in out:
        case.array_equal(out["syndrome"], last[3] if bitflip else last[4], f"{u.kind}: syndrome")
        case.close(out["validity"], last[4] if bitflip else last[5], f"{u.kind}: failed checks per bit")
    if "label" in out:
        i, lab = state["i"], int(out["label"])
        if u.n_clusters == 1:
            case.equal(lab, 0, f"{u.kind}: label with one cluster")
        elif not u.clustered:
            case.equal(lab, i % u.n_clusters, f"{u.kind}: round robin label")
            case.hit("round robin labels")
        elif i < u.train - 1:
            case.equal(lab, -1, f"{u.kind}: label while the classifier trains")
            case.array_equal(np.asarray(ldpc.calls[-1]) if u.kind != "classifying-gal" else ldpc.calls[-1],
                             llr if u.kind != "classifying-gal" else (llr < 0).astype(int), f"{u.kind}: a model was used while the classifier trains")
            case.hit("training labels")
        else:
            case.check(0 <= lab < u.n_clusters, f"{u.kind}: label out of range", lab)
            case.hit("cluster labels")
        if u.clustered:
            if "classifier" not in state:
                state["classifier"] = BufferClassifier(u.train, u.n_clusters)
            case.equal(lab, int(state["classifier"].classify((keep < 0).astype(np.int_)[:u.model_length])), f"{u.kind}: label against the classification of the model bits")
            case.hit("labels against a classifier")
    case.check(np.array_equal(np.asarray(ldpc.info_idx), state["info"]) and np.array_equal(np.asarray(ldpc.h), state["h"]), f"{u.kind}: the code itself was altered")
    case.hit("code untouched")
    if u.kind == "turbo":
        n = len(ans)
        case.equal(int(out["which"]), 1 if n % 2 and out["success"] else 2, "turbo: which decoder decided")
    state["i"] += 1
    case.hit("buffers")
    case.hit("decoder " + u.kind)
    case.hit("successes" if out["success"] else "failures")
    state["ok"].add(bool(out["success"]))
    return out


def begin(ldpc):
    return {"i": 0, "ok": set(), "info": np.array(ldpc.info_idx), "h": np.array(ldpc.h)}


def setup(case, kind):
    rnd, rng = case.rnd, case.rng
    mav_kind = kind in ("mavlink", "combined", "unified")
    if mav_kind or rnd.random() < 0.3:
        tr = Traffic(rnd, rnd.choice([1, 2]), n_msgs=1)
        k = tr.length * 8
        draw = tr.info
        types = len(tr.types)
        m = 8 * rnd.randint(2, 6)
    else:
        k = rnd.choice([8, 16, 40, 64])
        types = rnd.choice([1, 2])
        draw = dec.source(rng, k, types)
        m = rnd.choice([8, 16, 24])
    code = dec.Code(rng, k, m)
    ml = k if (mav_kind or rnd.random() < 0.6 or kind in ("entropy", "flipping", "weighted")) else rnd.randrange(8, k + 1, 8)
    if kind in ("mavlink", "combined", "unified") and rnd.random() < 0.2:
        ml = 8 * max(1, k // 16)
    return code, draw, types, ml


def planned(case):
    """the inner decoder's answers are scripted: any mix of recovered, half recovered and wrong words"""
    rnd, rng = case.rnd, case.rng
    kind = zoo.KINDS[case.index % len(zoo.KINDS)]
    code, draw, types, ml = setup(case, kind)
    ldpc = zoo.spy(kind, code, rng)
    state = begin(ldpc)
    u = zoo.build(kind, rnd, ldpc, ml)
    case.note(kind, code.k, code.m, ml, u.params)
    for b in range(rnd.randint(6, 16)):
        word = code.encode(draw(b % types))
        llr, err = dec.noisy(rng, word, rnd.choice([0, 0.02, 0.1, 0.3]), rnd.choice(["bsc", "awgn"]))
        if rnd.random() < 0.05:
            llr = np.round(llr)  # exact zeros are received as well
        ldpc.plan = [word if rnd.random() < 0.5 else (word + (rng.random(code.n) < 0.1)) % 2 for _ in range(8)]
        observe(case, u, ldpc, code, llr, err, state)
    case.interesting(len(state["ok"]) == 2)


def real(case):
    """the real inner decoders"""
    rnd, rng = case.rnd, case.rng
    kind = zoo.KINDS[case.index % len(zoo.KINDS)]
    code, draw, types, ml = setup(case, kind)
    if code.n > 400 and case.mon.tier == "quick":
        case.hit("skipped large")
        return
    ldpc = zoo.spy(kind, code, rng, real=True, max_iter=rnd.choice([2, 5, 10]))
    state = begin(ldpc)
    u = zoo.build(kind, rnd, ldpc, ml)
    case.note(kind, code.k, code.m, ml, u.params)
    for b in range(rnd.randint(6, 10)):
        word = code.encode(draw(b % types))
        p = rnd.choice([0, 0.01, 0.05, 0.2])
        llr, err = dec.noisy(rng, word, p, rnd.choice(["bsc", "awgn"]))
        if kind == "flipping":
            llr = (llr < 0).astype(np.int_)
        out = observe(case, u, ldpc, code, llr, err, state)
        if err.size == 0 and (kind in ("entropy", "flipping", "weighted") or (b == 0 and kind != "turbo")):
            # nothing was learned yet (or the plain attempt comes first): an intact word decodes to itself
            case.check(out["success"], f"{kind}: an intact word failed")
            case.array_equal(out["estimate"], word, f"{kind}: an intact word was altered")
            case.hit("clean words")
    case.hit("real bit flipping" if kind in zoo.BITFLIP else "real belief propagation")
    case.interesting(len(state["ok"]) == 2)


def wifi(case):
    rnd, rng = case.rnd, case.rng
    spec = WiFiSpecCode.N648_R23

    class Spy(DecoderWiFi):
        def decode(self, channel_word, max_iter=None):
            self.calls.append(np.array(channel_word))
            self.answers.append(super().decode(channel_word, max_iter))
            return dec.copied(self.answers[-1])

    kind = zoo.LOGSPA[case.index % len(zoo.LOGSPA)]
    ldpc = Spy(spec, 8, channel_model=bsc_llr(0.05)) if kind == "flipping" else Spy(spec, 8)
    ldpc.calls, ldpc.answers = [], []

    class C:
        n, k, h = ldpc.n, 432, ldpc.h
        syndrome = staticmethod(lambda w: ldpc.h @ np.asarray(w, dtype=int) % 2)

    enc = EncoderWiFi(spec)
    ids = [m for m in mav.SCALAR_IDS if mav.HC[m]["length"] + 8 <= 40]
    while True:
        tr = Traffic(rnd, 1, n_msgs=1, pad=0, ids=ids)
        if tr.length <= 54:
            break
    state = begin(ldpc)
    u = zoo.build(kind, rnd, ldpc, 432)
    case.note(kind, u.params, tr.types)
    for b in range(5):
        info = np.concatenate((tr.info(), np.zeros(432 - tr.length * 8, dtype=np.int_)))
        word = np.array(enc.encode(info), dtype=int)
        llr, err = dec.noisy(rng, word, [0, 0.02, 0.05, 0.12, 0.03][b])
        if kind == "flipping":
            llr = (llr < 0).astype(np.int_)
        out = observe(case, u, ldpc, C, llr, err, state)
        if b == 0:
            case.check(out["success"] and np.array_equal(out["estimate"], word), f"{kind}: an intact word failed")
            case.hit("clean words")
    case.hit("802.11n code")
    case.interesting(len(state["ok"]) == 2)


WORKLOADS = [("planned", planned, 660, 12000), ("real", real, 66, 1100), ("wifi", wifi, 9, 90)]
