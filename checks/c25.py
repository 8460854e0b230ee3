"""C25 entropy aided denoiser"""
import numpy as np
from vt import dec
from inference.entropy_mle import EMLE

RULE = ("histories of 1-60 buffers of 1-40 bits (hard and soft input and output, all memory lengths, flip probabilities 0-0.4, thresholds, confidence curves), fed one "
        "by one, as a sequence, or through predict/update, with resets. Non-trivial: at least 2 buffers")
REQUIRED = ["long history", "buffers", "evidence added", "evidence withheld", "unstructured bits", "soft output", "hard output", "hard input", "soft input", "cost", "memory full",
            "reset", "sequence call", "predict only", "stream end", "settings left out"]


class Ref:
    def __init__(self, f, thr, window, center, slope):
        self.f, self.thr, self.window, self.center, self.slope = f, thr, window, center, slope
        self.rows = []

    def evidence(self, length):
        """(added llr, undecidable positions)"""
        if not self.rows:
            return np.zeros(length), np.zeros(length, dtype=bool), np.zeros(length, dtype=bool)
        b = dec.BitRef(None, self.f)
        for r in self.rows:
            b.add(r)
        c = dec.confidence(len(self.rows), self.center, self.slope)
        return b.llr(self.thr, c)[0], b.structural(self.thr)[1], b.structural(self.thr)[0]

    def update(self, bits):
        self.rows.append(np.array(bits, dtype=int))
        if self.window:
            self.rows = self.rows[-self.window:]


def history(case):
    rnd, rng = case.rnd, case.rng
    soft_in, hard_out = rnd.random() < 0.5, rnd.random() < 0.5
    f = rnd.choice([0.0, 0.01, 0.05, 0.2, 0.4]) if soft_in else rnd.choice([0.001, 0.01, 0.05, 0.2, 0.4])
    thr = rnd.choice([0.05, 0.3, 0.5, 0.9, 1.01])
    window = rnd.choice([0, 0, 1, 2, 5, 10])
    center, slope = rnd.choice([(40, 0.35), (3, 1.0), (5, 0.35), (0, 2.0)])
    length, n = rnd.choice([1, 3, 16, 40]), rnd.choice([1, 2, 10, rnd.randint(3, 60)])
    if case.index % 250 == 7:
        n = rnd.randint(260, 330)   # long enough for counters to overflow a byte
        case.hit("long history")
    kw = dict(f=f, threshold=thr, window_length=window, conf_center=center, conf_slope=slope, hard_decision=hard_out, soft_input=soft_in)
    d, ref = EMLE(**dec.trim(case, EMLE, kw)), Ref(f, thr, window, center, slope)
    draw = dec.source(rng, length, stay=rnd.choice([0.3, 0.8, 1.0]))
    err = rnd.choice([0, 0.02, 0.1])
    bufs = []
    for _ in range(n):
        bits = draw(0) ^ (rng.random(length) < err)
        bufs.append((1 - 2.0 * bits) * rng.uniform(0.01, 8, length) if soft_in else bits.astype(rnd.choice([np.int64, np.int64, np.uint8])))
    case.note(kw, length, n, err, [b.tolist() for b in bufs[:3]])
    case.interesting(n > 1)
    out = None
    if rnd.random() < 0.3:
        seq = np.array(bufs)
        keep = seq.copy()
        e, c = d.denoise_sequence(seq)
        case.array_equal(seq, keep, "the sequence was altered")
        case.equal((e.shape, c.shape), ((n, length), (n,)), "shape of the result")
        out = list(zip(e, c))
        case.hit("sequence call")
    for i, b in enumerate(bufs):
        if out is None and rnd.random() < 0.03:
            d.reset()
            ref.rows = []
            case.hit("reset")
        llr_in = b if soft_in else (1 - 2.0 * b) * np.log((1 - f) / f)
        add, near, struct = ref.evidence(length)
        if out is None and rnd.random() < 0.2:
            probe = rng.normal(0, 4, length)
            kept = probe.copy()
            got = d.predict(probe)
            case.close(got[~near], (kept + add)[~near], f"prediction before buffer {i}")
            case.array_equal(probe, kept, "prediction altered its input")
            case.hit("predict only")
        keep = b.copy()
        e, c = out[i] if out is not None else d.denoise_buffer(b)
        case.array_equal(b, keep, f"buffer {i} was altered")
        want = llr_in + add
        hard_in = (llr_in < 0).astype(int) if soft_in else np.asarray(b, dtype=int)
        if hard_out:
            sure = ~near & (np.abs(want) > 1e-7)
            case.array_equal(np.asarray(e)[sure], (want < 0).astype(int)[sure], f"hard estimate of buffer {i}")
            case.check(set(np.unique(e)) <= {0, 1}, "hard estimates are not bits", e)
            est = np.asarray(e, dtype=int)
            case.hit("hard output")
        else:
            case.close(np.asarray(e)[~near], want[~near], f"soft estimate of buffer {i}")
            est = (np.asarray(e) < 0).astype(int)
            case.hit("soft output")
        case.equal(int(c), int(np.sum(est != hard_in)), f"cost of buffer {i}")
        ref.update(hard_in)
        case.hit("cost")
        case.hit("buffers")
        case.hit("soft input" if soft_in else "hard input")
        case.hit("evidence added", bool(np.any(add != 0)))
        case.hit("evidence withheld", bool(struct.any() and not add.any()))
        case.hit("unstructured bits", bool(i > 0 and (~struct).any()))
        case.hit("memory full", bool(window and i > window))
    case.equal(d.model_size, len(ref.rows), "number of buffers in memory")
    case.hit("stream end")


WORKLOADS = [("history", history, 2500, 40000)]
