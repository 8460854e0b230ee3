"""C31 turbo exchange"""
import numpy as np
from vt import dec
from decoders import Decoder, DecoderType, ClassifyingEntropyDecoder
from decoders.turbo import TurboDecoder

RULE = ("streams of words through a turbo pair whose two decoders record what they are given: planned answers (which one succeeds, after how many rounds) with stand-ins, "
        "and a learning first decoder over a real belief propagation decoder. Non-trivial: at least one exchange took place")
REQUIRED = ["words", "first input", "second input", "later rounds", "first succeeds", "second succeeds", "none succeeds", "rounds bounded", "debug errors", "no debug", "input untouched",
            "real decoders"]


class First(Decoder):
    def __init__(self, code, rng):
        super().__init__(DecoderType.ENTROPY)
        self.code, self.rng, self.calls, self.answers, self.plan = code, rng, [], [], []

    def decode_buffer(self, channel_word):
        self.calls.append(np.array(channel_word))
        word = np.array(self.plan.pop(0) if self.plan else np.asarray(channel_word) < 0, dtype=np.int_)
        llr = (1 - 2 * word) * self.rng.uniform(0.5, 20, size=self.code.n)
        ok = not self.code.syndrome(word).any()
        self.answers.append((word, llr, ok, 3, 0))
        return dec.copied(self.answers[-1])


class Recorder(Decoder):
    def __init__(self, inner):
        super().__init__(inner.decoder_type)
        self.inner, self.calls, self.answers = inner, [], []

    def decode_buffer(self, channel_word):
        self.calls.append(np.array(channel_word))
        r = self.inner.decode_buffer(channel_word)
        self.answers.append(dec.copied(r))
        return r


def judge(case, code, ch, err, rounds, debug, first, second, out, i):
    """replay the exchange from the recorded answers"""
    p1 = np.zeros(code.n)
    want = None
    for r in range(rounds):
        case.check(len(first.calls) > r, f"word {i}: the first decoder was not asked in round {r + 1}", len(first.calls))
        case.close(first.calls[r], ch + p1, f"word {i}, round {r + 1}: input of the first decoder", rtol=1e-7, atol=1e-7)
        case.hit("first input")
        e1, l1, ok1 = first.answers[r][:3]
        if ok1:
            case.equal((len(first.calls), len(second.calls)), (r + 1, r), f"word {i}: decoders asked although the first had succeeded")
            want = (e1, l1, True, 1, 0)
            case.hit("first succeeds")
            break
        p2 = l1 - ch - p1
        case.check(len(second.calls) > r, f"word {i}: the second decoder was not asked in round {r + 1}")
        case.close(second.calls[r], p2 + ch, f"word {i}, round {r + 1}: input of the second decoder", rtol=1e-7, atol=1e-7)
        case.hit("second input")
        case.hit("later rounds", r > 0)
        e2, l2, ok2 = second.answers[r][:3]
        if ok2:
            case.equal((len(first.calls), len(second.calls)), (r + 1, r + 1), f"word {i}: decoders asked although the second had succeeded")
            want = (e2, l2, True, 2, 0)
            case.hit("second succeeds")
            break
        p1 = l2 - ch - p2
    else:
        case.equal((len(first.calls), len(second.calls)), (rounds, rounds), f"word {i}: number of rounds")
        sent = (ch < 0).astype(int)
        sent[err] ^= 1
        want = (e2, l2, False, 2, int(np.sum(sent != e2)) if debug else 0)
        case.hit("none succeeds")
        case.hit("debug errors" if debug else "no debug")
    case.hit("rounds bounded")
    case.array_equal(out[0], want[0], f"word {i}: estimate")
    case.close(out[1], want[1], f"word {i}: llr", rtol=1e-9, atol=1e-9)
    case.equal(bool(out[2]), want[2], f"word {i}: success flag")
    case.equal(int(out[3]), want[3], f"word {i}: which decoder answered")
    case.equal(int(out[4]), want[4], f"word {i}: number of errors left")
    case.hit("words")


def planned(case):
    rnd, rng = case.rnd, case.rng
    code = dec.Code(rng, rnd.choice([4, 8, 16]), rnd.choice([3, 4, 8]))
    rounds, debug = rnd.randint(1, 5), rnd.random() < 0.6
    first, second = First(code, rng), dec.SpyLogSpa(code, rng)
    d = TurboDecoder(first, second, rounds, debug)
    case.note(code.n, rounds, debug)
    for i in range(rnd.randint(1, 5)):
        sent = code.encode(rng.integers(0, 2, code.k))
        ch, err = dec.noisy(rng, sent, rnd.choice([0, 0.1, 0.3]), rnd.choice(["bsc", "awgn"]))
        ch = ch * rnd.choice([1.0, 1.0, 7.3])
        when = rnd.choice(list(range(2 * rounds)) + [99, 99])   # which call succeeds
        f, s = [], []
        for r in range(rounds):
            for j, lst in ((0, f), (1, s)):
                w = code.encode(rng.integers(0, 2, code.k))
                if 2 * r + j != when:
                    w = w ^ (rng.random(code.n) < 0.2)
                    if not code.syndrome(w).any():
                        w[code.k] ^= 1
                lst.append(w)
        first.calls, first.answers, first.plan = [], [], f
        second.calls, second.answers, second.plan = [], [], s
        keep, kerr = ch.copy(), err.copy()
        case.note(i, when, err.tolist())
        out = d.decode_buffer(ch, err)
        case.check(np.array_equal(ch, keep) and np.array_equal(err, kerr), f"word {i}: the input was altered")
        case.hit("input untouched")
        case.interesting(len(second.calls) > 0)
        judge(case, code, keep, kerr, rounds, debug, first, second, out, i)


def real(case):
    rnd, rng = case.rnd, case.rng
    code = dec.Code(rng, 12, 12)
    rounds, debug = rnd.randint(1, 4), rnd.random() < 0.6
    inner = dec.SpyLogSpa(code, rng, real=True, max_iter=rnd.choice([1, 3, 10]))
    second = dec.SpyLogSpa(code, rng, real=True, max_iter=rnd.choice([1, 3, 10]))
    first = Recorder(ClassifyingEntropyDecoder(inner, code.k, 0.3, 2, 3, 1, conf_center=2, conf_slope=1.0))
    d = TurboDecoder(first, second, rounds, debug)
    draw = dec.source(rng, code.k)
    p = rnd.choice([0.05, 0.15, 0.25])
    case.note(code.a.tolist(), rounds, debug, p)
    for i in range(rnd.randint(2, 8)):
        sent = code.encode(draw(0))
        ch, err = dec.noisy(rng, sent, p, rnd.choice(["bsc", "awgn"]))
        for x in (first, second):
            x.calls, x.answers = [], []
        keep = ch.copy()
        out = d.decode_buffer(ch, err)
        case.array_equal(ch, keep, f"word {i}: the input was altered")
        if any(not np.isfinite(a[1]).all() for a in first.answers + second.answers):
            break
        case.interesting(len(second.calls) > 0)
        judge(case, code, keep, err, rounds, debug, first, second, out, i)
        case.hit("real decoders")


WORKLOADS = [("planned", planned, 1500, 30000), ("real", real, 250, 5000)]
