"""Stand-ins for the LDPC decoders (the boundary between the data-model decoders and the code), and reference models of
the learned bit statistics.

The stand-ins are subclasses of the real LDPC decoders: they record what they are given, and answer from a plan instead of
running belief propagation. Their answers are always consistent (estimate = sign of llr, success <=> zero syndrome), so that
code which recomputes one from the other sees no difference from the real thing.
"""
import math
import numpy as np
from ldpc.decoder import LogSpaDecoder, WbfDecoder, GalBfDecoder, WbfVariant
from ldpc.utils import IncorrectLength

EPS = np.finfo(float).eps


class Code:
    """systematic code, information bits first: h = [a | I]"""

    def __init__(self, rng, k, m):
        self.k, self.m, self.n = k, m, k + m
        a = np.zeros((m, k), dtype=int)
        for j in range(k):
            a[rng.choice(m, size=min(m, int(rng.integers(1, 3))), replace=False), j] = 1
        for i in range(m):
            if not a[i].any():
                a[i, rng.integers(k)] = 1
        self.a = a
        self.h = np.hstack((a, np.eye(m, dtype=int)))
        self.info_idx = np.array([True] * k + [False] * m)

    def encode(self, info):
        info = np.asarray(info, dtype=int)
        return np.concatenate((info, self.a @ info % 2))

    def syndrome(self, word):
        return self.h @ np.asarray(word, dtype=int) % 2


class _Spy:
    def setup(self, code, rng):
        self.code = code
        self.calls = []     # inputs, as copies
        self.priors = []
        self.answers = []   # what was returned
        self.plan = []      # words to answer with; an empty plan answers with the hard decision on the input
        self._rng = rng
        return self

    def _word(self, channel_word, hard):
        if len(channel_word) != self.code.n:
            raise IncorrectLength("incorrect block size")
        self.calls.append(np.array(channel_word))
        return np.array(self.plan.pop(0), dtype=np.int_) if self.plan else hard

    def _tail(self, word):
        s = self.code.syndrome(word)
        return bool(not s.any()), int(self._rng.integers(1, 21)), s


class SpyLogSpa(_Spy, LogSpaDecoder):
    def __init__(self, code, rng, real=False, max_iter=20, channel=None):
        self.real = real
        if real:
            LogSpaDecoder.__init__(self, code.h, max_iter, code.info_idx, channel)
        else:
            self.decoder_type = "BP"
            self.h, self.n, self.max_iter, self.info_idx = code.h, code.n, max_iter, code.info_idx
        self.setup(code, rng)

    def decode(self, channel_word, max_iter=None):
        if self.real:
            self.calls.append(np.array(channel_word))
            self.answers.append(LogSpaDecoder.decode(self, channel_word, max_iter))
            return copied(self.answers[-1])
        word = self._word(channel_word, np.array(np.asarray(channel_word) < 0, dtype=np.int_))
        ok, it, s = self._tail(word)
        llr = (1 - 2 * word) * self._rng.uniform(0.5, 20, size=self.code.n)
        self.answers.append((word, llr, ok, it, s, s @ self.h))
        return copied(self.answers[-1])


class SpyWbf(_Spy, WbfDecoder):
    def __init__(self, code, rng, real=False, max_iter=20, variant=WbfVariant.MWBF):
        self.real = real
        WbfDecoder.__init__(self, code.h, max_iter, variant, code.info_idx)
        self.setup(code, rng)

    def decode(self, channel_llr, prior_reliability=None):
        self.priors.append(np.zeros(self.code.n) if prior_reliability is None else np.array(prior_reliability))
        if self.real:
            self.calls.append(np.array(channel_llr))
            self.answers.append(WbfDecoder.decode(self, channel_llr, prior_reliability))
            return copied(self.answers[-1])
        word = self._word(channel_llr, np.array(np.asarray(channel_llr) < 0, dtype=np.int_))
        ok, it, s = self._tail(word)
        self.answers.append((word, ok, it, s, np.zeros(self.code.n)))
        return copied(self.answers[-1])


class SpyGal(_Spy, GalBfDecoder):
    def __init__(self, code, rng, real=False, max_iter=20):
        self.real = real
        GalBfDecoder.__init__(self, code.h, max_iter, code.info_idx)
        self.setup(code, rng)

    def decode(self, channel_word, *a, **k):
        if self.real:
            self.calls.append(np.array(channel_word))
            self.answers.append(GalBfDecoder.decode(self, channel_word, *a, **k))
            return copied(self.answers[-1])
        word = self._word(channel_word, np.array(channel_word, dtype=np.int_))
        ok, it, s = self._tail(word)
        self.answers.append((word, ok, it, s, s @ self.h))
        return copied(self.answers[-1])


def copied(t):
    """the caller gets its own arrays, the record keeps what was answered"""
    return tuple(np.array(x) if isinstance(x, np.ndarray) else x for x in t)


def h2(p):
    """binary entropy in bits"""
    p = np.asarray(p, dtype=float)
    with np.errstate(all="ignore"):
        t = np.where(p > 0, -p * np.log2(np.where(p > 0, p, 1)), 0) + np.where(p < 1, -(1 - p) * np.log2(np.where(p < 1, 1 - p, 1)), 0)
    return t


def confidence(size, center, slope):
    if size <= 1:
        return 0.0
    with np.errstate(over="ignore"):
        return float(1 / (1 + np.exp(-(float(size) - center) * slope)))


def log_ratio(p1):
    p1 = np.asarray(p1, dtype=float)
    return np.log((EPS + (1 - p1)) / (p1 + EPS))


class BitRef:
    """reference for the distribution of bits over (the last window) learned rows"""

    def __init__(self, window=None, flip=0.0):
        self.rows, self.window, self.flip = [], window, flip
        self.fixed = None

    def add(self, bits):
        if self.fixed is not None:
            return
        self.rows.append(np.array(bits, dtype=float))
        if self.window is not None:
            self.rows = self.rows[-self.window:]

    @property
    def size(self):
        return len(self.rows)

    def p1(self):
        if self.fixed is not None:
            return self.fixed
        if not self.rows:
            return None
        v = np.array([np.sum([r[i] for r in self.rows]) / len(self.rows) for i in range(len(self.rows[0]))]) \
            if len(self.rows[0]) < 4 else np.sum(self.rows, axis=0) / len(self.rows)
        return np.clip((v - self.flip) / (1 - 2 * self.flip), 0, 1)

    def structural(self, thr):
        """(sure structural, undecidable because the entropy is at the threshold) as boolean arrays"""
        p = self.p1()
        if p is None:
            return None, None
        e = h2(p)
        near = (np.abs(e - thr) < 1e-9) & ~((p == 0) | (p == 1))
        return (e < thr) & ~near, near

    def llr(self, thr, conf):
        p = self.p1()
        s, near = self.structural(thr)
        return np.where(s, conf * log_ratio(p), 0.0), s, near


class BayesRef(BitRef):
    """beta counts per bit, starting at one each; once the (first bit's) counts exceed twice the window, every bit's counts are divided by their common
    divisor, and then scaled up again to about the window if less is left"""

    def __init__(self, window, flip=0.0):
        super().__init__(None, flip)
        self.limit, self.ones, self.zeros, self.rescaled = window, None, None, 0

    def add(self, bits):
        bits = [int(x) for x in bits]
        if self.ones is None:
            self.ones, self.zeros = [1] * len(bits), [1] * len(bits)
        self.ones = [o + x for o, x in zip(self.ones, bits)]
        self.zeros = [z + 1 - x for z, x in zip(self.zeros, bits)]
        if self.ones[0] + self.zeros[0] > 2 * self.limit:
            g = [math.gcd(o, z) for o, z in zip(self.ones, self.zeros)]
            self.ones = [o // d for o, d in zip(self.ones, g)]
            self.zeros = [z // d for z, d in zip(self.zeros, g)]
            total = self.ones[0] + self.zeros[0]
            m = self.limit // total if total < self.limit else 1
            self.ones = [o * m for o in self.ones]
            self.zeros = [z * m for z in self.zeros]
            self.rescaled += 1

    @property
    def rows(self):
        return []

    @rows.setter
    def rows(self, x):
        pass

    @property
    def size(self):
        return 0 if self.ones is None else self.ones[0] + self.zeros[0] - 2

    def p1(self):
        if self.ones is None:
            return None
        v = np.array([(o - 1) / (o + z - 2) if o + z > 2 else 0.0 for o, z in zip(self.ones, self.zeros)])
        return np.clip((v - self.flip) / (1 - 2 * self.flip), 0, 1)

    def variance(self):
        """mean variance of the estimates relative to a uniform one"""
        if self.ones is None:
            return 1.0
        return 12 / (1 - 2 * self.flip) ** 2 * np.mean([o * z / ((o + z + 1) * (o + z) ** 2) for o, z in zip(self.ones, self.zeros)])


_heard = [None, {}]


def noisy(rng, word, p, kind="bsc"):
    """(channel llr, error positions) of a word sent over a channel; llr > 0 means 0. Now and then the very values of an earlier reception are received again"""
    word = np.asarray(word, dtype=int)
    if _heard[0] is not rng:
        _heard[:] = rng, {}
    heard = _heard[1].setdefault((kind, len(word)), [])
    if p and heard and rng.random() < 0.1:
        llr = heard[-1 if rng.random() < 0.7 else rng.integers(len(heard))].copy()
        return llr, np.flatnonzero((llr < 0) != (word == 1))
    llr, err = fresh_noise(rng, word, p, kind)
    heard.append(llr.copy())
    return llr, err


def fresh_noise(rng, word, p, kind):
    if kind == "bsc":
        err = rng.random(len(word)) < p
        rx = word ^ err
        q = min(max(p, 0.01), 0.4)
        llr = (1.0 - 2 * rx) * np.log((1 - q) / q)
    else:
        sigma = 0.3 + 2 * p
        y = (1.0 - 2 * word) + rng.normal(0, sigma, len(word))
        llr = 2 * y / sigma ** 2
        err = (llr < 0) != (word == 1)
    return llr, np.flatnonzero(err)


def source(rng, length, n_types=1, stay=0.85):
    """generator of info words: per type, most bits constant over time, the rest random"""
    base = rng.integers(0, 2, size=(n_types, length))
    fixed = rng.random((n_types, length)) < stay

    def draw(t):
        return np.where(fixed[t], base[t], rng.integers(0, 2, size=length))
    return draw


# what a user gets who does not mention a setting
DEFAULTS = {
    "ClassifyingEntropyDecoder": dict(window_length=None, conf_center=40, conf_slope=0.35, bit_flip=0, cluster=1, data_model=None, reliability_method=0),
    "ClassifyingDudeDecoder": dict(conf_center=40, conf_slope=0.35, bit_flip=0, cluster=1),
    "EntropyBitwiseDecoder": dict(window_length=None, model=None),
    "EntropyBitwiseFlippingDecoder": dict(window_length=None, model=None),
    "EntropyBitwiseWeightedDecoder": dict(window_length=None, a_conf_center=20, a_conf_slope=0.35, b_conf_center=40, b_conf_slope=0.35, confidence=0,
                                          estimator="MLE", bit_flip=0, corrected_dist=False),
    "MavlinkRectifyingDecoder": dict(classifier_training_size=None, cluster=True, window_length=None, data_model=None, conf_center=0, conf_slope=0,
                                     segmentation_iterations=1),
    "CombinedDecoder": dict(classifier_training_size=None, cluster=True, window_length=None, data_model=None, conf_center=0, conf_slope=0, bit_flip=0),
    "CombinedUnifiedDecoder": dict(classifier_training_size=None, cluster=True, window_length=None, data_model=None, conf_center=0, conf_slope=0, bit_flip=0,
                                   flip=False),
    "EMLE": dict(threshold=0.5, window_length=0, conf_center=40, conf_slope=0.35, hard_decision=False, soft_input=True),
    "BufferClassifier": dict(classify_dist="LL", merge_dist="Hellinger", weight_scheme="linear"),
    "OnlineDude": dict(hard_decision=True, alphabet_size=2),
    "DUDE": dict(hard_decision=True, alphabet_size=2),
}


def trim(case, cls, kw):
    """leave out, half of the time, settings which have their default value"""
    out = {}
    for name, v in kw.items():
        d = DEFAULTS[cls.__name__]
        if name in d and (v is None) == (d[name] is None) and (v is None or np.ndim(v) == 0 and v == d[name]) and case.rnd.random() < 0.5:
            case.hit("settings left out")
            continue
        out[name] = v
    return out


def expect_label(case, label, i, types, clustered, train):
    """the type reported for buffer i"""
    if types == 1:
        case.equal(label, 0, "label with one data type")
    elif not clustered:
        case.equal(label, i % types, "round robin label")
    elif i < train - 1:
        case.equal(label, -1, "label while the classifier trains")
    else:
        case.check(0 <= label < types, "label out of range", label)
    case.hit("labels")
