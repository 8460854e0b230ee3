"""Reference of the per field gaussian statistics, in exact rational arithmetic, and of the buffer model built on it."""
import math
import struct
from fractions import Fraction
from . import mav


def exact_stats(samples):
    """(mean, population std) of the finite samples"""
    xs = [Fraction(x) for x in samples if not isinstance(x, float) or math.isfinite(x)]
    if not xs:
        return (math.nan, math.nan) if samples else (0.0, 0.0)
    mean = sum(xs) / len(xs)
    var = sum((x - mean) ** 2 for x in xs) / len(xs)
    return mean, sqrt_frac(var)


def sqrt_frac(v):
    if v == 0:
        return 0.0
    try:
        return math.sqrt(v)
    except OverflowError:
        return math.inf


def classify(samples, value):
    """(probability, std, reliable)"""
    mean, std = exact_stats(samples)
    if isinstance(mean, float) and math.isnan(mean):
        return math.nan, math.nan, True
    if std == 0:
        return (1.0 if value == mean else 0.0), 0.0, True
    if isinstance(value, float) and not math.isfinite(value):
        return (math.nan if math.isnan(value) else 0.0), std, True
    d = float(abs(Fraction(value) - Fraction(mean))) / std
    scale = max(abs(float(mean)), max(abs(float(x)) for x in samples if not isinstance(x, float) or math.isfinite(x)), 1e-300)
    reliable = std > 1e-7 * scale
    return math.erfc(d / math.sqrt(2)), std, reliable


class RefModel:
    """fields in order of first appearance, each with its (windowed) samples"""

    def __init__(self, window=None):
        self.window = window
        self.samples = {}
        self.types = {}
        self.count = 0
        self.own = {}    # fields with a window of their own

    def add(self, buf, structure):
        self.count += 1
        for name, t, b, ln in mav.layout(structure):
            v = struct.unpack("<" + mav.FMT[t], buf[b:b + ln])[0]
            s = self.samples.setdefault(name, [])
            self.types.setdefault(name, t)
            s.append(v)
            w = self.own.get(name, self.window)
            if w is not None:
                del s[:-w]

    @property
    def size(self):
        return self.count if self.window is None else min(self.count, self.window)
