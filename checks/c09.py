"""C09 field statistics and outlier probability"""
import math
import struct
import numpy as np
from vt import mav, fieldref
from inference import FieldModel

RULE = ("sample histories of 0-60 values per field type (extremes, constants, near constants, drifts, NaN and infinite floats), windows "
        "None and 1-40, additions one by one and in lists, reads interleaved with additions. Non-trivial: at least two distinct samples")
REQUIRED = ["statistics compared", "classified", "constant history", "window trimmed", "empty history", "non finite samples", "only non finite",
            "list additions", "equal value", "density"]
TYPES = ["uint8_t", "int8_t", "uint16_t", "int16_t", "uint32_t", "int32_t", "float", "float", "uint64_t", "int64_t"]


def values(rnd, t, n):
    style = rnd.randrange(6)
    base = mav.rand_value(rnd, t)
    if t == "float":
        f32 = lambda v: struct.unpack("<f", struct.pack("<f", max(-3e38, min(3e38, v))))[0]
        if style == 0:
            return [base] * n
        if style == 1:
            return [f32(base + rnd.gauss(0, 1)) for _ in range(n)]
        if style == 2:
            return [f32(rnd.gauss(0, 1e-3)) for _ in range(n)]
        if style == 3:
            return [rnd.choice([base, math.nan, math.inf, -math.inf, 1.5]) for _ in range(n)]
        if style == 4:
            return [rnd.choice([math.nan, math.inf, -math.inf]) for _ in range(n)]
        return [mav.rand_value(rnd, t) for _ in range(n)]
    bits = 8 * mav.SIZES[t]
    lo, hi = (0, 2 ** bits - 1) if t[0] == "u" else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)
    lo, hi = max(lo, -2 ** 50), min(hi, 2 ** 50)
    clamp = lambda v: max(lo, min(hi, v))
    base = clamp(base)
    if style == 0:
        return [base] * n
    if style == 1:
        return [clamp(base + rnd.randint(-3, 3)) for _ in range(n)]
    if style == 2:
        return [clamp(base + k) for k in range(n)]
    if style == 3:
        return [rnd.choice([lo, hi]) for _ in range(n)]
    if style == 4:
        return [base] * (n - 1) + [clamp(base + 1)] * min(n, 1)
    return [clamp(mav.rand_value(rnd, t)) for _ in range(n)]


def compare(case, m, kept, rnd):
    mean, std = fieldref.exact_stats(kept)
    case.equal(m.model_size, len(kept), "number of samples held")
    if kept:
        scale = max([abs(float(x)) for x in kept if not isinstance(x, float) or math.isfinite(x)] or [0.0])
        case.close(m.mean, float(mean), "mean", rtol=1e-9, atol=1e-9 * scale + 1e-300)
        if std == 0:
            case.check(m.std == 0, "standard deviation of a constant field", m.std)
            case.hit("constant history")
        else:
            case.close(m.std, std, "standard deviation", rtol=1e-6, atol=1e-9 * scale)
        case.hit("non finite samples", any(isinstance(x, float) and not math.isfinite(x) for x in kept))
        case.hit("only non finite", isinstance(mean, float) and math.isnan(mean))
    else:
        case.equal((m.mean, m.std), (0, 0), "statistics without samples")
        case.hit("empty history")
    case.hit("statistics compared")
    cand = [0, 1.0]
    if kept:
        cand += [kept[-1], kept[0]]
        if not math.isnan(float(mean)):
            cand += [float(mean), float(mean) + std, float(mean) - 2 * std, float(mean) + 0.5 * std, float(mean) + 9 * std + 1]
    for v in cand:
        p, s, reliable = fieldref.classify(kept, v) if kept else ((1.0 if v == 0 else 0.0), 0.0, True)
        if std == 0 and isinstance(v, float) and kept and abs(v - float(mean)) < 1e-9 * abs(float(mean)) and v != mean:
            continue
        gp, gs = m.classify_value(v)
        if reliable:
            case.close(gp, p, f"probability of {v!r}", rtol=1e-5, atol=2e-6)
            case.close(gs, s, "reported deviation", rtol=1e-6, atol=1e-300)
            case.check(math.isnan(gp) or -1e-12 <= gp <= 1 + 1e-12, "probability out of range", gp)
            case.hit("classified")
            case.hit("equal value", p == 1.0)
            if s > 0 and not math.isnan(p) and rnd.random() < 0.3:
                z = (float(v) - float(mean)) / s
                if abs(z) < 30:
                    case.close(m.pdf(v), math.exp(-z * z / 2) / (s * math.sqrt(2 * math.pi)), "density", rtol=1e-4, atol=1e-12 / s)
                    case.close(m.cdf(v), 0.5 * math.erfc(-z / math.sqrt(2)), "cumulative probability", rtol=1e-4, atol=1e-6)
                    case.hit("density")


def history(case):
    rnd = case.rnd
    t = rnd.choice(TYPES)
    w = rnd.choice([None, None, 1, 2, 3, 10, 40])
    m = FieldModel("x", t, w)
    case.equal((m.name, m.field_type, m.field_len), ("x", t, mav.SIZES[t]), "field description")
    kept = []
    seq = values(rnd, t, rnd.choice([0, 1, 2, 3, rnd.randint(4, 60)]))
    if rnd.random() < 0.3:
        seq += values(rnd, t, rnd.randint(1, 30))
    case.note(t, w, seq)
    case.interesting(len(set(map(repr, seq))) > 1)
    if rnd.random() < 0.3:
        compare(case, m, kept, rnd)
    i = 0
    while i < len(seq):
        if rnd.random() < 0.25:
            k = rnd.randint(1, 6)
            m.add_sample(list(seq[i:i + k]))
            case.hit("list additions")
        else:
            k = 1
            m.add_sample(seq[i])
        kept += seq[i:i + k]
        i += k
        if w is not None and len(kept) > w:
            del kept[:-w]
            case.hit("window trimmed")
        if rnd.random() < 0.25:
            compare(case, m, kept, rnd)
    compare(case, m, kept, rnd)
    case.check(len(m.samples) == len(kept) and all(repr(a) == repr(b) for a, b in zip(m.samples, kept)), "samples held", m.samples, kept)


def bad_type(case):
    t = case.rnd.choice(["", "uint128_t", "double", "string", "int", "x"])
    case.note(t)
    case.raises(ValueError, lambda: FieldModel("x", t), "unsupported field type")


WORKLOADS = [("history", history, 2400, 60000), ("bad_type", bad_type, 16, 64)]
