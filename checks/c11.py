"""C11 number to wire bits, and the bit pattern of the model mean"""
import math
import struct
import numpy as np
from vt import mav, fieldref
from inference import BufferModel, FieldModel
from inference.statistical_models import num2bits

RULE = ("every field type; integers at, inside and beyond the range ends, fractional means away from ties, floats of every exponent, characters; "
        "models learned from 1-12 buffers and arbitrary bit index lists. Non-trivial: the value is not zero")
REQUIRED = ["integers", "fractions", "clamped", "floats", "characters", "field means", "model bits", "unknown fields", "rejected type"]
INTS = ["uint8_t", "int8_t", "uint16_t", "int16_t", "uint32_t", "int32_t", "uint64_t", "int64_t"]


def bits(data):
    return np.unpackbits(np.frombuffer(data, dtype=np.uint8))


def rng_of(t):
    b = 8 * mav.SIZES[t]
    return (0, 2 ** b - 1) if t[0] == "u" else (-2 ** (b - 1), 2 ** (b - 1) - 1)


def want_bits(num, t):
    """None when the value is too near a tie to decide"""
    if t == "float":
        return bits(struct.pack("<f", num))
    if t == "char":
        return bits(bytes([ord(num)]))
    lo, hi = rng_of(t)
    r = math.floor(num + 0.5) if isinstance(num, float) else num
    if isinstance(num, float) and abs(num) < 2 ** 52 and abs(num - math.floor(num) - 0.5) < 1e-6:
        return None
    if isinstance(num, float) and abs(num) >= 2 ** 52:
        r = int(num)
    return bits(struct.pack("<" + mav.FMT[t], max(lo, min(hi, r))))


def numbers(case):
    rnd = case.rnd
    t = rnd.choice(INTS + ["float", "float", "char"])
    case.interesting()
    if t == "float":
        num = rnd.choice([0.0, -0.0, math.inf, -math.inf, mav.rand_value(rnd, "float"), rnd.gauss(0, 1), 10.0 ** rnd.randint(-44, 37), rnd.randint(-5, 5)])
        case.hit("floats")
    elif t == "char":
        num = chr(rnd.randint(0, 127))
        num = chr(0) if rnd.random() < 0.1 else num
        case.hit("characters")
        got = None
    else:
        lo, hi = rng_of(t)
        k = rnd.randrange(5)
        if k == 0:
            num = rnd.choice([lo, hi, lo + 1, hi - 1, 0, 1])
            case.hit("integers")
        elif k == 1:
            num = mav.rand_value(rnd, t)
            case.hit("integers")
        elif k == 2:
            num = rnd.choice([lo - 1, hi + 1, lo - rnd.randint(1, 10 ** 6), hi + rnd.randint(1, 10 ** 6), float(hi) * 1.5 + 1, float(lo) * 1.5 - 1])
            case.hit("clamped")
        else:
            num = mav.rand_value(rnd, t) % 2 ** 40 * rnd.choice([1, 1 if lo == 0 else -1]) + rnd.uniform(-0.49, 0.49)
            num = float(np.clip(num, lo - 0.4, hi + 0.4)) if abs(hi) < 2 ** 50 else float(num)
            if rnd.random() < 0.3:
                num = rnd.choice([lo, 0, hi if hi < 2 ** 50 else 5]) + rnd.choice([-0.4, 0.4, 0.3])
            case.hit("fractions")
            if rnd.random() < 0.5:
                num = np.float64(num)
    case.note(t, num)
    want = want_bits(num if t == "char" or isinstance(num, int) else float(num), t)
    if want is None:
        return
    got = num2bits(num, t)
    case.array_equal(got, want, f"bits of {num!r} as {t}")
    case.equal(np.asarray(got).size, 8 * mav.SIZES[t], "number of bits")


def bad(case):
    t = case.rnd.choice(["double", "", "text", "bool"])
    case.note(t)
    case.raises(ValueError, lambda: num2bits(1.0, t), "unsupported type")
    case.hit("rejected type")


def model(case):
    rnd = case.rnd
    st, n = mav.rand_structure(rnd, n_msgs=rnd.randint(1, 3))
    w = rnd.choice([None, 2])
    m, ref = BufferModel(window_size=w), fieldref.RefModel(w)
    base = {}
    from checks.c10 import gentle
    k = rnd.randint(1, 12)
    const = rnd.random() < 0.4
    vals = {}
    for _ in range(k):
        mk = (lambda mid: vals.setdefault(mid, gentle(rnd, mid, base))) if const else (lambda mid: gentle(rnd, mid, base))
        buf = mav.fill_structure(rnd, st, n, 3, 1, 0, mk)
        m.add_buffer(buf, st)
        ref.add(buf, st)
    extra = n + rnd.choice([0, 4])
    q = dict(st)
    if rnd.random() < 0.5:  # a message the model never saw
        mid = rnd.choice([x for x in mav.SCALAR_IDS if x not in st.values()])
        q[extra] = mid
        extra += mav.HC[mid]["length"] + 8
    want = np.zeros(extra * 8, dtype=int)
    unsure = np.zeros(extra * 8, dtype=bool)
    for name, t, b, ln in mav.layout(q):
        sl = slice(b * 8, (b + ln) * 8)
        if name not in ref.samples:
            case.hit("unknown fields")
            continue
        mean, _ = fieldref.exact_stats(ref.samples[name])
        if isinstance(mean, float) and math.isnan(mean):
            unsure[sl] = True
            continue
        scale = max(abs(float(x)) for x in ref.samples[name] if not isinstance(x, float) or math.isfinite(x))
        exact = len(set(map(repr, ref.samples[name]))) == 1
        wb = want_bits(int(mean) if mean == int(mean) and t != "float" else float(mean), t)
        if wb is None or (not exact and (t == "float" or scale > 2 ** 40)):
            unsure[sl] = True
            if t == "float" and not exact:  # the last places of a float mean depend on summation order
                got = m.bitwise_model_mean(np.arange(extra * 8), extra, q)[sl]
                v = struct.unpack("<f", np.packbits(got).tobytes())[0]
                case.close(v, float(mean), f"mean bits of {name}", rtol=1e-6, atol=1e-6 * scale)
            continue
        want[sl] = wb
        case.array_equal(m[name].bitwise_mean(), wb, f"mean bits of {name}")
        case.hit("field means")
    idx = np.array(rnd.choice([sorted(rnd.sample(range(extra * 8), min(50, extra * 8))), list(range(extra * 8)),
                               rnd.sample(range(extra * 8), 30), []]), dtype=int)
    case.note(st, q, idx.tolist()[:20], case.index)
    case.interesting()
    got = np.asarray(m.bitwise_model_mean(idx, extra, q))
    case.equal(got.shape, idx.shape, "number of bits")
    ok = ~unsure[idx]
    case.array_equal(got[ok], want[idx][ok], "model mean bits")
    case.hit("model bits", int(ok.sum()))


WORKLOADS = [("numbers", numbers, 6000, 200000), ("bad", bad, 16, 64), ("model", model, 640, 16000)]
