"""C08 bit to field mapping, field values, damaged field report"""
import struct
import numpy as np
from vt import mav
from inference import BufferModel

RULE = ("structures of 1-6 scalar messages in any order with gaps, families of layouts of equal length with the same messages elsewhere, random contents (extremes, NaN, infinities), bit arrays of several dtypes and "
        "bytes, error positions on field borders, in checksums, in gaps, and beyond the buffer. Non-trivial: always")
REQUIRED = ["structures", "values compared", "bits mapped", "bits unmapped", "errors reported", "errors outside fields", "errors beyond the buffer",
            "shuffled structures", "related layouts in turns", "every message", "far offsets"]


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return struct.pack("<d", a) == struct.pack("<d", b) or (a != a and b != b)
    return a == b


def examine(case, structure, n):
    rnd = case.rnd
    fields = mav.layout(structure)
    keep = dict(structure), list(structure)
    owner = np.full(n * 8, -1)
    for k, (_, _, b, ln) in enumerate(fields):
        owner[b * 8:(b + ln) * 8] = k
    m, names, types = BufferModel.unpack_structure(True, n, structure)
    case.array_equal(m, owner, "bit to field map")
    case.equal(list(names), [f[0] for f in fields], "field names")
    case.equal(list(types), [f[1] for f in fields], "field types")
    _, names2, types2 = BufferModel.unpack_structure(False, n, structure)
    case.equal((list(names2), list(types2)), (list(names), list(types)), "names without the bit map")
    case.hit("structures")
    case.hit("bits mapped", int((owner >= 0).sum()))
    case.hit("bits unmapped", int((owner < 0).sum()))
    case.hit("shuffled structures", list(structure) != sorted(structure))
    for _ in range(2):
        buf = bytes(rnd.getrandbits(8) for _ in range(n)) if rnd.random() < 0.5 else mav.fill_structure(rnd, structure, n, rnd.getrandbits(8))
        if rnd.random() < 0.2:
            buf = bytes([rnd.choice([0, 255, 0x7F, 0x80])]) * n
        want = [struct.unpack("<" + mav.FMT[t], buf[b:b + ln])[0] for _, t, b, ln in fields]
        for form in (buf, mav.bits_of(buf), mav.bits_of(buf).astype(np.uint8)):
            got = BufferModel.unpack_values(form, structure)
            case.check(len(got) == len(want) and all(same(g, w) for g, w in zip(got, want)), "field values", got, want)
            case.hit("values compared", len(want))
        # flipping a bit changes the value of the owning field only
        bits = mav.bits_of(buf)
        for i in rnd.sample(range(n * 8), 4):
            flipped = bits.copy()
            flipped[i] ^= 1
            got = BufferModel.unpack_values(flipped, structure)
            diff = {k for k, (g, w) in enumerate(zip(got, want)) if not same(g, w)}
            case.check(diff <= {owner[i]}, "a bit changed another field", i, diff, owner[i])
    model = BufferModel()
    for _ in range(4):
        k = rnd.choice([0, 1, 2, 8, 30])
        err = rnd.sample(range(n * 8), min(k, n * 8))
        if rnd.random() < 0.6:  # borders
            for _, _, b, ln in rnd.sample(fields, min(4, len(fields))):
                err += [e for e in (b * 8 - 1, b * 8, (b + ln) * 8 - 1, (b + ln) * 8) if 0 <= e < n * 8]
        if rnd.random() < 0.5:
            err += [n * 8, n * 8 + rnd.randint(0, 700)]
        err = list(dict.fromkeys(err))
        rnd.shuffle(err)
        e = np.array(err, dtype=int)
        keep_e = e.copy()
        got = model.find_damaged_fields(e, structure, n)
        case.array_equal(e, keep_e, "error positions altered")
        want = [(fields[owner[i]][0], int(owner[i])) for i in sorted(err) if i < n * 8 and owner[i] >= 0]
        case.equal([(a, int(b)) for a, b in got], want, "damaged fields")
        case.hit("errors reported", len(want))
        case.hit("errors outside fields", sum(1 for i in err if i < n * 8 and owner[i] < 0))
        case.hit("errors beyond the buffer", sum(1 for i in err if i >= n * 8))
    case.check((dict(structure), list(structure)) == keep, "structure altered")


def structures(case):
    rnd = case.rnd
    structure, n = mav.rand_structure(rnd, n_msgs=rnd.randint(1, 6), far=0.3 * (case.index % 8 == 5))
    case.hit("far offsets", any(i > 255 for i in structure))
    n += rnd.choice([0, 0, 1, 9])
    case.note(structure, n, case.index)
    case.interesting()
    examine(case, structure, n)


def every_message(case):
    mid = mav.SCALAR_IDS[case.index % len(mav.SCALAR_IDS)]
    start = case.rnd.choice([0, 0, 1, 5])
    structure = {start: mid}
    n = start + mav.HC[mid]["length"] + 8 + case.rnd.choice([0, 3])
    case.note(structure, n, case.index)
    case.interesting()
    case.hit("every message")
    examine(case, structure, n)


def relatives(case):
    """layouts of the same length and (nearly) the same messages, examined in turns"""
    rnd = case.rnd
    base, n = mav.rand_structure(rnd, n_msgs=rnd.randint(1, 3), ids=rnd.choice([None, mav.REAL_IDS, [30, 33]]))
    n += rnd.randint(1, 12)
    family = [base] + [mav.sibling(rnd, base, n) for _ in range(4)]
    case.note(family, n, case.index)
    case.interesting()
    for _ in range(7):
        s = rnd.choice(family)
        examine(case, s, n)
        case.hit("related layouts in turns", s != base)


WORKLOADS = [("relatives", relatives, 160, 3000), ("every_message", every_message, 468, 4680), ("structures", structures, 640, 16000)]
