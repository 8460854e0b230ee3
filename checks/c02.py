"""C02 damaged regions and the field view of a buffer"""
import struct
import numpy as np
from vt import mav
from inference import BufferSegmentation, MsgParts
from protocol_meta import dialect_meta as meta

RULE = ("buffers assembled from intact frames, damaged frames and garbage with every combination of damaged head, middle and tail, "
        "empty and fully intact buffers, and arbitrary part labellings. Non-trivial: the labelling holds a known and an unknown byte")
REQUIRED = ["damaged regions", "region at start", "region at end", "fully intact", "fully damaged", "fields compared",
            "no message buffers", "long buffers", "arbitrary labellings", "repeated message"]
seg = BufferSegmentation(meta.protocol_parser)
PART = {"HEADER": MsgParts.HEADER, "PAYLOAD": MsgParts.PAYLOAD, "CHECKSUM": MsgParts.CHECKSUM, "UNKNOWN": MsgParts.UNKNOWN}


def runs(flags):
    """maximal runs of True, as half open intervals"""
    edges = np.flatnonzero(np.diff(np.concatenate(([0], np.asarray(flags, dtype=int), [0]))))
    return [(int(a), int(b)) for a, b in zip(edges[::2], edges[1::2])]


def regions(case, buf, parts_names):
    parts = np.array([PART[p] for p in parts_names], dtype=object)
    bad = [p == "UNKNOWN" for p in parts_names]
    want = runs(bad)
    before = bytes(buf), list(parts)
    got = seg.bad_buffer_parts(buf, parts)
    idx = seg.bad_buffer_idx(buf, parts)
    case.check(before == (bytes(buf), list(parts)), "inputs altered")
    case.equal({int(k): bytes(v) for k, v in got.items()}, {a: buf[a:b] for a, b in want}, "damaged regions")
    case.check(all(type(v) is type(buf) for v in got.values()), "regions are not bytes")
    if want:
        case.equal([tuple(map(int, t)) for t in idx], want, "damaged intervals")
        case.hit("damaged regions", len(want))
        case.hit("region at start", want[0][0] == 0)
        case.hit("region at end", want[-1][1] == len(buf))
        case.hit("fully damaged", want == [(0, len(buf))])
    else:
        case.check(not idx, "intervals reported for an intact buffer", idx)
        case.hit("fully intact")
    # conservation: damaged regions and the rest rebuild the buffer exactly
    rebuilt = bytearray(len(buf))
    seen = [0] * len(buf)
    for k, v in got.items():
        rebuilt[k:k + len(v)] = v
        for j in range(k, k + len(v)):
            seen[j] += 1
    case.check(len(rebuilt) == len(buf) and seen == [int(b) for b in bad], "regions do not partition the buffer")
    case.interesting(any(bad) and not all(bad))


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return struct.pack("<d", a) == struct.pack("<d", b) or (a != a and b != b)
    return a == b


def fields(case, buf, structure):
    got, description = seg.get_msg_fields(buf)
    want, want_desc = {}, []
    for start, mid in structure.items():
        nm = mav.HC[mid]["name"]
        want_desc.append(buf[start:start + 6])
        for name, t, v in mav.unpack_payload(mid, buf[start + 6:start + 6 + mav.HC[mid]["length"]]):
            case.hit("repeated message", f"{nm}_{name}" in want)
            want[f"{nm}_{name}"] = (v, t)
            want_desc.append((f"{nm}_{name}", t))
        want_desc.append("crc")
    case.equal(set(got), set(want), "field names")
    for k, (v, t) in want.items():
        case.check(same(got[k][0], v) and got[k][1] == t, f"field {k}", got[k], (v, t))
        case.hit("fields compared")
    case.equal([tuple(d) if isinstance(d, (list, tuple)) else d for d in description], want_desc, "buffer description")
    if not structure:
        case.hit("no message buffers")


def make(rnd, ids=None):
    buf = b""
    for _ in range(rnd.randint(0, 5)):
        k = rnd.randrange(6)
        if k <= 2:
            buf += mav.rand_frame(rnd, rnd.choice(ids) if ids else None)
        elif k == 3:
            buf += bytes(rnd.getrandbits(8) for _ in range(rnd.randint(1, 12)))
        else:
            f = bytearray(mav.rand_frame(rnd))
            f[rnd.randrange(len(f))] ^= rnd.randint(1, 255)
            buf += bytes(f)
    return buf


def parsed(case):
    rnd = case.rnd
    buf = make(rnd, rnd.sample(mav.SCALAR_IDS, 2) if rnd.random() < 0.4 else None)
    if case.index % 60 == 3:
        while len(buf) < 1400:
            buf += make(rnd)
        case.hit("long buffers")
    case.note(buf.hex())
    parts, _, structure = seg.segment_buffer(buf)
    want_parts, want_structure = mav.segment(buf)
    if any(m in mav.ARRAY_IDS for m in structure.values()):
        return
    case.check([PART[p] for p in want_parts] == list(parts), "segmentation")
    regions(case, buf, want_parts)
    got = seg.bad_buffer_parts(buf, parts)
    case.equal(list(got.items()), [(a, buf[a:b]) for a, b in runs([p == "UNKNOWN" for p in want_parts])], "regions of the parse")
    fields(case, buf, want_structure)


def labelled(case):
    """any labelling, the functions only depend on which bytes are unknown"""
    rnd = case.rnd
    n = rnd.choice([0, 1, 2, 3, rnd.randint(1, 40)] + [rnd.randint(200, 900)] * (case.index % 8 == 0))
    buf = bytes(rnd.getrandbits(8) for _ in range(n))
    p = rnd.choice([0, 0.1, 0.5, 0.9, 1])
    parts = ["UNKNOWN" if rnd.random() < p else rnd.choice(["HEADER", "PAYLOAD", "CHECKSUM"]) for _ in range(n)]
    case.note(buf.hex(), "".join(x[0] for x in parts))
    case.hit("arbitrary labellings")
    if n:
        regions(case, buf, parts)


def every_field(case):
    mid = mav.SCALAR_IDS[case.index % len(mav.SCALAR_IDS)]
    buf = mav.rand_frame(case.rnd, mid)
    if case.rnd.random() < 0.5:
        buf = bytes(case.rnd.randint(0, 253) for _ in range(case.rnd.randint(1, 9))) + buf
    case.note(buf.hex())
    case.interesting()
    parts, structure = mav.segment(buf)
    regions(case, buf, parts)
    fields(case, buf, structure)


WORKLOADS = [("parsed", parsed, 2400, 60000), ("labelled", labelled, 1600, 80000), ("every_field", every_field, 468, 5850)]
