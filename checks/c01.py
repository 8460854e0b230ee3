"""C01 segmentation reports exactly the intact frames"""
import numpy as np
from vt import mav
from inference import BufferSegmentation, MsgParts, BufferStructure
from protocol_meta import dialect_meta as meta

RULE = ("buffers of 0-400 bytes assembled from intact frames of all scalar-field messages, garbage, start markers, truncated / "
        "bit-corrupted / length- and id-altered / wrong-checksum frames, frames nested in payloads, back-to-back runs; plus "
        "recorded-telemetry-like buffers with channel bit flips, and buffers of up to 6000 bytes. Non-trivial: the buffer holds at least one start marker byte")
REQUIRED = ["intact frames reported", "damaged frames rejected", "nested frames", "buffers with tail frame", "array probe", "frames beyond byte 512", "frames beyond byte 2048"]
ASSUMPTIONS = ["messages with array fields are a listed known finding and are probed separately"]
seg = BufferSegmentation(meta.protocol_parser)
NAMES = {MsgParts.HEADER: "HEADER", MsgParts.PAYLOAD: "PAYLOAD", MsgParts.CHECKSUM: "CHECKSUM", MsgParts.UNKNOWN: "UNKNOWN"}


def observe(case, buf):
    before = bytes(buf)
    parts, validity, structure = seg.segment_buffer(buf)
    case.check(buf == before, "segmentation altered its input")
    want_parts, want_structure = mav.segment(buf)
    if not any(m in mav.ARRAY_IDS for m in structure.values()):
        case.equal(dict(structure), want_structure, "structure")
        case.equal(list(structure), sorted(structure), "structure is not in buffer order")
        case.equal([NAMES.get(p, p) for p in parts], want_parts, "byte labels")
        want_valid = np.repeat([p != "UNKNOWN" for p in want_parts], 8).astype(float)
        case.array_equal(np.asarray(validity, dtype=float), want_valid, "bit validity")
        b = seg.get_buffer_structure(buf)
        case.check(b == want_structure and b == BufferStructure(dict(want_structure)), "get_buffer_structure differs", str(b))
        case.equal(len(b), len(want_structure), "number of messages")
    case.hit("intact frames reported", len(want_structure))
    return structure


def damaged(case, rnd):
    f = bytearray(mav.rand_frame(rnd))
    k = rnd.randrange(8)
    if k == 0:  # bit errors
        for _ in range(rnd.choice([1, 1, 2, 3, 8])):
            f[rnd.randrange(len(f))] ^= 1 << rnd.randrange(8)
    elif k == 1:  # truncated
        f = f[:rnd.randrange(len(f))]
    elif k == 2:  # checksum
        f[-1 - rnd.randrange(2)] ^= 1 << rnd.randrange(8)
    elif k == 3:  # length and checksum recomputed: an otherwise consistent frame of the wrong length
        mid = f[5]
        n = mav.HC[mid]["length"] + rnd.choice([-1, 1, 2])
        if 0 < n < 256:
            f = bytearray(mav.frame(mid, bytes(rnd.getrandbits(8) for _ in range(n))))
    elif k == 4:  # checksum without or with another message's crc extra
        mid = f[5]
        f = bytearray(mav.frame(mid, bytes(f[6:-2]), f[2], f[3], f[4], crc_extra=rnd.getrandbits(8)))
    elif k == 5:  # unknown id
        mid = rnd.choice([i for i in range(256) if i not in mav.HC])
        n = rnd.randint(1, 40)
        f = bytearray(bytes([0xFE, n, 0, 1, 1, mid]) + bytes(n) + b"\x00\x00")
    elif k == 6:  # marker
        f[0] = rnd.choice([0xFD, 0xFF, 0x7E, 0x55])
    else:  # swapped checksum bytes
        f[-1], f[-2] = f[-2], f[-1]
    case.hit("damaged frames rejected")
    return bytes(f)


def nested(case, rnd):
    """an intact frame inside the payload of another; the outer one intact or damaged"""
    inner_id = rnd.choice([m for m in mav.SCALAR_IDS if mav.HC[m]["length"] <= 20])
    inner = mav.rand_frame(rnd, inner_id)
    outer = [m for m in mav.SCALAR_IDS if mav.HC[m]["length"] >= len(inner)]
    if not outer:
        return inner
    mid = rnd.choice(outer)
    n = mav.HC[mid]["length"]
    at = rnd.randint(0, n - len(inner))
    payload = bytearray(rnd.getrandbits(8) for _ in range(n))
    payload[at:at + len(inner)] = inner
    case.hit("nested frames")
    return mav.frame(mid, bytes(payload), crc_xor=rnd.choice([0, 0, 1, 0x8000, 0x55AA]))


def assembled(case):
    rnd = case.rnd
    buf = b""
    for _ in range(rnd.randint(0, 6)):
        k = rnd.randrange(8)
        if k <= 2:
            buf += mav.rand_frame(rnd)
        elif k == 3:
            buf += bytes(rnd.getrandbits(8) for _ in range(rnd.randint(0, 20)))
        elif k == 4:
            buf += b"\xfe" * rnd.randint(1, 4)
        elif k == 5:
            buf += nested(case, rnd)
        else:
            buf += damaged(case, rnd)
    if rnd.random() < 0.5:
        buf += mav.rand_frame(rnd)
        case.hit("buffers with tail frame")
        if rnd.random() < 0.4:
            buf = buf[:-rnd.randint(1, 9)]
    case.note(buf.hex())
    case.interesting(0xFE in buf)
    observe(case, buf)


def every_message(case):
    """each scalar message on its own, preceded / followed by 0..8 bytes"""
    mid = mav.SCALAR_IDS[case.index % len(mav.SCALAR_IDS)]
    f = mav.rand_frame(case.rnd, mid)
    pre = bytes(case.rnd.choice([0, 0xFE, case.rnd.getrandbits(8)]) for _ in range(case.rnd.randint(0, 8)))
    post = bytes(case.rnd.getrandbits(8) for _ in range(case.rnd.choice([0, 0, 1, 7, 8, 9])))
    buf = pre + f + post
    case.note(mid, buf.hex())
    case.interesting()
    observe(case, buf)
    # every proper prefix which cuts the frame holds no such frame, and every single byte corruption is noticed
    cut = case.rnd.randint(len(pre), len(pre) + len(f) - 1)
    observe(case, buf[:cut])
    i = case.rnd.randrange(len(f))
    bad = bytearray(buf)
    bad[len(pre) + i] ^= case.rnd.randint(1, 255)
    case.hit("damaged frames rejected")
    observe(case, bytes(bad))


def telemetry(case):
    """1224 bit buffers shaped like the recorded ones, with channel bit flips"""
    rnd = case.rnd
    st = rnd.choice([{0: 33, 52: 234, 72: 30, 108: 212, 135: 218}, {0: 212, 27: 218, 45: 33, 97: 234, 117: 30}])
    buf = bytearray(mav.fill_structure(rnd, st, 153))
    p = rnd.choice([0, 0.0005, 0.002, 0.01, 0.05])
    for i in range(len(buf) * 8):
        if rnd.random() < p:
            buf[i // 8] ^= 128 >> (i % 8)
    case.note(bytes(buf).hex())
    case.interesting()
    observe(case, bytes(buf))


def dense(case):
    """many short frames and garbage from a tiny alphabet, all truncations of one buffer"""
    rnd = case.rnd
    short_ids = sorted(mav.SCALAR_IDS, key=lambda m: mav.HC[m]["length"])[:12]
    buf = b""
    while len(buf) < 60:
        buf += rnd.choice([lambda: mav.rand_frame(rnd, rnd.choice(short_ids)), lambda: bytes([rnd.choice([0xFE, 0, 1, 2, 3, 4])]),
                           lambda: mav.rand_frame(rnd, rnd.choice(short_ids))[:rnd.randint(1, 9)]])()
    case.note(buf.hex())
    case.interesting()
    for cut in range(len(buf), max(-1, len(buf) - 25), -1):
        observe(case, buf[:cut])
    for cut in range(0, 12):
        observe(case, buf[cut:])


def long_buffers(case):
    """whole downloads: thousands of bytes, intact frames scattered up to the very end"""
    rnd = case.rnd
    buf = bytearray()
    n = rnd.choice([rnd.randint(500, 1100), rnd.randint(1000, 2600), rnd.randint(2500, 6000)])
    p = rnd.choice([0.1, 0.5, 0.9])
    while len(buf) < n:
        if rnd.random() < p:
            buf += mav.rand_frame(rnd)
        elif rnd.random() < 0.3:
            buf += damaged(case, rnd)
        else:
            buf += bytes(rnd.getrandbits(8) for _ in range(rnd.randint(1, 200)))
    if rnd.random() < 0.5:
        buf += mav.rand_frame(rnd)
        case.hit("buffers with tail frame")
    case.note(bytes(buf).hex())
    case.interesting()
    st = observe(case, bytes(buf))
    case.hit("frames beyond byte 512", sum(i > 512 for i in st))
    case.hit("frames beyond byte 2048", sum(i > 2048 for i in st))


def array_probe(case):
    """known finding: intact frames of messages with array fields are not recognised"""
    mid = mav.ARRAY_IDS[case.index % len(mav.ARRAY_IDS)]
    buf = mav.rand_frame(case.rnd, mid)
    case.note(mid)
    case.hit("array probe")
    _, _, structure = seg.segment_buffer(buf)
    if structure.get(0) != mid:
        case.mon.known.add(f"array-message-{mid}")


WORKLOADS = [("every_message", every_message, 468, 11700), ("assembled", assembled, 3200, 120000),
             ("telemetry", telemetry, 160, 4000), ("dense", dense, 120, 4000), ("long_buffers", long_buffers, 48, 2000), ("array_probe", array_probe, 38, 76)]
