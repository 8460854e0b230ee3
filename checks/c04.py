"""C04 frame header construction and parsing"""
from vt import mav
from protocol_meta import FrameHeader, NonExistentMsdId, is_valid_header
from protocol_meta.msg_header import HeaderLength
from utils.custom_exceptions import NonUint8

RULE = ("every id 0-255 and out of range ids; source, component and sequence numbers at and beyond both range ends; arbitrary 6 byte "
        "strings parsed with and without a forced id; strings of other lengths. Non-trivial: always")
REQUIRED = ["constructed", "rejected id", "rejected range", "parsed", "parse rejected", "forced id", "wrong length", "distance"]


def lengths_ok(case, mid, n):
    true = mav.HC[mid]["length"]
    if n != true:
        case.check(mid in mav.ARRAY_IDS and n == mav.deficient_length(mid), "payload length of message", mid, n, true)
        case.mon.known.add(f"array-length-{mid}")


def examine(case, h, mid, sysid, comp, seq):
    case.equal((h.msg_id, h.sys_id, h.comp_id, h.sequence), (mid, sysid, comp, seq), "header fields")
    lengths_ok(case, mid, h.length)
    case.equal(bytes(h.buffer), bytes([0xFE, h.length, seq, sysid, comp, mid]), "header bytes")
    case.equal(h.bit_string.bin, "".join(f"{b:08b}" for b in h.buffer), "header bits")
    case.check(is_valid_header(h.buffer), "a constructed header is not valid")
    other = bytes(case.rnd.getrandbits(8) for _ in range(6))
    for o in (other, h.buffer, bytes(b ^ 255 for b in h.buffer)):
        case.equal(h.hamming_distance(o), sum(bin(a ^ b).count("1") for a, b in zip(o, h.buffer)), "distance from the header")
    case.hit("distance")
    for n in (0, 5, 7):
        case.raises(HeaderLength, lambda: h.hamming_distance(other[:n] if n < 6 else other + b"\0"), "distance from a string of other length")


def construct(case):
    rnd = case.rnd
    edge = [0, 1, 127, 128, 254, 255]
    vals = [rnd.choice(edge + [rnd.randint(0, 255)]) for _ in range(3)]
    mid = case.index % 256
    if rnd.random() < 0.35:
        vals[rnd.randrange(3)] = rnd.choice([-1, 256, -256, 1000, -2 ** 40, 2 ** 40, 257])
    if rnd.random() < 0.1:
        mid = rnd.choice([-1, 256, 300, -255, 2 ** 33])
    sysid, comp, seq = vals
    case.note(mid, vals)
    case.interesting()
    if any(v < 0 or v > 255 for v in vals):
        case.raises((NonUint8, NonExistentMsdId) if mid not in mav.HC else NonUint8, lambda: FrameHeader(mid, sysid, comp, seq), "value out of range")
        case.hit("rejected range")
    elif not 0 <= mid <= 255:
        case.raises(NonUint8, lambda: FrameHeader(mid, sysid, comp, seq), "id out of range")
        case.hit("rejected range")
    elif mid not in mav.HC:
        case.raises(NonExistentMsdId, lambda: FrameHeader(mid, sysid, comp, seq), "unknown id")
        case.hit("rejected id")
    else:
        h = FrameHeader(mid, sysid, comp, seq)
        examine(case, h, mid, sysid, comp, seq)
        h2 = FrameHeader.from_buffer(h.buffer)
        case.equal(h2.buffer, h.buffer, "parsing a constructed header")
        case.hit("constructed")


def parse(case):
    rnd = case.rnd
    buf = bytes(rnd.choice([0, 255, 0xFE, rnd.getrandbits(8)]) for _ in range(6))
    if rnd.random() < 0.7:
        buf = buf[:5] + bytes([rnd.choice(list(mav.HC))])
    force = None
    if rnd.random() < 0.5:
        force = rnd.choice([0, 0, rnd.choice(list(mav.HC)), rnd.randint(0, 255)])
    case.note(buf.hex(), force)
    case.interesting()
    mid = buf[5] if force is None else force
    make = (lambda: FrameHeader.from_buffer(buf)) if force is None else (lambda: FrameHeader.from_buffer(buf, force_msg_id=force))
    if mid in mav.HC:
        h = make()
        examine(case, h, mid, buf[3], buf[4], buf[2])
        case.hit("parsed")
        case.hit("forced id", force is not None)
    else:
        case.raises(NonExistentMsdId, make, "unknown id")
        case.hit("parse rejected")
    for n in (0, 1, 5, 7, 12):
        b = (buf + buf)[:n]
        case.raises(HeaderLength, lambda: FrameHeader.from_buffer(b), "wrong length")
        case.raises(HeaderLength, lambda: FrameHeader.from_buffer(b, force_msg_id=0), "wrong length with a forced id")
        case.hit("wrong length")


WORKLOADS = [("construct", construct, 3072, 51200), ("parse", parse, 3000, 60000)]
