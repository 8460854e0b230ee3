"""C05 wire format of both dialects, round trip and corruption detection"""
import struct
from array import array
import math
from vt import mav
import mavlink_utils.HC_dialect as hc
import mavlink_utils.minimal_dialect as mini

RULE = ("every message of both dialects with random and extreme field values (arrays and strings included) packed by the library, "
        "compared byte for byte with the encoding derived from the XML, decoded back, and then corrupted: every single bit of the frame, "
        "bursts up to 16 bits, truncation, extension. Non-trivial: the payload is not all zero")
REQUIRED = ["packed", "decoded", "array values", "string values", "bit flips rejected", "bursts rejected", "resized rejected", "minimal dialect"]
F32 = lambda v: struct.unpack("<f", struct.pack("<f", v))[0]


def value(rnd, t, n):
    if t == "char":
        k = rnd.choice([0, n, rnd.randint(0, n)])
        return bytes(rnd.randint(1, 127) for _ in range(k))
    one = lambda: rnd.choice([math.inf, -math.inf]) if t == "float" and rnd.random() < 0.02 else mav.rand_value(rnd, t)
    return [one() for _ in range(n)] if n else one()


def encode(t, n, v):
    if t == "char":
        return struct.pack(f"<{max(n, 1)}s", v)
    vs = v if n else [v]
    return struct.pack("<" + mav.FMT[t] * len(vs), *vs)


def want_decoded(t, n, v):
    if t == "char":
        return v.decode().split("\0")[0]
    if n:
        return list(v)
    return v


def one(case, lib, spec, mid):
    rnd = case.rnd
    m = spec[mid]
    vals = {name: value(rnd, t, n) for name, t, n in m["fields"]}
    seq, sysid, comp = rnd.getrandbits(8), rnd.getrandbits(8), rnd.getrandbits(8)
    case.note(m["name"], vals, seq, sysid, comp)
    link = lib.MAVLink(None, srcSystem=sysid, srcComponent=comp)
    link.seq = seq
    msg = getattr(link, m["name"].lower() + "_encode")(*[vals[name] for name, _, _ in m["fields"]])
    got = bytes(msg.pack(link))
    payload = b"".join(encode(t, n, vals[name]) for name, t, n in m["wire"])
    want = mav.frame(mid, payload, seq, sysid, comp, spec)
    case.equal(got.hex(), want.hex(), f"encoding of {m['name']}")
    case.hit("packed")
    case.interesting(any(payload))
    back = lib.MAVLink(None).decode(array("B", want))
    case.equal((back.get_msgId(), back.get_type(), back.get_seq(), back.get_srcSystem(), back.get_srcComponent()),
               (mid, m["name"], seq, sysid, comp), "decoded header")
    for name, t, n in m["fields"]:
        g, w = getattr(back, name), want_decoded(t, n, vals[name])
        g = list(g) if n and t != "char" else g
        case.equal(g, w, f"decoded {m['name']}.{name}")
        case.hit("array values", bool(n) and t != "char")
        case.hit("string values", t == "char")
    case.equal(set(back.get_fieldnames()), {f[0] for f in m["fields"]}, "decoded field names")
    case.hit("decoded")
    # a decoded message packs to the same frame again
    link2 = lib.MAVLink(None, srcSystem=sysid, srcComponent=comp)
    link2.seq = seq
    if not any(t == "char" for _, t, _ in m["fields"]):
        case.equal(bytes(back.pack(link2)).hex(), want.hex(), "decoded message packed again")
    return want


def rejected(case, lib, data, what, *d):
    link = lib.MAVLink(None)
    buf = array("B", data)
    try:
        r = link.decode(buf)
    except lib.MAVError:
        case.mon.assertions += 1
        return
    case.check(False, f"{what} accepted as {r.get_type()}", data.hex(), *d)


def corrupt(case, lib, spec, f, full):
    rnd = case.rnd
    n = len(f) * 8
    idx = range(n) if full else rnd.sample(range(n), min(n, 24))
    for i in idx:
        b = bytearray(f)
        b[i // 8] ^= 1 << (i % 8)
        if b[0] == 0xFD:  # the marker of the other protocol generation, judged by its own rules
            continue
        rejected(case, lib, bytes(b), "single bit error", i)
        case.hit("bit flips rejected")
    for _ in range(12):
        width = rnd.randint(2, 16)
        # positions in transmission order of the checksum: least significant bit first
        # header bytes length and id select how the frame is read, payload and checksum bursts are always detected
        # (a burst over the border of payload and checksum is not covered by the guarantee: a hidden byte lies between them)
        lo, hi = rnd.choice([(6 * 8, (len(f) - 2) * 8), ((len(f) - 2) * 8, len(f) * 8)])
        start = rnd.randint(lo, hi - 2)
        pattern = (1 | (1 << (width - 1)) | rnd.getrandbits(width)) & ((1 << width) - 1)
        b = bytearray(f)
        ok = start + width <= hi
        if not ok:
            continue
        for k in range(width):
            if pattern >> k & 1:
                b[(start + k) // 8] ^= 1 << ((start + k) % 8)
        rejected(case, lib, bytes(b), "burst error", start, width, pattern)
        case.hit("bursts rejected")
    for cut in {1, rnd.randint(1, len(f) - 1), 2, len(f) - 8} - {0}:
        if cut < len(f):
            rejected(case, lib, f[:len(f) - cut], "truncated frame", cut)
            case.hit("resized rejected")
    extra = bytes(rnd.getrandbits(8) for _ in range(rnd.choice([1, 2, 8])))
    rejected(case, lib, f + extra, "extended frame")
    # checksum made without the message definition's own byte
    rejected(case, lib, mav.frame(f[5], f[6:-2], f[2], f[3], f[4], spec, crc_extra=spec[f[5]]["crc_extra"] ^ rnd.randint(1, 255)),
             "frame of another definition")
    unknown = rnd.choice([i for i in range(256) if i not in spec])
    body = bytes([f[1], f[2], f[3], f[4], unknown]) + f[6:-2]
    c = mav.crc16(body + bytes([spec[f[5]]["crc_extra"]]))
    rejected(case, lib, b"\xfe" + body + struct.pack("<H", c), "unknown message id")


def hc_messages(case):
    ids = sorted(mav.HC)
    f = one(case, hc, mav.HC, ids[case.index % len(ids)])
    corrupt(case, hc, mav.HC, f, case.index < len(ids))


def minimal_messages(case):
    ids = sorted(mav.MINIMAL)
    f = one(case, mini, mav.MINIMAL, ids[case.index % len(ids)])
    case.hit("minimal dialect")
    corrupt(case, mini, mav.MINIMAL, f, case.index < 4 * len(ids))


WORKLOADS = [("hc_messages", hc_messages, 2480, 31000), ("minimal_messages", minimal_messages, 480, 9600)]
