"""C06 streaming parser: chunking independence, byte conservation; sender sequence numbers"""
import struct
from vt import mav
import mavlink_utils.HC_dialect as hc
import mavlink_utils.minimal_dialect as mini

RULE = ("streams of 0-20 frames of both dialects with garbage, lone markers of both protocol generations, corrupted and truncated frames "
        "spliced in; each stream is fed whole, byte by byte and in random chunks, with tolerant and strict parsers. Non-trivial: a chunk "
        "border lies inside a frame")
REQUIRED = ["messages delivered", "bad data reported", "split frames", "strict streams", "tolerant streams", "sent", "wrapped", "callbacks",
            "streams cut inside a frame", "errors survived"]


class Sink:
    def __init__(self):
        self.data = bytearray()
        self.writes = 0

    def write(self, b):
        self.data += bytes(b)
        self.writes += 1


def reference(stream, spec):
    """expected events of a tolerant parser: list of (kind, bytes); and how many bytes are left waiting"""
    out, i = [], 0
    while i < len(stream):
        m = stream[i]
        if m not in (0xFE, 0xFD):
            out.append(("BAD", stream[i:i + 1]))
            i += 1
            continue
        if len(stream) - i < 3:
            break
        if m == 0xFE:
            n = stream[i + 1] + 8
            head, sig, flags = 6, 0, 0
        else:
            flags = stream[i + 2]
            sig = 13 if flags & 1 else 0
            n = stream[i + 1] + 12 + sig
            head = 10
        if len(stream) - i < n:
            break
        f = stream[i:i + n]
        mid = f[5] if m == 0xFE else f[7] | f[8] << 8 | f[9] << 16
        ok = mid in spec and not flags & ~1
        if ok:
            body = f[1:n - 2 - sig]
            (crc,) = struct.unpack("<H", f[n - 2 - sig:n - sig])
            ok = crc == mav.crc16(body + bytes([spec[mid]["crc_extra"]]))
        out.append((spec[mid]["name"] if ok else "BAD", f))
        i += n
    return out, len(stream) - i


def chunks(rnd, stream, mode):
    if mode == 0:
        return [stream]
    if mode == 1:
        return [stream[i:i + 1] for i in range(len(stream))]
    res, i = [], 0
    while i < len(stream):
        n = rnd.choice([1, 2, 3, 7, 8, 9, rnd.randint(1, 60)])
        res.append(stream[i:i + n])
        i += n
    return res


def make(case, spec, dirty):
    rnd = case.rnd
    ids = sorted(spec)
    parts = []
    for _ in range(rnd.randint(0, 20)):
        f = mav.rand_frame(rnd, rnd.choice(ids), spec)
        k = rnd.random()
        if not dirty or k < 0.5:
            parts.append(f)
        elif k < 0.65:
            parts.append(bytes(rnd.getrandbits(8) for _ in range(rnd.randint(1, 6))))
        elif k < 0.75:
            parts.append(bytes([rnd.choice([0xFE, 0xFD, 0])]) * rnd.randint(1, 3))
        elif k < 0.9:
            b = bytearray(f)
            b[rnd.randrange(len(b))] ^= 1 << rnd.randrange(8)
            parts.append(bytes(b))
        elif k < 0.95:
            parts.append(f[:rnd.randint(1, len(f))])
        else:  # same message in the other protocol generation
            mid, pl = f[5], f[6:-2]
            body = bytes([len(pl), rnd.choice([0, 0, 2]), 0, 0, 1, 1, mid, 0, 0]) + pl
            parts.append(b"\xfd" + body + struct.pack("<H", mav.crc16(body + bytes([spec[mid]["crc_extra"]]))))
    return parts


def tolerant(case):
    rnd = case.rnd
    lib, spec = rnd.choice([(hc, mav.HC), (hc, mav.HC), (mini, mav.MINIMAL)])
    stream = b"".join(make(case, spec, rnd.random() < 0.85))
    if rnd.random() < 0.3 and stream:
        stream = stream[:-rnd.randint(1, min(len(stream), 12))]
    case.note(lib.DIALECT, stream.hex())
    want, left = reference(stream, spec)
    case.hit("streams cut inside a frame", left > 0)
    case.hit("tolerant streams")
    for mode in (0, 1, 2):
        link = lib.MAVLink(Sink())
        link.robust_parsing = True
        seen = []
        tag = object()
        link.set_callback(lambda m, *a, **k: seen.append((m, a, k)), tag, key=3)
        got = []
        bounds, pos = set(), 0
        fed = 0
        for c in chunks(rnd, stream, mode):
            r = link.parse_buffer(bytearray(c) if rnd.random() < 0.5 else c)
            got += r or []
            fed += len(c)
            bounds.add(fed)
            # nothing is delivered later than the byte which completes it
            done, wait = reference(stream[:fed], spec)
            case.equal(len(got), len(done), f"events after {fed} bytes")
            case.equal(link.buf_len(), wait, "bytes waiting")
            need = link.bytes_needed()
            case.check(need >= 1, "bytes needed", need)
        events = [("BAD" if m.get_type() == "BAD_DATA" else m.get_type(), bytes(m.get_msgbuf())) for m in got]
        case.equal(events, want, f"events, chunking {mode}")
        case.equal(b"".join(b for _, b in events) + stream[len(stream) - left:], stream, "bytes lost or duplicated")
        bad = sum(k == "BAD" for k, _ in events)
        case.equal((link.total_bytes_received, link.total_packets_received, link.total_receive_errors),
                   (len(stream), len(want), bad), "counters")
        case.check([m for m, _, _ in seen] == got and all(a == (tag,) and k == {"key": 3} for _, a, k in seen), "callback calls")
        case.hit("callbacks", len(seen))
        case.hit("messages delivered", len(events) - bad)
        case.hit("bad data reported", bad)
        ends = set()
        for _, b in events:
            pos += len(b)
            ends.add(pos)
        case.hit("split frames", len(bounds - ends))
        case.interesting(bool(bounds - ends))


def strict(case):
    """intact streams through a strict parser; a damaged frame raises but costs at most the bytes it claims"""
    rnd = case.rnd
    lib, spec = rnd.choice([(hc, mav.HC), (hc, mav.HC), (mini, mav.MINIMAL)])
    frames = [mav.rand_frame(rnd, rnd.choice(sorted(spec)), spec) for _ in range(rnd.randint(1, 12))]
    stream = b"".join(frames)
    case.note(lib.DIALECT, stream.hex())
    case.hit("strict streams")
    for mode in (0, 1, 2):
        link = lib.MAVLink(Sink())
        got = []
        for c in chunks(rnd, stream, mode):
            got += link.parse_buffer(c) or []
        case.equal([bytes(m.get_msgbuf()).hex() for m in got], [f.hex() for f in frames], f"frames, chunking {mode}")
        case.equal([m.get_msgId() for m in got], [f[5] for f in frames], "message ids")
        case.equal((link.total_bytes_received, link.total_packets_received, link.total_receive_errors), (len(stream), len(frames), 0), "counters")
        case.hit("messages delivered", len(got))
    # one frame with a wrong checksum: MAVError, everything else is delivered
    k = rnd.randrange(len(frames))
    b = bytearray(frames[k])
    b[-1] ^= rnd.randint(1, 255)
    link = lib.MAVLink(Sink())
    got, errors = [], 0
    for j, f in enumerate(frames):
        try:
            got += link.parse_buffer(bytes(b) if j == k else f) or []
        except lib.MAVError:
            errors += 1
            case.equal(j, k, "error on an intact frame")
    case.equal(errors, 1, "damaged frame not reported")
    case.equal([bytes(m.get_msgbuf()) for m in got], frames[:k] + frames[k + 1:], "frames around the damaged one")
    case.hit("errors survived")
    case.interesting(len(frames) > 1)


def sender(case):
    rnd = case.rnd
    lib, spec = rnd.choice([(hc, mav.HC), (mini, mav.MINIMAL)])
    sink = Sink()
    sysid, comp = rnd.getrandbits(8), rnd.getrandbits(8)
    link = lib.MAVLink(sink, srcSystem=sysid, srcComponent=comp)
    calls = []
    link.set_send_callback(lambda m, *a, **k: calls.append((m, a, k)), 1, x=2)
    n = rnd.choice([3, 40, 300, 600])
    ids = [m for m in sorted(spec) if not any(c for _, _, c in spec[m]["wire"])]
    start = rnd.choice([0, 0, 250, 255])
    link.seq = start
    want, msgs = b"", []
    case.note(n, start, sysid, comp, case.index)
    for j in range(n):
        mid = rnd.choice(ids)
        vals = {name: mav.rand_value(rnd, t) for name, t, _ in spec[mid]["fields"]}
        args = [vals[name] for name, _, _ in spec[mid]["fields"]]
        if rnd.random() < 0.5:
            m = getattr(link, spec[mid]["name"].lower() + "_encode")(*args)
            link.send(m)
            msgs.append(m)
        else:
            getattr(link, spec[mid]["name"].lower() + "_send")(*args)
            msgs.append(None)
        f = mav.frame(mid, mav.pack_values(mid, vals, spec), (start + j) % 256, sysid, comp, spec)
        want += f
        case.check(bytes(sink.data[len(want) - len(f):]) == f, "transmitted frame", j)
        case.hit("sent")
        case.hit("wrapped", (start + j) % 256 == 0 and j > 0)
    case.equal((link.total_packets_sent, link.total_bytes_sent, len(calls), sink.writes), (n, len(want), n, n), "counters")
    case.check(all(m is None or m is c[0] for m, c in zip(msgs, calls)) and all(c[1:] == ((1,), {"x": 2}) for c in calls), "send callbacks")
    case.interesting(n > 5)
    # what was sent is what a receiver sees
    r = lib.MAVLink(Sink())
    got = []
    for c in chunks(rnd, bytes(sink.data), 2):
        got += r.parse_buffer(c) or []
    case.equal([m.get_seq() for m in got], [(start + j) % 256 for j in range(n)], "received sequence numbers")


WORKLOADS = [("tolerant", tolerant, 640, 16000), ("strict", strict, 320, 8000), ("sender", sender, 80, 1600)]
