"""C03 header validity and nearest valid header"""
from vt import mav
from protocol_meta import is_valid_header, hamming_distance_2_valid_header, dialect_meta as meta
from protocol_meta.msg_header import HeaderLength
from utils.bit_operations import hamming_distance

RULE = ("all ids x all lengths x markers (validity, exhaustive over the three fields), random and near-valid 6 byte headers, with and "
        "without a payload limit from -1 to 300, and strings of every other length 0-12. Non-trivial: the header is not already valid")
REQUIRED = ["valid headers", "invalid headers", "wrong length", "limited", "nothing fits", "ties", "distance zero", "opposite header", "largest distance"]


def pop(x):
    return bin(x).count("1")


_table = None


def table(case):
    """payload length of each message; the known finding allows its listed value for messages with array fields"""
    global _table
    if _table is None:
        t = {}
        for mid in range(256):
            ok = [n for n in range(256) if is_valid_header(bytes([0xFE, n, 1, 2, 3, mid]))]
            if mid in mav.HC:
                true = mav.HC[mid]["length"]
                if mid in mav.ARRAY_IDS and ok == [mav.deficient_length(mid)] != [true]:
                    case.mon.known.add(f"array-length-{mid}")
                    t[mid] = ok[0]
                else:
                    case.equal(ok, [true], f"lengths accepted for message {mid}")
                    t[mid] = true
            else:
                case.equal(ok, [], f"lengths accepted for the unknown id {mid}")
        _table = t
    return _table


def validity(case):
    t = table(case)
    mid = case.index % 256
    rnd = case.rnd
    others = bytes(rnd.choice([0, 0xFE, 255, rnd.getrandbits(8)]) for _ in range(3))
    case.note(mid, others.hex())
    case.interesting()
    for marker in {0xFE, rnd.getrandbits(8), 0xFD, 0xFF}:
        for n in range(256):
            h = bytes([marker, n]) + others + bytes([mid])
            want = marker == 0xFE and t.get(mid) == n
            case.check(bool(is_valid_header(h)) == want, "header validity", h.hex(), want)
            case.hit("valid headers" if want else "invalid headers")
    for n in (0, 1, 5, 7, 8, 12):
        good = bytes([0xFE, t.get(mid, 9), 0, 0, 0, mid])
        h = (good + good)[:n]
        case.check(not is_valid_header(h), "a header of another length is accepted", h.hex())
        case.hit("wrong length")
    if mid in t:
        ln = t[mid]
        case.equal(hamming_distance_2_valid_header(bytes([0xFE, ln]) + others + bytes([mid])), (0, mid), "distance of a valid header")
        case.hit("distance zero")


def nearest(case):
    t = table(case)
    rnd = case.rnd
    if rnd.random() < 0.6:
        mid = rnd.choice(list(t))
        h = bytearray([0xFE, t[mid], rnd.getrandbits(8), rnd.getrandbits(8), rnd.getrandbits(8), mid])
        for _ in range(rnd.choice([0, 1, 1, 2, 3, 5])):
            h[rnd.choice([0, 1, 1, 5, 5, 2])] ^= 1 << rnd.randrange(8)
    else:
        h = bytearray(rnd.getrandbits(8) for _ in range(6))
    far = rnd.random() < 0.15
    if far:  # as far as possible from everything a small limit allows
        mid = rnd.choice(sorted(t, key=lambda m: t[m])[:6])
        h[1], h[5] = t[mid] ^ 255, mid ^ 255
        case.hit("opposite header")
    h = bytes(h)
    limit = t[mid] if far else rnd.choice([None, None, rnd.randint(0, 60), rnd.choice(list(t.values())), rnd.choice(list(t.values())) - 1, 255, 300, 0, 1, 2])
    case.note(h.hex(), limit)
    case.interesting(h[0] != 0xFE or t.get(h[5]) != h[1])
    got_d, got_id = hamming_distance_2_valid_header(h) if limit is None else hamming_distance_2_valid_header(h, limit)
    cand = {m: pop(n ^ h[1]) + pop(m ^ h[5]) for m, n in t.items() if limit is None or n <= limit}
    if limit is not None:
        case.hit("limited")
    if not cand:
        case.equal(int(got_id), -1, "id although nothing fits")
        case.hit("nothing fits")
        return
    best = min(cand.values())
    case.equal(int(got_d), best + pop(h[0] ^ 0xFE), "distance to the nearest valid header")
    case.check(cand.get(got_id) == best, "the reported id is not at the reported distance", got_id, best)
    case.hit("largest distance", best == 16)
    case.hit("ties", sum(1 for v in cand.values() if v == best) > 1)
    case.hit("distance zero", got_d == 0)


def wrong_length(case):
    n = [x for x in range(13) if x != 6][case.index % 12]
    h = bytes(case.rnd.getrandbits(8) for _ in range(n))
    case.note(h.hex())
    case.interesting()
    case.raises(HeaderLength, lambda: hamming_distance_2_valid_header(h), "a header of another length")
    case.raises(HeaderLength, lambda: hamming_distance_2_valid_header(h, 20), "a header of another length")
    case.check(not is_valid_header(h), "a header of another length is accepted")
    case.hit("wrong length")


WORKLOADS = [("validity", validity, 256, 4096), ("nearest", nearest, 4000, 120000), ("wrong_length", wrong_length, 96, 960)]
