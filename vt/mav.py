"""Independent model of the MAVLink 1 wire format, derived from the XML definitions (see gen_spec.py)."""
import json
import os
import struct
from .gen_spec import crc16, SIZES  # noqa: F401

_here = os.path.dirname(os.path.abspath(__file__))


def _load(name):
    return {int(k): v for k, v in json.load(open(os.path.join(_here, name))).items()}


HC = _load("hc_spec.json")
MINIMAL = _load("min_spec.json")
FMT = {"uint64_t": "Q", "int64_t": "q", "double": "d", "uint32_t": "I", "int32_t": "i", "float": "f", "uint16_t": "H",
       "int16_t": "h", "uint8_t": "B", "int8_t": "b", "char": "c"}
ARRAY_IDS = sorted(k for k, v in HC.items() if any(n for _, _, n in v["wire"]))
SCALAR_IDS = sorted(k for k in HC if k not in set(ARRAY_IDS))
STX = 0xFE
OVERHEAD = 8
REAL_IDS = [33, 234, 30, 212, 218]  # messages of the recorded telemetry buffers


def deficient_length(mid):
    """payload length when every array field is counted as one element (listed known finding)"""
    return sum(SIZES[t] for _, t, _ in HC[mid]["wire"])


def frame(mid, payload, seq=0, sysid=1, comp=0, spec=HC, length=None, crc_extra=None, crc_xor=0):
    body = bytes([len(payload) if length is None else length, seq, sysid, comp, mid]) + payload
    c = crc16(body + bytes([spec[mid]["crc_extra"] if crc_extra is None else crc_extra])) ^ crc_xor
    return bytes([STX]) + body + struct.pack("<H", c)


def rand_value(rnd, t, style=None):
    """random value of a scalar type; hostile extremes are common"""
    if t == "float":
        style = rnd.random() if style is None else style
        if style < 0.1:
            return rnd.choice([0.0, -0.0, 1.0, -1.0, 3.4028234663852886e38, 1.401298464324817e-45, -3.4028234663852886e38])
        return struct.unpack("<f", struct.pack("<f", rnd.gauss(0, 10 ** rnd.randint(-3, 6))))[0]
    if t == "double":
        return rnd.choice([0.0, -0.0, 1.0, 1.7976931348623157e308, 5e-324, rnd.gauss(0, 10 ** rnd.randint(-9, 9)), rnd.gauss(0, 1)])
    bits = 8 * SIZES[t]
    lo, hi = (0, 2 ** bits - 1) if t.startswith("u") or t == "char" else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)
    r = rnd.random()
    if r < 0.2:
        return rnd.choice([lo, hi, 0, 1, min(hi, 127), lo + 1, hi - 1])
    if r < 0.5:
        return rnd.randint(max(lo, -100), min(hi, 100))
    return rnd.randint(lo, hi)


def pack_values(mid, values, spec=HC):
    """values: dict field -> scalar (no arrays)"""
    return b"".join(struct.pack("<" + FMT[t], values[name]) for name, t, n in spec[mid]["wire"])


def unpack_payload(mid, payload, spec=HC):
    """list of (name, type, value) in wire order for messages without arrays"""
    res, off = [], 0
    for name, t, n in spec[mid]["wire"]:
        (v,) = struct.unpack_from("<" + FMT[t], payload, off)
        res.append((name, t, v))
        off += SIZES[t]
    return res


def rand_payload(rnd, mid, spec=HC):
    r = rnd.random()
    n = spec[mid]["length"]
    if r < 0.4:
        return bytes(rnd.getrandbits(8) for _ in range(n))
    if r < 0.5:
        return bytes(n)
    if r < 0.6:
        return b"\xfe" * n
    if mid in ARRAY_IDS and spec is HC:
        return bytes(rnd.getrandbits(8) for _ in range(n))
    return pack_values(mid, {name: rand_value(rnd, t) for name, t, _ in spec[mid]["wire"]}, spec)


def rand_frame(rnd, mid=None, spec=HC):
    mid = rnd.choice(SCALAR_IDS if spec is HC else sorted(spec)) if mid is None else mid
    return frame(mid, rand_payload(rnd, mid, spec), rnd.getrandbits(8), rnd.getrandbits(8), rnd.getrandbits(8), spec)


def intact_at(buf, i, lengths):
    """(id, total length) when an intact frame of a known message starts at byte i"""
    if i + OVERHEAD > len(buf) or buf[i] != STX:
        return None
    mid = buf[i + 5]
    if mid not in lengths or buf[i + 1] != lengths[mid]:
        return None
    end = i + OVERHEAD + lengths[mid]
    if end > len(buf):
        return None
    c = crc16(buf[i + 1:end - 2] + bytes([HC[mid]["crc_extra"]]))
    if struct.unpack_from("<H", buf, end - 2)[0] != c:
        return None
    return mid, end - i


def segment(buf, lengths=None):
    """reference segmentation: left to right, an intact frame claims its bytes"""
    if lengths is None:
        lengths = {m: HC[m]["length"] for m in SCALAR_IDS}
    parts = ["UNKNOWN"] * len(buf)
    structure = {}
    i = 0
    while i < len(buf):
        f = intact_at(buf, i, lengths)
        if f is None:
            i += 1
            continue
        mid, n = f
        structure[i] = mid
        parts[i:i + n] = ["HEADER"] * 6 + ["PAYLOAD"] * (n - 8) + ["CHECKSUM"] * 2
        i += n
    return parts, structure


def layout(structure):
    """fields of a buffer with the given structure: list of (name, type, first byte, n bytes), in structure order"""
    res = []
    for start, mid in structure.items():
        nm = HC[mid]["name"]
        for off, name in enumerate(["magic", f"{nm}_mlen", "seq", "srcSystem", f"{nm}_srcComponent", f"{nm}_msgId"]):
            res.append((name, "uint8_t", start + off, 1))
        off = start + 6
        for name, t, _ in HC[mid]["wire"]:
            res.append((f"{nm}_{name}", t, off, SIZES[t]))
            off += SIZES[t]
    return res


def rand_structure(rnd, max_bytes=None, n_msgs=None, ids=None, shuffle=True, gap=True, far=0):
    """a structure with non overlapping frames, and the number of bytes it spans"""
    n_msgs = rnd.randint(1, 5) if n_msgs is None else n_msgs
    pos, items = 0, []
    for _ in range(n_msgs):
        if gap and rnd.random() < 0.3:
            pos += rnd.randint(1, 9)
        if far and rnd.random() < far:
            pos += rnd.randint(100, 900)
        mid = rnd.choice(ids or SCALAR_IDS)
        n = HC[mid]["length"] + OVERHEAD
        if max_bytes is not None and pos + n > max_bytes:
            break
        items.append((pos, mid))
        pos += n
    if not items and max_bytes is not None:
        mid = min(ids or SCALAR_IDS, key=lambda m: HC[m]["length"])
        items, pos = [(0, mid)], HC[mid]["length"] + OVERHEAD
    if shuffle and rnd.random() < 0.25:
        rnd.shuffle(items)
    return dict(items), pos


def sibling(rnd, structure, n):
    """another structure of n bytes, easily mistaken for the given one: the same messages elsewhere, in another order, or another message of equal length"""
    size = {m: HC[m]["length"] + OVERHEAD for m in structure.values()}
    items = sorted(structure.items())
    kind = rnd.choice(["gaps", "gaps", "swap", "opposite", "listed", "subset", "equal length"])
    if kind == "listed":  # same content, listed in another order
        items = list(structure.items())
        rnd.shuffle(items)
        return dict(items)
    if kind == "subset" and len(items) > 1:
        items.pop(rnd.randrange(len(items)))
        return dict(items)
    if kind == "equal length":
        k = rnd.randrange(len(items))
        items[k] = items[k][0], rnd.choice([m for m in SCALAR_IDS if HC[m]["length"] == HC[items[k][1]]["length"]])
        return dict(items)
    if kind == "opposite" and len(items) > 1:  # one message earlier, another later by as much
        room = [(items[i + 1][0] if i + 1 < len(items) else n) - (p + size[m]) for i, (p, m) in enumerate(items)]
        back = [p - (items[i - 1][0] + size[items[i - 1][1]] if i else 0) for i, (p, m) in enumerate(items)]
        pairs = [(i, j, min(room[i], back[j])) for i in range(len(items)) for j in range(len(items)) if i != j and min(room[i], back[j]) > 0]
        if pairs:
            i, j, d = rnd.choice(pairs)
            d = rnd.randint(1, d) if abs(i - j) > 1 else rnd.randint(1, max(1, d // 2))
            items[i], items[j] = (items[i][0] + d, items[i][1]), (items[j][0] - d, items[j][1])
            items.sort()
            if all(p + size[m] <= q for (p, m), q in zip(items, [x for x, _ in items[1:]] + [n])) and items[0][0] >= 0:
                return dict(items)
        items = sorted(structure.items())
    order = [m for _, m in items]
    if kind == "swap":
        rnd.shuffle(order)
    free = n - sum(size[m] for m in order)
    cuts = sorted(rnd.randint(0, free) for _ in order)
    res, used = {}, 0
    for c, m in zip(cuts, order):
        res[c + used] = m
        used += size[m]
    return res


def fill_structure(rnd, structure, n_bytes, seq0=0, sysid=1, comp=0, values=None, filler=0):
    """bytes of a buffer which holds intact frames at the structure's positions"""
    buf = bytearray([filler]) * n_bytes
    for k, (start, mid) in enumerate(sorted(structure.items())):
        payload = rand_payload(rnd, mid) if values is None else values(mid)
        f = frame(mid, payload, (seq0 + k) % 256, sysid, comp)
        buf[start:start + len(f)] = f
    return bytes(buf)


def bits_of(data):
    import numpy as np
    return np.unpackbits(np.frombuffer(data, dtype=np.uint8)).astype(np.int_)
