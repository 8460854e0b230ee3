"""C07 buffer structures: adherence, registration, equality"""
from vt import mav
from inference import BufferStructure, BufferSegmentation
from protocol_meta import dialect_meta as meta

RULE = ("structures of 0-6 messages (all messages of the dialect) against buffers which hold them, with single altered ids, unknown ids, "
        "damaged other header bytes, and truncations at every header border; interleaved registrations. Non-trivial: structure not empty")
REQUIRED = ["adhering", "not adhering", "registered", "registration refused", "truncated", "unknown id", "equal", "unequal", "damaged elsewhere", "far offsets"]


def want_adheres(structure, buf):
    return all(len(buf) >= i + 6 and buf[i + 5] == m for i, m in structure.items())


def variants(case, structure, n):
    rnd = case.rnd
    base = bytearray(rnd.getrandbits(8) for _ in range(n))
    for i, m in structure.items():
        base[i:i + 6] = bytes([0xFE, mav.HC[m]["length"], rnd.getrandbits(8), rnd.getrandbits(8), rnd.getrandbits(8), m])
    yield bytes(base)
    for i, m in structure.items():
        b = bytearray(base)
        b[i + 5] ^= 1 << rnd.randrange(8)
        yield bytes(b)
        b = bytearray(base)
        b[i + 5] = rnd.choice([x for x in range(256) if x not in mav.HC])
        case.hit("unknown id")
        yield bytes(b)
        b = bytearray(base)
        b[i + rnd.randrange(5)] ^= rnd.randint(1, 255)
        case.hit("damaged elsewhere")
        yield bytes(b)
        for cut in (i, i + 1, i + 5, i + 6):
            case.hit("truncated")
            yield bytes(base[:cut])
    yield b""
    for i, m in structure.items():  # the id moved one byte away
        b = bytearray(base)
        b[i + 4], b[i + 5] = b[i + 5], b[i + 4]
        yield bytes(b)


def one(case):
    rnd = case.rnd
    structure, n = mav.rand_structure(rnd, n_msgs=rnd.randint(0, 6), ids=rnd.choice([None, sorted(mav.HC)]), far=rnd.choice([0, 0, 0.3]))
    case.hit("far offsets", any(i > 255 for i in structure))
    n += rnd.randint(0, 5)
    case.note(structure)
    case.interesting(bool(structure))
    s = BufferStructure(dict(structure))
    case.equal(len(s), len(structure), "number of messages")
    case.equal(str(s), str(structure), "text form")
    registered = []
    cands = list(variants(case, structure, n))
    rnd.shuffle(cands)
    for b in cands:
        want = want_adheres(structure, b)
        case.check(bool(s.adheres_to_structure(b)) == want, "adherence", b.hex(), want)
        case.hit("adhering" if want else "not adhering")
        if rnd.random() < 0.7:
            if want:
                s.register_buffer(b)
                registered.append(b)
                case.hit("registered")
            else:
                case.raises(ValueError, lambda: s.register_buffer(b), "registering a buffer which does not adhere")
                case.hit("registration refused")
            case.equal((s.reception_count, list(s.received_buffers)), (len(registered), registered), "registered buffers")
    case.equal(dict(s.structure), structure, "structure altered by registration")
    # equality depends on positions and ids only
    same = BufferStructure(dict(reversed(list(structure.items()))))
    case.check(s == same and same == s and not s != same, "equal structures compare unequal")
    case.check(s == dict(structure) and not s != dict(structure), "equality with a mapping")
    case.hit("equal")
    others = []
    if structure:
        i = rnd.choice(list(structure))
        d = dict(structure)
        d[i] = rnd.choice([x for x in mav.HC if x != d[i]])
        others.append(d)
        d = dict(structure)
        m = d.pop(i)
        others.append(dict(d))
        d[n + 100] = m
        others.append(d)
        e = dict(structure)
        e[n + 50] = 0
        others.append(e)
    else:
        others.append({0: 0})
    for d in others:
        case.check(not (s == d) and s != d and not (s == BufferStructure(d)) and s != BufferStructure(d), "different structures compare equal", d)
        case.hit("unequal")
    for o in (None, 3, "x", list(structure.items())):
        case.check(not (s == o), "equal to an object which is no structure", o)
    # registered buffers of one structure are not visible in another
    case.equal((same.reception_count, list(same.received_buffers)), (0, []), "registrations leaked to another structure")


seg = BufferSegmentation(meta.protocol_parser)


def parsed(case):
    """a buffer adheres to the structure obtained from itself, and to that of other buffers with the same layout"""
    rnd = case.rnd
    structure, n = mav.rand_structure(rnd, n_msgs=rnd.randint(1, 4), shuffle=False)
    a, b = mav.fill_structure(rnd, structure, n), mav.fill_structure(rnd, structure, n)
    case.note(a.hex(), b.hex())
    case.interesting()
    s = seg.get_buffer_structure(a)
    if s == mav.segment(a)[1] and s.structure:
        case.check(s.adheres_to_structure(a), "a buffer does not adhere to its own structure")
        case.check(bool(s.adheres_to_structure(b)) == want_adheres(s.structure, b), "adherence of a buffer with the same layout")
        s.register_buffer(a)
        case.equal((s.reception_count, s.received_buffers), (1, [a]), "registration")
        case.hit("registered")


WORKLOADS = [("one", one, 2400, 40000), ("parsed", parsed, 400, 8000)]
