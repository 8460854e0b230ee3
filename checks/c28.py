"""C28 Hamming distance"""
import bitstring
import numpy as np
from utils.bit_operations import hamming_distance

RULE = ("bit words of 0-2000 bits in every accepted form (bytes, integer of given length, bit string, array of bits of several types) and every mix of forms, "
        "words of different length, integers which do not fit, other types. Non-trivial: the words differ")
REQUIRED = ["pairs", "mixed forms", "bytes", "integers", "bit strings", "arrays", "long integers", "lengths refused", "overflow refused", "types refused", "triangle", "default length"]


def forms(rnd, bits):
    n = len(bits)
    f = [("bits", bitstring.Bits(bits)), ("bits", bitstring.BitArray(bits)),
         ("array", np.array(bits, dtype=rnd.choice([np.int_, np.uint8, np.bool_, np.int32])))]
    if n % 8 == 0:
        f.append(("bytes", bytes(np.packbits(np.array(bits, dtype=np.uint8)))))
    if n > 0:
        f.append(("int", int("".join(map(str, bits)), 2)))
    return f


def pairs(case):
    rnd, rng = case.rnd, case.rng
    n = rnd.choice([0, 1, 7, 8, 8, 16, 24, 31, 64, 65, 200, rnd.randint(1, 2000)])
    a = [int(v) for v in rng.integers(0, 2, n)]
    b = [v ^ int(rnd.random() < rnd.choice([0, 0.05, 0.5, 1])) for v in a]
    c = [int(v) for v in rng.integers(0, 2, n)]
    d = sum(x != y for x, y in zip(a, b))
    case.note(n, a[:64], b[:64])
    case.interesting(d > 0)
    for ka, fa in forms(rnd, a):
        for kb, fb in forms(rnd, b):
            kw = {"uint_len": n} if "int" in (ka, kb) else rnd.choice([{}, {"uint_len": rnd.randint(1, 99)}])
            got = hamming_distance(fa, fb, **kw)
            case.equal(int(got), d, f"distance of {ka} and {kb} ({n} bits)")
            case.check(isinstance(got, int), "the distance is not an integer", got)
            case.hit("pairs")
            case.hit("mixed forms", ka != kb)
            for k, name in (("bytes", "bytes"), ("int", "integers"), ("bits", "bit strings"), ("array", "arrays")):
                case.hit(name, ka == k or kb == k)
            case.hit("long integers", n > 64 and "int" in (ka, kb))
    if n:
        fa, fb, fc = (rnd.choice(forms(rnd, w))[1] for w in (a, b, c))
        case.equal(hamming_distance(fb, fa, n), d, "distance of the swapped pair")
        case.equal(hamming_distance(fa, rnd.choice(forms(rnd, a))[1], n), 0, "distance of equal words")
        case.check(hamming_distance(fa, fc, n) <= hamming_distance(fa, fb, n) + hamming_distance(fb, fc, n), "triangle inequality")
        case.hit("triangle")
    x, y = rnd.randint(0, 255), rnd.randint(0, 255)
    case.equal(hamming_distance(x, y), bin(x ^ y).count("1"), "distance of two integers of the usual length")
    case.hit("default length")


def refused(case):
    rnd, rng = case.rnd, case.rng
    n, m = rnd.sample([0, 8, 16, 24, 32], 2)
    wa, wb = ([int(v) for v in rng.integers(0, 2, k)] for k in (n, m))
    a = rnd.choice([f for f in forms(rnd, wa) if f[0] != "int"])
    b = rnd.choice([f for f in forms(rnd, wb) if f[0] != "int"])
    case.note(n, m, a[0], b[0], wa, wb)
    case.interesting()
    case.raises(ValueError, lambda: hamming_distance(a[1], b[1]), f"words of {n} and {m} bits were compared")
    case.hit("lengths refused")
    length = rnd.randint(1, 40)
    big = rnd.choice([2 ** length, 2 ** length + rnd.randint(0, 99), -1, -rnd.randint(1, 99)])
    case.raises(ValueError, lambda: hamming_distance(*rnd.sample([big, 0], 2), length), f"{big} was taken as {length} bits")
    case.hit("overflow refused")
    odd = rnd.choice([1.0, "0x12", None, [0, 1], (1, 0), {1}])
    case.raises(TypeError, lambda: hamming_distance(*rnd.sample([odd, b"\x12"], 2)), f"{odd!r} was taken")
    case.hit("types refused")


WORKLOADS = [("pairs", pairs, 1500, 30000), ("refused", refused, 800, 8000)]
