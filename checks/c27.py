"""C27 information measures"""
import math
import numpy as np
from utils.information_theory import prob, prob_with_alphabet, entropy, typical_set_cardinality, hellinger
from utils.custom_exceptions import UnsupportedDtype

RULE = ("sample arrays (1D, 2D; integers of several types, booleans, strings; constant, skewed and uniform), random, degenerate and unnormalisable-free distributions, all "
        "public measures on each. Non-trivial: more than one symbol")
REQUIRED = ["frequencies 1D", "frequencies 2D", "alphabet", "entropy 1D", "entropy 2D", "entropy bases", "degenerate", "typical set", "typical set given entropy",
            "hellinger 1D", "hellinger 2D", "hellinger of equals", "hellinger of disjoint", "float refused", "other floats refused", "dimensions refused", "bad arguments refused"]


def rand_dist(rnd, rng, size):
    style = rnd.choice(["dirichlet", "degenerate", "sparse", "uniform", "skewed"])
    if style == "uniform":
        return np.full(size, 1 / size)
    if style == "degenerate":
        p = np.zeros(size)
        p[rng.integers(size)] = 1
        return p
    p = rng.gamma(rnd.choice([0.05, 0.5, 5]) if style == "skewed" else 1, size=size) + 1e-12
    if style == "sparse":
        p[rng.random(size) < 0.5] = 0
        if p.sum() == 0:
            p[0] = 1
    return p / p.sum()


def samples(case):
    rnd, rng = case.rnd, case.rng
    two = rnd.random() < 0.5
    shape = (rnd.randint(1, 6), rnd.randint(1, 40)) if two else (rnd.randint(1, 60),)
    kind = rnd.choice(["int", "int", "uint8", "bool", "str", "int32"])
    a = rnd.randint(1, 7)
    x = rng.integers(0, a, shape) * rnd.choice([0, 1, 1])
    symbols = sorted({rnd.randint(-300, 300) for _ in range(20)})[:7]
    if kind == "int":
        x = np.array(symbols + [0] * 7)[x]
    elif kind == "uint8":
        x = (x * 37 % 256).astype(np.uint8)
    elif kind == "bool":
        x = x > 0
    elif kind == "str":
        x = np.array(list("qwertyu"))[x]
    else:
        x = x.astype(np.int32)
    case.note(kind, x.tolist())
    keep = x.copy()
    pr, alphabet = prob_with_alphabet(x)
    rows = x.tolist() if two else [x.tolist()]
    seen = sorted({v for r in rows for v in r})
    case.interesting(len(seen) > 1)
    case.equal([type(v)(w) for v, w in zip(seen, alphabet)] if len(alphabet) == len(seen) else list(alphabet), seen, "alphabet")
    case.hit("alphabet")
    want = np.array([[r.count(s) / len(r) for s in seen] for r in rows])
    case.close(pr, want if two else want[0], "empirical frequencies")
    case.close(np.asarray(pr).sum(axis=-1), np.ones(len(rows)) if two else 1.0, "frequencies do not sum to one")
    case.close(prob(x), want if two else want[0], "frequencies without alphabet")
    case.array_equal(x, keep, "samples were altered")
    case.hit("frequencies 2D" if two else "frequencies 1D")
    with np.errstate(all="ignore"):
        h = entropy(np.asarray(pr))
    case.close(h, [h_ref(r, 2) for r in want] if two else h_ref(want[0], 2), "entropy of the samples")
    case.check(np.all(h >= -1e-12) and np.all(h <= math.log2(len(seen)) + 1e-9), "entropy outside its range", h, len(seen))


def h_ref(p, base):
    return math.fsum(-float(v) * math.log(float(v)) / math.log(base) for v in p if v > 0)


def measures(case):
    rnd, rng = case.rnd, case.rng
    size, rows = rnd.randint(1, 12), rnd.randint(1, 5)
    p = np.array([rand_dist(rnd, rng, size) for _ in range(rows)])
    q = np.array([rand_dist(rnd, rng, size) for _ in range(rows)])
    base = rnd.choice([2, 2, 3, 10])
    case.note(size, rows, base, p[0].tolist(), q[0].tolist())
    case.interesting(size > 1)
    kp, kq = p.copy(), q.copy()
    e2, e1 = entropy(p, base), entropy(p[0], base)
    case.check(isinstance(e1, np.ndarray) and isinstance(e2, np.ndarray), "entropy is not an array", e1, e2)
    case.close(e2, [h_ref(r, base) for r in p], "entropy of each row")
    case.close(e1, h_ref(p[0], base), "entropy of one distribution")
    case.close(entropy(p), [h_ref(r, 2) for r in p], "entropy in bits")
    case.hit("entropy 2D")
    case.hit("entropy 1D")
    case.hit("entropy bases", base != 2)
    case.hit("degenerate", bool((p[0] == 1).any()))
    w = [math.sqrt(max(0.0, 1 - math.fsum(math.sqrt(float(a) * float(b)) for a, b in zip(r, s)))) for r, s in zip(p, q)]
    for got, want, what in ((hellinger(p, q), w, "each row"), (hellinger(p[0], q[0]), w[0], "one pair"), (hellinger(q[0], p[0]), w[0], "the swapped pair")):
        # the square root magnifies rounding next to zero
        case.close(np.asarray(got, dtype=float) ** 2, np.asarray(want) ** 2, f"distance of {what} (squared)", atol=1e-12 * size * 10)
        case.check(np.all(np.asarray(got) >= 0) and np.all(np.asarray(got) <= 1), f"distance of {what} outside 0..1", got)
    case.hit("hellinger 1D")
    case.hit("hellinger 2D")
    same = np.asarray(hellinger(p, p))
    case.check(np.isfinite(same).all() and (same < 1e-6).all(), "a distribution is not at distance zero of itself", same)
    case.hit("hellinger of equals")
    a, b = np.zeros(size + 1), np.zeros(size + 1)
    cut = rnd.randint(1, size)
    a[:cut], b[cut:] = rand_dist(rnd, rng, cut), rand_dist(rnd, rng, size + 1 - cut)
    case.close(hellinger(a, b), 1.0, "disjoint distributions are not at distance one")
    case.hit("hellinger of disjoint")
    case.check(np.array_equal(p, kp) and np.array_equal(q, kq), "a distribution was altered")
    n, eps = rnd.randint(1, 100), rnd.choice([1e-5, 0.01, 0.3, 1.5])
    h = h_ref(p[0], 2)
    lo, up = typical_set_cardinality(n, p[0], eps=eps)
    case.close([lo, up], [(1 - eps) * 2 ** (n * (h - eps)), 2 ** (n * (h + eps))], "typical set from a distribution", rtol=1e-6)
    lo, up = typical_set_cardinality(n, p[0])
    case.close([lo, up], [(1 - 1e-5) * 2 ** (n * (h - 1e-5)), 2 ** (n * (h + 1e-5))], "typical set with the usual epsilon", rtol=1e-6)
    case.check(lo <= up * (1 + 1e-12), "bounds of the typical set are swapped", lo, up)
    case.hit("typical set")
    ent = rnd.choice([0.0, 0.5, 1.0, 3.3])
    for kw in (dict(ent=ent), dict(ent=ent, pk=q[0])):
        lo, up = typical_set_cardinality(n, eps=eps, **kw)
        case.close([lo, up], [(1 - eps) * 2 ** (n * (ent - eps)), 2 ** (n * (ent + eps))], "typical set from a given entropy", rtol=1e-6)
    case.hit("typical set given entropy")
    case.raises(ValueError, lambda: typical_set_cardinality(rnd.choice([0, -1, -7]), p[0]), "a sequence without length was taken")
    case.raises(ValueError, lambda: typical_set_cardinality(n, p[0], eps=rnd.choice([0, -0.1])), "epsilon of zero or less was taken")
    case.raises(ValueError, lambda: typical_set_cardinality(n), "neither distribution nor entropy was accepted")
    case.hit("bad arguments refused")
    case.raises(UnsupportedDtype, lambda: prob_with_alphabet(rng.random((3, 4)) if rnd.random() < 0.5 else rng.random(5)), "floating point samples were taken")
    case.raises(UnsupportedDtype, lambda: prob(rng.random(5)), "floating point samples were taken")
    case.hit("float refused")
    narrow = rnd.choice([np.float16, np.float32, np.longdouble])
    case.raises(UnsupportedDtype, lambda: prob_with_alphabet((rng.integers(0, 3, rnd.choice([(3, 4), (5,)])) / 2).astype(narrow)), "floating point samples were taken")
    case.hit("other floats refused")
    bad = rng.integers(0, 2, (2, 2, 2)) if rnd.random() < 0.7 else np.array(1)
    case.raises(ValueError, lambda: prob_with_alphabet(bad), "samples of a wrong dimension were taken")
    case.raises(ValueError, lambda: entropy(rng.random((2, 2, 2))), "a distribution of a wrong dimension was taken")
    case.raises(ValueError, lambda: hellinger(p, q[0]), "distributions of different dimensions were compared")
    case.raises(ValueError, lambda: hellinger(p[0], q), "distributions of different dimensions were compared")
    case.raises(ValueError, lambda: hellinger(p[None], q[None]), "distributions of a wrong dimension were compared")
    case.hit("dimensions refused")


WORKLOADS = [("samples", samples, 2000, 40000), ("measures", measures, 1200, 24000)]
