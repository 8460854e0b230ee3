"""C30 Markov source"""
import numpy as np
from utils.random_sources import generate_markov_samples

RULE = ("transition arrays of order 1-3 over 2-5 states (dense, sparse, deterministic, absorbing), all starts, 1-400 samples, and long runs of which the frequencies are "
        "compared with the transition probabilities (8 standard deviations). Non-trivial: longer than the start")
REQUIRED = ["sequences", "start kept", "steps", "impossible steps absent", "deterministic chain", "order 2", "order 3", "scalar start", "frequencies", "order refused", "shape refused"]


def rand_matrix(rnd, rng, states, order, style):
    p = rng.gamma(1, size=(states,) * (order + 1)) + 0.05
    if style == "sparse":
        p *= rng.random(p.shape) < 0.5
    elif style == "deterministic":
        p = (rng.random(p.shape).argsort(axis=-1) == 0).astype(float)
    dead = p.sum(axis=-1) == 0
    p[dead, 0] = 1
    return p / p.sum(axis=-1, keepdims=True)


def chains(case):
    rnd, rng = case.rnd, case.rng
    states, order = rnd.randint(2, 5), rnd.choice([1, 1, 2, 3])
    style = rnd.choice(["dense", "sparse", "sparse", "deterministic"])
    t = rand_matrix(rnd, rng, states, order, style)
    start = [rnd.randrange(states) for _ in range(order)]
    scalar = order == 1 and rnd.random() < 0.5
    arg = start[0] if scalar else rnd.choice([start, tuple(start), np.array(start)])
    n = rnd.choice([order, order + 1, rnd.randint(order, 400)])
    case.note(states, order, style, start, n, t.tolist())
    case.interesting(n > order)
    keep = t.copy()
    s = generate_markov_samples(t, arg, n)
    case.array_equal(t, keep, "the transition probabilities were altered")
    case.equal(np.asarray(s).shape, (n,), "number of samples")
    s = [int(v) for v in s]
    case.check(all(0 <= v < states for v in s), "no such state", s)
    case.equal(s[:order], start, "the start")
    case.hit("start kept")
    for i in range(order, n):
        p = t[tuple(s[i - order:i])]
        case.check(p[s[i]] > 0, f"sample {i}: a step of probability zero", s[i - order:i + 1], p.tolist())
        if style == "deterministic":
            case.equal(s[i], int(p.argmax()), f"sample {i} of a deterministic chain")
        case.hit("steps")
    case.hit("impossible steps absent", style == "sparse")
    case.hit("deterministic chain", style == "deterministic")
    case.hit("order 2", order == 2)
    case.hit("order 3", order == 3)
    case.hit("scalar start", scalar)
    case.hit("sequences")
    wrong = start + [0] if rnd.random() < 0.5 or order == 1 else start[:-1]
    case.raises(ValueError, lambda: generate_markov_samples(t, wrong, n + 2), "a start of another order was taken")
    if order > 1:
        case.raises(ValueError, lambda: generate_markov_samples(t, [], n + 2), "an empty start was taken")
    case.hit("order refused")
    bad = rng.random((states,) * (order - 1) + (states + 1, states))
    case.raises(ValueError, lambda: generate_markov_samples(bad / bad.sum(axis=-1, keepdims=True), arg, n), "a transition array which is not square was taken")
    case.hit("shape refused")


def frequencies(case):
    rnd, rng = case.rnd, case.rng
    states, order = rnd.randint(2, 4), rnd.choice([1, 2])
    t = rand_matrix(rnd, rng, states, order, "dense")
    n = 6000
    start = [rnd.randrange(states) for _ in range(order)]
    case.note(states, order, start, t.tolist())
    case.interesting()
    s = [int(v) for v in generate_markov_samples(t, start, n)]
    counts = np.zeros(t.shape)
    for i in range(order, n):
        counts[tuple(s[i - order:i + 1])] += 1
    total = counts.sum(axis=-1, keepdims=True)
    sd = np.sqrt(t * (1 - t) * total) + 1
    off = np.abs(counts - t * total) / sd
    case.check(off.max() < 8, "frequencies of the steps are not those of the chain", off.max(), counts.tolist(), t.tolist())
    case.hit("frequencies", counts.size)


WORKLOADS = [("chains", chains, 1200, 20000), ("frequencies", frequencies, 60, 1200)]
