"""C22 buffer classifier: conservation of samples, nearest cluster, merging"""
import math
from itertools import combinations
import numpy as np
from bitstring import Bits
from inference import BufferClassifier, Cluster
from vt import dec

RULE = ("sequences of 3-60 buffers (1-5 types, from identical to unrelated, constant bits, Bits and arrays) through the classifier, all metric and weighting "
        "choices, 2-12 training buffers, 1-5 clusters. The state before and after each call is compared. Non-trivial: more than k training buffers")
REQUIRED = ["long history", "training", "merged", "partition compared", "classified", "samples conserved", "only the chosen cluster grows", "log likelihood metric", "hamming metric",
            "Hellinger merge", "KL merge", "linear weights", "sqrt weights", "no weights", "fewer training buffers than clusters", "types separated", "cluster arithmetic", "settings left out",
            "merged clusters of any size"]


def snapshot(c):
    return [(x.uid, len(x), np.rint(np.asarray(x.dist) * len(x)).astype(int)) for x in c.clusters]


def distance(a, b, kind):
    """mean over bits of the distance of two clusters given as (n, ones)"""
    (n1, o1), (n2, o2) = a, b
    p, q = o1 / n1, o2 / n2
    if kind == "KlDiv":
        def kl(x, y):
            with np.errstate(divide="ignore", invalid="ignore"):
                t = np.where(x > 0, np.where(y > 0, x * np.log2(np.where(x > 0, x, 1) / np.where(y > 0, y, 1)), np.inf), 0)
            return t
        d = kl(p, q) + kl(1 - p, 1 - q) + kl(q, p) + kl(1 - q, 1 - p)
        return float(np.mean(np.clip(d, 0, 10)))
    h = 1 - (np.sqrt(p * q) + np.sqrt((1 - p) * (1 - q)))
    return float(np.mean(np.sqrt(np.clip(h, 0, 1))))


def greedy(samples, k, kind, scheme):
    """reference merging; None when a tie makes the outcome a matter of taste"""
    cl = [s if isinstance(s, tuple) else (1, s.astype(float)) for s in samples]
    groups = [frozenset([i]) for i in range(len(samples))]
    while len(cl) > k:
        ds = []
        for i, j in combinations(range(len(cl)), 2):
            mx = (cl[i][0] + cl[j][0]) / 2
            w = math.sqrt(mx) if scheme == "sqrt" else mx if scheme == "linear" else 1
            ds.append((w * distance(cl[i], cl[j], kind), i, j))
        ds.sort()
        if len(ds) > 1 and ds[1][0] - ds[0][0] < 1e-7:
            return None
        _, i, j = ds[0]
        cl[i] = (cl[i][0] + cl[j][0], cl[i][1] + cl[j][1])
        groups[i] = groups[i] | groups[j]
        del cl[j], groups[j]
    return [(n, o) for n, o in cl]


def history(case):
    rnd, rng = case.rnd, case.rng
    L = rnd.choice([8, 32, 200, 400])
    types = rnd.randint(1, 5)
    k = rnd.randint(1, 5)
    train = rnd.randint(2, 12)
    metric = rnd.choice(["LL", "LL", "hamming"])
    merge = rnd.choice(["Hellinger", "Hellinger", "KlDiv"])
    scheme = rnd.choice(["linear", "sqrt", "none"])
    base = rng.integers(0, 2, size=(types, L))
    if rnd.random() < 0.2:
        base[:] = rnd.randint(0, 1)
    noise = rnd.choice([0, 0.01, 0.1, 0.3])
    c = BufferClassifier(train, k, **dec.trim(case, BufferClassifier, dict(classify_dist=metric, merge_dist=merge, weight_scheme=scheme)))
    total, n_seen = np.zeros(L, dtype=int), 0
    samples = []
    n = rnd.randint(3, 60)
    if case.index % 200 == 7:
        n = rnd.randint(260, 330)   # long enough for counters to overflow a byte
        case.hit("long history")
    case.note(L, types, k, train, metric, merge, scheme, noise, n)
    case.interesting(train - 1 > k)
    for i in range(n):
        s = base[rnd.randrange(types)] ^ (rng.random(L) < noise * rnd.random())
        s = s.astype(np.int_)
        buf = Bits(s.tolist()) if rnd.random() < 0.15 else s.copy()
        before = snapshot(c)
        label = c.classify(buf)
        if isinstance(buf, np.ndarray):
            case.array_equal(buf, s, "the buffer was altered")
        n_seen += 1
        total += s
        after = snapshot(c)
        case.equal(sum(x[1] for x in after), n_seen, "samples held by the clusters")
        case.array_equal(sum(x[2][:, 1] for x in after), total, "ones held by the clusters")
        case.array_equal(sum(x[2][:, 0] for x in after), n_seen - total, "zeros held by the clusters")
        case.hit("samples conserved")
        for (_, m, data), cl in zip(after, c.clusters):
            case.array_equal(cl.hard_bits, data[:, 1] > data[:, 0], "majority bits of a cluster")
        if i < train - 1:
            case.equal(int(label), -1, "label while training")
            samples.append(s)
            case.hit("training")
            continue
        want = min(k, train - 1)
        case.equal(len(after), want, "number of clusters")
        case.equal(sorted(x[0] for x in after), list(range(want)), "labels of the clusters")
        case.hit("fewer training buffers than clusters", train - 1 < k)
        case.check(0 <= int(label) < want, "label", label)
        if i == train - 1:
            # state at the moment of merging: what is held now, less the buffer just added
            prev = [(u, m - (u == label), d[:, 1] - s * (u == label)) for u, m, d in after]
            ref = greedy(samples, k, merge, scheme)
            case.hit("merged", len(samples) > k)
            if ref is not None and len(samples) > k:
                got = sorted((m, tuple(o.tolist())) for _, m, o in prev)
                case.equal(got, sorted((m, tuple(int(x) for x in o)) for m, o in ref), "clusters after merging")
                case.hit("partition compared")
                case.hit("Hellinger merge" if merge == "Hellinger" else "KL merge")
                case.hit({"linear": "linear weights", "sqrt": "sqrt weights", "none": "no weights"}[scheme])
            state = {u: (m, o) for u, m, o in prev}
        else:
            state = {u: (m, d[:, 1]) for u, m, d in before}
            for (u, m, d), (u0, m0, d0) in zip(sorted(after, key=lambda x: x[0]), sorted(before, key=lambda x: x[0])):
                case.equal((u, m), (u0, m0 + (u == label)), "size of a cluster")
                case.array_equal(d[:, 1], d0[:, 1] + s * (u == label), "a cluster other than the chosen one changed")
            case.hit("only the chosen cluster grows")
        score = {}
        for u, (m, o) in state.items():
            p = o / m
            if metric == "hamming":
                score[u] = -int(np.sum((o > m - o).astype(int) != s))
            else:
                score[u] = float(np.mean(np.clip(np.where(s == 1, np.log(p + dec.EPS), np.log(1 - p + dec.EPS)), -100, 0)))
        best = max(score.values())
        case.check(score[int(label)] >= best - 1e-9, f"not the closest cluster ({metric})", label, score)
        case.hit("hamming metric" if metric == "hamming" else "log likelihood metric")
        case.hit("classified")


def separated(case):
    """well separated types end up one per cluster, and every later buffer joins its own"""
    rnd, rng = case.rnd, case.rng
    k = rnd.randint(2, 4)
    L = 240
    base = rng.integers(0, 2, size=(k, L))
    order = list(range(k)) * rnd.randint(2, 4)
    rnd.shuffle(order)
    c = BufferClassifier(len(order) + 1, k, rnd.choice(["LL", "hamming"]), rnd.choice(["Hellinger", "KlDiv"]), rnd.choice(["linear", "sqrt", "none"]))
    make = lambda t: base[t] ^ (rng.random(L) < 0.02)
    case.note(k, order)
    case.interesting()
    for t in order:
        case.equal(int(c.classify(make(t).astype(int))), -1, "label while training")
    seen = {}
    for _ in range(20):
        t = rnd.randrange(k)
        lab = int(c.classify(make(t).astype(int)))
        case.equal(seen.setdefault(t, lab), lab, "one type got two labels")
    case.equal(len(set(seen.values())), len(seen), "two types share a label")
    case.hit("types separated")


def clusters(case):
    rnd, rng = case.rnd, case.rng
    L = rnd.choice([4, 16])
    rows = [rng.integers(0, 2, L) for _ in range(rnd.randint(2, 10))]
    cut = rnd.randint(1, len(rows) - 1)

    def build(part, uid):
        c = Cluster(np.column_stack((1 - part[0], part[0])), uid)
        for x in part[1:]:
            c.add_sample(Bits(x.tolist()) if rnd.random() < 0.3 else x)
        return c
    a, b = build(rows[:cut], 0), build(rows[cut:], 1)
    keep = np.array(b.dist).copy()
    a.merge_cluster(b)
    m = np.mean(rows, axis=0)
    case.note(L, len(rows), cut, case.index)
    case.interesting()
    case.equal((len(a), a.n_samples, a.uid), (len(rows), len(rows), 0), "size of a merged cluster")
    case.close(a.dist, np.column_stack((1 - m, m)), "distribution of a merged cluster")
    case.array_equal(a.hard_bits, m > 0.5, "majority bits")
    case.close(b.dist, keep, "merging altered the other cluster")
    case.hit("cluster arithmetic")


def merging(case):
    """clusters of any sizes are merged closest pair first"""
    rnd, rng = case.rnd, case.rng
    L, n = rnd.choice([3, 5, 8, 16]), rnd.randint(3, 7)
    k = rnd.randint(1, n - 1)
    merge, scheme = rnd.choice(["Hellinger", "KlDiv", "KlDiv"]), rnd.choice(["linear", "sqrt", "none"])
    sets = []
    for _ in range(n):
        p = np.where(rng.random(L) < rnd.choice([0.2, 0.5, 0.9]), rng.integers(0, 2, L), rng.random(L))
        sets.append([(rng.random(L) < p).astype(np.int_) for _ in range(rnd.choice([1, 2, 3, rnd.randint(4, 12)]))])
    ref = greedy([(len(s), np.sum(s, axis=0).astype(float)) for s in sets], k, merge, scheme)
    case.note(L, n, k, merge, scheme, [[x.tolist() for x in s] for s in sets])
    if ref is None:
        case.hit("tie")
        return
    c = BufferClassifier(2, k, **dec.trim(case, BufferClassifier, dict(classify_dist="LL", merge_dist=merge, weight_scheme=scheme)))
    for i, s in enumerate(sets):
        cl = Cluster(np.column_stack((1 - s[0], s[0])), i)
        for x in s[1:]:
            cl.add_sample(x)
        c.clusters.append(cl)
    c.merge_clusters()
    got = sorted((len(x), tuple(np.rint(np.asarray(x.dist)[:, 1] * len(x)).astype(int).tolist())) for x in c.clusters)
    case.equal(got, sorted((m, tuple(int(x) for x in o)) for m, o in ref), "clusters after merging")
    case.equal([x.uid for x in c.clusters], list(range(k)), "labels of the clusters")
    case.interesting()
    case.hit("merged clusters of any size")


WORKLOADS = [("merging", merging, 2500, 40000), ("history", history, 600, 8000), ("separated", separated, 64, 800), ("clusters", clusters, 160, 2000)]
