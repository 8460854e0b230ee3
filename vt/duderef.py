"""reference of the context based denoisers"""
import numpy as np


def rand_channel(rng, a):
    """a well conditioned channel over an alphabet of size a"""
    while True:
        f = rng.choice([0.0, 0.01, 0.05, 0.1, 0.2, 0.35])
        if a == 2 and rng.random() < 0.6:
            return np.array([[1 - f, f], [f, 1 - f]])
        p = np.eye(a) * (1 - f) + f * rng.dirichlet(np.ones(a), size=a)
        p /= p.sum(axis=1, keepdims=True)
        if np.linalg.cond(p) < 50:
            return p


def rand_loss(rng, a):
    if rng.random() < 0.6:
        return 1 - np.eye(a, dtype=int)
    l = rng.uniform(0.2, 3, size=(a, a))
    np.fill_diagonal(l, 0)
    return l


def hard(counts, channel, loss, z):
    """(estimate, cost, decidable)"""
    q = np.linalg.solve(channel.T, counts)   # counts = q @ channel
    post = q * channel[:, z]
    cost = post @ loss
    order = np.sort(cost)
    scale = max(1.0, np.abs(cost).max())
    return int(np.argmin(cost)), float(cost.min()), len(cost) < 2 or order[1] - order[0] > 1e-7 * scale


def soft(counts, channel, loss, z):
    """(posterior, cost, decidable): binary alphabet, negative or tiny inverted counts are raised to one"""
    q = np.linalg.solve(channel.T, counts)
    sure = abs(q[0] - 1) > 1e-7 or q[1] >= 1 + 1e-7
    if q[0] < 1:
        q = np.array([1.0, q[1]])
    elif q[1] < 1:
        q = np.array([q[0], 1.0])
    post = q * channel[:, z]
    s = post.sum()
    sure &= abs(s) > 1e-9
    post = post / s if s else post
    return post, float(post @ loss @ post), sure


class OnlineRef:
    def __init__(self, channel, loss, k, hard_decision, a):
        self.channel, self.loss, self.k, self.hard, self.a = channel, loss, k, hard_decision, a
        self.ctx, self.counts = [], {}

    def step(self, z):
        """(estimate, cost, decidable, first use of context)"""
        z = int(z)
        if len(self.ctx) < self.k:
            self.ctx.append(z)
            return (z if self.hard else np.eye(self.a)[z]), 0.0, True
        c = self.counts.setdefault(tuple(self.ctx), np.zeros(self.a))
        c[z] += 1
        self.ctx = (self.ctx + [z])[1:]
        return hard(c, self.channel, self.loss, z) if self.hard else soft(c, self.channel, self.loss, z)


def sequence(channel, loss, k, hard_decision, a, zs):
    """two sided denoiser: list of (estimate, cost, decidable)"""
    zs = [int(z) for z in zs]
    n = len(zs)
    counts = {}
    key = lambda i: (tuple(zs[i - k:i]), tuple(zs[i + 1:i + 1 + k]))
    for i in range(k, n - k):
        counts.setdefault(key(i), np.zeros(a))[zs[i]] += 1
    res = []
    for i in range(n):
        if i < k or i >= n - k:
            res.append((zs[i] if hard_decision else np.eye(a)[zs[i]], 0.0, True))
        else:
            res.append((hard if hard_decision else soft)(counts[key(i)], channel, loss, zs[i]))
    return res
