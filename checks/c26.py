"""C26 Bernoulli mixture"""
import contextlib
import io
import warnings
import numpy as np
from inference import BMM

RULE = ("binary data sets (2-60 rows, 2-24 columns; clusters, noise, constant columns, duplicated rows) fitted with 1-4 components and 1-25 iterations, then judged on the "
        "fitted and on fresh rows. Non-trivial: more than one component and distinct rows")
REQUIRED = ["fits", "weights", "means match the data", "sample likelihood", "score", "assignment", "fresh rows", "single component", "constant column"]


def loglik(x, pi, mu):
    """log p(x, k), and which rows touch a vanishing probability"""
    x = np.asarray(x, dtype=float)
    tiny = (mu < 1e-12) | (mu > 1 - 1e-12)
    p = np.clip(mu, 1e-300, 1)
    q = np.clip(1 - mu, 1e-300, 1)
    lp = np.log(np.clip(pi, 1e-300, 1))[None, :] + np.array([[np.sum(np.where(r == 1, np.log(p[k]), np.log(q[k]))) for k in range(len(pi))] for r in x])
    # a certain component is only harmless when the row agrees with it
    unsafe = np.array([any(np.any(tiny[k] & (np.abs(r - mu[k]) > 0.5)) for k in range(len(pi))) for r in x])
    top = lp.max(axis=1)
    return lp, top + np.log(np.exp(lp - top[:, None]).sum(axis=1)), unsafe


def fits(case):
    rnd, rng = case.rnd, case.rng
    k, n, d = rnd.choice([1, 2, 2, 3, 4]), rnd.randint(2, 60), rnd.randint(2, 24)
    style = rnd.choice(["clusters", "noise", "constant", "duplicates"])
    if style == "noise":
        x = rng.integers(0, 2, (n, d))
    else:
        centers = rng.integers(0, 2, (k, d))
        x = centers[rng.integers(0, k, n)] ^ (rng.random((n, d)) < rnd.choice([0.05, 0.2, 0.35]))
        if style == "constant":
            x[:, rng.integers(d)] = rnd.randint(0, 1)
        if style == "duplicates":
            x[n // 2:] = x[0]
    x = x.astype(int)
    it = rnd.choice([1, 2, 5, 25])
    case.note(k, n, d, style, it, x[:4].tolist())
    case.interesting(k > 1 and len(np.unique(x, axis=0)) > 1)
    keep = x.copy()
    m = BMM(k, it)
    printed = io.StringIO()
    with warnings.catch_warnings(), contextlib.redirect_stdout(printed), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        m.fit(x)
    case.array_equal(x, keep, "fitting altered the data")
    pi, mu = np.asarray(m.pi, dtype=float), np.asarray(m.mu, dtype=float)
    case.equal((pi.shape, mu.shape), ((k,), (k, d)), "shape of the model")
    case.check(np.isfinite(pi).all() and np.isfinite(mu).all(), "the model is not finite", pi, mu)
    case.check(abs(pi.sum() - 1) < 1e-6 and pi.min() >= 0, "weights are not a distribution", pi)
    case.check(mu.min() >= -1e-9 and mu.max() <= 1 + 1e-9, "component means are not probabilities", mu)
    case.hit("weights")
    if not printed.getvalue():  # a fit given up on numerical breakdown goes back one step
        case.close(pi @ mu, x.mean(axis=0), "the mixture's mean is not the data's mean", rtol=1e-6, atol=1e-6)
        case.hit("means match the data")
    case.hit("fits")
    case.hit("single component", k == 1)
    case.hit("constant column", bool(((x == x[0]).all(axis=0)).any()))
    fresh = np.where(rng.random((8, d)) < 0.5, x[rng.integers(0, n, 8)], rng.integers(0, 2, (8, d)))
    for rows, what in ((x, "fitted"), (fresh, "fresh")):
        lp, ll, unsafe = loglik(rows, pi, mu)
        with np.errstate(all="ignore"):
            got, lab = np.asarray(m.score_samples(rows)), np.asarray(m.predict(rows))
            total = float(m.score(rows))
        case.equal((got.shape, lab.shape), ((len(rows),), (len(rows),)), "shape of the answers")
        ok = ~unsafe
        case.close(got[ok], ll[ok], f"log likelihood of {what} rows", rtol=1e-6, atol=1e-7)
        case.hit("sample likelihood", int(ok.sum()))
        case.check(bool(np.isclose(total, np.mean(got), rtol=1e-9, atol=1e-9, equal_nan=True)), "score is not the mean log likelihood of the rows", total, got)
        case.hit("score")
        s = np.sort(lp, axis=1)
        clear = (s[:, -1] - s[:, -2] > 1e-6) if k > 1 else np.ones(len(rows), dtype=bool)
        case.array_equal(lab[ok & clear], lp.argmax(axis=1)[ok & clear], f"component of {what} rows")
        case.check(bool(((lab >= 0) & (lab < k)).all()), "no such component", lab)
        case.hit("assignment", int((ok & clear).sum()))
        case.hit("fresh rows", what == "fresh")


def longer(case):
    """more iterations from the same start never fit worse; only meaningful when the start can be pinned"""
    rnd, rng = case.rnd, case.rng
    k, n, d = rnd.choice([2, 3]), rnd.randint(6, 40), rnd.randint(2, 12)
    x = (rng.random((n, d)) < rng.uniform(0.2, 0.8, (2, d))[rng.integers(0, 2, n)]).astype(int)
    seed = rnd.randrange(2 ** 31)
    real = np.random.RandomState
    case.note(k, n, d, seed)
    case.interesting()

    def fit(steps):
        np.random.RandomState = lambda *a: real(*(a or (seed,)))
        np.random.seed(seed)
        try:
            m = BMM(k, steps)
            with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
                m.fit(x)
        finally:
            np.random.RandomState = real
        return m

    a, b = fit(1), fit(1)
    if not (np.array_equal(a.mu, b.mu) and np.array_equal(a.pi, b.pi)):
        case.hit("start not pinned")
        return
    last = None
    for steps in (1, 2, 3, 5, 9, 15):
        m = fit(steps)
        with np.errstate(all="ignore"):
            s = float(m.score(x))
        mu = np.asarray(m.mu)
        if not np.isfinite(s) or (mu < 1e-9).any() or (mu > 1 - 1e-9).any():
            break  # vanishing probabilities are floored, which breaks the argument
        if last is not None:
            case.check(s >= last - 1e-7, f"{steps} iterations fit worse than fewer", s, last)
            case.hit("likelihood grows")
        last = s


WORKLOADS = [("fits", fits, 600, 12000), ("longer", longer, 80, 1600)]
