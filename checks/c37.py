"""C37 the clustering study counts how its buffers were classified"""
import glob
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
import numpy as np
from scipy.io import loadmat
from vt import core
from vt.core import HarnessError
from checks.c35 import parse, agree

RULE = ("the clustering analysis program run whole in a scratch directory on synthetic telemetry (14-40 transmissions cut into two or three classes, with and without padding), all settings, one or several "
        "processes and runs, some options left out; every buffer given to the classifiers and every answer is recorded, each buffer is traced to its transmission, and everything saved is recounted. "
        "Non-trivial: some test buffer was given a wrong class")
SCALE = 1
REQUIRED = ["runs of the program", "classification runs", "buffers traced", "two classes", "three classes", "clean training", "noisy training", "no errors at all", "shuffled", "in order", "several runs",
            "several processes", "errors counted exactly", "matrices recounted", "measures recomputed", "recorded command", "defaults", "visible errors averaged", "mixture matrices recounted", "padded"]
SCRIPT = os.path.join(core.REPO, "runs/clsutering_analysis/clustering_analysis.py")
K = {2: 648, 3: 486}
DEFAULTS = dict(n_classes=3, p=0.07, n_training=150, train_with_errors=1, shuffle=1, n_runs=10, n_jobs=0)


def start(case, opts, where):
    env = dict(os.environ, PYTHONPATH=core.REPO, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
    cmd = [sys.executable, os.path.join(core.VERIF, "vt", "study_launch.py"), core.REPO, SCRIPT, os.path.join(where, "events")] + [str(x) for o in opts.items() for x in o]
    try:
        r = subprocess.run(cmd, cwd=where, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400, text=True)
    except subprocess.TimeoutExpired:
        raise HarnessError("the clustering study took more than 400 s")
    case.check(r.returncode == 0, "the clustering study failed", r.stdout.strip().splitlines()[-3:])


def events(where):
    """per run: (buffers, labels, training set of the mixture, its test set, its labels)"""
    res = []
    for path in sorted(glob.glob(os.path.join(where, "events.*"))):
        mine, bmm = {}, {}
        with open(path, "rb") as f:
            while True:
                try:
                    what, k, x, y = pickle.load(f)
                except EOFError:
                    break
                if what == "classify":
                    mine.setdefault(k, []).append((x.astype(int).ravel(), int(y)))
                else:
                    bmm.setdefault(k, {})[what] = (x.astype(int), y)
        if set(mine) != set(bmm):
            raise HarnessError("classifier and mixture were not used in pairs")
        for k in mine:
            res.append((np.array([b for b, _ in mine[k]]), np.array([l for _, l in mine[k]]), bmm[k]["fit"][0], bmm[k]["predict"][0], np.asarray(bmm[k]["predict"][1]).astype(int)))
    return res


def greedy(cm):
    """columns reordered by the matching of clusters (columns) to classes (rows) which takes the largest overlap first; None if that is not unique"""
    left, to = cm.astype(float), {}
    for _ in range(len(cm)):
        best = left.max()
        spots = np.argwhere(left == best)
        if len(spots) > 1 and len(to) < len(cm) - 1:
            return None
        r, c = spots[0]
        to[c] = r
        left[r, :] = -1
        left[:, c] = -1
    res = np.zeros_like(cm)
    for c, r in to.items():
        res[:, r] = cm[:, c]
    return res


def study(case):
    rnd, rng = case.rnd, case.rng
    nc = rnd.choice([2, 3])
    k = K[nc]
    a = dict(n_classes=nc, p=rnd.choice([0, 0.02, 0.05, 0.07, 0.1]), train_with_errors=rnd.choice([0, 1]), shuffle=rnd.choice([0, 1]), n_runs=rnd.choice([1, 1, 2, 3]), n_jobs=rnd.choice([1, 1, 2, 3]))
    omitted = rnd.sample(["p", "train_with_errors", "shuffle"], rnd.randint(1, 3)) if rnd.random() < 0.3 else []
    for o in omitted:
        a[o] = DEFAULTS[o]
        case.hit("defaults")
    rows = rnd.randint(14, 40)
    a["n_training"] = rnd.randint(3 * nc, nc * rows - 3 * nc)
    width = k if rnd.random() < 0.5 else rnd.choice([1224 // nc, k - rnd.randint(1, 60)])
    # classes differ in some bits, transmissions of a class in a quarter of them
    base = rng.integers(0, 2, width)
    far = rnd.choice([0.0, 0.02, 0.1, 0.4])
    kinds = np.array([base ^ (rng.random(width) < far) for _ in range(nc)])
    tx = kinds[None] ^ (rng.random((rows, nc, width)) < 0.25)
    where = tempfile.mkdtemp(prefix="study_", dir=os.environ.get("VT_SCRATCH"))
    try:
        os.makedirs(os.path.join(where, "results"))
        np.savetxt(os.path.join(where, "telemetry_hc_tx_info_bits_2023.csv"), tx.reshape(rows, -1).astype(int), fmt="%d", delimiter=",")
        opts = {"--" + o: v for o, v in a.items() if o not in omitted}
        case.note(opts, rows, width, far)
        start(case, opts, where)
        runs = events(where)
        dirs = [d for d in glob.glob(os.path.join(where, "results", "*")) if os.path.isdir(d)]
        case.equal(len(dirs), 1, "result directories of one run")
        mats = glob.glob(os.path.join(dirs[0], "*.mat"))
        case.equal(len(mats), 1, "results of one run")
        mat = loadmat(mats[0], squeeze_me=True)
        with open(os.path.join(dirs[0], "cmd.txt")) as f:
            text = f.read()
    finally:
        shutil.rmtree(where)
    case.equal(len(runs), a["n_runs"], "number of classification runs")
    e, t = int(k * a["p"]), a["n_training"]
    matrices, mixtures, wrong = [], [], False
    flat = tx.reshape(rows * nc, width).astype(int)
    for buffers, labels, fitted, tested, answers in runs:
        case.equal(buffers.shape, (rows * nc, k), "buffers classified")
        dist = np.abs(buffers[:, None, :width] - flat[None]).sum(axis=2)
        origin = dist.argmin(axis=1)
        case.equal(sorted(origin.tolist()), list(range(rows * nc)), "each part of each transmission is classified once")
        order = origin.tolist() == list(range(rows * nc))
        case.check(order != bool(a["shuffle"]), "order of the buffers", a["shuffle"], origin.tolist()[:20])
        case.hit("shuffled" if a["shuffle"] else "in order")
        case.hit("buffers traced", rows * nc)
        real = origin % nc
        if a["shuffle"]:
            share = np.bincount(real[:t], minlength=nc)
            case.check(share.max() - share.min() <= 1, "classes are not equally trained", share)
        flips = dist[np.arange(rows * nc), origin]
        noisy = np.ones(rows * nc, dtype=bool)
        noisy[:t] = bool(a["train_with_errors"])
        case.check((flips[~noisy] == 0).all(), "errors in buffers which should be intact", flips.tolist())
        case.check((flips[noisy] <= e).all() and (flips[noisy] >= e - (k - width)).all(), "flipped bits per buffer", flips.tolist(), e)
        case.hit("errors counted exactly", width == k and e > 0)
        if width < k and e > 0 and noisy.any():    # errors of the padding cannot be seen: the visible share on average, 8 standard deviations
            share, m = width / k, int(noisy.sum())
            dev = 8 * np.sqrt(e * share * (1 - share) * (k - e) / (k - 1) / m) + 1e-9
            case.check(abs(flips[noisy].mean() - e * share) <= dev, "flipped bits on average", flips[noisy].mean(), e * share, dev)
            case.hit("visible errors averaged")
        case.hit("padded", width < k)
        if width == k and e > 0 and noisy.sum() * e > 300:
            at = np.nonzero((buffers != flat[origin])[noisy])[1]
            share = np.histogram(at, bins=4, range=(0, k))[0] / len(at)
            case.check(share.min() > 0.1, "errors are not spread over the whole buffer", share)
        case.check((labels[t:] >= 0).all() and (labels[t:] < nc).all(), "labels after training", labels.tolist())
        case.check(np.array_equal(fitted, buffers[:t]), "the mixture was fitted to other buffers than the training ones")
        case.check(np.array_equal(tested, buffers[t:]), "the mixture was tested on other buffers")
        for lab, out in ((labels[t:], matrices), (answers, mixtures)):
            cm = np.array([[int(np.sum((real[t:] == i) & (lab == j))) for j in range(nc)] for i in range(nc)])
            out.append(greedy(cm))
        wrong |= matrices[-1] is not None and np.trace(matrices[-1]) < matrices[-1].sum()
        case.hit("classification runs")
    for who, mine in (("clustering", matrices), ("bmm", mixtures)):
        cm = np.asarray(mat[who + "_cm"])
        case.equal(cm.shape, (nc, nc), f"{who}: shape of the matrix")
        if None not in [m if m is None else 0 for m in mine]:
            mean = np.mean(mine, axis=0)
            case.check((np.abs(cm - mean) <= 0.5 + 1e-9).all(), f"{who}: confusion matrix", cm.tolist(), mean.tolist())
            case.hit("matrices recounted" if who == "clustering" else "mixture matrices recounted")
        row = np.bincount(real[t:], minlength=nc) if len(runs) == 1 else None
        if row is not None:
            case.equal(cm.sum(axis=1).tolist(), row.tolist(), f"{who}: buffers of each class")
        there, pred, right = cm.sum(axis=1), cm.sum(axis=0), np.diag(cm)
        case.close(mat[who + "_accuracy"], right.sum() / cm.sum(), f"{who}: accuracy")
        with np.errstate(all="ignore"):
            case.close(mat[who + "_recall"], right / there, f"{who}: recall")
            case.close(mat[who + "_precision"], np.where(pred > 0, right / pred, 0.0), f"{who}: precision")
            case.close(mat[who + "_f1"], 2 * right / (there + pred), f"{who}: f1")
        case.hit("measures recomputed")
    case.equal(int(mat["classified_buffers"]), int(np.asarray(mat["clustering_cm"]).sum()), "buffers classified")
    case.check(abs(int(mat["classified_buffers"]) - (rows * nc - t)) <= nc * nc / 2, "buffers classified are not the test buffers", mat["classified_buffers"], rows * nc - t)
    for o in ("p", "n_training", "n_classes", "train_with_errors"):
        case.check(float(mat[o]) == float(a[o]), f"saved setting {o}", mat[o], a[o])
    got = parse(text)
    for o, v in a.items():
        if o == "n_jobs":
            continue    # how many processes share the work does not change what is repeated
        vals = got.get("--" + o, [str(DEFAULTS[o])])
        case.check(agree(vals[-1], str(v)), f"recorded command: {o}", text)
    case.check(all(v[-1].replace(".", "").replace("-", "").replace("e", "").isdigit() for v in got.values()), "recorded command cannot be parsed", text)
    case.hit("recorded command")
    case.hit("runs of the program")
    case.hit("two classes" if nc == 2 else "three classes")
    case.hit("clean training" if not a["train_with_errors"] and e else "noisy training" if e else "no errors at all")
    case.hit("several runs", a["n_runs"] > 1)
    case.hit("several processes", a["n_jobs"] > 1)
    case.interesting(wrong)


WORKLOADS = [("study", study, 64, 1500)]
