"""C38 the field classification study counts what the field model finds"""
import glob
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
import numpy as np
from scipy.io import loadmat
from vt import core, mav, fieldref, rectref
from vt.core import HarnessError
from checks.c10 import gentle
from checks.c34 import table
from checks.c35 import parse, agree, encoder
from inference import BufferModel

RULE = ("scripts/classifier_analysis.py run whole in a scratch tree on synthetic recordings (4-12 buffers of the five messages with slowly changing values) and a field model of 1-30 other buffers, one to "
        "three data types, noise levels, thresholds, repeated data, one or several processes, some options left out; everything saved is recomputed from the recordings, the saved error positions and exact "
        "field statistics. Non-trivial: some field is damaged")
SCALE = 1
REQUIRED = ["runs", "buffers", "one type", "two types", "three types", "damaged fields", "good fields", "bad fields", "bits of good fields", "bits of bad fields", "forced bits", "forced fields", "flipped bits",
            "tables", "summary", "recorded command", "defaults", "several noise levels", "repeated data", "no errors", "threshold zero", "wrongly forced"]
ST = {0: 33, 52: 234, 72: 30, 108: 212, 135: 218}
CUTS = {1: [(0, 1224)], 2: [(0, 576), (576, 1224)], 3: [(0, 416), (416, 864), (864, 1224)]}
SIZE = {1: 1944, 2: 1296, 3: 648}
SCRIPT = os.path.join(core.REPO, "scripts/classifier_analysis.py")
DEFAULTS = dict(minflip=33e-3, maxflip=70e-3, nflips=20, multiply_data=0, processes=0, msg_delay="20000", threshold=0, window_len=50, learn=0, conf_center=40, conf_slope=0.35, n_clusters=1)


def start(case, opts, where):
    env = dict(os.environ, PYTHONPATH=core.REPO, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
    cmd = [sys.executable, "-W", "ignore", SCRIPT] + [str(x) for o in opts.items() for x in o]
    try:
        r = subprocess.run(cmd, cwd=where, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400, text=True)
    except subprocess.TimeoutExpired:
        raise HarnessError("the field classification study took more than 400 s")
    case.check(r.returncode == 0, "the field classification study failed", r.stdout.strip().splitlines()[-3:])


def rows(x, n):
    """the n lists of integers of a saved column, whichever way matlab files fold them"""
    if np.size(x) == 0 if isinstance(x, np.ndarray) else len(x) == 0:
        return [[] for _ in range(n)]
    if len(x) != n:
        raise ValueError(f"a column of {len(x)} for {n} buffers")
    return [np.atleast_1d(r).astype(int).ravel().tolist() for r in x]


def study(case):
    rnd, rng = case.rnd, case.rng
    a = dict(minflip=rnd.choice([0, 0.001, 0.005, 0.02]), maxflip=rnd.choice([0.005, 0.03, 0.07]), nflips=rnd.randint(1, 3), multiply_data=rnd.choice([0, 0, 0, 1, 2]), processes=rnd.choice([1, 2, 3]),
             msg_delay=rnd.choice(["20000", "50000", "x"]), threshold=rnd.choice([0, 0.01, 0.1, 0.3, 0.5]), window_len=rnd.choice([0, 3, 50]), learn=0, n_clusters=rnd.choice([1, 2, 3]))
    omitted = rnd.sample(["msg_delay", "threshold", "window_len", "learn", "n_clusters", "multiply_data", "minflip", "maxflip"], rnd.randint(1, 3)) if rnd.random() < 0.4 else []
    for o in omitted:
        a[o] = DEFAULTS[o]
        case.hit("defaults")
    if a["minflip"] == 0 and a["nflips"] > 1 and a["maxflip"] * 648 < 1:
        a["maxflip"] = 0.03
    base = {}
    make = lambda: mav.fill_structure(rnd, ST, 153, rnd.choice([0, 7, 250]) if rnd.random() < 0.2 else 7, 1, 0, lambda mid: gentle(rnd, mid, base))
    sent = [make() for _ in range(rnd.randint(4, 12))]
    ref, model = fieldref.RefModel(None), BufferModel()
    for _ in range(rnd.choice([1, 2, 5, rnd.randint(3, 30)])):
        b = make()
        model.add_buffer(b, dict(ST))
        ref.add(b, ST)
    where = tempfile.mkdtemp(prefix="field_", dir=os.environ.get("VT_SCRATCH"))
    try:
        data, cwd = os.path.join(where, "runs/HC_eilat_July_2018/data"), os.path.join(where, "scripts")
        os.makedirs(data)
        os.makedirs(os.path.join(cwd, "results"))
        with open(os.path.join(data, "hc_to_ship.pickle"), "wb") as f:
            other = [{"bin": make()} for _ in range(3)]
            pickle.dump({d: [{"bin": b} for b in sent] if d == a["msg_delay"] else other for d in ("20000", "50000", "x")}, f)
        model.save(os.path.join(data, "model_2018_all.json"))
        opts = {"--" + o: v for o, v in a.items() if o not in omitted}
        case.note(opts, len(sent), ref.count)
        start(case, opts, cwd)
        dirs = [d for d in glob.glob(os.path.join(cwd, "results", "*")) if os.path.isdir(d)]
        case.equal(len(dirs), 1, "result directories of one run")
        mats = [loadmat(p, simplify_cells=True) for p in glob.glob(os.path.join(dirs[0], "*.mat"))]
        case.equal(len(mats), 2, "results of one run")
        with open(os.path.join(dirs[0], "cmd.txt")) as f:
            text = f.read()
    finally:
        shutil.rmtree(where)
    full = next(m for m in mats if "results" in m)
    summary = next(m for m in mats if "results" not in m)
    steps = full["results"] if not isinstance(full["results"], dict) else [full["results"]]
    points = np.linspace(a["minflip"], a["maxflip"], a["nflips"])
    case.equal(len(steps), len(points), "noise levels")
    case.close(np.atleast_1d(summary["bit_flip_p"]), points, "noise levels of the summary")
    info = [mav.bits_of(b)[lo:hi].astype(int) for b in sent for lo, hi in CUTS[a["n_clusters"]]] * 2 ** a["multiply_data"]
    damaged = False
    for i, p in enumerate(points):
        totals, some = judge_step(case, a, steps[i], p, info, ref)
        damaged |= some
        for name, tot in totals.items():
            got = np.asarray(summary[name], dtype=float)
            got = got[i] if got.ndim == 2 else got
            case.close(got, tot, f"summary of {name}")
        case.hit("summary")
    got = parse(text)
    for o, v in a.items():
        vals = got.get("--" + o, [str(DEFAULTS[o])])
        case.check(agree(vals[-1], str(v)), f"recorded command: {o}", text)
    case.hit("recorded command")
    case.hit("runs")
    case.hit({1: "one type", 2: "two types", 3: "three types"}[a["n_clusters"]])
    case.hit("several noise levels", len(points) > 1)
    case.hit("repeated data", a["multiply_data"] > 0)
    case.hit("threshold zero", a["threshold"] == 0)
    case.interesting(damaged)


def structure_of(part):
    return mav.segment(np.packbits(part.astype(np.uint8)).tobytes())[1]


def judge_step(case, a, step, p, info, ref):
    get = lambda k, d=step: d[k]
    enc, h = encoder(a["n_clusters"])
    size, n, nc, thr = SIZE[a["n_clusters"]], len(info), a["n_clusters"], a["threshold"]
    e = int(size * p)
    case.equal((float(get("p")), int(get("number_of_buffers")), int(get("no_errors")), int(get("buffer_len")), int(get("n_clusters")), int(get("model_length"))),
               (float(p), n, e, size, nc, enc.k), "settings of a noise level")
    case.close(float(get("raw_ber")), e / size, "raw error rate")
    data, cls, frc = get("data"), get("classifier"), get("forcing")
    words, recv = np.asarray(get("encoded", data)).astype(int), np.asarray(get("corrupted", data)).astype(int)
    case.equal((words.shape, recv.shape), ((n, size), (n, size)), "words saved")
    err = rows(get("error_idx", data), n) if e else [[] for _ in range(n)]
    also = rows(get("errors"), n) if e else err
    lists = {k: rows(get(k, cls), n) for k in ("good_fields", "bad_fields", "damaged_fields")}
    lists.update({k: rows(get(k, frc), n) for k in ("forced_fields", "forced_bits", "correctly_forced_bits", "incorrectly_forced_bits", "missed_forced_bits", "correctly_forced_fields",
                                                    "incorrectly_forced_fields", "missed_forced_fields")})
    gb, bb = np.asarray(get("good_bits", cls)).astype(bool), np.asarray(get("bad_bits", cls)).astype(bool)
    labels = np.asarray(get("cluster_label", cls)).astype(int)
    tabs = {k: np.asarray(get(k)) for k in ("good_fields_performance", "bad_fields_performance", "forced_fields_performance", "forced_bits_performance", "forcing_quality", "flipped_bits_performance")}
    some = False
    sts = [structure_of(info[i]) for i in range(nc)]
    for i in range(n):
        what = f"buffer {i}: "
        w, r, st = words[i], recv[i], sts[i % nc]
        case.array_equal(w[:len(info[i])], info[i], what + "the codeword does not carry the recorded telemetry")
        case.check(not (h @ w % 2).any(), what + "not a codeword")
        case.equal(np.flatnonzero(w != r).tolist(), sorted(err[i]), what + "the received word differs from the codeword elsewhere than in the error positions")
        case.equal((len(err[i]), sorted(also[i])), (e, sorted(err[i])), what + "error positions")
        case.equal((int(np.atleast_1d(get("info_errors", data))[i]), int(np.atleast_1d(get("parity_errors", data))[i])),
                   (sum(x < enc.k for x in err[i]), sum(x >= enc.k for x in err[i])), what + "errors by part")
        case.equal(int(labels[i]), i % nc, what + "cluster label")
        lay = mav.layout(st)
        bad_truth = sorted({k for k, (_, _, b, ln) in enumerate(lay) if any(8 * b <= x < 8 * (b + ln) for x in err[i])})
        case.equal(sorted(lists["damaged_fields"][i]), bad_truth, what + "damaged fields")
        case.hit("damaged fields", len(bad_truth))
        some |= bool(bad_truth)
        j = rectref.Judgement(ref, st, r)
        for key, above, mask in (("good_fields", True, gb[i]), ("bad_fields", False, bb[i])):
            t = 1 - thr if above else thr
            sure, unsure = j.field_idx(t, above)
            case.equal([x for x in lists[key][i] if x not in unsure], [x for x in sure if x not in unsure], what + key)
            case.hit(key.replace("_", " "), len(sure))
            want, un = j.above(t) if above else j.below(t)
            case.array_equal(mask[~un], want[~un], what + "bits of " + key)
            case.hit("bits of " + key.replace("_", " "), int(want.sum()))
        f = lists["forced_bits"][i]
        forced = j.is_const & (j.p <= 0)
        case.equal([x for x in f if not j.unsure[x]], np.flatnonzero(forced & ~j.unsure).tolist(), what + "forced bits")
        ff = lists["forced_fields"][i]
        undecided = {k for k, (_, _, rel) in enumerate(j.fields) if not rel or j.unsure[8 * lay[k][2]]}
        case.equal([x for x in ff if x not in undecided], [k for k, (pp, s, _) in enumerate(j.fields) if pp <= 0 and s == 0 and k not in undecided], what + "forced fields")
        case.hit("forced bits", len(f))
        case.hit("forced fields", len(ff))
        er, fs = set(err[i]), set(f)
        case.equal((lists["correctly_forced_bits"][i], lists["incorrectly_forced_bits"][i], lists["missed_forced_bits"][i]), (sorted(fs & er), sorted(fs - er), sorted(er - fs)), what + "forced bits against the errors")
        bt, fset = set(bad_truth), set(ff)
        case.equal((lists["correctly_forced_fields"][i], lists["incorrectly_forced_fields"][i], lists["missed_forced_fields"][i]), (sorted(fset & bt), sorted(fset - bt), sorted(bt - fset)),
                   what + "forced fields against the damaged ones")
        case.hit("wrongly forced", len(fs - er))
        nf = len(lay)
        good_truth = [k for k in range(nf) if k not in bt]
        case.equal(tabs["good_fields_performance"][i].astype(int).tolist(), table(lists["good_fields"][i], good_truth, nf), what + "table of good fields")
        case.equal(tabs["bad_fields_performance"][i].astype(int).tolist(), table(lists["bad_fields"][i], bad_truth, nf), what + "table of bad fields")
        case.equal(tabs["forced_fields_performance"][i].astype(int).tolist(), table(ff, bad_truth, nf), what + "table of forced fields")
        case.equal(tabs["forced_bits_performance"][i].astype(int).tolist(), table(f, err[i], size), what + "table of forced bits")
        case.hit("tables")
        flips, q = tabs["flipped_bits_performance"][i].astype(int).tolist(), tabs["forcing_quality"][i].astype(float).tolist()
        fa = np.array(f, dtype=int)
        if not j.unsure[fa].any():
            v = j.const[fa]
            want = table(fa[v != r[fa]], err[i], size)
            case.equal(flips, want, what + "table of flipped bits")
            case.close(q, [e, len(f), want[0] + want[1], want[0], want[1], float(np.mean(v != w[fa])) if len(f) else 0.0], what + "forcing summary")
            case.hit("flipped bits", want[0] + want[1])
        else:
            case.check(flips[4:] == [e, size - e] and flips[0] + flips[3] == e and flips[1] + flips[2] == size - e, what + "flipped bits do not add up", flips)
            case.equal(q[:5], [float(e), float(len(f)), float(flips[0] + flips[1]), float(flips[0]), float(flips[1])], what + "forcing summary")
        case.hit("buffers")
    case.hit("no errors", e == 0)
    totals = {k: v.astype(float).sum(axis=0) for k, v in tabs.items()}
    totals["forcing_quality"][-1] /= n
    return totals, some


WORKLOADS = [("study", study, 64, 1200)]
