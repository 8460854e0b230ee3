"""C36 experiment runs report how the recorded receptions were decoded"""
import glob
import os
import shutil
import subprocess
import sys
import tempfile
import numpy as np
import scipy.sparse as sp
from scipy.io import loadmat
from ldpc.utils import AList
from ldpc.decoder import LogSpaDecoder
from vt import core, mav
from vt.core import HarnessError
from checks.c10 import gentle
from checks.c35 import load_any, bits, agree, parse, compare_row, judge_tables
from decoders import ClassifyingEntropyDecoder, MavlinkRectifyingDecoder, CombinedUnifiedDecoder
from inference import BufferModel

RULE = ("programs of runs/Feb_2022 and runs/Feb_2023 run in a scratch directory on synthetic recordings (3-9 telemetry or image buffers in one or two files, some of which were not identified, "
        "binary symmetric or Gaussian channel, a code in the alist format of its own), with random settings and options left out; everything they save is recomputed from the recordings, and the "
        "receptions are decoded again by fresh decoders with the requested settings. Trained models predict like a model given the same buffers. Non-trivial: some reception has errors")
SCALE = 1
REQUIRED = ["simulation 2022", "runs", "receptions", "identified", "not identified", "errors counted", "hamming", "rates", "decoded again", "columns compared", "matlab results", "summary text", "recorded command", "two days",
            "learned model", "supplied model", "defaults", "day left out", "defaults of the simulation", "separate models", "images run", "images unified", "images mavlink", "run 2022", "run 2023", "unified 2022", "unified 2023", "mavlink 2022", "mavlink 2023", "images",
            "models trained", "buffers left out of training", "predictions compared", "flipping", "recovered", "not recovered"]
ASSUMPTIONS = ["the ldpc package decodes deterministically"]

IDS = [i for i, v in mav.HC.items() if v["name"] in ("CHAMBER_STATUS", "GLOBAL_POSITION_INT", "PINGER_DATA", "SCALED_SVS")]
ALIST = "4098_3095_non_sys_h.alist"
DAYS = {2022: ("14", "16"), 2023: ("17", "18")}
SCRIPTS = {("run", 2022): "experimental_data_run.py", ("run", 2023): "experimental_data_run_feb_23.py", ("unified", 2022): "experimental_data_unified_decoder.py",
           ("unified", 2023): "experimental_data_unified_decoder.py", ("mavlink", 2022): "experimental_mavlink_based.py", ("mavlink", 2023): "experimental_mavlink_based.py",
           ("train", 2022): "train_buffer_model.py", ("train", 2023): "train_buffer_model.py"}
OPTIONS = {"run": ["ent_threshold", "window_len", "clipping_factor", "conf_center", "conf_slope", "dec_type", "model_length", "raw_ber"],
           "unified": ["dec_type", "valid_factor", "invalid_factor", "valid_threshold", "invalid_threshold", "window_len", "learn", "conf_center", "conf_slope", "ent_threshold",
                       "clipping_factor", "flip", "raw_ber"],
           "mavlink": ["segiterations", "dec_type", "valid_factor", "invalid_factor", "valid_threshold", "invalid_threshold", "window_len", "learn", "conf_center", "conf_slope"]}
DEFAULTS = {"ent_threshold": 0.36, "window_len": 50, "clipping_factor": 2, "conf_center": 40, "conf_slope": 0.35, "dec_type": "BP", "model_length": "all", "raw_ber": 0, "valid_factor": 2.0,
            "invalid_factor": 0.7, "valid_threshold": 0.03, "invalid_threshold": 0.08, "learn": 0, "flip": 0, "segiterations": 1}
SECOND = {"run": ("decoded_entropy", "entropy_buffer_success_rate", "entropy_decoder_ber", "entropy"), "unified": ("decoded_nr", "nr_buffer_success_rate", "nr_decoder_ber", "nr"),
          "mavlink": ("decoded_rect", "mavlink_buffer_success_rate", "rectify_decoder_ber", "mavlink")}


class Repeat:
    """systematic repeat-accumulate code: k information bits, then m accumulated checks"""

    def __init__(self, rng, k, m, weight=3):
        self.k, self.m, self.n = k, m, k + m
        h = sp.lil_matrix((m, k + m), dtype=np.int_)
        for c, rs in enumerate(rng.integers(0, m, size=(k, weight))):
            for r in set(rs.tolist()):
                h[r, c] = 1
        h[0, 0] = 1  # no check of a single bit
        for r in range(m):
            h[r, k + r] = 1
            if r:
                h[r, k + r - 1] = 1
        self.h = h

    def encode(self, info):
        s = np.asarray(self.h[:, :self.k] @ info).ravel() % 2
        return np.concatenate((info, np.cumsum(s) % 2)).astype(np.uint8)

    def save(self, path):
        cols = [sorted(set(c)) for c in self.h.T.tolil().rows]
        rows = [sorted(r) for r in self.h.rows]
        AList(self.n, self.m, max(map(len, cols)), max(map(len, rows)), [len(c) for c in cols], [len(r) for r in rows], cols, rows).to_file(path)


class Telemetry:
    """buffers of telemetry with slowly changing values, in one structure"""

    def __init__(self, rnd, size):
        self.rnd, self.size, self.base = rnd, size, {}
        ids = list(IDS)
        rnd.shuffle(ids)
        self.structure, at = {}, 0
        for i in ids[:rnd.randint(2, 4)]:
            need = mav.HC[i]["length"] + mav.OVERHEAD
            if at + need > size:
                continue
            self.structure[at] = i
            at += need
        self.tail = bytes(rnd.randrange(256) for _ in range(size - at))
        self.used = at

    def buffer(self):
        b = mav.fill_structure(self.rnd, self.structure, self.used, self.rnd.choice([0, 7]), 1, 0, lambda mid: gentle(self.rnd, mid, self.base))
        return b + self.tail

    def info(self):
        return mav.bits_of(self.buffer()).astype(np.int64)


def start(case, script, opts, where):
    env = dict(os.environ, PYTHONPATH=core.REPO, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
    cmd = [sys.executable, os.path.join(core.VERIF, "vt", "sim_launch.py"), core.REPO, script, os.path.join(where, "events")] + [str(x) for o in opts.items() for x in o]
    try:
        r = subprocess.run(cmd, cwd=where, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=500, text=True)
    except subprocess.TimeoutExpired:
        raise HarnessError(f"{script} took more than 500 s")
    case.check(r.returncode == 0, f"{os.path.relpath(script, core.REPO)} failed", r.stdout.strip().splitlines()[-3:])


def receive(case, word):
    """log likelihood ratios of a received word"""
    if case.rnd.random() < 0.5:
        p = case.rnd.choice([0.003, 0.02, 0.05, 0.08])
        hard = word ^ (case.rng.random(word.size) < p)
        return (1.0 - 2 * hard) * np.log((1 - p) / p)
    s = case.rnd.choice([0.5, 0.6, 0.7, 0.8])
    return 2 / s ** 2 * (1 - 2.0 * word + s * case.rng.standard_normal(word.size))


def record(case, where, year, source, code, n_rows, kind, first_good=True, odd=0.0):
    """write the recordings of both days; returns them by day"""
    os.makedirs(os.path.join(where, "data"))
    res = {}
    for day, n in zip(DAYS[year], (n_rows, case.rnd.randint(2, 3))):
        tx, rx = [], []
        for i in range(n):
            word = code.encode(source())
            if case.rnd.random() < odd and i:
                word = code.encode(case.rng.integers(0, 2, code.k))
            rx.append(receive(case, word))
            lost = case.rnd.random() < 0.25 and (i or day != DAYS[year][0])
            if i == 0 and first_good:
                lost = False
            tx.append(np.full(code.n, 2, dtype=np.uint8) if lost else word)
        tail = "" if year == 2022 else "_" + kind
        np.savetxt(os.path.join(where, "data", f"feb_{day}_tx{tail}.csv"), tx, fmt="%d", delimiter=",")
        np.savetxt(os.path.join(where, "data", f"feb_{day}_llr{tail}.csv"), rx, fmt="%.17g", delimiter=",")
        res[day] = (np.array(tx), np.array(rx))
    return res


def settings(case, prog, year):
    rnd = case.rnd
    a = {"ldpciterations": rnd.randint(1, 8), "ent_threshold": rnd.choice([0.1, 0.36, 0.6, 0.9]), "window_len": rnd.choice([0, 1, 2, 3, 50]), "clipping_factor": rnd.choice([1, 2, 3]),
         "conf_center": rnd.choice([1, 2, 4]), "conf_slope": rnd.choice([0.35, 0.9, 2.0]), "dec_type": rnd.choice(["BP", "MS"]), "model_length": rnd.choice(["info", "all"]),
         "raw_ber": rnd.choice([0, 0.01, 0.05]), "valid_factor": rnd.choice([1.5, 2.0, 3.0]), "invalid_factor": rnd.choice([0.3, 0.7]), "valid_threshold": rnd.choice([0.01, 0.03]),
         "invalid_threshold": rnd.choice([0.08, 0.15]), "learn": rnd.choice([0, 1]), "flip": rnd.choice([0, 1]), "segiterations": rnd.choice([1, 2]),
         "experiment_date": rnd.choice([*DAYS[year], "all"]), "msg_type": 0, "separate_models": 0}
    if year == 2023 and (case.index + ("run", "unified", "mavlink").index(prog)) % 3 == 0:
        a["msg_type"], a["separate_models"] = (1, 2, 1)[case.index // 3 % 3], rnd.choice([0, 1]) if prog == "run" else 0
        a["ldpciterations"] = rnd.randint(1, 2)
    a["omitted"] = [o for o in OPTIONS[prog] if rnd.random() < 0.25] if rnd.random() < 0.6 else []
    defaults = dict(DEFAULTS, **({"window_len": 0} if (prog, year) == ("mavlink", 2023) else {}))
    for o in a["omitted"]:
        a[o] = defaults[o]
    if not a["msg_type"] and rnd.random() < 0.15:
        a["omitted"].append("ldpciterations")
        a["ldpciterations"] = 60 if (prog, year) == ("run", 2023) else 130
    if (prog, year) != ("unified", 2023) and rnd.random() < 0.15:
        a["omitted"].append("experiment_date")
        a["experiment_date"] = {("run", 2023): "17", ("mavlink", 2023): "all"}.get((prog, year), "14")
        case.hit("day left out")
    if not a["msg_type"] and rnd.random() < 0.3:
        a["omitted"].append("msg_type")
    if not a["separate_models"] and rnd.random() < 0.3:
        a["omitted"].append("separate_models")
    for o in a["omitted"]:
        case.hit("defaults")
    return a


def fresh(prog, a, code, model_path, structure):
    def inner():
        return LogSpaDecoder(h=code.h, max_iter=a["ldpciterations"], decoder_type=a["dec_type"], info_idx=np.array([True] * code.k + [False] * code.m))
    window = a["window_len"] or None
    if prog == "run":
        types = {0: 1, 1: 4, 2: 2}[a["msg_type"]] if a["separate_models"] else 1
        d = ClassifyingEntropyDecoder(inner(), model_length=code.k if a["model_length"] == "info" else code.n, entropy_threshold=a["ent_threshold"], clipping_factor=a["clipping_factor"],
                                      classifier_training=0, n_clusters=types, window_length=window, conf_center=a["conf_center"], conf_slope=a["conf_slope"], bit_flip=a["raw_ber"], cluster=0)
        return inner().decode, lambda x, e: d.decode_buffer(x)
    model = None if a["learn"] else BufferModel.load(model_path)
    if prog == "unified":
        d = CombinedUnifiedDecoder(inner(), model_length=code.k, valid_thr=a["valid_threshold"], invalid_thr=a["invalid_threshold"], n_clusters=1, valid_factor=a["valid_factor"],
                                   invalid_factor=a["invalid_factor"], entropy_threshold=a["ent_threshold"], clipping_factor=a["clipping_factor"], classifier_training_size=0, cluster=False,
                                   window_length=window, data_model=model, conf_center=a["conf_center"], conf_slope=a["conf_slope"], bit_flip=a["raw_ber"], flip=bool(a["flip"]))
    else:
        d = MavlinkRectifyingDecoder(inner(), code.k, a["valid_threshold"], a["invalid_threshold"], 1, a["valid_factor"], a["invalid_factor"], 0, False, window, model,
                                     a["conf_center"], a["conf_slope"], segmentation_iterations=a["segiterations"])
    d.set_buffer_structures([structure])
    return inner().decode, d.decode_buffer


def experiment(prog, year):
    home = os.path.join(core.REPO, f"runs/Feb_{year}")
    script = os.path.join(home, SCRIPTS[prog, year])

    def run(case):
        a = settings(case, prog, year)
        k = {0: 984, 1: 2023 * 8, 2: 4048 * 8}[a["msg_type"]]
        code = Repeat(case.rng, k, case.rnd.choice([492, 984]) if k == 984 else case.rnd.choice([2000, 3000]), 3 if k == 984 else 1)
        t = Telemetry(case.rnd, 123)
        if k == 984:
            source = t.info
        else:
            base = case.rng.integers(0, 2, (4, k))
            turn = [0]

            def source():
                turn[0] += 1
                return base[turn[0] % 4] ^ (case.rng.random(k) < 0.01)
        kind = {0: "telemetry", 1: "2023", 2: "4048"}[a["msg_type"]]
        where = tempfile.mkdtemp(prefix="exp_", dir=os.environ.get("VT_SCRATCH"))
        try:
            days = record(case, where, year, source, code, case.rnd.randint(3, 6) if k == 984 else 3, kind)
            os.makedirs(os.path.join(where, "results"))
            os.makedirs(os.path.join(where, "spec"))
            code.save(os.path.join(where, "spec", {0: ALIST, 1: "h2023.alist", 2: "h4048.alist"}[a["msg_type"]]))
            model_path = os.path.join(where, "data", f"model_{year}.json")
            m = BufferModel(window_size=None)
            for _ in range(case.rnd.randint(3, 30)):
                m.add_buffer(t.info(), t.structure)
            m.save(model_path)
            opts = {"--ldpciterations": a["ldpciterations"], "--experiment_date": a["experiment_date"]}
            opts.update({"--" + o: a[o] for o in OPTIONS[prog]})
            if year == 2023:
                opts["--msg_type"] = a["msg_type"]
                if prog == "run":
                    opts["--separate_models"] = a["separate_models"]
            case.note(prog, year, opts, a["omitted"], code.m, len(t.structure))
            start(case, script, {o: v for o, v in opts.items() if o[2:] not in a["omitted"]}, where)
            chosen = DAYS[year] if a["experiment_date"] == "all" else (a["experiment_date"],)
            tx, rx = (np.vstack([days[d][i] for d in chosen]) for i in (0, 1))
            judge(case, prog, a, code, tx, rx, where, model_path, mav.segment(np.packbits(tx[0, :k]).tobytes())[1], opts)
        finally:
            shutil.rmtree(where)
        case.hit("runs")
        case.hit(f"{prog} {year}")
        case.hit("two days", a["experiment_date"] == "all")
        case.hit("images", k != 984)
        case.hit(f"images {prog}", k != 984)
        case.hit("separate models", a["separate_models"])
        if prog != "run":
            case.hit("learned model" if a["learn"] else "supplied model")
            case.hit("flipping", prog == "unified" and a["flip"])
    run.__name__ = f"{prog}_{year}"
    return run


def judge(case, prog, a, code, tx, rx, where, model_path, structure, opts):
    dirs = [d for d in glob.glob(os.path.join(where, "results", "*")) if os.path.isdir(d)]
    case.equal(len(dirs), 1, "result directories of one run")
    files = glob.glob(os.path.join(dirs[0], "*.xz"))
    case.equal(len(files), 1, "results of one run")
    res = load_any(files[0])
    n = len(tx)
    known = tx[:, 0] < 2
    wrong = (tx != (rx < 0)) & known[:, None]
    data = res["data"]
    case.equal((res["number_of_buffers"], res["buffer_len"], res["max_ldpc_iterations"], len(data)), (n, code.n, a["ldpciterations"], n), "reported numbers")
    case.array_equal(np.array([bits(v) for v in data["encoded"]]), tx, "sent words")
    case.array_equal(np.array(list(data["corrupted"])), rx, "received values")
    for i in np.flatnonzero(known):
        case.array_equal(bits(data["error_idx"].iloc[i]), wrong[i].astype(int), f"errors of buffer {i}")
    for what, part in (("info_errors", wrong[:, :code.k]), ("parity_errors", wrong[:, code.k:])):
        case.array_equal(bits(data[what]), np.where(known, part.sum(axis=1), -1), what)
    ber = np.where(known, wrong.mean(axis=1), -1)
    case.close(np.asarray(data["input_ber"], dtype=float), ber, "channel error rates of the buffers")
    case.close(res["input_ber"], ber, "channel error rates")
    case.hit("errors counted", int(known.sum()))
    case.hit("receptions", n)
    case.hit("identified", int(known.sum()))
    case.hit("not identified", int((~known).sum()))
    case.interesting(wrong.any())
    text = open(os.path.join(dirs[0], "summary.txt")).read()
    mats = [loadmat(p, squeeze_me=True) for p in glob.glob(os.path.join(dirs[0], "*.mat"))]
    case.equal(len(mats), 1, "matlab results of one run")
    table2, rate2, ber2, word2 = SECOND[prog]
    plain, second = fresh(prog, a, code, model_path, structure)
    for table, rate, ber_name, word, decode in (("decoded_ldpc", "ldpc_buffer_success_rate", "ldpc_decoder_ber", "pure", plain), (table2, rate2, ber2, word2, second)):
        t = res[table]
        case.equal(len(t), n, f"rows of {table}")
        est = np.array([bits(v) for v in t["estimate"]])
        ok = np.array([bool(v) for v in t["decode_success"]])
        dist = np.where(known, (est != tx).sum(axis=1), -1)
        case.array_equal(bits(t["hamming"]), dist, f"remaining errors in {table}")
        case.hit("hamming", n)
        case.close(res[rate], ok.mean(), rate)
        case.close(res[ber_name], dist[known].sum() / (code.n * known.sum()), ber_name)
        case.hit("rates", 2)
        for i in range(n):
            if table == "decoded_ldpc" or prog == "run":
                want = decode(rx[i]) if table == "decoded_ldpc" else decode(rx[i], None)
            else:
                want = decode(rx[i], np.flatnonzero(wrong[i]) if known[i] or prog == "mavlink" else None)
            compare_row(case, table, i, t, want)
            case.hit("recovered" if ok[i] else "not recovered")
        line = [ln for ln in text.splitlines() if f" {word} " in ln]
        case.equal(len(line), 1, f"summary lines about {word} decoding")
        case.check(line[0].split()[-1] == f"{ok.sum()}/{n}", "successes in the summary", line[0], int(ok.sum()), n)
        m = mats[0]
        case.close(float(m[rate]), ok.mean(), f"matlab {rate}")
        case.close(float(m[ber_name]), res[ber_name], f"matlab {ber_name}")
        case.array_equal(np.ravel(m[table]["hamming"].item()).astype(int), dist, f"matlab remaining errors in {table}")
        case.array_equal(np.ravel(m[table]["estimate"].item()).astype(int), est.ravel(), f"matlab estimates in {table}")
        case.array_equal(np.ravel(m[table]["decode_success"].item()).astype(bool), ok, f"matlab successes in {table}")
    case.hit("summary text")
    case.close(np.ravel(mats[0]["input_ber"]), ber, "matlab channel error rates")
    case.hit("matlab results")
    got = parse(open(os.path.join(dirs[0], "cmd.txt")).read())
    for k, v in opts.items():
        case.check(k in got and all(agree(g, str(v)) for g in got[k]), f"the recorded command does not repeat the run: {k}", got.get(k), v)
    case.hit("recorded command")


def train(year):
    script = os.path.join(core.REPO, f"runs/Feb_{year}", SCRIPTS["train", year])

    def run(case):
        code = Repeat(case.rng, 984, 100)
        t = Telemetry(case.rnd, 123)
        where = tempfile.mkdtemp(prefix="exp_", dir=os.environ.get("VT_SCRATCH"))
        try:
            days = record(case, where, year, t.info, code, case.rnd.randint(3, 12), "telemetry", odd=0.2)
            case.note("train", year, case.index, len(t.structure))
            start(case, script, {}, where)
            got = BufferModel.load(os.path.join(where, "data", f"model_{year}.json"))
        finally:
            shutil.rmtree(where)
        want = BufferModel(window_size=None)
        left = 0
        for day in DAYS[year]:
            for row in days[day][0]:
                if row[0] < 2 and np.packbits(row[:8])[0] == 254:
                    want.add_buffer(row[:984], t.structure)
                else:
                    left += 1
        for _ in range(6):
            x = t.info() ^ (case.rng.random(984) < case.rnd.choice([0, 0.02, 0.1]))
            u, v = got.predict(x, t.structure), want.predict(x, t.structure)
            case.equal([str(f) for f in u[0]], [str(f) for f in v[0]], "fields predicted by the trained model")
            for i in (1, 2):
                case.close(np.asarray(u[i], dtype=float), np.asarray(v[i], dtype=float), "prediction of the trained model")
            case.hit("predictions compared")
        case.interesting()
        case.hit("models trained")
        case.hit("buffers left out of training", left)
    run.__name__ = f"train_{year}"
    return run


def simulation(case):
    """the simulation over a binary symmetric channel with the code of 2022"""
    rnd, n = case.rnd, 4098
    a = {"N": rnd.choice([0, 2, 3]), "multiply_data": rnd.choice([0, 0, 1]), "ldpciterations": rnd.randint(1, 4), "ent_threshold": rnd.choice([0.1, 0.36, 0.9]), "window_len": rnd.choice([0, 2, 50]),
         "clipping_factor": rnd.choice([1, 2, 3]), "conf_center": rnd.choice([1, 2, 4]), "conf_slope": rnd.choice([0.35, 0.9, 2.0]), "dec_type": rnd.choice(["BP", "MS"]),
         "model_length": rnd.choice(["info", "all"]), "processes": rnd.choice([1, 2]), "nflips": rnd.choice([1, 2]), "minflip": round(rnd.uniform(0.01, 0.06), 4),
         "maxflip": round(rnd.uniform(0.06, 0.2), 4)}
    defaults = dict(DEFAULTS, N=0, multiply_data=0, processes=0, minflip=0.02, maxflip=0.4, ldpciterations=60)
    omitted = [o for o in sorted(defaults) if o in a and rnd.random() < 0.2] if rnd.random() < 0.7 else []
    if "ldpciterations" in omitted:
        a["nflips"], a["multiply_data"] = 1, 0
        omitted = [o for o in omitted if o != "N"]
        a["N"] = 2
    for o in omitted:
        a[o] = defaults[o]
        case.hit("defaults of the simulation")
    code = Repeat(case.rng, 984, n - 984)
    t = Telemetry(rnd, 123)
    sent = np.array([code.encode(t.info()) for _ in range(3)])
    where = tempfile.mkdtemp(prefix="exp_", dir=os.environ.get("VT_SCRATCH"))
    try:
        for d in ("data", "results", "spec"):
            os.makedirs(os.path.join(where, d))
        np.savetxt(os.path.join(where, "data", "non_repeated_tx.csv"), sent, fmt="%d", delimiter=",")
        code.save(os.path.join(where, "spec", ALIST))
        case.note("simulation", a, omitted)
        start(case, os.path.join(core.REPO, "runs/Feb_2022/simulation_rafael_code.py"), {"--" + k: v for k, v in a.items() if k not in omitted}, where)
        dirs = [d for d in glob.glob(os.path.join(where, "results", "*")) if os.path.isdir(d)]
        case.equal(len(dirs), 1, "result directories of one run")
        singles = [load_any(p) for p in glob.glob(os.path.join(where, "*.pickle"))]
        steps = load_any(glob.glob(os.path.join(dirs[0], "*.xz"))[0])
        summary = load_any(glob.glob(os.path.join(dirs[0], "*.pickle"))[0])
        mats = [m for m in (loadmat(p, squeeze_me=True) for p in glob.glob(os.path.join(dirs[0], "*.mat"))) if "results" not in m]
        tables = [m["results"] for m in map(loadmat, glob.glob(os.path.join(dirs[0], "*.mat"))) if "results" in m]
        text = open(os.path.join(dirs[0], "cmd.txt")).read()
    finally:
        shutil.rmtree(where)
    words = np.tile(sent[:a["N"] or 3], (2 ** a["multiply_data"], 1))
    levels = np.linspace(a["minflip"], a["maxflip"], num=a["nflips"])
    case.equal((len(steps), len(singles)), (len(levels), len(levels)), "noise levels saved")
    for p, step in zip(levels, steps):
        data = step["data"]
        case.equal((len(data), step["number_of_buffers"], step["buffer_len"], step["max_ldpc_iterations"]), (len(words), len(words), n, a["ldpciterations"]), "reported numbers")
        case.array_equal(np.array([bits(v) for v in data["encoded"]]), words, "sent words")
        rx = np.array([bits(v) for v in data["corrupted"]])
        wrong = rx != words
        for i, e in enumerate(data["error_idx"]):
            case.equal(sorted(bits(e).tolist()), np.flatnonzero(wrong[i]).tolist(), f"recorded errors of buffer {i}")
            case.equal(len(e), int(n * p), f"number of errors of buffer {i}")
        case.check(len({w.tobytes() for w in wrong}) == len(words), "buffers have the very same errors")
        case.array_equal(bits(data["info_errors"]), wrong[:, :984].sum(axis=1), "errors in the information part")
        case.array_equal(bits(data["parity_errors"]), wrong[:, 984:].sum(axis=1), "errors in the parity part")
        case.close(step["raw_ber"], wrong.mean(), "reported channel error rate")
        case.interesting()
        plain, second = fresh("run", dict(a, raw_ber=p, msg_type=0, separate_models=0), code, None, None)
        for name, decode in (("ldpc", plain), ("entropy", lambda x: second(x, None))):
            t = step[f"decoded_{name}"]
            est = np.array([bits(v) for v in t["estimate"]])
            dist = (est != words).sum(axis=1)
            case.array_equal(bits(t["hamming"]), dist, f"remaining errors ({name})")
            case.close(step[f"{name}_buffer_success_rate"], (dist == 0).mean(), f"success rate ({name})")
            case.close(step[f"{name}_decoder_ber"], dist.sum() / words.size, f"bit error rate ({name})")
            for i, r in enumerate(rx):
                want = decode((1 - 2.0 * r) * np.log((1 - p) / p))
                compare_row(case, name, i, t, want)
        same = [s for s in singles if s["raw_ber"] == step["raw_ber"] and s["ldpc_decoder_ber"] == step["ldpc_decoder_ber"] and s["entropy_decoder_ber"] == step["entropy_decoder_ber"]]
        case.check(same and np.array_equal(np.array([bits(v) for v in same[0]["data"]["corrupted"]]), rx), "a step saved alone differs from the step of the whole")
    for source in [summary] + mats:
        for key, name in (("raw_ber", "raw_ber"), ("ldpc_decoder_ber", "ldpc_ber"), ("entropy_decoder_ber", "entropy_ber"), ("ldpc_buffer_success_rate",) * 2, ("entropy_buffer_success_rate",) * 2):
            case.close(np.ravel(source[name]), [s[key] for s in steps], f"summary {name}")
    case.check(mats, "no summary was saved for matlab")
    case.equal(len(tables), 1, "results saved for matlab")
    judge_tables(case, steps, tables[0], ["decoded_ldpc", "decoded_entropy"])
    got = parse(text)
    for k, v in a.items():
        if k in ("N", "processes") and not v:
            case.check(all(agree(g, "0") for g in got.get("--" + k, [])), f"the recorded command does not repeat the run: --{k}", got.get("--" + k), 0)
            continue
        case.check("--" + k in got and all(agree(g, str(v)) for g in got["--" + k]), f"the recorded command does not repeat the run: --{k}", got.get("--" + k), v)
    case.hit("simulation 2022")


WORKLOADS = [("simulation", simulation, 6, 50)] + [(f"{p}_{y}", experiment(p, y), q, t) for p, q, t in (("run", 8, 80), ("unified", 8, 80), ("mavlink", 8, 80)) for y in (2022, 2023)] + \
            [(f"train_{y}", train(y), 6, 60) for y in (2022, 2023)]
