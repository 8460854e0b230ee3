"""C39 recordings and bit models are made faithfully from the telemetry logs"""
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
from datetime import datetime, timedelta
import numpy as np
from scipy.io import loadmat, savemat
from vt import core, mav
from vt.core import HarnessError
from checks.c10 import gentle
from checks.c35 import encoder
from inference import BufferModel

RULE = ("data/msg_creator.py run whole in a scratch directory on synthetic logs (16522 or more positions at even, uneven and repeated times, the other sensors at any rate and phase, values of the whole range of their "
        "types, missions of one buffer to a few hundred), every saved message and buffer rebuilt from the log; scripts/train_estimator.py run whole on recordings of 1-400 buffers for one to three data types, "
        "the frequencies of telemetry bits recounted, the coded ones summed modulo two. Non-trivial: the log holds more than one buffer")
SCALE = 1
REQUIRED = ["runs of the recorder", "messages rebuilt", "sample exactly at the time", "sample after the time", "repeated time", "sensor starts late", "sequence wrapped", "single buffer", "matrices",
            "runs of the training", "frequencies recounted", "padding", "one type", "two types", "three types", "sum is a codeword", "default type",
            "field models trained", "predictions compared", "runs of the log reader", "acquisitions", "nothing received", "empty log"]
ST = {0: 33, 52: 234, 72: 30, 108: 212, 135: 218}
MISSION = 16521
DELAYS = [20000, 50000, 100000, 200000, 300000]
NAMES = {20000: "two_sec", 50000: "five_sec", 100000: "ten_sec", 200000: "twenty_sec", 300000: "thirty_sec"}
LOG = {"global_position_int": ("position", 33, ["time_boot_ms", "lat", "lon", "alt", "relative_alt", "bottom_clearnce", "depth", "vx", "vy", "vz", "hdg"]),
       "pinger_data": ("pinger_data", 234, ["time_boot_ms", "range", "azimuth"]),
       "attitude": ("attitude", 30, ["time_boot_ms", "roll", "pitch", "yaw", "rollspeed", "pitchspeed", "yawspeed"]),
       "svs_status": ("svs", 212, ["time_boot_ms", "Speed_of_Sound", "Depth", "Reserved", "Temperature", "Status"]),
       "chamber_status": ("chamber_status", 218, ["time_boot_ms", "temperature", "humidity", "chamber_num", "pressure"])}
NP = {"uint32_t": np.uint32, "int32_t": np.int32, "float": np.float32, "uint16_t": np.uint16, "uint8_t": np.uint8}
CUTS = {1: [(0, 1224)], 2: [(0, 576), (576, 1224)], 3: [(0, 416), (416, 864), (864, 1224)]}
SIZE = {1: 1944, 2: 1296, 3: 648}


def start(case, script, opts, cwd):
    env = dict(os.environ, PYTHONPATH=core.REPO, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
    cmd = [sys.executable, "-W", "ignore", os.path.join(core.REPO, script)] + [str(o) for o in opts]
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300, text=True)
    except subprocess.TimeoutExpired:
        raise HarnessError(f"{script} took more than 300 s")
    case.check(r.returncode == 0, f"{script} failed", r.stdout.strip().splitlines()[-3:])


def times(rnd, rng, first, last, n):
    """n ordered sample times, the first at `first`, the last at `last`"""
    kind = rnd.choice(["even", "uneven", "grid", "repeated"])
    first = min(first, last)
    if n == 1:
        return np.array([last], dtype=np.int64)
    t = np.linspace(first, last, n) if kind == "even" else np.concatenate([[first], np.sort(rng.uniform(first, last, n - 2)), [last]])
    t = np.round(t).astype(np.int64)
    if kind == "grid":    # exactly on the times of the buffers
        step = rnd.choice([5000, 10000, 20000])
        t[1:-1] = first + (t[1:-1] - first) // step * step
    elif kind == "repeated" and n > 3:
        at = rng.integers(1, n - 1, n // 3)
        t[at] = t[at - 1]
        t.sort()
    return t


def columns(rnd, rng, mid, n):
    """name -> values of every field but the time"""
    res = {}
    for name, t, _ in mav.HC[mid]["wire"][1:]:
        dt = NP[t]
        if t == "float":
            v = (rng.normal(0, 1, n) * 10.0 ** rng.integers(-3, 5, n)).astype(dt)
        else:
            info = np.iinfo(dt)
            v = rng.integers(info.min, int(info.max) + 1, n).astype(dt)
            v[rng.random(n) < 0.05] = rnd.choice([info.min, info.max])
        res[name] = v
    return res


def recording(case):
    rnd, rng = case.rnd, case.rng
    span = rnd.choice([1, 20000, 20001, 300001, rnd.randint(20000, 900000), rnd.randint(900000, 3000000), 300000 * rnd.randint(1, 4)])
    t0 = rnd.choice([0, 1, 366644505, 2 ** 32 - 1 - 4000000, rnd.randint(0, 2 ** 31)])
    tail = rnd.choice([0, 1, 50])
    log = {}
    for key, (_, mid, names) in LOG.items():
        if key == "global_position_int":
            t = times(rnd, rng, t0, t0 + span, MISSION + 1)
            t = np.concatenate([t, t[-1] + np.sort(rng.integers(0, 50000, tail))]).astype(np.int64)
        else:
            first = max(0, t0 + rnd.choice([-50000, -1, 0, 7, 30000, rnd.randint(0, span)]))
            n = rnd.choice([1, 2, 30, 400, 3000])
            t = times(rnd, rng, first, t0 + span + rnd.choice([0, 1, 9000]), n)
            case.hit("sensor starts late", t[0] > t0)
        log[key] = dict(columns(rnd, rng, mid, len(t)), time_boot_ms=t)
    dtype = rnd.choice([np.uint32, np.int64, np.uint64])
    cells = {}
    for key, (_, _, names) in LOG.items():
        s = {"f%d_%s" % (i, name): (log[key][name].astype(dtype) if i == 0 else log[key][name]).reshape((-1, 1) if rnd.random() < 0.5 else (1, -1)) for i, name in enumerate(names)}
        size = 2 if key in ("global_position_int", "attitude") else 1
        cell = np.empty((1, size + rnd.choice([0, 0, 1])), dtype=object)
        for i in range(cell.shape[1]):
            cell[0, i] = s if i == size - 1 else {k: v[:0] if rnd.random() < 0.5 else v.ravel()[::-1][:5].copy() for k, v in s.items()}
        cells[key] = cell
    case.note(span, t0, {k: len(v["time_boot_ms"]) for k, v in log.items()})
    where = tempfile.mkdtemp(prefix="rec_", dir=os.environ.get("VT_SCRATCH"))
    try:
        savemat(os.path.join(where, "20_08_2018_13_12_11.mat"), cells)
        start(case, "runs/HC_eilat_July_2018/data/msg_creator.py", [], where)
        with open(os.path.join(where, "hc_to_ship.pickle"), "rb") as f:
            got = pickle.load(f)
        mat = loadmat(os.path.join(where, "binary_buffers.mat"))
    finally:
        shutil.rmtree(where)
    case.hit("runs of the recorder")
    case.equal(sorted(got), sorted(map(str, DELAYS)), "delays recorded")
    seq = 0
    end = int(log["global_position_int"]["time_boot_ms"][MISSION])
    for delay in DELAYS:
        want = list(range(t0, end, delay))
        mine = got[str(delay)]
        case.equal([int(d["timestamp"]) for d in mine], want, f"times of the buffers every {delay}")
        case.hit("single buffer", len(want) == 1)
        for t, d in zip(want, mine):
            frames = b""
            for key, (name, mid, names) in LOG.items():
                at = int(np.searchsorted(log[key]["time_boot_ms"], t, side="left"))
                case.hit("sample exactly at the time" if log[key]["time_boot_ms"][at] == t else "sample after the time")
                case.hit("repeated time", at + 1 < len(log[key]["time_boot_ms"]) and log[key]["time_boot_ms"][at] == log[key]["time_boot_ms"][at + 1])
                values = {n: log[key][n][at].item() for n in names}
                for n, v in values.items():
                    case.check(float(getattr(d[name], n)) == float(v), f"{n} of the {name} message", t, getattr(d[name], n), v)
                frames += mav.frame(mid, mav.pack_values(mid, values), seq % 256, 1, 1)
                seq += 1
                case.hit("messages rebuilt")
            case.check(bytes(d["bin"]) == frames, "bytes of the buffer", delay, t, bytes(d["bin"]).hex(), frames.hex())
        case.hit("sequence wrapped", seq > 256)
        table = mat[NAMES[delay] + "_delay_binary"]
        case.check(np.array_equal(np.asarray(table).reshape(len(want), -1), np.array([list(d["bin"]) for d in mine])), "matrix of the buffers", delay)
        case.hit("matrices")
    case.nontrivial = len(got["20000"]) > 1


def training(case):
    rnd, rng = case.rnd, case.rng
    nc = rnd.choice([1, 2, 3])
    n = rnd.choice([1, 2, rnd.randint(3, 20), rnd.randint(20, 60), rnd.randint(260, 400)])    # also more than a byte can count
    base = rng.integers(0, 256, 153)
    sent = [bytes(np.where(rng.random(153) < 0.3, rng.integers(0, 256, 153), base).astype(np.uint8).tolist()) for _ in range(n)]
    other = [bytes(rng.integers(0, 256, 153).astype(np.uint8).tolist()) for _ in range(3)]
    where = tempfile.mkdtemp(prefix="train_", dir=os.environ.get("VT_SCRATCH"))
    name = f"encoded_data_data_model_{nc}_clusters.json"
    try:
        data, cwd = os.path.join(where, "runs/HC_eilat_July_2018/data"), os.path.join(where, "scripts")
        os.makedirs(data)
        os.makedirs(cwd)
        with open(os.path.join(data, "hc_to_ship.pickle"), "wb") as f:
            pickle.dump({"50000": [{"bin": b} for b in other], "20000": [{"bin": b} for b in sent]}, f)
        default = nc == 1 and rnd.random() < 0.5
        case.note(nc, n, default)
        case.hit("default type", default)
        start(case, "scripts/train_estimator.py", [] if default else ["--n_clusters", nc], cwd)
        case.check(os.path.exists(os.path.join(data, name)), "no model saved", os.listdir(data))
        with open(os.path.join(data, name)) as f:
            model = np.array(json.load(f), dtype=float)
    finally:
        shutil.rmtree(where)
    case.hit("runs of the training")
    case.hit({1: "one type", 2: "two types", 3: "three types"}[nc])
    case.equal(model.shape, (SIZE[nc], 2), "shape of the model")
    case.close(model.sum(axis=1), np.ones(SIZE[nc]), "probabilities of a bit")
    bits = np.unpackbits(np.frombuffer(b"".join(sent), dtype=np.uint8)).reshape(n, -1).astype(int)
    parts = [bits[:, a:b] for a, b in CUTS[nc]]
    words = n * nc
    count = model[:, 1] * words
    case.check(np.abs(count - np.round(count)).max() < 1e-6, "frequencies are not counts of codewords", words)
    count = np.round(count).astype(int)
    case.check(count.min() >= 0 and count.max() <= words, "frequencies out of range")
    enc, h = encoder(nc)
    k = enc.k
    low, high = np.zeros(k, dtype=int), np.zeros(k, dtype=int)
    for p in parts:
        w = p.shape[1]
        low[:w] += p.sum(axis=0)
        high[:w] += p.sum(axis=0)
        high[w:] += n
    case.check((count[:k] >= low).all() and (count[:k] <= high).all(), "frequencies of the telemetry bits", np.nonzero((count[:k] < low) | (count[:k] > high))[0][:10].tolist())
    case.hit("frequencies recounted", int((low == high).sum()))
    # padding: fair coins, 8 standard deviations
    for i in np.unique(high - low):
        at = np.nonzero(high - low == i)[0]
        if i == 0 or len(at) * i < 100:
            continue
        ones = int((count[at] - low[at]).sum())
        case.check(abs(ones - len(at) * i / 2) < 4 * np.sqrt(len(at) * i), "padding is not random", ones, len(at) * int(i))
        case.hit("padding")
    # a sum of codewords is a codeword
    case.check(not (h @ (count % 2) % 2).any(), "the coded bits are not those of codewords")
    case.hit("sum is a codeword")
    case.nontrivial = n > 1


def field_model(case):
    rnd, rng = case.rnd, case.rng
    base = {}
    st = ST if rnd.random() < 0.5 else mav.rand_structure(rnd, n_msgs=rnd.randint(2, 4), shuffle=False, gap=False)[0]
    size = max(o + mav.HC[m]["length"] + 8 for o, m in st.items())
    size = max(size, 50)
    make = lambda seq: mav.fill_structure(rnd, st, size, seq, 1, 1, lambda mid: gentle(rnd, mid, base))
    sent = [make(i % 256) for i in range(rnd.choice([1, 2, 5, 25]))]
    other = [make(3) for _ in range(3)]
    where = tempfile.mkdtemp(prefix="fm_", dir=os.environ.get("VT_SCRATCH"))
    try:
        data, cwd = os.path.join(where, "runs/HC_eilat_July_2018/data"), os.path.join(where, "scripts")
        os.makedirs(data)
        os.makedirs(cwd)
        with open(os.path.join(data, "hc_to_ship.pickle"), "wb") as f:
            pickle.dump({"50000": [{"bin": b} for b in other], "20000": [{"bin": b} for b in sent]}, f)
        case.note(st, size, len(sent))
        start(case, "scripts/buffer_segmentation_example.py", [], cwd)
        case.check(os.path.exists(os.path.join(cwd, "model_2018_all.json")), "no model saved", os.listdir(cwd))
        got = BufferModel.load(os.path.join(cwd, "model_2018_all.json"))
    finally:
        shutil.rmtree(where)
    want = BufferModel()
    for b in sent:
        want.add_buffer(b, dict(st))
    for _ in range(6):
        x = np.unpackbits(np.frombuffer(make(rnd.randint(0, 255)), dtype=np.uint8)) ^ (rng.random(8 * size) < rnd.choice([0, 0.02, 0.1]))
        u, v = got.predict(x, dict(st)), want.predict(x, dict(st))
        case.equal([f[0] for f in u[0]], [f[0] for f in v[0]], "fields predicted by the trained model")
        for i in (1, 2):
            case.close(np.asarray(u[i], dtype=float), np.asarray(v[i], dtype=float), "prediction of the trained model")
        case.hit("predictions compared")
    case.hit("field models trained")
    case.nontrivial = len(sent) > 1


def ship_logs(case):
    rnd = case.rnd
    where = tempfile.mkdtemp(prefix="log_", dir=os.environ.get("VT_SCRATCH"))
    want = []
    try:
        first = datetime(2022, 2, 14, 9, 59, 58)
        step = rnd.choice([1, 50, 3000, 40000, 864000, 6000000])    # folders within a minute, an hour, a day, and across months and years
        days = sorted({first + timedelta(seconds=step * rnd.randint(0, 12)) for _ in range(rnd.randint(1, 8))})
        written = []
        for day in days:
            d = rnd.randint(13, 17)
            folder = os.path.join(where, "ship_logs", day.strftime("%d_%m_%Y_%H_%M_%S"), *(["sub"] if rnd.random() < 0.3 else []))
            text = rnd.choice([b"", b"header\r\n", b"modem log 1.2\r\n\r\n"])
            if rnd.random() < 0.15:
                text = b""
                case.hit("empty log")
            else:
                for i in range(rnd.randint(0, 6)):
                    if rnd.random() < 0.15:
                        text += b"Aquisition %d failed\r\n" % i    # nothing received
                        case.hit("nothing received")
                        continue
                    at = datetime(2022, 2, d, rnd.randint(0, 23), rnd.randint(0, 59), rnd.randint(0, 59))
                    ok, size = rnd.randint(0, 1), rnd.choice([123, 0, 7, 1000])
                    payload = bytes(rnd.randrange(256) for _ in range(rnd.choice([123, 123, 130, 40])))
                    text += b"Aquisition %d time: %s\r\ndata size: %d\r\ndata success: %d\r\n" % (i, at.strftime("%d_%m_%Y_%H_%M_%S").encode(), size, ok) + payload
                    want.append((at, size, ok, payload[:123]))
            written.append((folder, text))
        rnd.shuffle(written)
        for folder, text in written:
            os.makedirs(folder)
            with open(os.path.join(folder, "1_Rafael_rx.log"), "wb") as f:
                f.write(text)
            with open(os.path.join(folder, "1_Rafael_tx.log"), "wb") as f:
                f.write(b"Aquisition 7 time: 14_02_2022_01_01_01\r\ndata size: 3\r\ndata success: 1\r\nabc")
        case.note(len(written), len(want))
        out = os.path.join(where, "out")
        code = "import runpy,pickle,sys; g=runpy.run_path(sys.argv[1]); pickle.dump([g['acquisitions']]+[g['acquisitions_%d'%d] for d in (14,15,16)], open(sys.argv[2],'wb'))"
        r = subprocess.run([sys.executable, "-W", "ignore", "-c", code, os.path.join(core.REPO, "runs/Feb_2022/data/ship_log_reader.py"), out], cwd=where, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=200, text=True, env=dict(os.environ, PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE="1"))
        case.check(r.returncode == 0, "the log reader failed", r.stdout.strip().splitlines()[-3:])
        with open(out, "rb") as f:
            got = pickle.load(f)
    finally:
        shutil.rmtree(where)
    plain = lambda x: [(a["r_time"], int(a["size"]), int(a["success"]), bytes(a["payload"])) for a in x]
    case.equal(plain(got[0]), want, "acquisitions read from the logs")
    for d, x in zip((14, 15, 16), got[1:]):
        case.equal(plain(x), [a for a in want if a[0].day == d], f"acquisitions of day {d}")
    case.hit("acquisitions", len(want))
    case.hit("runs of the log reader")
    case.nontrivial = len(want) > 1


WORKLOADS = [("recording", recording, 24, 300), ("training", training, 32, 400), ("field_model", field_model, 16, 160), ("ship_logs", ship_logs, 60, 600)]
