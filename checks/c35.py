"""C35 simulation runs report what was sent, received and decoded"""
import glob
import lzma
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
import numpy as np
from scipy.io import loadmat
from scipy.special import erfc
from bitstring import Bits
from ldpc.encoder import EncoderWiFi
from ldpc.wifi_spec_codes import WiFiSpecCode
from ldpc.decoder import bsc_llr, awgn_llr, DecoderWiFi, WbfDecoder, WbfVariant, GalBfDecoder
from vt import core
from vt.core import HarnessError
from decoders import ClassifyingEntropyDecoder, ClassifyingDudeDecoder, MavlinkRectifyingDecoder, CombinedUnifiedDecoder
from inference import BufferSegmentation, BufferModel
from protocol_meta import dialect_meta as meta

RULE = ("simulation programs of runs/HC_eilat_July_2018 run as programs in a scratch directory with 2-6 recorded telemetry buffers, 1-3 noise levels, one to three buffer types, "
        "repeated data, one or more processes, and random decoder settings; everything they save is recomputed from the recorded telemetry, and the saved received words are decoded "
        "again by fresh decoders with the requested settings. Non-trivial: at least one buffer was received with errors")
SCALE = 1
REQUIRED = ["runs", "buffers", "codewords", "telemetry carried", "errors recorded", "error counts", "hamming", "rates", "decoded again", "columns compared", "summary", "recorded command", "repeated data",
            "several types", "awgn received values", "unlike errors", "belief propagation", "min sum", "bit flipping", "several noise levels",
            "entropy", "awgn", "dude", "combined", "mavlink", "pretrained", "gallager", "bf", "encoded recordings", "split buffers", "defaults", "whole recording", "start of the recording", "matlab tables"]
ASSUMPTIONS = ["the ldpc package encodes and decodes deterministically"]

HOME = os.path.join(core.REPO, "runs/HC_eilat_July_2018")
SPECS = {1: WiFiSpecCode.N1944_R23, 2: WiFiSpecCode.N1296_R12, 3: WiFiSpecCode.N648_R34}
CUTS = {1: [0, None], 2: [0, 576, None], 3: [0, 416, 864, None]}
_cache = {}


def encoder(clusters):
    if clusters not in _cache:
        enc = EncoderWiFi(SPECS[clusters])
        _cache[clusters] = (enc, np.array(enc.h, dtype=np.int64))
    return _cache[clusters]


def recording():
    if "tx" not in _cache:
        with open(os.path.join(HOME, "data/hc_to_ship.pickle"), "rb") as f:
            _cache["tx"] = pickle.load(f)
    return _cache["tx"]


def part(a, delay):
    """the stretch of the recording a run is given"""
    at = a["at"] % (len(recording()[delay]) - a["held"] + 1)
    return recording()[delay][at:at + a["held"]]


def telemetry(a):
    """buffers which the run has to send"""
    sent = part(a, a["msg_delay"])
    return [Bits(auto=x.get("bin")) for x in sent[:a["N"] or None]]


def model_2018():
    if "model" not in _cache:
        _cache["model"] = os.path.join(HOME, "data/model_2018_all.json")
    return BufferModel.load(_cache["model"])


# ---- requested decoders, one factory per decoder of a program: (arguments, flip probability, number of codewords) -> decode function of a received word
def wifi(a):
    return DecoderWiFi(spec=SPECS[a["n_clusters"]], max_iter=a["ldpciterations"], decoder_type=a["dec_type"])


def wbf(a, variant, iters=None):
    h = encoder(a["n_clusters"])[0].h
    m, n = h.shape
    return WbfDecoder(h=h, max_iter=iters or a["ldpciterations"], decoder_variant=WbfVariant(variant), info_idx=np.array([True] * (n - m) + [False] * m))


def gal(a):
    h = encoder(1)[0].h
    m, n = h.shape
    return GalBfDecoder(h=h, max_iter=a["ldpciterations"], info_idx=np.array([True] * (n - m) + [False] * m))


def plain(a, p):
    return (wbf(a, a["wbf_variant"]) if a["dec_type"] == "BF" else wifi(a)).decode


def window(a):
    return a["window_len"] or None


def mlen(a):
    enc = encoder(a["n_clusters"])[0]
    return enc.k if a["model_length"] == "info" else enc.n


def entropy(inner, a, p, **kw):
    par = dict(model_length=mlen(a), entropy_threshold=a["ent_threshold"], clipping_factor=a["clipping_factor"], classifier_training=a["classifier_train"],
               n_clusters=a["n_clusters"], window_length=window(a), conf_center=a["conf_center"], conf_slope=a["conf_slope"], bit_flip=p, cluster=a["cluster"])
    par.update(kw)
    return ClassifyingEntropyDecoder(inner, **par).decode_buffer


def entropy_any(a, p):
    if a["dec_type"] == "BF":
        return entropy(wbf(a, a["wbf_variant"]), a, p, reliability_method=0)
    return entropy(wifi(a), a, p)


def structures(a):
    last = telemetry(a)[-1]
    cuts = CUTS[a["n_clusters"]]
    return [BufferSegmentation(meta.protocol_parser).segment_buffer(last[x:y].tobytes())[2] for x, y in zip(cuts, cuts[1:])]


def rectifying(a, p, length=None, seg=1, give=True):
    d = MavlinkRectifyingDecoder(wifi(a), length, a["valid_threshold"], a["invalid_threshold"], a["n_clusters"], a["valid_factor"], a["invalid_factor"],
                                 a["classifier_train"], bool(a["cluster"]), window(a), None if a["learn"] else model_2018(), a["conf_center"], a["conf_slope"],
                                 segmentation_iterations=seg)
    if give:
        d.set_buffer_structures(structures(a))
    return lambda x, e=None: d.decode_buffer(x, e)


def combined_nr(a, p):
    d = CombinedUnifiedDecoder(wifi(a), model_length=encoder(a["n_clusters"])[0].n, valid_thr=a["valid_threshold"], invalid_thr=a["invalid_threshold"],
                               n_clusters=a["n_clusters"], valid_factor=a["valid_factor"], invalid_factor=a["invalid_factor"], entropy_threshold=a["ent_threshold"],
                               clipping_factor=a["clipping_factor"], classifier_training_size=a["classifier_train"], cluster=bool(a["cluster"]), window_length=window(a),
                               data_model=None if a["learn"] else model_2018(), conf_center=a["conf_center"], conf_slope=a["conf_slope"], bit_flip=p, flip=bool(a["flip"]))
    d.set_buffer_structures(structures(a))
    return d.decode_buffer


def dude(a, p):
    return ClassifyingDudeDecoder(wifi(a), model_length=mlen(a), clipping_factor=a["clipping_factor"], classifier_training=a["classifier_train"], n_clusters=a["n_clusters"],
                                  context_length=a["context_length"], conf_center=a["conf_center"], conf_slope=a["conf_slope"], bit_flip=p, cluster=a["cluster"],
                                  entropy_threshold=a["ent_threshold"]).decode_buffer


def pretrained(a, p):
    import json
    with open(os.path.join(HOME, "data/encoded_data_data_model_1_clusters.json")) as f:
        model = np.array(json.load(f))
    return ClassifyingEntropyDecoder(wifi(a), model_length=mlen(a), entropy_threshold=a["ent_threshold"], clipping_factor=a["clipping_factor"], classifier_training=0,
                                     n_clusters=1, window_length=window(a), bit_flip=p, cluster=0, data_model=model).decode_buffer


def bf_iters(a, p):
    return max(int(3 * p * encoder(1)[0].n), a["ldpciterations"])


def bf_entropy(variant):
    return lambda a, p: entropy(wbf(a, variant, bf_iters(a, p)), a, p, clipping_factor=0, classifier_training=0, n_clusters=1, cluster=0, reliability_method=0)


# decoder of a program: (saved table, step success rate, step bit error rate, summary success rate, summary bit error rate, factory, what it is given)
LDPC = ("decoded_ldpc", "ldpc_buffer_success_rate", "ldpc_decoder_ber", "ldpc_buffer_success_rate", "ldpc_ber", plain)


def usual(name, factory, key=None):
    key = key or name
    return (f"decoded_{key}", f"{name}_buffer_success_rate", f"{name}_decoder_ber", f"{name}_buffer_success_rate", f"{name}_ber", factory)


PROGRAMS = {
    "entropy": ("simulated_data_classifying_entropy_decoder.py", [LDPC, usual("entropy", entropy_any)]),
    "awgn": ("classifying_entropy_decoder_over_awgn_channel.py", [LDPC, usual("entropy", lambda a, p: entropy(wifi(a), a, p))]),
    "dude": ("simulated_data_classifying_dude_decoder.py", [LDPC, usual("dude", dude)]),
    "combined": ("simulated_data_combined_decoder.py",
                 [LDPC, usual("nr", combined_nr), usual("entropy", lambda a, p: entropy(wifi(a), a, p, model_length=encoder(a["n_clusters"])[0].n)),
                  usual("rectify", lambda a, p: rectifying(a, p, encoder(a["n_clusters"])[0].n))]),
    "mavlink": ("simulated_data_mavlink_decoding.py",
                [("decoded_ldpc", "ldpc_buffer_success_rate", "ldpc_decoder_ber", "ldpc_buffer_success_rate", "ldpc_ber",
                  lambda a, p: DecoderWiFi(spec=SPECS[a["n_clusters"]], max_iter=a["ldpciterations"] * a["segiterations"], decoder_type=a["dec_type"]).decode),
                 usual("rect", lambda a, p: rectifying(a, p, encoder(a["n_clusters"])[0].k, a["segiterations"], not a["cluster"]))]),
    "pretrained": ("simulated_data_pretrained_model.py",
                   [LDPC, usual("entropy", lambda a, p: entropy(wifi(a), a, p, classifier_training=0, n_clusters=1, cluster=0)), usual("pre_trained", pretrained)]),
    "gallager": ("simulate_gallager_bf.py",
                 [("decoded_galbf", "galbf_success_rate", "galbf_decoder_ber", "galbf_buffer_success_rate", "galbf_decoder_ber", lambda a, p: gal(a).decode),
                  ("decoded_entropy_galbf", "galbf_entropy_success_rate", "galbf_entropy_decoder_ber", "entropy_buffer_success_rate", "galbf_entropy_decoder_ber",
                   lambda a, p: entropy(gal(a), a, p, clipping_factor=0, classifier_training=0, n_clusters=1, cluster=0, reliability_method=0)),
                  ("decoded_entropy_galbf_forcing", "entropy_forcing_success_rate", "entropy_forcing_decoder_ber", "entropy_forcing_buffer_success", "entropy_forcing_decoder_ber",
                   lambda a, p: entropy(gal(a), a, p, entropy_threshold=a["ent_threshold"] / 5, clipping_factor=0, classifier_training=0, n_clusters=1, cluster=0, reliability_method=3))]),
    "bf": ("simluated_data_entropy_bf_decoders.py",
           [("decoded_ms", "ms_success_rate", "ms_decoder_ber", "ms_buffer_success_rate", "ms_ber", lambda a, p: DecoderWiFi(spec=SPECS[1], max_iter=20, decoder_type="MS").decode),
            ("decoded_wbf", "wbf_success_rate", "wbf_decoder_ber", "wbf_buffer_success_rate", "wbf_decoder_ber", lambda a, p: wbf(a, WbfVariant.WBF, bf_iters(a, p)).decode),
            ("decoded_mwbf", "mwbf_success_rate", "mwbf_decoder_ber", "mwbf_buffer_success_rate", "mwbf_decoder_ber", lambda a, p: wbf(a, WbfVariant.MWBF, bf_iters(a, p)).decode),
            ("decoded_no_loop", "no_loop_success_rate", "no_loop_decoder_ber", "no_loop_buffer_success_rate", "no_loop_decoder_ber",
             lambda a, p: wbf(a, WbfVariant.MWBF_NO_LOOPS, bf_iters(a, p)).decode),
            ("decoded_entropy_wbf", "entropy_wbf_success_rate", "entropy_wbf_decoder_ber", "entropy_wbf_buffer_success_rate", "entropy_wbf_decoder_ber", bf_entropy(WbfVariant.WBF)),
            ("decoded_entropy_mwbf", "entropy_mwbf_success_rate", "entropy_mwbf_decoder_ber", "entropy_mwbf_buffer_success_rate", "entropy_mwbf_decoder_ber", bf_entropy(WbfVariant.MWBF)),
            ("decoded_entropy_no_loop", "entropy_no_loop_success_rate", "entropy_no_loop_decoder_ber", "entropy_no_loop_buffer_success_rate", "entropy_no_loop_decoder_ber",
             bf_entropy(WbfVariant.MWBF_NO_LOOPS))]),
}
# options a program has, besides those all have
OPTIONS = {
    "entropy": ["ent_threshold", "window_len", "clipping_factor", "conf_center", "conf_slope", "dec_type", "classifier_train", "n_clusters", "msg_delay", "cluster", "model_length",
                "wbf_variant", "channel_type"],
    "awgn": ["snr_scale", "delta", "ent_threshold", "window_len", "clipping_factor", "conf_center", "conf_slope", "dec_type", "classifier_train", "n_clusters", "msg_delay", "cluster",
             "model_length"],
    "dude": ["ent_threshold", "clipping_factor", "conf_center", "conf_slope", "dec_type", "classifier_train", "n_clusters", "msg_delay", "cluster", "model_length", "context_length"],
    "combined": ["dec_type", "classifier_train", "n_clusters", "msg_delay", "cluster", "valid_factor", "invalid_factor", "valid_threshold", "invalid_threshold", "window_len", "learn",
                 "conf_center", "conf_slope", "ent_threshold", "clipping_factor", "flip"],
    "mavlink": ["segiterations", "dec_type", "classifier_train", "n_clusters", "msg_delay", "cluster", "valid_factor", "invalid_factor", "valid_threshold", "invalid_threshold",
                "window_len", "learn", "conf_center", "conf_slope"],
    "pretrained": ["ent_threshold", "window_len", "clipping_factor", "conf_center", "conf_slope", "dec_type", "msg_delay", "model_length"],
    "gallager": ["ent_threshold", "window_len", "conf_center", "conf_slope", "model_length"],
    "bf": ["ent_threshold", "window_len", "conf_center", "conf_slope", "model_length"],
}


DEFAULTS = {"ent_threshold": 0.36, "window_len": 50, "clipping_factor": 2, "conf_center": 40, "conf_slope": 0.35, "dec_type": "BP", "classifier_train": 100, "n_clusters": 1,
            "msg_delay": "50000", "cluster": 1, "model_length": "info", "wbf_variant": 1, "channel_type": "bsc", "context_length": 8, "valid_factor": 2.0, "invalid_factor": 0.7,
            "valid_threshold": 0.03, "invalid_threshold": 0.08, "learn": 0, "flip": 0, "segiterations": 1, "snr_scale": "db", "delta": 2.0, "multiply_data": 0, "N": 0, "processes": 0, "ldpciterations": 20}
OTHER_DEFAULTS = {"awgn": {"model_length": "all"}, "gallager": {"window_len": 100, "multiply_data": 2}}


def arguments(case, prog):
    """random settings; those the program has no option for get the value it always uses"""
    rnd = case.rnd
    clusters = (1, 2, 3, 2, 1, 3)[case.index % 6] if "n_clusters" in OPTIONS[prog] else 1
    a = {"N": rnd.randint(2, 5), "multiply_data": rnd.choice([0, 0, 1]), "ldpciterations": rnd.randint(1, 6), "n_clusters": clusters,
         "ent_threshold": round(rnd.choice([0.1, 0.36, 0.6, 0.9]), 2), "window_len": rnd.choice([0, 1, 2, 3, 50]), "clipping_factor": rnd.choice([1, 2, 3]),
         "conf_center": rnd.choice([1, 2, 4]), "conf_slope": rnd.choice([0.35, 0.9, 2.0]), "dec_type": rnd.choice(["BP", "MS"]), "msg_delay": rnd.choice(["50000", "50000", "200000", "25000"]),
         "cluster": case.index // 3 % 2, "model_length": rnd.choice(["info", "all"]), "wbf_variant": rnd.choice([1, 2, 3]), "channel_type": rnd.choice(["bsc", "awgn"]),
         "context_length": rnd.randint(1, 5), "valid_factor": rnd.choice([1.5, 2.0, 3.0]), "invalid_factor": rnd.choice([0.3, 0.7]), "valid_threshold": rnd.choice([0.01, 0.03]),
         "invalid_threshold": rnd.choice([0.08, 0.15]), "learn": rnd.choice([0, 1]), "flip": rnd.choice([0, 1]), "segiterations": rnd.choice([1, 2]),
         "snr_scale": rnd.choice(["db", "linear"]), "delta": rnd.choice([1.0, 2.0]), "processes": rnd.choice([1, 1, 2, 3]), "classifier_train": rnd.randint(1, 3) * clusters}
    optional = [o for o in OPTIONS[prog] + ["multiply_data", "N", "processes", "ldpciterations"] if o != "processes" or prog != "gallager"]
    a["omitted"] = [o for o in optional if rnd.random() < 0.2 and (o not in ("n_clusters", "channel_type", "cluster"))] if rnd.random() < 0.7 else []
    if prog in ("gallager", "bf"):  # 300 iterations or four times the data take long
        a["omitted"] = [o for o in a["omitted"] if o not in ("multiply_data", "ldpciterations")]
    for o in a["omitted"]:
        a[o] = dict(DEFAULTS, **OTHER_DEFAULTS.get(prog, {}))[o]
        case.hit("defaults")
    if a["msg_delay"] not in recording():
        a["msg_delay"] = "50000"
    if "msg_delay" not in OPTIONS[prog]:
        a["msg_delay"] = "50000"
    if prog == "entropy" and rnd.random() < 0.4 and "dec_type" not in a["omitted"]:
        a["dec_type"] = "BF"
    a["points"] = rnd.choice([1, 2, 3])
    if prog == "awgn" and a["snr_scale"] == "linear":
        a["low"], a["high"] = round(rnd.uniform(0.4, 1.0), 3), round(rnd.uniform(1.0, 2.5), 3)
    elif prog in ("awgn", "bf") or prog == "entropy" and a["channel_type"] == "awgn":
        a["low"], a["high"] = round(rnd.uniform(-2, 1.0), 3), round(rnd.uniform(1.0, 4), 3)
    else:
        a["low"], a["high"] = round(rnd.uniform(0.002, 0.03), 4), round(rnd.uniform(0.03, 0.08), 4)
    if prog == "bf":  # bit flipping takes long
        a["low"], a["high"], a["multiply_data"] = round(rnd.uniform(4.5, 5.5), 3), round(rnd.uniform(5.5, 8), 3), 0
    if prog in ("bf", "gallager"):
        a["ldpciterations"] = rnd.randint(5, 40)
        a["N"], a["points"] = a["N"] and rnd.randint(2, 3), rnd.choice([1, 2])
    if prog == "gallager":
        a["high"] = round(a["low"] + 0.01, 4)
    if "channel_type" not in OPTIONS[prog]:
        a["channel_type"] = "awgn" if prog in ("awgn", "bf") else "bsc"
    if a["ldpciterations"] * clusters * (1 + a["multiply_data"]) * a["segiterations"] > 10:  # what takes long is kept short
        a["N"], a["points"] = min(a["N"], 3), min(a["points"], 2)
    a["held"] = max(2, a["N"] + rnd.choice([-1, 0, 1, 2]) if a["N"] else rnd.randint(2, 3))  # what is there to send
    a["at"] = rnd.randrange(10 ** 6)
    case.hit("whole recording" if not a["N"] or a["N"] >= a["held"] else "start of the recording")
    return a


def command(prog, a):
    low, high, pts = ("--min_ebno", "--max_ebno", "--n_points") if prog == "awgn" else ("--minflip", "--maxflip", "--nflips")
    opts = {low: a["low"], high: a["high"], pts: a["points"], "--N": a["N"], "--multiply_data": a["multiply_data"], "--ldpciterations": a["ldpciterations"]}
    if prog != "gallager":
        opts["--processes"] = a["processes"]
    opts.update({"--" + o: a[o] for o in OPTIONS[prog]})
    return opts


def parse(text):
    """options of a recorded command and the values each was given"""
    tokens = text.split()
    res = {}
    for k, v in zip(tokens[2::2], tokens[3::2]):
        res.setdefault(k, []).append(v)
    return res


def agree(u, v):
    return u == v or number(u) is not None and number(u) == number(v)


def launch(case, prog, a, opts, where):
    os.makedirs(os.path.join(where, "results"))
    shutil.copytree(os.path.join(HOME, "data"), os.path.join(where, "data"))  # a copy: nothing the program does reaches the repository
    with open(os.path.join(where, "data/hc_to_ship.pickle"), "wb") as f:
        pickle.dump({delay: part(a, delay) for delay in recording()}, f)
    env = dict(os.environ, PYTHONPATH=core.REPO, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
    cmd = [sys.executable, os.path.join(core.VERIF, "vt", "sim_launch.py"), core.REPO, os.path.join(HOME, PROGRAMS[prog][0]), os.path.join(where, "events")]
    cmd += [str(x) for o in opts.items() for x in o]
    try:
        r = subprocess.run(cmd, cwd=where, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=500, text=True)
    except subprocess.TimeoutExpired:
        raise HarnessError(f"{prog} took more than 500 s")
    case.check(r.returncode == 0, f"the {prog} program failed", r.stdout.strip().splitlines()[-3:])


def events(where):
    """received values by their hard decisions, as handed to the decoders"""
    res = {}
    for path in glob.glob(os.path.join(where, "events.*")):
        with open(path, "rb") as f:
            while True:
                try:
                    name, x = pickle.load(f)
                except EOFError:
                    break
                res.setdefault((x < 0).tobytes(), []).append((name, x))
    return res


def load_any(path):
    opener = lzma.open if path.endswith(".xz") else open
    with opener(path, "rb") as f:
        return pickle.load(f)


def saved(case, where, a):
    """what the program left behind: steps, as returned and as saved one by one, the summary, and the recorded command"""
    dirs = [d for d in glob.glob(os.path.join(where, "results", "*")) if os.path.isdir(d)]
    case.equal(len(dirs), 1, "result directories of one run")
    singles = [load_any(p) for p in glob.glob(os.path.join(where, "*.pickle")) + glob.glob(os.path.join(where, "results", "*.pickle"))]
    case.equal(len(singles), a["points"], "noise levels saved one by one")
    every = [load_any(p) for p in glob.glob(os.path.join(dirs[0], "*.xz"))]
    summary = [load_any(p) for p in glob.glob(os.path.join(dirs[0], "*.pickle"))]
    case.equal(len(summary), 1, "summaries of one run")
    mats = [m for m in (loadmat(p, squeeze_me=True) for p in glob.glob(os.path.join(dirs[0], "*.mat"))) if "results" not in m]
    tables = [m["results"] for m in map(loadmat, glob.glob(os.path.join(dirs[0], "*.mat"))) if "results" in m]
    with open(os.path.join(dirs[0], "cmd.txt")) as f:
        text = f.read()
    return singles, every[0] if every else None, summary[0], mats, tables, text


def judge_tables(case, every, results, tables):
    """the steps as saved for matlab"""
    case.equal(results.size, len(every), "noise levels saved for matlab")
    for got, step in zip(results.ravel(), every):
        got = got.ravel()[0]
        for table, columns in [("data", ("encoded", "corrupted", "info_errors", "parity_errors"))] + [(t, ("estimate", "decode_success", "iterations", "hamming")) for t in tables]:
            named = [got[t] for t in (table, table.replace("decoded_", "")) if t in got.dtype.names and got[t].dtype.names]
            case.check(named, f"{table} is not saved for matlab as a table", got.dtype.names)
            cell = named[0].ravel()[0]
            for c in columns:
                want = np.concatenate([bits(v) for v in step[table][c]])
                case.array_equal(bits(cell[c]), want, f"matlab {table}, {c}")
    case.hit("matlab tables")


def bits(x):
    return np.asarray(x).astype(np.int64).ravel()


def judge_step(case, prog, a, step, x, received):
    """one noise level x: flip probability, or signal to noise ratio as given"""
    enc, h = encoder(a["n_clusters"])
    awgn = a["channel_type"] == "awgn"
    if awgn:
        snr = x if prog == "awgn" and a["snr_scale"] == "linear" else 10 ** (x / 10)
        sigma = np.sqrt(1 / snr / 2)
        p = 0.5 * erfc(np.sqrt((a["delta"] if prog == "awgn" else 1) * snr))
    else:
        p = x
    data = step["data"]
    tx = telemetry(a)
    cuts = CUTS[a["n_clusters"]]
    parts = [bits(t[u:v]) for t in tx for u, v in zip(cuts, cuts[1:])]
    n = len(parts) * 2 ** a["multiply_data"]
    case.equal(len(data), n, "buffers sent")
    case.equal((step["number_of_buffers"], step["buffer_len"]), (n, enc.n), "reported number and length of buffers")
    case.equal(step["max_ldpc_iterations"], bf_iters(a, p) if prog == "bf" else a["ldpciterations"], "reported iterations")
    words = np.array([bits(w) for w in data["encoded"]])
    case.check(words.shape == (n, enc.n) and np.isin(words, (0, 1)).all(), "sent words are not bits")
    case.check(not (words @ h.T % 2).any(), "a sent word is not a codeword")
    case.hit("codewords", n)
    for i, w in enumerate(words):
        part = parts[i % len(parts)]
        case.check(np.array_equal(w[:len(part)], part), f"buffer {i} does not carry the recorded telemetry")
    case.array_equal(words, np.tile(words[:len(parts)], (2 ** a["multiply_data"], 1)), "repeated data")
    case.hit("telemetry carried", n)
    if a["multiply_data"]:
        case.hit("repeated data")
    rx = np.array([bits(w) for w in data["corrupted"]])
    wrong = words != rx
    for i, e in enumerate(data["error_idx"]):
        e = np.asarray(e)
        if awgn:
            case.array_equal(e.astype(bool), wrong[i], f"recorded errors of buffer {i}")
        else:
            case.equal(sorted(e.astype(int).tolist()), np.flatnonzero(wrong[i]).tolist(), f"recorded errors of buffer {i}")
            case.equal(len(e), int(enc.n * p), f"number of errors of buffer {i}")
    case.hit("errors recorded", n)
    case.array_equal(bits(data["info_errors"]), wrong[:, :enc.k].sum(axis=1), "errors in the information part")
    case.array_equal(bits(data["parity_errors"]), wrong[:, enc.k:].sum(axis=1), "errors in the parity part")
    case.close(step["mean_raw_ber" if prog == "awgn" else "raw_ber"], wrong.mean(), "reported channel error rate")
    case.hit("error counts", n)
    case.hit("buffers", n)
    case.interesting(wrong.any())
    if wrong.sum(axis=1).min() >= 10:
        case.check(len({w.tobytes() for w in wrong}) == n, "buffers have the very same errors")
        case.hit("unlike errors")
    # what the decoders were given
    if awgn:
        soft, noise = [], []
        for i in range(n):
            got = [v for name, v in received.get((rx[i] == 1).tobytes(), [])]
            case.check(got, f"no decoder was given the received word {i}")
            v = min(got, key=lambda v: np.abs(v).max()) if prog == "bf" or a["dec_type"] == "BF" else got[0] * sigma ** 2 / 2
            soft.append(v)
            noise.append(v - (1 - 2 * words[i]))
        noise = np.concatenate(noise)
        for what, dev in (("mean", abs(noise.mean()) * np.sqrt(noise.size) / sigma), ("spread", abs(noise.std() / sigma - 1) * np.sqrt(2 * noise.size))):
            case.check(dev < 8, f"{what} of the noise is {dev:.1f} standard errors off")
        case.hit("awgn received values", n)

    def given(i, table):
        """the values from which the decoder of that table had to decode buffer i"""
        if not awgn:
            return bsc_llr(p=p)(rx[i])
        flipping = prog == "bf" and table != "decoded_ms" or a["dec_type"] == "BF" and prog == "entropy"
        values = soft[i] if flipping else awgn_llr(sigma)(soft[i])
        exact = [v for _, v in received[(rx[i] == 1).tobytes()] if np.allclose(v, values, rtol=1e-9)]
        case.check(exact, f"{table}: buffer {i} was not decoded from its received values")
        return exact[0]

    for table, rate, ber, _, _, factory in PROGRAMS[prog][1]:
        res = step[table]
        case.equal(len(res), n, f"rows of {table}")
        est = np.array([bits(v) for v in res["estimate"]])
        dist = (est != words).sum(axis=1)
        case.array_equal(bits(res["hamming"]), dist, f"remaining errors in {table}")
        case.hit("hamming", n)
        case.close(step[rate], (dist == 0).mean(), f"{rate}")
        case.close(step[ber], dist.sum() / (n * enc.n), f"{ber}")
        case.hit("rates", 2)
        decode = factory(a, p)
        choice, np.random.choice = np.random.choice, first  # ties of bit flipping decoders, broken alike in the run
        try:
            again = [decode(given(i, table), *([np.flatnonzero(wrong[i])] if table in ("decoded_rect", "decoded_rectify") else [])) for i in range(n)]
        finally:
            np.random.choice = choice
        for i, want in enumerate(again):
            compare_row(case, table, i, res, want)
    return p


def alike(u, v):
    """equal up to rounding; nested results of any kind"""
    if isinstance(u, dict) and isinstance(v, dict):
        return u.keys() == v.keys() and all(alike(u[k], v[k]) for k in u)
    if u is None or v is None:
        return u is v
    try:
        x, y = np.asarray(u, dtype=float), np.asarray(v, dtype=float)
    except (TypeError, ValueError):
        try:
            return len(u) == len(v) and all(alike(a, b) for a, b in zip(u, v))
        except TypeError:
            return u == v
    return x.shape == y.shape and np.allclose(x, y, rtol=1e-7, atol=1e-9, equal_nan=True)


SOFT = ["estimate", "llr", "decode_success", "iterations", "syndrome", "vnode_validity"]
HARD = SOFT[:1] + SOFT[2:]
ENTROPY = SOFT + ["dist", "structural_idx", "cluster_label"]
RECTIFY = SOFT + ["cluster_label", "segmented_bits", "good_field_idx", "bad_field_idx", "classifier_performance", "forcing_performance"]
UNIFIED = SOFT[:4] + ["cluster_label"]
DUDE = UNIFIED + ["denoised_bits"]


def compare_row(case, table, i, res, want):
    """everything the decoder returned for buffer i, as saved and as decoded again"""
    row = res.iloc[i]
    k = 1 if np.ndim(want[1]) == 0 else 2  # bit flipping decoders return no soft output
    case.array_equal(bits(row["estimate"]), bits(want[0]), f"{table}: estimate of buffer {i} (decoded again with the requested settings)")
    case.equal((bool(row["decode_success"]), int(row["iterations"])), (bool(want[k]), int(want[k + 1])), f"{table}: success and iterations of buffer {i}")
    usual = (ENTROPY if len(want) == 9 else RECTIFY if len(want) == 12 else UNIFIED if len(want) == 5 and k == 2 else DUDE if table == "decoded_dude" else SOFT if k == 2 else HARD)
    names = [c for c in usual if c in res.columns]
    case.check(len(names) >= len(want) - 1 and len(usual) == len(want), f"{table}: results are missing", list(res.columns), len(want))
    for name, v in zip(usual, want):
        if name in names:
            case.check(alike(row[name], v), f"{table}: {name} of buffer {i} (decoded again with the requested settings)", row[name], v)
    case.hit("decoded again")
    case.hit("columns compared", len(names))


def first(candidates):
    return candidates[0]


def same(u, v):
    return np.allclose(np.asarray(u, dtype=float), np.asarray(v, dtype=float), rtol=1e-12, atol=0)


def program(prog):
    def run(case):
        a = arguments(case, prog)
        opts = command(prog, a)
        where = tempfile.mkdtemp(prefix="sim_", dir=os.environ.get("VT_SCRATCH"))
        try:
            case.note(prog, opts, a["omitted"])
            launch(case, prog, a, {k: v for k, v in opts.items() if k[2:] not in a["omitted"]}, where)
            if a["n_clusters"] == 1:
                a["classifier_train"] = 0
            singles, every, summary, mats, tables, text = saved(case, where, a)
            received = events(where) if a["channel_type"] == "awgn" else {}
        finally:
            shutil.rmtree(where)
        case.hit("runs")
        case.hit(prog)
        levels = np.linspace(a["low"], a["high"], num=a["points"])
        raw = "mean_raw_ber" if prog == "awgn" else "raw_ber"
        keys = [raw, "number_of_buffers"] + [k for d in PROGRAMS[prog][1] for k in d[1:3]]
        if every is None:  # this program keeps the steps only one by one
            order = sorted(range(len(singles)), key=lambda i: singles[i][raw])
            every = [singles[i] for i in order]
        case.equal(len(every), a["points"], "noise levels saved")
        for step in every:
            case.equal(sum(all(same(step[k], s[k]) for k in keys) and all(np.array_equal(u, v) for u, v in zip(step["data"]["corrupted"], s["data"]["corrupted"])) for s in singles), 1,
                       "steps saved one by one which equal a step of the whole")
        for step, x in zip(every, levels):
            judge_step(case, prog, a, step, x, received)
        # summary
        for source in [summary] + mats:
            for _, rate, ber, srate, sber, _ in PROGRAMS[prog][1]:
                case.close(np.ravel(source[srate]), [s[rate] for s in every], f"summary {srate}")
                case.close(np.ravel(source[sber]), [s[ber] for s in every], f"summary {sber}")
            if prog == "awgn":
                case.close(np.ravel(source["snr"]), levels, "summary signal to noise ratios")
            else:
                case.close(np.ravel(source["raw_ber"]), [s["raw_ber"] for s in every], "summary channel error rates")
                if a["channel_type"] == "awgn":
                    case.close(np.ravel(source["snr_db"]), levels, "summary signal to noise ratios")
                    case.close(np.ravel(source["snr_linear"]), 10 ** (levels / 10), "summary linear signal to noise ratios")
        case.check(mats, "no summary was saved for matlab")
        if prog != "combined":
            case.equal(len(tables), 1, "results saved for matlab")
        for results in tables:
            judge_tables(case, every, results, [d[0] for d in PROGRAMS[prog][1]])
        case.hit("summary")
        got = parse(text)
        want = {k: str(v) for k, v in opts.items()}
        if a["n_clusters"] == 1 and "--classifier_train" in want:
            if got.get("--classifier_train") == ["0"]:  # a single type needs no training
                want["--classifier_train"] = "0"
        defaults = dict(DEFAULTS, **OTHER_DEFAULTS.get(prog, {}))
        for k, v in want.items():
            if k[2:] in ("N", "processes") and k not in got and agree(str(defaults[k[2:]]), v):
                continue  # as without the option
            case.check(k in got and all(agree(g, v) for g in got[k]), f"the recorded command does not repeat the run: {k}", got.get(k), v)
        case.equal(sorted(set(got) - set(want)), [], "options of the recorded command which were not given")
        case.hit("recorded command")
        case.hit({"BP": "belief propagation", "MS": "min sum", "BF": "bit flipping"}[a["dec_type"]] if prog not in ("bf", "gallager") else "bit flipping")
        if a["points"] > 1:
            case.hit("several noise levels")
        if a["n_clusters"] > 1:
            case.hit("several types")
    run.__name__ = prog
    return run


def number(s):
    try:
        return float(s)
    except ValueError:
        return None


def encoding(case):
    """the helper which encodes all the recorded telemetry with a given code, splitting buffers longer than a codeword"""
    import importlib.util
    spec = importlib.util.spec_from_file_location("ecncoding_data", os.path.join(HOME, "ecncoding_data.py"))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    code = list(WiFiSpecCode)[case.index % len(WiFiSpecCode)]
    enc = EncoderWiFi(code)
    h = np.array(enc.h, dtype=np.int64)
    here = os.getcwd()
    where = tempfile.mkdtemp(prefix="sim_", dir=os.environ.get("VT_SCRATCH"))
    shutil.copytree(os.path.join(HOME, "data"), os.path.join(where, "data"))
    os.chdir(where)
    try:
        words = mod.encode_data(enc)
    finally:
        os.chdir(here)
        shutil.rmtree(where)
    case.note("encode_data", code.name, case.rnd.random())
    case.interesting()
    sent = [Bits(auto=x.get("bin")) for x in recording()["50000"]]
    per = [-(-len(t) // enc.k) for t in sent]
    case.equal(len(words), sum(per), "codewords for all the buffers")
    words = np.array([bits(w) for w in words])
    case.check(words.shape[1] == enc.n and np.isin(words, (0, 1)).all() and not (words @ h.T % 2).any(), "an encoded word is not a codeword")
    at = 0
    for t, parts in zip(sent, per):
        carried = words[at:at + parts, :enc.k].ravel()
        case.check(np.array_equal(carried[:len(t)], bits(t)), f"codewords {at} to {at + parts - 1} do not carry their buffer")
        at += parts
    case.hit("codewords", len(words))
    case.hit("encoded recordings")
    if max(per) > 1:
        case.hit("split buffers")


WORKLOADS = [("encoding", encoding, 12, 24)] + [(name, program(name), q, t) for name, q, t in
             [("entropy", 14, 120), ("awgn", 8, 60), ("dude", 8, 60), ("combined", 9, 60), ("mavlink", 12, 80), ("pretrained", 5, 40), ("gallager", 4, 40), ("bf", 4, 30)]]
