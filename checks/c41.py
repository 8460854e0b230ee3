"""C41 helpers: broken runs united, random test data, logging"""
import argparse
import collections
import copy
import io
import logging
import contextlib
import os
import pickle
import random
import shutil
import subprocess
import sys
import tempfile
import numpy as np
from vt import core, mav
from vt.core import HarnessError
import data_generation.random_test_data_generation as gen
from utils import setup_logger

RULE = ("scripts/unify_results.py run whole in a scratch tree with 1-40 saved steps whose names, ages and contents are unrelated, among other files; random test data drawn many times (range, length, all values reached, "
        "frequencies); loggers of any name, level and file. Non-trivial: more than one step")
SCALE = 1
REQUIRED = ["runs united", "ages differ from names", "equal ages", "other files", "single step", "bytes drawn", "ids drawn", "bit strings drawn", "empty bit string", "records logged", "records below the level", "appended log"]
LAST = "2022-03-20_18_18_6"


def unite(case):
    rnd = case.rnd
    d = tempfile.mkdtemp(prefix="c41-", dir=os.environ.get("VT_SCRATCH"))
    try:
        run = os.path.join(d, "runs", "HC_eilat_July_2018")
        os.makedirs(os.path.join(run, "results", LAST))
        os.makedirs(os.path.join(d, "scripts"))
        n = rnd.choice([1, 2, 3, 8, 20, 40])
        args = argparse.Namespace(minflip=rnd.random(), maxflip=0.09, nflips=rnd.randint(1, 40), N=rnd.randint(0, 9), window_len=50)
        want_args = copy.deepcopy(vars(args))
        with open(os.path.join(run, "results", LAST, LAST + "_summary_entropy_vs_pure_LDPC_weighted_model.pickle"), "wb") as f:
            pickle.dump({"args": args, "raw_ber": np.array([9.0]), "ldpc_ber": np.array([9.0])}, f)
        steps = []
        ages = [1600000000 + rnd.choice([k * 60, k * 60, rnd.randint(0, 5000)]) for k in range(n)]
        rnd.shuffle(ages)
        if n > 2 and rnd.random() < 0.4:
            ages[1] = ages[0]
        names = rnd.sample(range(10 ** 6), n)
        for i in range(n):
            p = rnd.choice([0.01 * i, rnd.random()])
            s = {"raw_ber": p, "ldpc_decoder_ber": rnd.random(), "entropy_decoder_ber": rnd.random(), "ldpc_buffer_success_rate": rnd.random(),
                 "entropy_buffer_success_rate": rnd.random(), "n": i, "decoded_ldpc": [(np.arange(4) + i, True)], "max_ldpc_iterations": 20}
            path = os.path.join(run, f"2022-03-{rnd.randint(1, 31)}_{names[i]}_{p}_simulation_entropy_weighted.pickle")
            with open(path, "wb") as f:
                pickle.dump(s, f)
            os.utime(path, (1700000000, ages[i]))
            steps.append((ages[i], os.path.basename(path), s))
        if rnd.random() < 0.6:
            for f in rnd.sample(["notes.txt", "cmd.pickle.txt", "script.py", "old.mat"], 2):
                open(os.path.join(run, f), "w").write("x")
            os.mkdir(os.path.join(run, "data"))
            pickle.dump({}, open(os.path.join(run, "data", "inner.pickle"), "wb"))
            case.hit("other files")
        files = {f: open(os.path.join(run, f), "rb").read() for f in os.listdir(run) if os.path.isfile(os.path.join(run, f))}
        steps.sort(key=lambda s: (s[0], s[1]))
        case.note(n, [(a, b, s["raw_ber"]) for a, b, s in steps])
        case.hit("ages differ from names", [s[1] for s in steps] != sorted(s[1] for s in steps))
        case.hit("equal ages", len({s[0] for s in steps}) < n)
        case.hit("single step", n == 1)
        case.interesting(n > 1)
        env = dict(os.environ, PYTHONPATH=core.REPO, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
        try:
            r = subprocess.run([sys.executable, "-W", "ignore", os.path.join(core.REPO, "scripts", "unify_results.py")], cwd=os.path.join(d, "scripts"), env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300, text=True)
        except subprocess.TimeoutExpired:
            raise HarnessError("unify_results.py took more than 300 s")
        case.check(r.returncode == 0, "uniting failed", r.stdout.strip().splitlines()[-3:])
        if r.returncode:
            return
        made = [x for x in os.listdir(os.path.join(run, "results")) if x != LAST]
        case.equal(len(made), 1, "number of united runs")
        out = os.path.join(run, "results", made[0])
        res = [f for f in os.listdir(out) if f.endswith(".pickle")]
        summ = [f for f in res if "_summary" in f]
        full = [f for f in res if "_summary" not in f]
        case.equal((len(summ), len(full)), (1, 1), "saved files")
        got = pickle.load(open(os.path.join(out, full[0]), "rb"))
        case.equal([g["n"] for g in got], [s["n"] for _, _, s in steps], "order of the united steps")
        for g, (_, _, s) in zip(got, steps):
            case.equal({k: v for k, v in g.items() if k != "decoded_ldpc"}, {k: v for k, v in s.items() if k != "decoded_ldpc"}, "united step")
            case.equal([(a.tolist(), b) for a, b in g["decoded_ldpc"]], [(a.tolist(), b) for a, b in s["decoded_ldpc"]], "decoded words of a step")
        z = pickle.load(open(os.path.join(out, summ[0]), "rb"))
        for k, key in (("raw_ber", "raw_ber"), ("ldpc_ber", "ldpc_decoder_ber"), ("entropy_ber", "entropy_decoder_ber"), ("ldpc_buffer_success_rate",) * 2, ("entropy_buffer_success_rate",) * 2):
            case.equal(list(np.asarray(z[k])), [s[key] for _, _, s in steps], f"series {k} of the summary")
        want_args["minflip"] = steps[0][2]["raw_ber"]
        case.equal(vars(z["args"]), want_args, "settings in the summary")
        case.equal({f: open(os.path.join(run, f), "rb").read() for f in os.listdir(run) if os.path.isfile(os.path.join(run, f))}, files, "files of the broken run afterwards")
        case.hit("runs united")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def data(case):
    rnd = case.rnd
    random.seed(rnd.getrandbits(32))
    n = 20000
    c = collections.Counter(gen.rand_uint8() for _ in range(n))
    case.equal(sorted(c), list(range(256)), "values of a random byte")
    case.check(all(isinstance(v, int) for v in c), "random byte is no integer")
    # every count is binomial: 78 expected, standard deviation 9
    case.check(max(c.values()) < 78 + 8 * 9 and min(c.values()) > 78 - 8 * 9, "random bytes are not equally likely", min(c.values()), max(c.values()))
    case.hit("bytes drawn")
    ids = collections.Counter(gen.rand_msg() for _ in range(200 * len(mav.HC)))
    case.equal(sorted(ids), sorted(mav.HC), "random message ids")
    case.check(max(ids.values()) < 200 + 8 * 15 and min(ids.values()) > 200 - 8 * 15, "random ids are not equally likely", min(ids.values()), max(ids.values()))
    case.hit("ids drawn")
    lengths = [0, 1, 2, 7, 8, 9, 128, rnd.randint(0, 3000), rnd.randint(0, 255)]
    for k in lengths:
        b = gen.rand_bitstring(k)
        case.equal(len(b), k, "length of a random bit string")
        case.hit("bit strings drawn")
        case.hit("empty bit string", k == 0)
    m = rnd.choice([5, 16, 33])
    draws = [gen.rand_bitstring(m) for _ in range(1000)]
    ones = [sum(bool(b[i]) for b in draws) for i in range(m)]
    case.check(all(500 - 8 * 16 < v < 500 + 8 * 16 for v in ones), "bits are not balanced", ones)
    pairs = sum(bool(b[0]) != bool(b[1]) for b in draws)
    case.check(500 - 8 * 16 < pairs < 500 + 8 * 16, "bits are not independent", pairs)
    case.note(lengths, m, ones)
    case.interesting(True)


def logs(case):
    rnd = case.rnd
    d = tempfile.mkdtemp(prefix="c41-", dir=os.environ.get("VT_SCRATCH"))
    names = [f"vt.{case.index}.{rnd.getrandbits(40)}.{i}" for i in range(2)]
    loggers = []
    try:
        level = rnd.choice([None, logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR])
        files = [os.path.join(d, f"l{i}.log") for i in range(2)]
        old = rnd.random() < 0.3
        if old:
            open(files[0], "w").write("earlier line\n")
        out = io.StringIO()
        want = {0: [], 1: []}
        with contextlib.redirect_stdout(out):
            for i in range(2):
                loggers.append(setup_logger(name=names[i], log_file=files[i], **({} if level is None else {"level": level})))
                loggers[-1].propagate = False
            for k in range(rnd.randint(1, 20)):
                i, lv = rnd.randint(0, 1), rnd.choice([logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR])
                text = f"record {k} {rnd.getrandbits(30)}"
                loggers[i].log(lv, text)
                if lv >= (level or logging.INFO):
                    want[i].append((lv, text))
                    case.hit("records logged")
                else:
                    case.hit("records below the level")
        case.note(level, want)
        case.interesting(True)
        printed = out.getvalue().splitlines()
        for i in range(2):
            lines = open(files[i]).read().splitlines()
            if i == 0 and old:
                case.equal(lines[:1], ["earlier line"], "earlier log")
                lines = lines[1:]
                case.hit("appended log")
            case.equal(len(lines), len(want[i]), "lines logged to the file")
            mine = [x for x in printed if names[i] in x]
            case.equal(mine, lines, "console and file")
            for line, (lv, text) in zip(lines, want[i]):
                case.check(text in line and logging.getLevelName(lv) in line and names[i] in line, "incomplete record", line, text)
        case.equal(len(printed), len(want[0]) + len(want[1]), "lines on the console")
    finally:
        for lg in loggers:
            for h in list(lg.handlers):
                h.close()
                lg.removeHandler(h)
        shutil.rmtree(d, ignore_errors=True)


WORKLOADS = [("unite", unite, 40, 400), ("data", data, 24, 240), ("logs", logs, 200, 4000)]
