"""C10 buffer model: learning, prediction, window, persistence"""
import math
import os
import glob
import json
import tempfile
import numpy as np
from vt import mav, fieldref
from vt.core import REPO
from inference import BufferModel, FieldModel, BufferSegmentation
from protocol_meta import dialect_meta as meta

RULE = ("histories of 0-25 buffers with one to three structures (repeated messages, gaps, any order), windows None and 1-8, bytes and bit arrays, "
        "prediction between additions, save / load at random points followed by more learning; the shipped models. Non-trivial: >= 2 buffers learned")
REQUIRED = ["related layouts", "long history", "buffers learned", "predictions", "field probabilities", "unknown field", "bits outside fields", "window exceeded", "saved and loaded",
            "learning after load", "repeated field names", "shipped models", "container view", "window of its own"]


def same_float(a, b, tol=1e-9):
    a, b = float(a), float(b)
    return (math.isnan(a) and math.isnan(b)) or a == b or abs(a - b) <= tol * max(abs(a), abs(b))


def check_predict(case, model, ref, buf, structure, as_bits):
    fields, bits_p, bits_std = model.predict(mav.bits_of(buf) if as_bits else buf, structure)
    lay = mav.layout(structure)
    case.equal([f[0] for f in fields], [f[0] for f in lay], "predicted field names")
    case.equal((np.shape(bits_p), np.shape(bits_std)), ((len(buf) * 8,), (len(buf) * 8,)), "shape of the bit probabilities")
    covered = np.zeros(len(buf) * 8, dtype=bool)
    import struct
    for (name, t, b, ln), (_, p, s) in zip(lay, fields):
        sl = slice(b * 8, (b + ln) * 8)
        covered[sl] = True
        if name not in ref.samples:
            case.check(math.isnan(p) and math.isnan(s) and np.isnan(bits_p[sl]).all() and np.isnan(bits_std[sl]).all(),
                       f"a field without a model is judged: {name}", p, s)
            case.hit("unknown field")
            continue
        v = struct.unpack("<" + mav.FMT[t], buf[b:b + ln])[0]
        wp, ws, reliable = fieldref.classify(ref.samples[name], v)
        if reliable:
            case.close(p, wp, f"probability of {name}", rtol=1e-5, atol=2e-6)
            case.close(s, ws, f"deviation of {name}", rtol=1e-6, atol=1e-300)
            case.hit("field probabilities")
        case.check(all(same_float(x, p) for x in bits_p[sl]) and all(same_float(x, s) for x in bits_std[sl]), f"bits of {name} differ from the field")
    case.check(np.isnan(np.asarray(bits_p)[~covered]).all() and np.isnan(np.asarray(bits_std)[~covered]).all(), "bits outside fields are judged")
    case.hit("bits outside fields", int((~covered).sum()))
    case.hit("predictions")


def snapshot(model, structure, buf):
    return [(n, repr(float(p)), repr(float(s))) for n, p, s in model.predict(buf, structure)[0]]


def check_state(case, model, ref):
    case.equal(model.model_size, ref.size, "model size")
    case.equal(set(model.fields_names()), set(ref.samples), "learned fields")
    case.equal(len(model), len(ref.samples), "number of fields")
    for name, samples in ref.samples.items():
        f = model[name]
        case.check(name in model and f is model.get_field_model(name) and f.name == name and f.field_type == ref.types[name], "field model", name)
        case.equal([repr(x) for x in f.samples], [repr(x) for x in samples], f"samples of {name}")
        case.equal(f.model_size, len(samples), f"size of {name}")
    case.check("no such field" not in model and model.get_field_model("no such field") is None, "unknown field present")
    case.equal({f.name for f in model}, set(ref.samples), "iteration")
    case.hit("container view")


def gentle(rnd, mid, base):
    """field values near a base, with occasional extremes (keeps 64 bit integers where float arithmetic is exact)"""
    vals = {}
    for name, t, _ in mav.HC[mid]["wire"]:
        key = (mid, name)
        if key not in base:
            base[key] = mav.rand_value(rnd, t)
            if t in ("uint64_t", "int64_t"):
                base[key] = base[key] % 2 ** 48
        v = base[key]
        if rnd.random() < 0.5:
            if t == "float":
                import struct
                v = struct.unpack("<f", struct.pack("<f", max(-3e38, min(3e38, v + rnd.gauss(0, 1)))))[0]
                if rnd.random() < 0.03:
                    v = rnd.choice([math.nan, math.inf, -math.inf])
            else:
                bits = 8 * mav.SIZES[t]
                lo, hi = (0, 2 ** bits - 1) if t[0] == "u" else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)
                v = max(lo, min(hi, v + rnd.randint(-2, 2)))
        vals[name] = v
    return mav.pack_values(mid, vals)


def history(case):
    rnd = case.rnd
    w = rnd.choice([None, None, 1, 2, 3, 8])
    ids = rnd.sample(mav.SCALAR_IDS, 3) if rnd.random() < 0.5 else None
    structures = [mav.rand_structure(rnd, n_msgs=rnd.randint(1, 3), ids=ids) for _ in range(rnd.randint(1, 3))]
    if rnd.random() < 0.25:  # layouts easily mistaken for each other
        st, ln = structures[0]
        ln += rnd.randint(0, 8)
        structures = [(st, ln)] + [(mav.sibling(rnd, st, ln), ln) for _ in range(3)]
        case.hit("related layouts")
    model, ref = BufferModel(window_size=w), fieldref.RefModel(w)
    base = {}
    if rnd.random() < 0.3:    # fields which were given a window of their own, and a first sample
        lay = [f for st, _ in structures for f in mav.layout(st)]
        given = {}
        for name, t, _, _ in rnd.sample(lay, min(len(lay), rnd.randint(1, 6))):
            if name in given:
                continue
            ref.own[name] = rnd.choice([None, 1, 2, 5, 12])
            first = 3.0 if t == "float" else 3
            ref.samples[name], ref.types[name] = [first], t
            given[name] = FieldModel(name, t, ref.own[name])
            given[name].add_sample(first)
        if rnd.random() < 0.5:
            model = BufferModel(given, w)
        else:
            for name, own in given.items():
                model[name] = own
        case.hit("window of its own")
    n = rnd.choice([0, 1, 2, 3, rnd.randint(4, 25)])
    if case.index % 200 == 7:
        n = rnd.randint(260, 330)   # long enough for counters to overflow a byte
        case.hit("long history")
    case.note(w, [s for s, _ in structures], n, case.index)
    case.interesting(n >= 2)
    make = lambda st, ln: mav.fill_structure(rnd, st, ln, rnd.choice([0, 7, 250]), rnd.choice([1, 1, 9]), 0, lambda mid: gentle(rnd, mid, base))
    loaded = False
    for i in range(n):
        st, ln = rnd.choice(structures)
        buf = make(st, ln)
        keep = dict(st)
        if rnd.random() < 0.5:
            model.add_buffer(buf, st)
        else:
            b = mav.bits_of(buf).astype(rnd.choice([np.int_, np.uint8]))
            b0 = b.copy()
            model.add_buffer(b, st)
            case.array_equal(b, b0, "learning altered the buffer")
        case.equal(st, keep, "structure altered")
        ref.add(buf, st)
        names = [f[0] for f in mav.layout(st)]
        case.hit("repeated field names", len(names) != len(set(names)))
        case.hit("buffers learned")
        case.hit("learning after load", loaded)
        case.hit("window exceeded", w is not None and ref.count > w)
        if rnd.random() < 0.15:
            st2, ln2 = rnd.choice(structures)
            check_predict(case, model, ref, make(st2, ln2), st2, rnd.random() < 0.5)
        if rnd.random() < 0.1:
            model = save_load(case, model, ref, structures, make)
            loaded = True
    check_state(case, model, ref)
    for st, ln in structures:
        check_predict(case, model, ref, make(st, ln), st, rnd.random() < 0.5)
        check_predict(case, model, ref, bytes(rnd.getrandbits(8) for _ in range(ln + 2)), st, rnd.random() < 0.5)
    check_state(case, model, ref)  # prediction learns nothing
    if rnd.random() < 0.5:
        model = save_load(case, model, ref, structures, make)
        check_state(case, model, ref)
    for bad in ("text", [1, 2], None):
        case.raises(ValueError, lambda: model.predict(bad, structures[0][0]), "prediction of no buffer")
        case.raises(ValueError, lambda: model.add_buffer(bad, structures[0][0]), "learning of no buffer")


seg = BufferSegmentation(meta.protocol_parser)


def save_load(case, model, ref, structures, make):
    rnd = case.rnd
    desc = None
    if rnd.random() < 0.6:
        st, ln = structures[0]
        _, desc = seg.get_msg_fields(make(st, ln))
        model.set_buffer_description(list(desc))
        want_names = [d[0] for d in desc if not isinstance(d, (str, bytes))]
        case.equal(list(model.ordered_field_names), want_names, "fields of the description")
    elif model.get_buffer_description() is not None:
        desc = model.get_buffer_description()
    probes = [(st, make(st, ln)) for st, ln in structures]
    before = [snapshot(model, st, b) for st, b in probes]
    fd, path = tempfile.mkstemp(dir=os.environ.get("VT_SCRATCH"))
    os.close(fd)
    try:
        model.save(path)
        case.equal([snapshot(model, st, b) for st, b in probes], before, "saving changed the model")
        new = BufferModel.load(path)
    finally:
        os.unlink(path)
    case.equal([snapshot(new, st, b) for st, b in probes], before, "predictions of the loaded model")
    check_state(case, new, ref)
    case.equal(new.window_size, model.window_size, "window of the loaded model")
    norm = lambda d: None if d is None else [tuple(x) if isinstance(x, (list, tuple)) else x for x in d]
    case.equal(norm(new.get_buffer_description()), norm(desc), "description of the loaded model")
    for f in new:
        case.equal(f.window_size, model[f.name].window_size, "window of a loaded field")
    case.hit("saved and loaded")
    return new


SHIPPED = sorted(glob.glob(os.path.join(REPO, "runs/*/data/model_*.json")) + glob.glob(os.path.join(REPO, "runs/*/*/model_*.json")))
SHIPPED = sorted(set(SHIPPED))


def shipped(case):
    """the models shipped with the recordings: loaded exactly, predictions as the raw samples imply, round trip"""
    path = SHIPPED[case.index % len(SHIPPED)]
    raw = json.load(open(path))
    model = BufferModel.load(path)
    case.note(os.path.relpath(path, REPO), case.index)
    case.interesting()
    rnd = case.rnd
    case.equal(model.model_size, raw.get("model_size"), "model size")
    case.equal(set(model.fields_names()), set(raw["field_models"]), "fields")
    for name in rnd.sample(sorted(raw["field_models"]), 3):
        s = raw["field_models"][name]["samples"]
        mean, std = fieldref.exact_stats(s)
        case.close(model[name].mean, float(mean), "mean of a shipped field", rtol=1e-9, atol=1e-9)
        case.close(model[name].std, std, "deviation of a shipped field", rtol=1e-6, atol=1e-9)
    st = {0: 33, 52: 234, 72: 30, 108: 212, 135: 218}
    buf = mav.fill_structure(rnd, st, 153)
    before = snapshot(model, st, buf)
    fd, p = tempfile.mkstemp(dir=os.environ.get("VT_SCRATCH"))
    os.close(fd)
    try:
        model.save(p)
        new = BufferModel.load(p)
    finally:
        os.unlink(p)
    case.equal(snapshot(new, st, buf), before, "round trip of a shipped model")
    case.equal((new.model_size, new.window_size, new.get_buffer_description()), (model.model_size, model.window_size, model.get_buffer_description()), "round trip")
    case.hit("shipped models")


WORKLOADS = [("shipped", shipped, 8, 32), ("history", history, 640, 16000)]
