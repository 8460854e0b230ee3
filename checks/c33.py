"""C33 instances do not interfere, and the same history gives the same results"""
import contextlib
import io
import random
import numpy as np
from vt import dec, zoo, mav
from vt.traffic import Traffic
from inference import BufferModel, BufferClassifier, BufferSegmentation, OnlineDude
from inference.entropy_mle import EMLE
from protocol_meta import dialect_meta as meta

RULE = ("two instances of the same decoder (all kinds) or component, each with its own stream, are run alone and then interleaved in random order; results, and every word "
        "handed to the inner decoder, are compared bit by bit. Supplied models and structures are shared by both. Non-trivial: the streams alternate at least twice")
REQUIRED = ["decoder pairs", "component pairs", "results compared", "inner words compared", "earlier results kept", "shared model untouched", "shared structures untouched",
            "same history again", "shared inner decoder"] + ["decoder " + k for k in zoo.KINDS] + ["component " + c for c in ("BufferModel", "BufferClassifier", "BufferSegmentation", "OnlineDude", "EMLE")]


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        try:
            return bool(np.array_equal(a, b, equal_nan=True))
        except TypeError:
            return bool(np.array_equal(a, b))
    try:
        return bool(a == b) or (a != a and b != b)
    except Exception:
        return repr(a) == repr(b)


def frozen(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, dict):
        return {k: frozen(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(frozen(v) for v in x) if type(x) in (list, tuple) else x
    return x


def compare(case, name, alone, mixed, what):
    for i, (a, b) in enumerate(zip(alone, mixed)):
        case.check(same(a, b), f"{name}: result {i} differs {what}", a, b)
        case.hit("results compared")


def schedule(rnd, na, nb):
    order = [0] * na + [1] * nb
    rnd.shuffle(order)
    return order


def decoders(case):
    rnd, rng = case.rnd, case.rng
    kind = zoo.KINDS[case.index % len(zoo.KINDS)]
    telemetry = kind in ("mavlink", "combined", "unified")
    small = [m for m in mav.SCALAR_IDS if mav.HC[m]["length"] <= 32]
    params = zoo.params_for(kind, rnd, 0)
    types = params[1]
    if telemetry:
        trs = Traffic(rnd, types, n_msgs=1, ids=small)
        k = trs.length * 8
        infos = [[trs.info(i % types) for i in range(rnd.randint(4, 8))] for _ in range(2)]
    else:
        k = rnd.choice([8, 16, 24])
        draws = [dec.source(rng, k, types) for _ in range(2)]
        infos = [[draws[j](i % types) for i in range(rnd.randint(4, 9))] for j in range(2)]
    code = dec.Code(rng, k, 8 if k % 8 == 0 else 16)
    model = structures = None
    if telemetry and rnd.random() < 0.5:
        structures = [dict(st) for st, _ in trs.types]
        if rnd.random() < 0.6:
            model = BufferModel(window_size=params[0]["window_length"])
            for _ in range(3):
                t = rnd.randrange(types)
                model.add_buffer(trs.buffer(t), trs.types[t][0])
    streams = []
    for j in range(2):
        s = []
        for info in infos[j]:
            word = code.encode(info)
            llr, err = dec.noisy(rng, word, rnd.choice([0, 0.02, 0.1]), rnd.choice(["bsc", "awgn"]))
            plan = [word if rnd.random() < 0.5 else (word + (rng.random(code.n) < 0.05)) % 2 for _ in range(8)]
            s.append((llr, err, plan))
        streams.append(s)
    case.note(kind, {a: b for a, b in params[0].items()}, k, structures, model is not None, [[x[0].tolist()[:8] for x in s] for s in streams])
    seeds = [rnd.randrange(2 ** 31), rnd.randrange(2 ** 31)]

    def make(j):
        ldpc = zoo.spy(kind, code, np.random.default_rng(seeds[j]))
        p = params
        if model is not None:
            p = (dict(params[0], data_model=model),) + params[1:]
        u = zoo.build(kind, random.Random(seeds[j]), ldpc, k, p)
        if structures is not None:
            u.d.set_buffer_structures(structures)
        return u, ldpc

    def step(u, ldpc, item):
        llr, err, plan = item
        ldpc.plan = [w.copy() for w in plan]
        r = u.run(llr.copy(), err.copy())["raw"]
        ldpc.plan = []
        return r

    before = repr(vars_of(model)) if model is not None else None
    keep_st = frozen(structures)
    alone, words = [], []
    with contextlib.redirect_stdout(io.StringIO()):
        for j in range(2):
            u, ldpc = make(j)
            res = [step(u, ldpc, it) for it in streams[j]]
            alone.append([frozen(r) for r in res])
            words.append([c.copy() for c in ldpc.calls])
        u, ldpc = make(0)
        res, kept = [], []
        for it in streams[0]:
            res.append(step(u, ldpc, it))
            kept.append(frozen(res[-1]))
        compare(case, kind, alone[0], res, "when the same history is run again")
        case.hit("same history again")
        compare(case, kind, kept, res, "from what it was when returned (altered by a later call)")
        case.hit("earlier results kept")
        us = [make(0), make(1)]
        order = schedule(rnd, len(streams[0]), len(streams[1]))
        pos, mixed = [0, 0], [[], []]
        for j in order:
            mixed[j].append(frozen(step(*us[j], streams[j][pos[j]])))
            pos[j] += 1
    for j in range(2):
        compare(case, kind, alone[j], mixed[j], f"when another instance is used in between (order {order})")
        got = us[j][1].calls
        case.equal(len(got), len(words[j]), f"{kind}: words decoded when another instance is used in between")
        for i, (a, b) in enumerate(zip(words[j], got)):
            case.array_equal(b, a, f"{kind}: word {i} handed to the code differs when another instance is used in between")
            case.hit("inner words compared")
    case.interesting(sum(a != b for a, b in zip(order, order[1:])) >= 2)
    if model is not None:
        case.equal(repr(vars_of(model)), before, f"{kind}: a supplied model was altered")
        case.hit("shared model untouched")
    if structures is not None:
        case.equal(structures, keep_st, f"{kind}: supplied structures were altered")
        case.hit("shared structures untouched")
    case.hit("decoder pairs")
    case.hit("decoder " + kind)


def sharing(case):
    """two decoders of any kinds and model lengths on one inner decoder, which must not notice"""
    rnd, rng = case.rnd, case.rng
    kinds = [rnd.choice(zoo.LOGSPA[:-1]) for _ in range(2)]
    small = [m for m in mav.SCALAR_IDS if mav.HC[m]["length"] <= 24]
    params = [zoo.params_for(kd, rnd, 0) for kd in kinds]
    trs = Traffic(rnd, 2, n_msgs=1, ids=small)
    k = trs.length * 8
    code = dec.Code(rng, k, 8)
    lengths = [k if kd in ("entropy", "flipping", "weighted") else 8 * rnd.randint(1, k // 8) for kd in kinds]
    streams = []
    for j in range(2):
        s = []
        for i in range(rnd.randint(4, 7)):
            word = code.encode(trs.info(i % 2))
            llr, err = dec.noisy(rng, word, rnd.choice([0, 0.02, 0.1]), rnd.choice(["bsc", "awgn"]))
            s.append((llr, err, [word if rnd.random() < 0.5 else (word + (rng.random(code.n) < 0.05)) % 2 for _ in range(8)], rnd.randrange(2 ** 31)))
        streams.append(s)
    case.note(kinds, lengths, k, [p[0] for p in params], [[x[0].tolist()[:8] for x in s] for s in streams])

    def inner():
        c = dec.Code(np.random.default_rng(0), k, 8)
        c.a, c.h, c.info_idx = code.a.copy(), code.h.copy(), np.array([True] * k + [False] * 8)
        return dec.SpyLogSpa(c, np.random.default_rng(0))

    def step(u, ldpc, item):
        llr, err, plan, seed = item
        ldpc.plan, ldpc._rng = [w.copy() for w in plan], np.random.default_rng(seed)
        ldpc.calls.clear()
        r = u.run(llr.copy(), err.copy())["raw"]
        ldpc.plan = []
        return frozen(r), [c.copy() for c in ldpc.calls]

    with contextlib.redirect_stdout(io.StringIO()):
        alone = []
        for j in range(2):
            ldpc = inner()
            u = zoo.build(kinds[j], rnd, ldpc, lengths[j], params[j])
            alone.append([step(u, ldpc, it) for it in streams[j]])
        ldpc = inner()
        us = [zoo.build(kinds[j], rnd, ldpc, lengths[j], params[j]) for j in range(2)]
        order = schedule(rnd, len(streams[0]), len(streams[1]))
        pos, mixed = [0, 0], [[], []]
        for j in order:
            mixed[j].append(step(us[j], ldpc, streams[j][pos[j]]))
            pos[j] += 1
    for j in range(2):
        compare(case, kinds[j], alone[j], mixed[j], f"when a {kinds[1 - j]} decoder shares the inner decoder (order {order})")
    case.array_equal(ldpc.info_idx, [True] * k + [False] * 8, "the shared inner decoder was altered")
    case.hit("shared inner decoder")
    case.interesting(sum(a != b for a, b in zip(order, order[1:])) >= 2)


def vars_of(model):
    """what a buffer model knows, through its public prediction"""
    buf = bytes(range(7, 7 + 200))
    out = []
    for mid in mav.SCALAR_IDS:
        with np.errstate(all="ignore"):
            f, b, s = model.predict(buf, {0: mid})
        out.append((mid, [tuple(repr(v) for v in x) for x in f], np.asarray(b).tolist()[:64]))
    return out + [model.model_size]


def components(case):
    rnd, rng = case.rnd, case.rng
    name = ("BufferModel", "BufferClassifier", "BufferSegmentation", "OnlineDude", "EMLE")[case.index % 5]
    n = [rnd.randint(3, 14), rnd.randint(3, 14)]
    length = rnd.choice([8, 24])
    if name == "BufferModel":
        small = [m for m in mav.SCALAR_IDS if mav.HC[m]["length"] <= 32]
        trs = [Traffic(rnd, 1, n_msgs=1, ids=small) for _ in range(2)]
        w = rnd.choice([None, 2, 4])
        make = lambda j: BufferModel(window_size=w)
        items = [[trs[j].buffer(0) for _ in range(n[j])] for j in range(2)]

        def step(o, j, b):
            p = o.predict(b, dict(trs[j].types[0][0])) if o.model_size else None
            o.add_buffer(b, dict(trs[j].types[0][0]))
            return p, o.model_size
    elif name == "BufferClassifier":
        kw = dict(min_data_size=rnd.randint(2, 6), k=rnd.randint(1, 3), classify_dist=rnd.choice(["LL", "hamming"]), merge_dist=rnd.choice(["Hellinger", "KlDiv"]))
        make = lambda j: BufferClassifier(**kw)
        items = [[rng.integers(0, 2, length) for _ in range(n[j])] for j in range(2)]
        step = lambda o, j, b: o.classify(b.copy())
    elif name == "BufferSegmentation":
        make = lambda j: BufferSegmentation(meta.protocol_parser)
        tr = Traffic(rnd, 2)
        items = [[bytes(tr.buffer(rnd.randrange(2)))[rnd.choice([0, 0, 3]):] + bytes(rnd.randrange(256) for _ in range(rnd.choice([0, 5]))) for _ in range(n[j])] for j in range(2)]
        step = lambda o, j, b: o.segment_buffer(b)
    elif name == "OnlineDude":
        f, k, hard = rnd.choice([0.05, 0.2]), rnd.randint(0, 3), rnd.random() < 0.5
        ch, loss = np.array([[1 - f, f], [f, 1 - f]]), np.array([[0, 1], [1, 0]])
        make = lambda j: OnlineDude(ch, loss, k, hard, 2)
        items = [[int(v) for v in rng.integers(0, 2, 4 * n[j])] for j in range(2)]
        step = lambda o, j, b: o.denoise_sample(b)
    else:
        kw = dict(f=0.05, threshold=rnd.choice([0.3, 0.9]), window_length=rnd.choice([0, 3]), conf_center=2, conf_slope=1.0)
        make = lambda j: EMLE(**kw)
        items = [[rng.normal(0, 3, length) for _ in range(n[j])] for j in range(2)]
        step = lambda o, j, b: o.denoise_buffer(b.copy())
    case.note(name, n, repr(items)[:400])
    alone = []
    for j in range(2):
        o = make(j)
        res = [step(o, j, b) for b in items[j]]
        alone.append(frozen(res))
    o = make(0)
    res, kept = [], []
    for b in items[0]:
        res.append(step(o, 0, b))
        kept.append(frozen(res[-1]))
    compare(case, name, alone[0], kept, "when the same history is run again")
    compare(case, name, kept, res, "from what it was when returned (altered by a later call)")
    case.hit("same history again")
    case.hit("earlier results kept")
    os_, pos, mixed = [make(0), make(1)], [0, 0], [[], []]
    order = schedule(rnd, len(items[0]), len(items[1]))
    for j in order:
        mixed[j].append(frozen(step(os_[j], j, items[j][pos[j]])))
        pos[j] += 1
    for j in range(2):
        compare(case, name, alone[j], mixed[j], f"when another instance is used in between (order {order})")
    case.interesting(sum(a != b for a, b in zip(order, order[1:])) >= 2)
    case.hit("component pairs")
    case.hit("component " + name)


WORKLOADS = [("decoders", decoders, 330, 6600), ("components", components, 600, 12000), ("sharing", sharing, 200, 4000)]
