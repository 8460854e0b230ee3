"""C40 dialects made from definitions speak the wire format of these definitions"""
import contextlib
import importlib.util
import io
import os
import re
import shutil
import sys
import tempfile
import xml.etree.ElementTree as ET
from vt import core, gen_spec, mav
from checks.c05 import one, corrupt, rejected, value, encode
import mavlink_utils.utils as subject
import mavlink_utils.HC_dialect as hc
import mavlink_utils.minimal_dialect as mini

RULE = ("random definition files (1-10 messages with ids in any order, scalar, array and text fields of all types up to full payloads, extension fields, enums, units outside the standard list, included files) and the two "
        "definition files of the repository turned into dialects at random absolute and relative paths; every message of the new module is packed with random values, compared byte for byte with the encoding derived from the "
        "definitions, decoded back and corrupted; C headers are read back; definitions with one defect (schema, duplicated id or name, unknown enum, broken text) must leave nothing. Non-trivial: every case")
SCALE = 1
REQUIRED = ["dialects generated", "default language", "python by name", "packed", "decoded", "array values", "string values", "bit flips rejected", "extension fields", "included definitions", "custom units",
            "wire order differs", "full payload", "relative path", "path without suffix", "shipped definitions", "C headers", "refused: schema", "refused: id", "refused: text", "refused: enum", "repeated generation", "enum values"]
TYPES = ["uint64_t", "int64_t", "double", "uint32_t", "int32_t", "float", "uint16_t", "int16_t", "uint8_t", "int8_t"]
WORDS = ["alt", "depth", "speed", "mode", "roll", "yaw", "gain", "temp", "range", "azimuth", "volt", "load", "hdg", "lat", "lon", "pressure", "salinity", "count", "errors", "tag"]


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="c40-", dir=os.environ.get("VT_SCRATCH"))
    here = os.getcwd()
    try:
        yield d
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


def make(*args, **kw):
    """run the generator, return the error (None, an exception or the status of an exit)"""
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        try:
            subject.dialect_creator(*args, **kw)
        except SystemExit as e:
            return e
        except Exception as e:
            return e
    return None


def load(path, name):
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    try:
        sys.dont_write_bytecode = True
        spec.loader.exec_module(mod)
    finally:
        sys.modules.pop(name, None)
    return mod


def field(rnd, used, room, t=None):
    t = t or rnd.choice(TYPES + ["char"])
    size = gen_spec.SIZES[t]
    if size > room:
        t, size = "uint8_t", 1
    n = rnd.choice([0, 0, 0, rnd.randint(2, 12), rnd.randint(2, 60)]) if t != "char" else rnd.randint(2, 50)
    if size * max(n, 1) > room:
        n = 0 if t != "char" else room
        if t == "char" and room < 2:
            t, n = "uint8_t", 0
    while True:
        name = rnd.choice(WORDS) + rnd.choice(["", "_x", "_raw", str(rnd.randint(0, 99))])
        if name not in used:
            used.add(name)
            return name, t, n


def message(rnd, mid, names, enums, case):
    while True:
        name = "_".join(w.upper() for w in rnd.sample(WORDS, rnd.randint(1, 3))) + rnd.choice(["", f"_{rnd.randint(0, 99)}"])
        if name not in names and not any(name.startswith(x + "_") or x.startswith(name + "_") for x in names):
            names.add(name)
            break
    room = rnd.choice([255, 255, 60, 20])
    used, fields, taken = set(), [], 0
    full = rnd.random() < 0.15
    for _ in range(rnd.choice([1, 2, 4, 8, 20])):
        if room - taken < 1:
            break
        f = field(rnd, used, room - taken)
        fields.append(f)
        taken += gen_spec.SIZES[f[1]] * max(f[2], 1)
    if full and 1 < 255 - taken:
        fields.insert(rnd.randint(0, len(fields)), field(rnd, used, 0) and ("filling", "uint8_t", 255 - taken))
        case.hit("full payload")
    m = ET.Element("message", id=str(mid), name=name)
    ET.SubElement(m, "description").text = rnd.choice(["A message.", "Position of the vehicle, \"as estimated\" (deg & m)", "x"])
    for fname, t, n in fields:
        e = ET.SubElement(m, "field", type=t + (f"[{n}]" if n else ""), name=fname)
        e.text = "value of it"
        if rnd.random() < 0.2:
            u = rnd.choice(["m", "m/s", "furlong", "dBar2"])
            e.set("units", u)
            case.hit("custom units", u in ("furlong", "dBar2"))
        if enums and n == 0 and t in ("uint8_t", "uint16_t", "uint32_t") and rnd.random() < 0.4:
            e.set("enum", rnd.choice(enums))
    if rnd.random() < 0.2:    # fields of the second generation of the protocol, not part of the first
        ET.SubElement(m, "extensions")
        for _ in range(rnd.randint(1, 3)):
            fname, t, n = field(rnd, used, 20)
            ET.SubElement(m, "field", type=t + (f"[{n}]" if n else ""), name=fname).text = "later addition"
        case.hit("extension fields")
    return m


def definitions(case, ids, names, prefix, include=None):
    rnd = case.rnd
    root = ET.Element("mavlink")
    if include:
        ET.SubElement(root, "include").text = include
    if rnd.random() < 0.7 or not include:
        ET.SubElement(root, "version").text = "3"
    enums, values = [], {}
    if rnd.random() < 0.6:
        es = ET.SubElement(root, "enums")
        for i in range(rnd.randint(1, 3)):
            e = ET.SubElement(es, "enum", name=f"{prefix}_KIND_{i}")
            enums.append(f"{prefix}_KIND_{i}")
            for k, v in enumerate(sorted(rnd.sample(range(200), rnd.randint(1, 5)))):
                x = ET.SubElement(e, "entry", value=str(v), name=f"{prefix}_KIND_{i}_V{k}")
                ET.SubElement(x, "description").text = "one of them"
                values[f"{prefix}_KIND_{i}_V{k}"] = v
    ms = ET.SubElement(root, "messages")
    for mid in ids:
        ms.append(message(rnd, mid, names, enums, case))
    return root, values


def save(root, path):
    with open(path, "wb") as f:
        f.write(b"<?xml version='1.0'?>\n" + ET.tostring(root))


def random_set(case, d, ids=None, include=True):
    rnd = case.rnd
    ids = ids or rnd.sample(range(256), rnd.choice([1, 2, 4, 10]))
    names = set()
    cut = rnd.randint(1, len(ids) - 1) if include and len(ids) > 1 and rnd.random() < 0.35 else len(ids)
    base = rnd.choice(["defs", "My_dialect", "vehicle.v2"])
    values = {}
    spec = {}
    if cut < len(ids):
        sub, v = definitions(case, ids[cut:], names, "SUB")
        values.update(v)
        save(sub, os.path.join(d, "common.xml"))
        spec.update(gen_spec.spec(os.path.join(d, "common.xml")))
        case.hit("included definitions")
    root, v = definitions(case, ids[:cut], names, "TOP", "common.xml" if cut < len(ids) else None)
    values.update(v)
    path = os.path.join(d, base + ".xml")
    save(root, path)
    spec.update(gen_spec.spec(path))
    return path, spec, values


class Known:
    """the dialect, with frames of unknown ids counted as rejected (newer generators hand them out as unparsed data)"""

    def __init__(self, lib):
        self.MAVError = lib.MAVError
        self.lib = lib

    def MAVLink(self, *a):
        known = self

        class Link:
            def decode(self, buf):
                m = known.lib.MAVLink(*a).decode(buf)
                if m.get_type().startswith("UNKNOWN_"):
                    raise known.MAVError("unknown message")
                return m
        return Link()


def speak(case, lib, spec, full):
    rnd = case.rnd
    case.equal(lib.WIRE_PROTOCOL_VERSION, "1.0", "protocol generation of the dialect")
    case.equal(sorted(lib.mavlink_map), sorted(spec), "message ids of the dialect")
    ids = sorted(spec) if full else rnd.sample(sorted(spec), min(len(spec), 6))
    for mid in ids:
        case.equal(getattr(lib, "MAVLINK_MSG_ID_" + spec[mid]["name"]), mid, "named id")
        case.hit("wire order differs", [f[0] for f in spec[mid]["fields"]] != [f[0] for f in spec[mid]["wire"]])
        f = one(case, lib, spec, mid)
        if len(spec) < 250:
            corrupt(case, Known(lib), spec, f, False)


def python_dialects(case):
    rnd = case.rnd
    with scratch() as d:
        path, spec, values = random_set(case, d)
        out = os.path.join(d, "out")
        os.mkdir(out)
        name = rnd.choice(["dialect", "gen_1"])
        target = os.path.join(out, name + rnd.choice([".py", ".py", ""]))
        case.hit("path without suffix", not target.endswith(".py"))
        if rnd.random() < 0.4:
            os.chdir(d)
            target, path = os.path.relpath(target, d), os.path.relpath(path, d)
            case.hit("relative path")
        kind = rnd.choice(["default", "keyword", "name"])
        case.note(sorted(spec), target, kind, open(path).read()[:3000])
        before = {f: open(os.path.join(d, f), "rb").read() for f in os.listdir(d) if f.endswith(".xml")}
        for again in range(rnd.choice([1, 1, 2])):
            if kind == "default":
                err = make(target, path)
                case.hit("default language")
            elif kind == "keyword":
                err = make(output_dialects_path=target, xml_path=path, protocol_language=rnd.choice(["python", "Python"]))
                case.hit("python by name")
            else:
                err = make(target, path, rnd.choice(["python", "Python"]))
            case.check(err is None, "valid definitions were refused", repr(err)[:300])
            case.hit("repeated generation", again == 1)
        case.equal(os.listdir(out), [name + ".py"], "files made")
        case.equal({f: open(os.path.join(d, f), "rb").read() for f in os.listdir(d) if f.endswith(".xml")}, before, "definition files after the generation")
        try:
            lib = load(os.path.join(out, name + ".py"), "generated_dialect")
        except Exception as e:
            case.check(False, "the dialect cannot be imported", repr(e)[:300])
            return
        case.hit("dialects generated")
        for k, v in values.items():
            case.equal(getattr(lib, k, None), v, f"enum value {k}")
            case.hit("enum values")
        speak(case, lib, spec, False)
        # two dialects in one process keep apart
        m = rnd.choice(sorted(mav.MINIMAL))
        one(case, mini, mav.MINIMAL, m)


def shipped(case):
    """the dialects in the repository are what their definitions give"""
    rnd = case.rnd
    which = case.index % 2
    spec, lib0, base = [(mav.MINIMAL, mini, "minimal_dialect"), (mav.HC, hc, "HC_dialect")][which]
    with scratch() as d:
        out = os.path.join(d, base + ".py")
        err = make(out, os.path.join(core.REPO, "mavlink_utils", base + ".xml"))
        case.note(base)
        case.check(err is None, "shipped definitions were refused", repr(err)[:300])
        case.equal(os.listdir(d), [base + ".py"], "files made")
        lib = load(out, "generated_dialect")
        speak(case, lib, spec, True)
        case.equal(sorted(lib.mavlink_map), sorted(lib0.mavlink_map), "ids of the generated and the shipped dialect")
        for mid in sorted(spec):
            m = spec[mid]
            if any(t == "char" for _, t, _ in m["fields"]):
                continue
            vals = [value(rnd, t, n) for _, t, n in m["fields"]]
            frames = []
            for x in (lib, lib0):
                link = x.MAVLink(None, srcSystem=7, srcComponent=9)
                frames.append(bytes(getattr(link, m["name"].lower() + "_encode")(*vals).pack(link)).hex())
            case.equal(frames[0], frames[1], f"{m['name']} packed by the generated and the shipped dialect")
        case.hit("shipped definitions")
        case.interesting(True)


def c_headers(case):
    rnd = case.rnd
    with scratch() as d:
        path, spec, values = random_set(case, d, include=False)
        out = os.path.join(d, "headers")
        if rnd.random() < 0.5:
            os.mkdir(out)
        case.note(sorted(spec), open(path).read()[:3000])
        err = make(out, path, rnd.choice(["c", "C"]))
        case.check(err is None, "valid definitions were refused for C", repr(err)[:300])
        case.check(not os.path.exists(out + ".py"), "a Python dialect was made instead of C headers")
        base = os.path.basename(path)[:-4]
        text = {}
        for root, _, files in os.walk(out):
            for f in files:
                text[f] = open(os.path.join(root, f)).read()
        got = {}
        for f, t in text.items():
            for m in re.finditer(r"#define MAVLINK_MSG_ID_(\w+) (\d+)\b", t):
                if f.startswith("mavlink_msg_"):
                    got.setdefault(f, {})[m.group(1)] = int(m.group(2))
        for mid, m in spec.items():
            f = f"mavlink_msg_{m['name'].lower()}.h"
            case.check(f in got, f"no header of message {m['name']}", sorted(text)[:20])
            if f in got:
                case.equal(got[f].get(m["name"]), mid, f"id of {m['name']} in its header")
                case.equal(got[f].get(m["name"] + "_LEN"), m["length"], f"length of {m['name']} in its header")
                case.equal(got[f].get(f"{mid}_CRC"), m["crc_extra"], f"checksum byte of {m['name']} in its header")
        case.equal(sorted(f for f in text if f.startswith("mavlink_msg_")), sorted(f"mavlink_msg_{m['name'].lower()}.h" for m in spec.values()), "headers made")
        marks = re.findall(r"#define MAVLINK_STX (\d+)", "".join(text.values()))
        case.equal(set(marks), {"254"}, "start marker of the headers")
        case.hit("C headers")
        case.interesting(True)


def refused(case):
    """one defect in the definitions: no dialect may be made from them"""
    rnd = case.rnd
    with scratch() as d:
        ids = rnd.sample(range(256), rnd.choice([2, 4, 8]))
        path, spec, _ = random_set(case, d, ids, include=False)
        tree = ET.parse(path)
        ms = list(tree.getroot().iter("message"))
        m = rnd.choice(ms)
        kind = rnd.choice(["schema: no name", "schema: no type", "schema: tag", "id", "id", "text", "enum", "schema: id"])
        if kind == "schema: no name":
            del m.attrib["name"]
        elif kind == "schema: no type":
            e = m.find("field")
            e.set("type", rnd.choice(["", "uint7_t", "uint8_t[0x]", "string"]))
        elif kind == "schema: tag":
            ET.SubElement(m, "comment").text = "x"
        elif kind == "schema: id":
            m.set("id", rnd.choice(["-1", "abc", ""]))
        elif kind == "id":
            other = rnd.choice([x for x in ms if x is not m])
            m.set("id", other.get("id"))
        elif kind == "enum":
            m.find("field").set("enum", "NO_SUCH_ENUM")
        data = b"<?xml version='1.0'?>\n" + ET.tostring(tree.getroot())
        if kind == "text":
            data = data[:rnd.randint(30, len(data) - 3)]
        with open(path, "wb") as f:
            f.write(data)
        case.note(kind, data.decode()[:3000])
        out = os.path.join(d, "out")
        os.mkdir(out)
        kw = rnd.choice([{}, {"protocol_language": "c"}])
        make(os.path.join(out, "x.py") if not kw else out, path, **kw)
        case.equal(os.listdir(out), [], f"files made from invalid definitions ({kind})")
        case.hit("refused: " + kind.split(":")[0])
        case.interesting(True)


WORKLOADS = [("python_dialects", python_dialects, 400, 8000), ("shipped", shipped, 8, 60), ("c_headers", c_headers, 60, 1000), ("refused", refused, 160, 3000)]
