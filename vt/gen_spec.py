"""Derive the wire format of every message from the dialects' XML definitions, independently of the generated Python.

Run once (its outputs vt/hc_spec.json and vt/min_spec.json are committed); checks never read the XML at run time."""
import json
import os
import sys
import xml.etree.ElementTree as ET

SIZES = {"uint64_t": 8, "int64_t": 8, "double": 8, "uint32_t": 4, "int32_t": 4, "float": 4, "uint16_t": 2, "int16_t": 2,
         "uint8_t": 1, "int8_t": 1, "char": 1}


def crc16(data, crc=0xFFFF):
    for b in data:
        t = (b ^ (crc & 0xFF)) & 0xFF
        t = (t ^ (t << 4)) & 0xFF
        crc = ((crc >> 8) ^ (t << 8) ^ (t << 3) ^ (t >> 4)) & 0xFFFF
    return crc


def spec(path):
    res = {}
    for m in ET.parse(path).getroot().iter("message"):
        fields = []
        for el in m:
            if el.tag == "extensions":
                break
            if el.tag != "field":
                continue
            t = el.get("type")
            n = 0
            if "[" in t:
                t, n = t[:-1].split("[")
                n = int(n)
            if t == "uint8_t_mavlink_version":
                t = "uint8_t"
            fields.append([el.get("name"), t, n])
        wire = sorted(fields, key=lambda f: -SIZES[f[1]])  # stable
        s = (m.get("name") + " ").encode()
        crc = crc16(s)
        for name, t, n in wire:
            crc = crc16((t + " " + name + " ").encode(), crc)
            if n:
                crc = crc16(bytes([n]), crc)
        res[int(m.get("id"))] = {"name": m.get("name"), "fields": fields, "wire": wire,
                                 "crc_extra": (crc & 0xFF) ^ (crc >> 8),
                                 "length": sum(SIZES[t] * max(n, 1) for _, t, n in wire)}
    return res


if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    for src, dst in (("HC_dialect.xml", "hc_spec.json"), ("minimal_dialect.xml", "min_spec.json")):
        with open(os.path.join(here, dst), "w") as f:
            json.dump(spec(os.path.join("/repo/mavlink_utils", src)), f, indent=0, sort_keys=True)
