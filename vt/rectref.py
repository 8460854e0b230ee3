"""Reference of the rectification of a received word by field statistics and by recognised messages"""
import math
import struct
import numpy as np
from vt import mav, fieldref

NEAR = 2e-6


class Judgement:
    """per bit: probability that its field is valid, deviation of the field, value of constant fields; undecidable bits marked"""

    def __init__(self, ref, structure, bits):
        n = len(bits)
        self.p = np.full(n, np.nan)
        self.std = np.full(n, np.nan)
        self.const = np.zeros(n, dtype=int)     # bits of the constant, where the field is constant
        self.is_const = np.zeros(n, dtype=bool)
        self.unsure = np.zeros(n, dtype=bool)
        self.fields = []                        # (p, std, reliable)
        buf = np.packbits(np.asarray(bits, dtype=np.uint8)).tobytes()
        for name, t, b, ln in mav.layout(structure):
            sl = slice(b * 8, (b + ln) * 8)
            if name not in ref.samples:
                self.fields.append((math.nan, math.nan, True))
                continue
            v = struct.unpack("<" + mav.FMT[t], buf[b:b + ln])[0]
            p, s, rel = fieldref.classify(ref.samples[name], v)
            self.p[sl], self.std[sl] = p, s
            if any(isinstance(x, int) and abs(x) > 2 ** 50 for x in ref.samples[name] + [v]):
                rel = False     # beyond the integers which floating point statistics hold exactly
            self.unsure[sl] = not rel
            self.fields.append((p, s, rel))
            if s == 0:
                x = next(x for x in ref.samples[name] if not isinstance(x, float) or math.isfinite(x))
                if t == "float" and x == 0:     # the sign of a zero mean is not determined
                    self.unsure[sl] = True
                self.is_const[sl] = True
                self.const[sl] = np.unpackbits(np.frombuffer(struct.pack("<" + mav.FMT[t], x), dtype=np.uint8))

    def above(self, thr):
        """(mask of bits with p > thr, mask of bits where that cannot be decided)"""
        with np.errstate(invalid="ignore"):
            near = np.abs(self.p - thr) < NEAR if thr < 1 else np.zeros(len(self.p), dtype=bool)   # no probability exceeds one
            return self.p > thr, near | self.unsure

    def below(self, thr):
        with np.errstate(invalid="ignore"):
            near = np.abs(self.p - thr) < NEAR if thr > 0 else np.zeros(len(self.p), dtype=bool)   # none is below zero
            return self.p < thr, near | self.unsure

    def field_idx(self, thr, above):
        """(indices of fields beyond thr, undecidable indices)"""
        sure, unsure = [], set()
        for i, (p, s, rel) in enumerate(self.fields):
            if not rel or abs(p - thr) < NEAR and (thr < 1 if above else thr > 0):
                unsure.add(i)
            elif (p > thr) if above else (p < thr):
                sure.append(i)
        return sure, unsure


def recognised(obs, modified, k, valid_factor, unsure_sign):
    """apply the recognised-message rule; returns (word, recognised bits or None if it cannot be decided, source)"""
    def seg(word):
        parts, st = mav.segment(np.packbits((word[:k] < 0).astype(np.uint8)).tobytes())
        mask = np.zeros(len(word), dtype=bool)
        for i, x in enumerate(parts):
            if x != "UNKNOWN":
                mask[8 * i:8 * i + 8] = True
        return st, mask
    st, mask = seg(obs)
    out = modified.copy()
    if st:
        out[mask] = obs[mask] * 2 * valid_factor
        return out, mask, "received"
    if unsure_sign:
        return out, None, None
    st, mask = seg(modified)
    if st:
        out[mask] = out[mask] * 2
        return out, mask, "rectified"
    return out, mask, None


def factors(params, learning, conf):
    vf, inf = params["valid_factor"], params["invalid_factor"]
    if learning:
        vf, inf = (vf - 1) * conf + 1, (inf - 1) * conf + 1
    return vf, inf


def rectify(ref, structure, obs, k, params, learning, conf):
    """the plain (per field) rectification. returns dict(word, check, good, bad, segmented, forced, source)"""
    n = len(obs)
    j = Judgement(ref, structure, obs < 0)
    vf, inf = factors(params, learning, conf)
    good, g_un = j.above(1 - params["valid_thr"])
    bad, b_un = j.below(params["invalid_thr"])
    with np.errstate(invalid="ignore"):
        forced = j.is_const & (j.p <= 0) & ~j.unsure
    check = ~(g_un | b_un) | forced
    check &= ~j.unsure
    word = obs.copy()
    word[good] *= vf
    word[bad] *= inf
    word[forced] = (1.0 - 2 * j.const[forced]) * np.max(np.abs(obs)) * max(vf, 1)
    # an undecidable bit changes sign only by forcing, which is undecidable for unsure bits alone
    word, seg, source = recognised(obs, word, k, vf, bool((j.unsure & j.is_const).any()))
    if seg is None:
        check[:] = False
    elif source == "received":
        check |= seg
    return {"word": word, "check": check, "j": j, "segmented": seg, "forced": forced, "source": source, "good": good & ~g_un, "bad": bad & ~b_un,
            "good_fields": j.field_idx(1 - params["valid_thr"], True), "bad_fields": j.field_idx(params["invalid_thr"], False)}


def rectify_unified(ref, structure, obs, k, params, learning, conf, bits_ref, thr, ml, active, flip):
    """rectification limited to bits of low entropy; active: enough buffers were seen"""
    n = len(obs)
    j = Judgement(ref, structure, obs < 0)
    vf, inf = factors(params, learning, conf)
    word = obs.copy()
    check = ~j.unsure
    good = bad = np.zeros(n, dtype=bool)
    unsure_sign = bool((j.unsure & j.is_const).any())
    if active:
        low, near = bits_ref.structural(thr)
        steady, steady_un = np.zeros(n, dtype=bool), np.zeros(n, dtype=bool)
        steady[:ml], steady_un[:ml] = low, near
        p1 = np.full(n, 0.5)
        p1[:ml] = bits_ref.p1()
        good, g_un = j.above(1 - params["valid_thr"])
        bad, b_un = j.below(params["invalid_thr"])
        wrong = (p1 > 0.5) != (obs < 0)
        within = np.arange(n) < ml
        un = within & ((good & steady_un) | (g_un & (steady | steady_un)) | (bad & wrong & steady_un) | (b_un & wrong & (steady | steady_un)))
        check &= ~un
        good, bad = good & steady & ~un, bad & steady & wrong & ~un
        word[good] *= vf
        word[bad] *= inf * (-1 if flip else 1)
        unsure_sign |= flip and bool((un & wrong).any())
    with np.errstate(invalid="ignore"):
        forced = j.is_const & ~j.unsure & ((j.p <= 0) if learning else True)
    word[forced] = (1.0 - 2 * j.const[forced]) * np.max(np.abs(obs)) * max(vf, 1)
    check |= forced
    word, seg, source = recognised(obs, word, k, vf, unsure_sign)
    if seg is None:
        check[:] = False
    elif source == "received":
        check |= seg
    return {"word": word, "check": check, "forced": forced, "source": source, "good": good, "bad": bad, "j": j}
