"""every decoder of the repository behind one interface: build(kind, ...) -> Unit with .run(llr, err) -> dict"""
from ldpc.decoder import bsc_llr
import numpy as np
from decoders import (MavlinkRectifyingDecoder, CombinedDecoder, ClassifyingEntropyDecoder, CombinedUnifiedDecoder,
                      ClassifyingDudeDecoder)
from decoders.entropy_bitwise_decoder import EntropyBitwiseDecoder, EntropyBitwiseFlippingDecoder, EntropyBitwiseWeightedDecoder
from decoders.turbo import TurboDecoder
from vt import dec

LOGSPA = ["classifying", "entropy", "flipping", "weighted", "mavlink", "combined", "unified", "dude", "turbo"]
BITFLIP = ["classifying-wbf", "classifying-gal"]
KINDS = LOGSPA + BITFLIP


class Unit:
    def __init__(self, kind, decoder, params, n_clusters, clustered):
        self.kind, self.d, self.params, self.n_clusters, self.clustered = kind, decoder, params, n_clusters, clustered

    def run(self, llr, err):
        k = self.kind
        if k in ("mavlink", "combined", "turbo"):
            r = self.d.decode_buffer(llr, err)
        elif k == "unified":
            r = self.d.decode_buffer(llr, err)
        else:
            r = self.d.decode_buffer(llr)
        out = {"raw": r, "estimate": r[0], "llr": r[1], "success": r[2], "iterations": r[3]}
        if k.startswith("classifying"):
            out.update(syndrome=r[4], validity=r[5], label=r[8], distribution=r[6], structural=r[7])
        elif k == "weighted":
            out.update(syndrome=r[4], validity=r[5], messages=r[6])
        elif k in ("entropy", "flipping"):
            out.update(messages=r[4])
        elif k == "mavlink":
            out.update(syndrome=r[4], validity=r[5], label=r[6])
        elif k in ("combined", "unified"):
            out.update(label=r[4])
        elif k == "dude":
            out.update(label=r[4], denoised=r[5])
        elif k == "turbo":
            del out["iterations"]
            out.update(which=r[3])
        return out


def params_for(kind, rnd, model_length):
    p = {}
    k = rnd.choice([1, 1, 2, 3])
    clustered = k > 1 and rnd.random() < 0.6
    train = rnd.randint(2, 6)
    flag = clustered if k > 1 else rnd.random() < 0.5   # with one type there is nothing to classify
    center, slope = rnd.choice([(0, 1.0), (3, 0.5), (2, 2.0), (5, 0.35)])
    if kind.startswith("classifying"):
        p = dict(entropy_threshold=rnd.choice([0.1, 0.3, 0.5, 0.9]), clipping_factor=rnd.choice([0.5, 1, 2, 5]),
                 classifier_training=train, n_clusters=k, window_length=rnd.choice([None, 3, 5]), conf_center=center, conf_slope=slope,
                 bit_flip=rnd.choice([0, 0.01, 0.05]), cluster=int(flag))
    elif kind == "entropy":
        p = dict(entropy_threshold=rnd.choice([0.1, 0.3, 0.9]), clipping_factor=rnd.choice([0.5, 1, 2, 5]), min_data=rnd.randint(1, 4),
                 window_length=rnd.choice([None, 3, 5]))
        k = 1
    elif kind == "flipping":
        p = dict(entropy_threshold=rnd.choice([0.1, 0.3, 0.9]), min_data=rnd.randint(1, 4), window_length=rnd.choice([None, 3, 5]))
        k = 1
    elif kind == "weighted":
        est = rnd.choice(["MLE", "MLE", "Bayes"])
        p = dict(entropy_threshold=rnd.choice([0.1, 0.3, 0.9]), clipping_factor=rnd.choice([0.5, 1, 2, 5]),
                 window_length=1000 if est == "Bayes" else rnd.choice([None, 3, 5]), a_conf_center=center, a_conf_slope=slope,
                 b_conf_center=rnd.choice([0, 3, 5]), b_conf_slope=rnd.choice([0.35, 1.0]), confidence=rnd.randint(0, 5), estimator=est,
                 bit_flip=rnd.choice([0, 0.01, 0.05]), corrected_dist=rnd.random() < 0.5)
        k = 1
    elif kind in ("mavlink", "combined", "unified"):
        p = dict(valid_thr=rnd.choice([0.01, 0.1, 0.4]), invalid_thr=rnd.choice([0.01, 0.05, 0.2]), n_clusters=k,
                 valid_factor=rnd.choice([1.2, 2, 4]), invalid_factor=rnd.choice([0.2, 0.5, 0.9]),
                 classifier_training_size=train if clustered else None, cluster=flag, window_length=rnd.choice([None, 3, 5]),
                 conf_center=center, conf_slope=slope)
        if kind == "mavlink":
            p["segmentation_iterations"] = rnd.choice([1, 1, 2, 3])
        else:
            p.update(entropy_threshold=rnd.choice([0.1, 0.3, 0.9]), clipping_factor=rnd.choice([0.5, 1, 2, 5]), bit_flip=rnd.choice([0, 0.01, 0.05]))
        if kind == "unified":
            p["flip"] = rnd.random() < 0.5
    elif kind == "dude":
        p = dict(clipping_factor=rnd.choice([0.5, 1, 2, 5]), classifier_training=train, n_clusters=k, context_length=rnd.choice([0, 1, 2]),
                 conf_center=center, conf_slope=slope, bit_flip=rnd.choice([0.01, 0.05, 0.1]), cluster=int(flag))
    elif kind == "turbo":
        p = dict(max_iter=rnd.randint(1, 4))
        k = 1
    return p, k, clustered, train


CLS = {"classifying": ClassifyingEntropyDecoder, "classifying-wbf": ClassifyingEntropyDecoder, "classifying-gal": ClassifyingEntropyDecoder,
       "entropy": EntropyBitwiseDecoder, "flipping": EntropyBitwiseFlippingDecoder, "weighted": EntropyBitwiseWeightedDecoder,
       "mavlink": MavlinkRectifyingDecoder, "combined": CombinedDecoder, "unified": CombinedUnifiedDecoder, "dude": ClassifyingDudeDecoder}


def build(kind, rnd, ldpc, model_length, params=None):
    p, k, clustered, train = params if params else params_for(kind, rnd, model_length)
    if kind == "turbo":
        # the first decoder of a turbo pair shares the interface of the others; its own ldpc decoder is the second one here
        first = ClassifyingEntropyDecoder(ldpc, model_length, 0.3, 2, 3, 1, conf_center=2, conf_slope=1.0)
        u = Unit(kind, TurboDecoder(first, ldpc, **p), p, 1, False)
    else:
        u = Unit(kind, CLS[kind](ldpc, model_length, **p), p, k, clustered)
    u.train = train
    u.model_length = model_length
    u.all = (p, k, clustered, train)
    return u


def spy(kind, code, rng, real=False, max_iter=20):
    if kind == "classifying-wbf":
        return dec.SpyWbf(code, rng, real, max_iter)
    if kind == "classifying-gal":
        return dec.SpyGal(code, rng, real, max_iter)
    # this one hands on hard bits, so that its code has to know the channel
    return dec.SpyLogSpa(code, rng, real, max_iter, bsc_llr(0.05) if kind == "flipping" else None)
