"""telemetry traffic for decoder workloads: codewords whose info bits hold MAVLink messages, and channel outputs"""
import numpy as np
from vt import mav, dec
from checks.c10 import gentle


class Traffic:
    """n_types structures; word(t) -> (info bits, structure) with the same structure and slowly changing values"""

    def __init__(self, rnd, n_types=1, n_msgs=None, pad=None, ids=None):
        self.rnd = rnd
        self.types = []
        related = n_types > 1 and rnd.random() < 0.3  # types easily mistaken for each other
        for _ in range(n_types):
            if related and self.types:
                st, ln = self.types[0]
                ln += rnd.choice([0, 1, 4])
                self.types.append((mav.sibling(rnd, st, ln), ln))
                continue
            st, ln = mav.rand_structure(rnd, n_msgs=n_msgs or rnd.randint(1, 2), ids=ids or mav.SCALAR_IDS)
            self.types.append((st, ln))
        self.length = max(ln for _, ln in self.types) + (pad if pad is not None else rnd.choice([0, 0, 1, 3]))
        self.base = [dict() for _ in self.types]
        self.pad_bytes = [bytes(rnd.randrange(256) if rnd.random() < .3 else 0 for _ in range(self.length - ln)) for _, ln in self.types]

    def buffer(self, t=0):
        st, ln = self.types[t]
        b = mav.fill_structure(self.rnd, st, ln, self.rnd.choice([0, 0, 7]), 1, 0, lambda mid: gentle(self.rnd, mid, self.base[t]))
        return b + self.pad_bytes[t]

    def info(self, t=0):
        return mav.bits_of(self.buffer(t)).astype(np.int_)
