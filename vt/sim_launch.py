"""Run one program of the repository in the current (scratch) directory while recording every buffer handed to a decoder.

usage: sim_launch.py REPO SCRIPT EVENTS [program arguments]
Each top level call of a decoder is appended to EVENTS.<pid> as a pickled (class name, input) pair: worker processes which the program forks
record too. Bit flipping decoders take the first of equally good bits instead of a random one. Nothing else of the program is touched.
"""
import os
import pickle
import runpy
import sys

repo, script, events = sys.argv[1:4]
sys.argv = [script] + sys.argv[4:]
sys.path.insert(0, repo)
sys.path[1:1] = [os.path.dirname(script)]

import warnings
warnings.simplefilter("ignore")
import numpy as np
import decoders
import ldpc.decoder

np.random.choice = lambda candidates: candidates[0]
depth = 0
files = {}


def record(name, x):
    pid = os.getpid()
    if pid not in files:
        files.clear()
        files[pid] = open(f"{events}.{pid}", "ab")
    pickle.dump((name, np.array(x)), files[pid])
    files[pid].flush()


def wrap(cls, method):
    fn = cls.__dict__.get(method)
    if fn is None or not callable(fn):
        return

    def spy(self, x, *a, **kw):
        global depth
        if depth == 0:
            record(cls.__name__, x)
        depth += 1
        try:
            return fn(self, x, *a, **kw)
        finally:
            depth -= 1
    setattr(cls, method, spy)


for mod in (decoders, ldpc.decoder):
    for c in {v for v in vars(mod).values() if isinstance(v, type)}:
        wrap(c, "decode_buffer")
        wrap(c, "decode")
runpy.run_path(script, run_name="__main__")
