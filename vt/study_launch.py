"""Run the clustering study of the repository in the current (scratch) directory while recording what its classifiers were given and answered.

usage: study_launch.py REPO SCRIPT EVENTS [program arguments]
Appends pickled (what, number of the instance in its process, input, answer) to EVENTS.<pid>, in worker processes too.
"""
import os
import pickle
import runpy
import sys

repo, script, events = sys.argv[1:4]
sys.argv = [script] + sys.argv[4:]
sys.path.insert(0, repo)
sys.path[1:1] = [os.path.dirname(script)]

import warnings
warnings.simplefilter("ignore")
import numpy as np
from inference import BufferClassifier, BMM

files, numbers, depth = {}, {}, [0]


def record(what, obj, x, y):
    pid = os.getpid()
    if pid not in files:
        files.clear()
        numbers.clear()
        files[pid] = open(f"{events}.{pid}", "ab")
    same = numbers.setdefault(type(obj).__name__, [])
    k = next((i for i, o in enumerate(same) if o is obj), None)
    if k is None:
        same.append(obj)
        k = len(same) - 1
    pickle.dump((what, k, np.array(x), None if y is None else np.array(y)), files[pid])
    files[pid].flush()


def wrap(cls, method, answer=True):
    fn = getattr(cls, method)

    def spy(self, x, *a, **kw):
        given = np.array(x)
        depth[0] += 1
        try:
            res = fn(self, x, *a, **kw)
        finally:
            depth[0] -= 1
        if depth[0] == 0:
            record(method, self, given, res if answer else None)
        return res
    setattr(cls, method, spy)


wrap(BufferClassifier, "classify")
wrap(BMM, "fit", False)
wrap(BMM, "predict")
runpy.run_path(script, run_name="__main__")
