"""Shared monitoring runtime: cases, counters, verdicts, evidence.

A check module defines
  PROPERTY   its id
  RULE       how cases are made and what makes one non-trivial
  WORKLOADS  list of (name, function(case), quick_n, thorough_n)
  REQUIRED   list of monitor counters which must be non-zero for a "held" verdict
Every case gets its own PRNG, derived from (seed, property, workload, index), so that one case replays on its own.
Verdicts are three valued: violated (exit 1), held on what was observed (exit 0), inconclusive (exit 2).
"""
from __future__ import annotations
import hashlib
import lzma
import os
import pickle
import random
import signal
import sys
import time
import traceback

REPO = os.environ.get("VT_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """the property is broken on the current case"""


class NoAnswer(BaseException):
    """a case used up its processor time: the code under test does not come to an end"""


class HarnessError(Exception):
    """the machinery is wrong, not the code under test"""


def short(x, limit=400):
    s = repr(x)
    return s if len(s) <= limit else s[:limit] + f"...({len(s)} chars)"


class Case:
    """one execution of a workload, with its own PRNGs and the monitors' assertion functions"""

    def __init__(self, mon: "Monitor", workload: str, index: int):
        import numpy as np
        self.mon = mon
        self.workload = workload
        self.index = index
        key = f"{mon.seed}|{mon.prop}|{workload}|{index}".encode()
        h = int.from_bytes(hashlib.sha256(key).digest()[:8], "big")
        self.rng = np.random.default_rng(h)
        self.rnd = random.Random(h)
        np.random.seed(h % (2 ** 32))  # code under test may use the global generator
        random.seed(h)
        self.digest = hashlib.sha256()
        self.nontrivial = False
        self.log: list[str] = []

    # ---- recording
    def hit(self, name: str, n: int = 1) -> None:
        """count an observed event / evaluated monitor"""
        self.mon.counters[name] = self.mon.counters.get(name, 0) + int(n)

    def note(self, *xs) -> None:
        """feed the description of the case, used to count distinct cases and in samples / replays"""
        s = short(xs if len(xs) > 1 else xs[0], 600)
        self.log.append(s)
        self.digest.update(repr(xs).encode())

    def interesting(self, flag: bool = True) -> None:
        self.nontrivial = self.nontrivial or bool(flag)

    # ---- oracles
    def check(self, cond, msg, *details) -> None:
        self.mon.assertions += 1
        if not cond:
            raise Violation(msg + (" | " + "; ".join(short(d) for d in details) if details else ""))

    def equal(self, got, want, msg) -> None:
        self.mon.assertions += 1
        if got != want:
            raise Violation(f"{msg}: got {short(got)} want {short(want)}")

    def array_equal(self, got, want, msg) -> None:
        import numpy as np
        self.mon.assertions += 1
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape or not np.array_equal(got, want):
            where = np.flatnonzero(got.ravel() != want.ravel())[:8].tolist() if got.shape == want.shape else "shape"
            raise Violation(f"{msg}: differ at {where}, shapes {got.shape} {want.shape}; got {short(got)} want {short(want)}")

    def close(self, got, want, msg, rtol=1e-7, atol=1e-9) -> None:
        import numpy as np
        self.mon.assertions += 1
        got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        if got.shape != want.shape:
            raise Violation(f"{msg}: shapes {got.shape} != {want.shape}")
        ok = np.isclose(got, want, rtol=rtol, atol=atol, equal_nan=True)
        if not ok.all():
            i = np.flatnonzero(~ok.ravel())[:8]
            raise Violation(f"{msg}: differ at {i.tolist()}: got {got.ravel()[i].tolist()} want {want.ravel()[i].tolist()}")

    def raises(self, exc, fn, msg):
        self.mon.assertions += 1
        try:
            r = fn()
        except exc:
            return
        except Exception as e:
            raise Violation(f"{msg}: raised {type(e).__name__}({e}), expected {exc}")
        raise Violation(f"{msg}: returned {short(r)} instead of raising {exc}")


UNJUDGEABLE = (TypeError, ValueError, LookupError, AttributeError, ArithmeticError, AssertionError,
               EOFError, FileNotFoundError, StopIteration, pickle.UnpicklingError, lzma.LZMAError)   # the last ones: incomplete or missing files of programs


class Monitor:
    def __init__(self, prop: str, seed: int, tier: str):
        self.prop = prop
        self.seed = seed
        self.tier = tier
        self.counters: dict[str, int] = {}
        self.assertions = 0
        self.evaluations = 0
        self.distinct: set[str] = set()
        self.samples: dict[str, dict] = {}
        self.violations: list[dict] = []
        self.errors: list[str] = []
        self.known: set[str] = set()
        self.hung = False
        self.cpu_limit = 90 if tier == "quick" else 400  # processor time, not wall clock: load does not count
        signal.signal(signal.SIGPROF, self._no_answer)

    @staticmethod
    def _no_answer(*_):
        raise NoAnswer()

    def run_case(self, name, fn, index, keep_sample=True):
        case = Case(self, name, index)
        err = None
        try:
            signal.setitimer(signal.ITIMER_PROF, self.cpu_limit)
            try:
                fn(case)
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
        except Violation as v:
            err = str(v)
        except HarnessError as e:
            self.errors.append(f"{name}[{index}]: {e}")
            return
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            in_repo = [f for f in tb if f.filename.startswith(REPO + "/")]
            if not in_repo and (isinstance(e, UNJUDGEABLE) or type(e).__name__ == "MatReadError"):
                # the oracle could not even evaluate what the code returned (a missing part, another type or shape)
                raised = tb[-1]
                err = f"the result could not be judged: {type(e).__name__}: {e} (at {os.path.basename(raised.filename)}:{raised.lineno})"
                in_repo = tb
            elif not in_repo:
                self.errors.append(f"{name}[{index}]: harness error {type(e).__name__}: {e}\n{traceback.format_exc()}")
                return
            f = in_repo[-1]
            if isinstance(e, NoAnswer):
                self.hung = True
                e = NoAnswer(f"no end after {self.cpu_limit} s of processor time")
            err = err or f"unexpected {type(e).__name__}: {e} (at {os.path.relpath(f.filename, REPO)}:{f.lineno} {f.name})"
        self.evaluations += 1
        if err is not None:
            self.violations.append({"workload": name, "index": index, "message": err, "case": case.log})
            return
        if case.nontrivial:
            self.distinct.add(name + ":" + case.digest.hexdigest()[:24])
            if name not in self.samples and keep_sample:
                self.samples[name] = {"workload": name, "index": index, "case": case.log[:12]}

    def export(self):
        return {"counters": self.counters, "assertions": self.assertions, "evaluations": self.evaluations,
                "distinct": list(self.distinct), "samples": self.samples, "violations": self.violations,
                "errors": self.errors, "known": sorted(self.known)}


def log_err(*a):
    print(*a, file=sys.stderr)
