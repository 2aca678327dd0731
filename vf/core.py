"""
Core of the monitoring framework: cases, verdicts, counters, evidence.

A check is a module vf.checks.<id lower case> with

    ID, LEVEL, RULE     strings
    CASES               {"quick": n, "thorough": n}: random cases to run
    REQUIRED            counters that must be non-zero, else the run is inconclusive
    case(ctx)           run one case: drive the real code, raise Violation when the oracle fails
    fixed(tier)         optional: list of (name, function(ctx)) deterministic cases run first

Verdicts are three-valued.  A case ends normally (held), with Violation (the
property is broken; so is an exception that escapes from the code under test
where the case is a legal one, and so are results that the monitor cannot read),
or with Skip (nothing was decided).  Other harness errors make the whole run
inconclusive (exit 2), never held.
"""
import hashlib
import json
import os
import signal
import random
import shutil
import sys
import tempfile
import time
import traceback
import warnings
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("VF_REPO", "/repo"))


UNUSABLE = (TypeError, AttributeError, ValueError, LookupError, ArithmeticError, RecursionError)
CASE_LIMIT = 150  # seconds, for cases that take at most a few


class Violation(Exception):
    """The monitored property was seen to be broken"""

    def __init__(self, key, message):
        super().__init__(key, message)
        self.key = key
        self.message = message


class Skip(Exception):
    """The case decided nothing"""


class Ctx:
    """What a case gets: its random source, its counters and its scratch directory"""

    def __init__(self, pid, seed, name, tier, scratch_root):
        self.pid = pid
        self.seed = seed
        self.name = str(name)
        self.tier = tier
        self.rng = random.Random("{}|{}|{}".format(pid, seed, name))
        self.counters = Counter()
        self.distinct = set()
        self.samples = []
        self.notes = {}
        self._root = scratch_root
        self._scratch = None

    @property
    def np_rng(self):
        import numpy

        return numpy.random.RandomState(self.rng.getrandbits(32))

    def count(self, name, n=1):
        self.counters[name] += n

    def nontrivial(self, *key):
        """Record that this case was non-trivial; key says what makes it distinct"""
        self.distinct.add(hashlib.md5(repr(key).encode()).hexdigest()[:16])

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(str(obj)[:600])

    def fail(self, key, message):
        raise Violation(key, message)

    def check(self, cond, key, message):
        self.counters["assertions"] += 1
        if not cond:
            raise Violation(key, message() if callable(message) else message)

    def scratch(self):
        if self._scratch is None:
            self._scratch = tempfile.mkdtemp(prefix="case-", dir=self._root)
        return self._scratch

    def cleanup(self):
        if self._scratch is not None:
            shutil.rmtree(self._scratch, ignore_errors=True)
            self._scratch = None


def from_repo(tb_exc):
    """Whether an exception was raised while code of /repo was on the stack"""
    for fr in traceback.extract_tb(tb_exc.__traceback__):
        fn = os.path.realpath(fr.filename)
        if fn.startswith(REPO + os.sep):
            return True
    return False


def run_one(mod, ctx, fn):
    """Run one case; returns (status, key, message)"""
    cwd = os.getcwd()
    limit = getattr(mod, "CASE_LIMIT", CASE_LIMIT)

    def late(signum, frame):
        raise Violation("no-termination", "a legal case that takes at most seconds did not end in {} s, it was at\n{}".format(
            limit, "".join(traceback.format_stack(frame)[-8:])))

    old = signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, limit, 20)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn(ctx)
        return ("held", None, None)
    except Skip:
        return ("skip", None, None)
    except Violation as v:
        return ("violation", v.key, v.message)
    except Exception as e:  # noqa
        txt = traceback.format_exc()
        if from_repo(e):
            return (
                "violation",
                "unexpected-exception-" + type(e).__name__,
                "legal case raised {}: {}\n{}".format(type(e).__name__, e, txt[-3000:]),
            )
        if isinstance(e, UNUSABLE):
            # The monitors handle every legal result (swept on the unchanged tree): the code under
            # test handed back something that is not one, such as an array of another kind
            return (
                "violation",
                "unusable-result-" + type(e).__name__,
                "the monitor could not read what the code under test produced: {}\n{}".format(e, txt[-3000:]),
            )
        return ("error", type(e).__name__, txt[-4000:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        os.chdir(cwd)
        ctx.cleanup()


def load_known(pid):
    """Entries of known_findings.txt for this property: {key: description}"""
    path = os.path.join(VERIF, "known_findings.txt")
    known = {}
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line.startswith("known:"):
                    continue
                fields = line[len("known:"):].strip().split(None, 2)
                if len(fields) < 2:
                    continue
                prop = fields[0].split("=", 1)[1]
                key = fields[1].split("=", 1)[1]
                if prop == pid:
                    known[key] = fields[2] if len(fields) > 2 else ""
    return known
