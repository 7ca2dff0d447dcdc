"""
Check harness: deterministic case streams, event counting, three-valued verdict,
evidence and replay files.

A check module (checks/cXX.py) defines

    PROPERTY, RULE, ASSUMPTIONS, REQUIRE   (see run.py)
    WORKLOADS = [Workload(name, fn, quick, thorough), ...]

where fn(case) runs the REAL code of /repo on the case made from case.rng while
observing it, and reports what it saw through the Case object:

    case.ev(name)            a monitor observed an event of this kind
    case.distinct(obj)       fingerprint of a distinct, non-trivial case
    case.sample(obj)         a case written out, for the evidence
    case.fail(what, ...)     the oracle rejected what was observed
    case.finding(key, what)  ditto, but identified by a mechanism key which may be
                             listed in known_findings.txt

A case which raises from code under test on an input the oracle holds for valid is a
violation too; an exception of the harness itself ends the check with exit code 2.
"""
import hashlib
import json
import os
import random
import re
import sys
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = "/repo/src"


class Violation(Exception):
    pass


class Hang(BaseException):
    """not an Exception: code which expects a refusal must not take it for one"""


class Workload:
    def __init__(self, name, fn, quick, thorough=None, serial=False, timeout=60):
        self.name = name
        self.fn = fn
        # a quick check takes 5 to 60 s on 8 cores
        self.quick = quick * 3 if quick >= 100 and thorough is None else quick
        self.thorough = thorough if thorough is not None else quick * 25
        self.serial = serial
        self.timeout = timeout  # s, for one case


class Case:
    def __init__(self, prop, seed, tier, workload, index):
        self.prop = prop
        self.seed = seed
        self.tier = tier
        self.workload = workload
        self.index = index
        self.rng = random.Random(f"{seed}/{prop}/{workload}/{index}")
        self.events = Counter()
        self.fingerprints = set()
        self.samples = []
        self.violations = []  # (key or None, text)
        self.notes = {}
        self.hung = False

    def ev(self, name, n=1):
        self.events[name] += n

    def distinct(self, obj):
        self.fingerprints.add(
            hashlib.blake2b(repr(obj).encode(), digest_size=8).hexdigest()
        )

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def note(self, **kw):
        """context of the case, written in the replay file"""
        self.notes.update(kw)

    def fail(self, what, **detail):
        raise Violation(_text(what, detail))

    def check(self, ok, what, **detail):
        if not ok:
            self.fail(what, **detail)

    def finding(self, key, what, **detail):
        self.violations.append((key, _text(what, detail)))

    def run(self, fn):
        try:
            fn(self)
        except Violation as e:
            self.violations.append((None, str(e)))
        except (Exception, Hang) as e:  # noqa
            self.hung = isinstance(e, Hang)
            tb = traceback.extract_tb(e.__traceback__)
            text = "".join(traceback.format_exception(e))[-3000:]
            if any(f.filename.startswith(REPO_SRC) for f in tb):
                self.violations.append(
                    (None, "unexpected exception on a valid input:\n" + text)
                )
            elif uninterpretable(e):
                self.violations.append(
                    (None, "what was observed is not of the form it should have:\n" + text)
                )
            else:
                raise


def uninterpretable(e):
    """
    an oracle that fails to read what the code gave (a matrix of numbers that is not one,
    a missing key or file): an observation; a changed interface (a name, a signature) or a
    failure of the machine is not
    """
    if isinstance(e, TypeError):
        return "argument" not in str(e)
    if isinstance(e, OSError):
        return isinstance(e, FileNotFoundError)
    return isinstance(e, (ValueError, LookupError, ArithmeticError, AssertionError))


def _text(what, detail):
    if detail:
        what += "\n" + "\n".join(f"  {k}: {v}" for k, v in detail.items())
    return what


def known_findings(prop):
    """key -> description, for findings recorded as known (not the fixed ones)"""
    res = {}
    path = os.path.join(VERIF, "known_findings.txt")
    with open(path) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


def raises(fn, *exc):
    """returns the exception raised by fn (of the given types), or None"""
    try:
        fn()
    except exc or Exception as e:
        return e
    return None


def close(a, b, tol=1e-9):
    if a == b:
        return True
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
