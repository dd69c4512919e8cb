"""Shared vocabulary of the checks."""
import contextlib
import hashlib
import json
import os
import traceback

from vlib.boot import REPO


class Violation(Exception):
    """The property is broken by the case at hand."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Sub:
    """One generated check: strategy of JSON cases + deciding function.

    fn(case, rec) raises Violation, or returns after filling rec (labels, nontrivial).
    """

    def __init__(self, name, strategy, fn, quick, thorough=None, rule=""):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.rule = rule


class Rec:
    def __init__(self):
        self.nontrivial = False
        self.labels = set()

    def label(self, *names):
        self.labels.update(n for n in names if n)


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def from_repo(exc):
    """Did the exception travel through code of /repo?"""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        for f, _ in traceback.walk_tb(exc.__traceback__):
            if f.f_code.co_filename.startswith(REPO + "/"):
                return True
        # real pools attach the remote traceback as text
        if REPO + "/hadar" in str(getattr(exc, "__cause__", "") or ""):
            return True
        exc = exc.__cause__ or exc.__context__
    return False


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = [f for f in tb if f.filename.startswith(REPO + "/")]
    loc = "%s:%d" % (where[-1].filename, where[-1].lineno) if where else "?"
    return "%s: %s (at %s)" % (type(exc).__name__, str(exc)[:300], loc)


_HARD = (MemoryError, KeyboardInterrupt, SystemExit)


def sut(what, f, *a, **k):
    """Call the code under test with an input it must accept: any exception is a violation."""
    try:
        return f(*a, **k)
    except Violation:
        raise
    except _HARD:
        raise
    except OSError as e:
        if from_repo(e) and e.errno is None:
            raise Violation("%s raised %s" % (what, describe(e)))
        raise
    except Exception as e:
        raise Violation("%s raised %s" % (what, describe(e)))


def rejects(what, f, *a, kinds=(ValueError,), **k):
    """The code under test must refuse this call with one of `kinds`."""
    try:
        f(*a, **k)
    except Violation:
        raise
    except kinds:
        return
    except _HARD:
        raise
    except Exception as e:
        raise Violation("%s: expected %s, got %s" % (what, "/".join(x.__name__ for x in kinds), describe(e)))
    raise Violation("%s: accepted, expected %s" % (what, "/".join(x.__name__ for x in kinds)))


@contextlib.contextmanager
def reading(what):
    """Reading outputs of the code under test: a missing/odd-shaped output is a violation, not a harness error."""
    try:
        yield
    except Violation:
        raise
    except (KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
        raise Violation("%s: output unusable: %s: %s" % (what, type(e).__name__, str(e)[:300]))


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def digest(case):
    return hashlib.sha1(canon(case).encode()).hexdigest()


def seed_of(*parts):
    return int(hashlib.sha256(":".join(str(p) for p in parts).encode()).hexdigest()[:15], 16)
