"""Violations, skips and the per-case context handed to checks."""
import collections
import contextlib
import os
import traceback

from vlib.env import HarnessError, REPO


class Violation(Exception):
    """The property is broken on this case."""


class Skip(Exception):
    """This case decides nothing (e.g. size limit of the solver licence)."""


def _where(e):
    fr = [f for f in traceback.extract_tb(e.__traceback__)
          if f.filename.startswith(REPO)]
    if not fr:
        return "?"
    f = fr[-1]
    return "%s:%s" % (os.path.relpath(f.filename, REPO), f.name)


def check_licence(e):
    """A size limit of the solver licence decides nothing."""
    if type(e).__name__ == "GurobiError":
        if getattr(e, "errno", None) in (10010, 10009) or "size-limited" in str(e):
            raise Skip("licence size limit")


def from_repo(e):
    """The message of a violation if e came out of the code under test."""
    w = _where(e)
    if w == "?":
        return None
    return "%s: %s (at %s)" % (type(e).__name__, str(e)[:200], w)


class Ctx:
    def __init__(self):
        self.labels = collections.Counter()
        self.nontrivial = False
        self.skipped = None

    def label(self, *names):
        for n in names:
            self.labels[n] += 1

    def fail(self, msg):
        raise Violation(msg)

    def require(self, cond, msg):
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    @contextlib.contextmanager
    def sut(self, what, allow=()):
        """Runs code under test: an exception out of it breaks the property,
        except a licence size limit, which decides nothing."""
        try:
            yield
        except (Violation, Skip, HarnessError, GeneratorExit):
            raise
        except allow:
            raise
        except MemoryError:
            raise Skip("memory")
        except BaseException as e:
            if type(e).__name__ == "StopWorker":
                raise
            check_licence(e)
            raise Violation("%s raised %s: %s (at %s)" % (
                what, type(e).__name__, str(e)[:200], _where(e))) from e
