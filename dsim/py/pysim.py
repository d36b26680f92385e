"""Scripts of the Python worlds.  The simulator (C++) generates the trace of
operations; this module carries it out against DLite and keeps the models."""
import gc
import sys
import warnings

import numpy as np

import _dsim
import dlite

warnings.simplefilter("ignore")
EXPECTED = (dlite._dlite.DLiteError, TypeError, ValueError, IndexError, KeyError, AttributeError,
            MemoryError, OverflowError, RuntimeError, LookupError, OSError, StopIteration, NotImplementedError, Exception)


def violation(key, msg):
    _dsim.violation(key, msg)


def check(cond, key, msg=""):
    _dsim.eval()
    if not cond:
        _dsim.violation(key, str(msg))


class Faults:
    """The fault of the current operation: injected in the first call to attempt()"""
    todo = None
    fired = False


def attempt(what, fn, *args, **kw):
    """Call `fn`.  Returns (True, value) or (False, exception)."""
    f, Faults.todo = Faults.todo, None
    if f:
        _dsim.arm(*f)
    try:
        return True, fn(*args, **kw)
    except SystemError as e:
        violation("system-error:" + what, f"{what}: {e} / {e.__cause__!r}")
    except EXPECTED as e:
        e.__traceback__ = None
        e.__context__ = None
        return False, e
    finally:
        if f:
            Faults.fired = _dsim.disarm() or Faults.fired


def run(world, ops, start, inc, d):
    {"S13": run13, "S14": run14}[world](ops, d)


import world13  # noqa: E402
run13 = world13.run
try:
    import world14
    run14 = world14.run
except ImportError:
    run14 = None
