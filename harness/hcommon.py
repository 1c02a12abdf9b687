"""Helpers shared by the drivers of the real code."""
import json, signal, sys
import numpy as np


class Timeout(BaseException):
    pass


class guard:
    """Bounds one call of the code under test; a call that does not come back is an outcome."""
    def __init__(self, seconds=10.0):
        self.s = seconds

    def __enter__(self):
        def on(*_):
            raise Timeout()
        signal.signal(signal.SIGALRM, on)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_REAL, 0)
        return False


STRIKES = [0]


def attempt(f, *a, seconds=10.0, **k):
    """(True, value) or (False, description of the exception)."""
    if STRIKES[0] > 2:          # calls do not come back: recorded already, keep the rest short
        seconds = 0.5 if STRIKES[0] < 40 else 0.02
    try:
        with guard(seconds):
            return True, f(*a, **k)
    except Timeout:
        STRIKES[0] += 1
        return False, "timeout"
    except Exception as e:  # noqa
        return False, type(e).__name__


def hx(v):
    """Exact text of a real number for module Rat."""
    if isinstance(v, (bool, np.bool_)):
        return "1" if v else "0"
    if isinstance(v, (int, np.integer)):
        return str(int(v))
    try:
        v = float(v)
    except Exception:
        return "nan"
    return v.hex() if np.isfinite(v) else ("nan" if v != v else ("inf" if v > 0 else "-inf"))


def hv(v):
    return [hx(t) for t in np.asarray(v).ravel().tolist()]


def hm(m):
    return [[hx(t) for t in row] for row in np.asarray(m).tolist()]


def xs(v):
    """Contents of a point as one string ('none' for no point)."""
    if v is None:
        return "none"
    return " ".join(hv(v))


def emit(obj):
    with open(sys.argv[1], "w") as f:
        json.dump(obj, f)
