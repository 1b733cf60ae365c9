"""Shared vocabulary of the checks."""

import contextlib

import numpy as np

EPS = float(np.finfo(float).eps)


class Violation(Exception):
    """The code under test broke the property"""


@contextlib.contextmanager
def sut(what):
    """Calls into the code under test on valid input: an exception is a violation"""
    try:
        yield
    except Violation:
        raise
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Exception as e:  # noqa: BLE001
        if "RESOURCE_EXHAUSTED" in str(e):
            raise
        msg = str(e).strip().split("\n")[0][:300]
        raise Violation(f"{what} raised {type(e).__name__}: {msg}") from e


class Ctx:
    """Collects how close the comparisons came to their tolerances"""

    def __init__(self):
        self.worst = {}
        self.notes = {}

    def note(self, label, n=1):
        self.notes[label] = self.notes.get(label, 0) + n

    def close(self, what, got, want, tol):
        """|got - want| <= tol elementwise, same shape"""
        got = np.asarray(got)
        want = np.asarray(want, dtype=float)
        if got.shape != want.shape:
            raise Violation(f"{what}: shape {got.shape}, expected {want.shape}")
        if got.size == 0:
            return
        got = got.astype(float)
        tol = np.broadcast_to(np.asarray(tol, dtype=float), got.shape)
        err = np.abs(got - want)
        bad = ~(err <= tol)
        with np.errstate(all="ignore"):
            ratio = float(np.max(np.where(bad, np.inf, err / tol)))
        if np.any(bad):
            i = np.unravel_index(np.argmax(bad), bad.shape)
            raise Violation(
                f"{what}{list(map(int, i))}: got {got[i]!r}, expected {want[i]!r}"
                f" (difference {err[i]:.3g}, tolerance {tol[i]:.3g})"
            )
        fam = what.split("[")[0]
        self.worst[fam] = max(self.worst.get(fam, 0.0), ratio)

    def require(self, cond, what):
        if not cond:
            raise Violation(what)


def finite(ctx, what, x):
    x = np.asarray(x)
    if not np.all(np.isfinite(x)):
        raise Violation(f"{what} is not finite: {x.ravel()[:6]}")
