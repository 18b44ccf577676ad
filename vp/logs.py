"""Observe warnings through the logging system, whichever logger they come from."""
import logging


class _Counter(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.records = []

    def emit(self, record):
        self.records.append(record)


class Warnings:
    """with Warnings() as w: ...; w.count is the number of records at WARNING or above."""

    def __enter__(self):
        self.h = _Counter()
        root = logging.getLogger()
        self.old = root.level, logging.root.manager.disable
        logging.disable(logging.NOTSET)
        root.setLevel(logging.WARNING)
        root.addHandler(self.h)
        return self

    def __exit__(self, *exc):
        root = logging.getLogger()
        root.removeHandler(self.h)
        root.setLevel(self.old[0])
        logging.disable(self.old[1])
        return False

    @property
    def count(self):
        return len(self.h.records)


def judged(level, ok, action, what, refusal=ValueError):
    """Run action at level where `ok` says whether it conforms. True if it was accepted.

    None for ok: too close to call, either outcome is fine.
    """
    from gemd.entity.bounds_validation import WarningLevel, validation_level
    from .core import Violation, require, short
    lv = WarningLevel(level)
    err = None
    with Warnings() as w:
        try:
            with validation_level(lv):
                action()
        except refusal as e:
            err = e
        except Exception as e:
            raise Violation("{} at {}: unexpected {}: {}".format(
                what, lv.name, type(e).__name__, short(str(e))))
    n = w.count
    if ok is None:
        return err is None
    if ok:
        require(err is None, "{} conforms but is refused at {}: {}", what, lv.name, err)
        require(n == 0, "{} conforms but logs {} warning(s) at {}", what, n, lv.name)
        return True
    if lv == WarningLevel.FATAL:
        require(err is not None, "{} does not conform but is accepted at FATAL", what)
        return False
    require(err is None, "{} is refused at {}: {}", what, lv.name, err)
    if lv == WarningLevel.WARNING:
        require(n >= 1, "{} does not conform but logs nothing at WARNING", what)
    else:
        require(n == 0, "{} logs {} warning(s) at IGNORE", what, n)
    return True
