"""Shared vocabulary of the checks: violations, labels, recipe helpers."""
import hashlib
import json


class Violation(Exception):
    """The property does not hold for the recipe being checked."""


class HarnessError(Exception):
    """The machinery itself is broken (never reported as a violation)."""


class Case:
    """What one evaluation of a recipe observed, for the evidence file."""

    def __init__(self):
        self.labels = {}
        self.nontrivial = False

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def interesting(self):
        self.nontrivial = True


def require(cond, fmt, *args):
    if not cond:
        raise Violation(fmt.format(*[short(a) for a in args]) if args else fmt)


def short(x, n=300):
    if isinstance(x, str):
        s = x
    else:
        try:
            s = repr(x)
        except Exception as e:  # repr of a half-broken object must not mask the finding
            s = "<{} unprintable: {}>".format(type(x).__name__, type(e).__name__)
    return s if len(s) <= n else s[:n] + "..."


def expect_raises(excs, fn, what):
    """fn must raise one of excs; anything else is a violation."""
    try:
        res = fn()
    except excs as e:
        return e
    except Exception as e:
        raise Violation("{}: expected {}, got {}: {}".format(
            what, _names(excs), type(e).__name__, short(str(e))))
    raise Violation("{}: expected {}, but it was accepted (result {})".format(
        what, _names(excs), short(res, 120)))


def _names(excs):
    if isinstance(excs, tuple):
        return "/".join(e.__name__ for e in excs)
    return excs.__name__


def digest(recipe):
    return hashlib.sha1(json.dumps(recipe, sort_keys=True).encode()).hexdigest()


def pick(seq, i):
    """Index modulo length; None for an empty sequence."""
    return seq[i % len(seq)] if len(seq) else None
