"""Which values lie within which bounds, by interval and set arithmetic on recipes (see C05)."""
from . import units_gen as ug

OFFSETS = {"degC": 273.15, "degF": 233.15 + 200 / 9}
_units = {}


def unit(u):
    """(factor, dimensions, offset) of a unit, from the committed table."""
    if u not in _units:
        _units[u] = ug.TABLE.evaluate(u) + (OFFSETS.get(u, 0.0),)
    return _units[u]


def convertible(a, b):
    return ug.same_dims(unit(a)[1], unit(b)[1])


def to(v, a, b):
    """v in unit a, expressed in unit b; exact when they are the same."""
    if a == b:
        return float(v)
    return (v * unit(a)[0] + unit(a)[2] - unit(b)[2]) / unit(b)[0]


def slack(v, a, b):
    """Rounding allowance when v (in unit b) came from unit a."""
    return 0.0 if a == b else 1e-9 * (abs(v) + (abs(unit(a)[2]) + abs(unit(b)[2])) / unit(b)[0])


def sort_of(r):
    """(kind, payload) of ["bnd", ...] or ["val", ...]: an interval with unit, an integer
    interval or a set."""
    tag, x = r
    if tag == "junk" or x is None:
        return "junk", None
    k = x[0]
    if tag == "bnd":
        if k in ("real", "int"):
            return k, tuple(x[1:])
        return k, frozenset(x[1]) if len(x) > 1 else None
    if k == "nr" or k == "norm":
        return "real", (x[1], x[1], x[-1])
    if k == "ur":
        return "real", (x[1], x[2], x[3])
    if k == "ni":
        return "int", (x[1], x[1])
    if k == "ui":
        return "int", (x[1], x[2])
    if k == "nc":
        return "cat", frozenset([x[1]])
    if k == "dc":
        return "cat", frozenset(c for c, _ in x[1])
    if k == "comp":
        return "comp", frozenset(c for c, _ in x[1])
    if k == "ef":
        return "comp", frozenset(x[1].replace("2", " ").split())
    return "mol", None


def contained(inner, outer):
    """True, False or None (too close to call) for: outer contains inner."""
    (ki, pi), (ko, po) = inner, outer
    if ki != ko:
        return False
    if ki == "mol":
        return True
    if ki == "int":
        return po[0] <= pi[0] and pi[1] <= po[1]
    if ki in ("cat", "comp"):
        return pi <= po
    if not convertible(pi[2], po[2]):
        return False
    lo, hi = to(po[0], po[2], pi[2]), to(po[1], po[2], pi[2])
    verdict = True
    for d, tol in ((pi[0] - lo, slack(lo, po[2], pi[2])), (hi - pi[1], slack(hi, po[2], pi[2]))):
        if abs(d) <= tol and po[2] != pi[2]:
            verdict = None if verdict else verdict
        elif d < 0:
            return False
    return verdict


def within(value, bounds):
    """Value recipe within bounds recipe?"""
    return contained(sort_of(["val", value]), sort_of(["bnd", bounds]))
