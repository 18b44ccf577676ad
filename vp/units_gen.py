"""Unit expressions as recipes: two spellings of one meaning, and that meaning computed apart."""
import math
import re

from hypothesis import strategies as st

from .unit_math import Table, mul, power

TABLE = Table()
_WORD = re.compile(r"[^\W\d]\w*\Z")
PREFIXES = TABLE.prefixes
# prefixes as [index]; spelled by any of their names
SUPER = str.maketrans("0123456789-", "⁰¹²³⁴⁵⁶⁷⁸⁹⁻")


def _usable():
    res = []
    for u in TABLE.units.values():
        if not u["log"]:
            res.append(u["name"])
    return sorted(res)


LINEAR = _usable()
PLAIN = [n for n in LINEAR if TABLE.units[n]["offset"] is None]
OFFSET = [n for n in LINEAR if TABLE.units[n]["offset"] is not None and n != "kelvin"]
COMMON = ["meter", "second", "gram", "kelvin", "mole", "newton", "pascal", "joule", "liter",
          "minute", "inch", "pound", "percent", "radian", "degree", "bit", "count", "volt",
          "elementary_charge", "angstrom", "poise", "hertz", "revolutions_per_minute"]
USUAL = [i for i, p in enumerate(PREFIXES) if p["names"][0] in
         ("milli", "kilo", "micro", "centi", "mega", "nano")]


def spellings(name, prefix=None):
    """All words that denote prefix+unit and nothing else, in a fixed order, canonical first."""
    u = TABLE.units[name]
    res = []
    pre = [""] if prefix is None else PREFIXES[prefix]["names"]
    for n in u["names"]:
        for p in pre:
            w = p + n
            if not _WORD.match(w) and not (p == "" and re.match(r"[%‰°]\w*\Z", w)):
                continue
            if w in res:
                continue
            rs = TABLE.readings(w)
            mean = {(None if r[0] is None else r[0]["names"][0], r[1]["name"]) for r in rs}
            if mean == {(None if prefix is None else PREFIXES[prefix]["names"][0], name)}:
                res.append(w)
    w = pre[0] + name + "s"
    if prefix is None and len(name) > 2 and name.isalpha() and name.islower() \
            and not name.endswith("s") and {r[1]["name"] for r in TABLE.readings(w)} == {name}:
        res.append(w)
    return res


_cache = {}


def word(name, prefix, choice):
    key = (name, prefix)
    if key not in _cache:
        _cache[key] = spellings(name, prefix) or spellings(name)
    s = _cache[key]
    return s[choice % len(s)]


def has_prefix(name, prefix):
    return prefix is not None and bool(spellings(name, prefix))


# ------------------------------------------------------------------ recipes
SCALES = ["2", "2.5", "10", "100", "0.5", ".5", "5.", "1e3", "1E-3", "1.5e-3", "2_000", "1",
          "1.0", "25e-1", "3", "12", "7.25", "0.25", "1e+2", "33", "2.50", "-2", "-+-2.5", "- -3",
          "+4", "10**3", "10^-2", "2*10**3", "1.5 * 10 ** -2"]
EXPS = [2, 3, -1, -2, 0.5, -0.5, 1.5, 1, 4, 0.25]


def scale_value(s):
    m = re.fullmatch(r"(?:(.*?)\s*\*\s*)?10\s*(?:\*\*|\^)\s*(-?\d+)", s)
    if m:
        return float(m.group(1) or 1) * 10.0 ** int(m.group(2))
    sign = -1.0 if s.count("-", 0, re.search(r"[\d.]", s).start()) % 2 else 1.0
    return sign * float(re.sub(r"[-+\s]*(?=[\d.])", "", s, count=1).replace("_", ""))


def term(scaled=True, names=None):
    """[op, scale, unit, prefix, exponent]; op 0 is product, 1 is quotient."""
    unit = st.one_of(st.sampled_from(COMMON), st.sampled_from(names or PLAIN))
    plain = st.tuples(st.integers(0, 1), st.none(), unit,
                      st.one_of(st.none(), st.sampled_from(USUAL),
                                st.integers(0, len(PREFIXES) - 1)),
                      st.one_of(st.just(1), st.just(1), st.sampled_from(EXPS)))
    if not scaled:
        return plain.map(list)
    sc = st.tuples(st.integers(0, 1), st.sampled_from(SCALES), st.one_of(st.none(), unit, unit),
                   st.one_of(st.none(), st.sampled_from(USUAL)), st.just(1))
    return st.one_of(plain, plain, plain, sc).map(list)


def expression(scaled=True, n=4, names=None, groups=True):
    """A product of terms; an item may be {"g": op, "x": [...], "e": exponent}: a group."""
    t = term(scaled, names)
    item = t
    if groups:
        grp = st.fixed_dictionaries({"g": st.integers(0, 1), "x": st.lists(t, min_size=1,
                                                                           max_size=2),
                                     "e": st.sampled_from([1, 1, 2, -1, 0.5])})
        item = st.one_of(t, t, t, grp)
    return st.lists(item, min_size=1, max_size=n)


def style():
    """Numbers that steer the spelling: word choice, product sign, exponent form, spaces."""
    return st.lists(st.integers(0, 11), min_size=1, max_size=8)


class _Style:
    def __init__(self, numbers):
        self.n = numbers
        self.i = 0

    def next(self):
        v = self.n[self.i % len(self.n)]
        self.i += 1
        return v


def _exp(e, s, sup=True):
    if e == 1:
        return ""
    k = s.next() % 6
    t = str(e)
    if k == 5 and e > 0:
        return "**+" + t
    if k == 1:
        return "^" + t
    if k == 2 and isinstance(e, int) and sup:
        return t.translate(SUPER)
    if k == 3:
        return " ** (" + t + ")"
    if k == 4 and isinstance(e, int):
        return "**" + t + ".0"
    return "**" + t


def render(items, numbers, depth=0):
    """Text of the expression in one of its spellings."""
    s = _Style(numbers)
    return _render(items, s, True)


def _render(items, s, leading):
    out = ""
    for i, it in enumerate(items):
        first = i == 0
        group = isinstance(it, dict)
        op = it["g"] if group else it[0]
        if group:
            body = "(" + _render(it["x"], s, True) + ")" + _exp(it["e"], s)
            special = True
        else:
            _, scale, name, prefix, e = it
            w = "" if name is None else word(name, prefix, s.next())
            special = not w or not _WORD.match(w)
            body = w + _exp(e, s, not special)
            if scale is not None:
                gap = "" if (s.next() % 3 == 0 and w and _WORD.match(w) and w[0] not in "eE_jJ"
                             and not re.search(r"10\s*(\*\*|\^)", scale)) else " "
                body = scale + (gap + w if w else "")
                special = True
        if first:
            if op == 1:
                body = ("1/", "1 / ", "1.0 / ")[s.next() % 3] + body
            elif not group and it[1] is not None:
                body = "(" + body + ")"      # never bare: a leading factor is refused
            out = body
            prev_special = special
            continue
        if not group and it[1] and it[1].startswith("10") and re.search(r"[\d.]\Z", out) \
                and not isinstance(items[i - 1], dict) and items[i - 1][1]:
            body = "(" + body + ")"      # 2 * 10**3 would be one number
        if op == 1:
            k = s.next()
            out += ("/", " / ", " /", "/" if prev_special else "//")[k % 4]
            out += ("+" if not special and k == 6 else "") + body
        else:
            k = s.next() % 6
            if k in (1, 2) and not special and not prev_special:
                out += " " + body
            elif k == 3 and not special and not prev_special:
                out += "·" + body
            elif k == 4 and not special and not prev_special and items[i - 1][4] == 1:
                out += "." + body
            else:
                out += ("*", " * ")[s.next() % 2] + body
        prev_special = special
    return out


def meaning(items):
    """(magnitude, dimensions) of the recipe, from the committed table."""
    res = (1.0, {})
    for it in items:
        if isinstance(it, dict):
            m = power(meaning(it["x"]), it["e"])
            op = it["g"]
        else:
            op, scale, name, prefix, e = it
            m = (1.0, {})
            if name is not None:
                u = TABLE.units[name]
                f = u["factor"]
                if prefix is not None and has_prefix_cached(name, prefix):
                    f *= PREFIXES[prefix]["value"]
                m = power((f, dict(u["dims"])), e)
            if scale is not None:
                m = (scale_value(scale) * m[0], m[1])
        res = mul(res, m, -1 if op else 1)
    return res


_hp = {}


def has_prefix_cached(name, prefix):
    key = (name, prefix)
    if key not in _hp:
        _hp[key] = has_prefix(name, prefix)
    return _hp[key]


def same_dims(a, b, tol=1e-9):
    return all(abs(a.get(k, 0) - b.get(k, 0)) <= tol for k in set(a) | set(b))


def close(a, b, rel=1e-12):
    return a == b or abs(a - b) <= rel * max(abs(a), abs(b))


def _leaves(items, outer=1.0):
    for it in items:
        if isinstance(it, dict):
            yield from _leaves(it["x"], outer * max(1, abs(it["e"])))
        else:
            _, scale, name, prefix, e = it
            if name is not None:
                u = TABLE.units[name]
                p = 0.0 if prefix is None else abs(math.log10(PREFIXES[prefix]["value"]))
                mag = abs(math.log10(abs(u["factor"]))) + 3 * sum(
                    abs(v) for v in u["dims"].values()) + p
                yield mag, u["span"] + p, outer * max(1, abs(e))
            if scale is not None:
                mag = abs(math.log10(abs(scale_value(scale)))) + 1
                yield mag, mag, outer


def overflows(items):
    """Could floating point overflow while the definitions of the expression are expanded?

    Every single unit is fine as it stands; many of them, or high powers, may not be.
    """
    ls = list(_leaves(items))
    single = max([s for _, s, e in ls if e == 1], default=0.0)
    return sum(m * e for m, _, e in ls) > 90 or sum(s * e for _, s, e in ls) - single > 250


def odd_root(items, outer=1):
    """A fractional power of something that has a negative factor."""
    for it in items:
        if isinstance(it, dict):
            if odd_root(it["x"], outer * it["e"]):
                return True
        else:
            _, scale, name, _, e = it
            if outer % 1 and scale is not None and scale_value(scale) < 0:
                return True
            if (outer % 1 or e % 1) and name is not None and TABLE.units[name]["factor"] < 0:
                return True
    return False
