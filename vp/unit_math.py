"""An independent reader of unit expressions: magnitude and dimension vector, no pint involved.

Grammar: products, quotients, powers, parentheses, juxtaposition (a product binding as `*`, except
that a number directly before a name or parenthesis binds to it), which is how GEMD writes scaled
units: `gram / 2.5 centimeter` is gram / (2.5 centimeter).
"""
import json
import os
import re

TOKEN = re.compile(r"\s*(?:(\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?)"
                   r"|(\*\*|\^|//|[*/().+-])|([^\W\d]\w*|[%‰°][^\W\d]*\w*))")


class Unreadable(Exception):
    pass


def mul(a, b, sign=1):
    d = dict(a[1])
    for k, v in b[1].items():
        d[k] = d.get(k, 0) + sign * v
    return (a[0] * b[0] if sign > 0 else a[0] / b[0]), {k: v for k, v in d.items() if abs(v) > 1e-12}


def power(a, n):
    return a[0] ** n, {k: v * n for k, v in a[1].items() if abs(v * n) > 1e-12}


class Reader:
    def evaluate(self, text, resolve):
        toks = []
        i = 0
        text = text.rstrip()
        while i < len(text):
            m = TOKEN.match(text, i)
            if not m:
                raise Unreadable(text[i:])
            toks.append(("n", m.group(1)) if m.group(1) else ("o", m.group(2)) if m.group(2)
                        else ("w", m.group(3)))
            i = m.end()
        self.toks, self.i, self.resolve = toks, 0, resolve
        if not toks:
            return 1.0, {}
        res = self.product()
        if self.i != len(toks):
            raise Unreadable("trailing " + repr(toks[self.i:]))
        return res

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else (None, None)

    def product(self):
        res = self.block()
        while True:
            kind, t = self.peek()
            if (kind, t) == ("o", "*"):
                self.i += 1
                res = mul(res, self.block())
            elif (kind, t) == ("o", "/"):
                self.i += 1
                res = mul(res, self.block(), -1)
            elif kind in ("w", "n") or (kind, t) == ("o", "("):
                res = mul(res, self.block())
            else:
                return res

    def block(self):
        """[number] unit, the number binding to the unit."""
        kind, t = self.peek()
        sign = 1
        while kind == "o" and t in "+-":
            sign = -sign if t == "-" else sign
            self.i += 1
            kind, t = self.peek()
        if kind == "n":
            self.i += 1
            num = (sign * float(t), {})
            nk, nt = self.peek()
            if (nk, nt) in (("o", "**"), ("o", "^")):
                self.i += 1
                return power(num, self.exponent())
            if nk == "w":
                return mul(num, self.factor())
            return num
        res = self.factor()
        return (sign * res[0], res[1])

    def factor(self):
        kind, t = self.peek()
        self.i += 1
        if kind == "w":
            base = self.resolve(t)
        elif (kind, t) == ("o", "("):
            base = self.product()
            if self.peek() != ("o", ")"):
                raise Unreadable("unbalanced")
            self.i += 1
        elif kind == "n":
            base = (float(t), {})
        else:
            raise Unreadable(repr(t))
        kind, t = self.peek()
        if (kind, t) in (("o", "**"), ("o", "^")):
            self.i += 1
            base = power(base, self.exponent())
        return base

    def exponent(self):
        kind, t = self.peek()
        sign = 1
        while kind == "o" and t in "+-":
            sign = -sign if t == "-" else sign
            self.i += 1
            kind, t = self.peek()
        if kind == "n":
            self.i += 1
            return sign * float(t)
        if (kind, t) == ("o", "("):
            self.i += 1
            res = self.product()
            if self.peek() != ("o", ")") or res[1]:
                raise Unreadable("bad exponent")
            self.i += 1
            return sign * res[0]
        raise Unreadable("bad exponent")


class Table:
    """The committed meanings of all unit names."""

    def __init__(self):
        path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "unit_table.json")
        doc = json.load(open(path, encoding="utf-8"))
        self.units = {u["name"]: u for u in doc["units"]}
        self.prefixes = doc["prefixes"]
        self.by_name = {}
        for u in doc["units"]:
            for n in u["names"]:
                self.by_name[n] = u

    def readings(self, word):
        """All (prefix or None, unit) readings of a word: exact, prefixed, plural."""
        if word in self.by_name:
            return [(None, self.by_name[word])]
        res = []
        for tail in {word, word[:-1] if word.endswith("s") else word}:
            if tail in self.by_name:
                res.append((None, self.by_name[tail]))
            for p in self.prefixes:
                for n in p["names"]:
                    if n and tail.startswith(n) and tail[len(n):] in self.by_name:
                        res.append((p, self.by_name[tail[len(n):]]))
        return res

    def resolve(self, word):
        if word == "dimensionless":
            return 1.0, {}
        rs = self.readings(word)
        if not rs and word.startswith("delta_"):
            rs = self.readings(word[6:])
        if not rs:
            raise Unreadable("unknown unit " + word)
        p, u = rs[0]
        return (p["value"] if p else 1.0) * u["factor"], dict(u["dims"])

    def evaluate(self, text):
        return Reader().evaluate(text, self.resolve)
