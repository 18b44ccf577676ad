"""Read gemd's unit definition files with an independent reader and write vp/unit_table.json.

The table is committed: the checks compare the library with it, never with the files of the tree
under test, so that an altered definition is noticed too.
"""
import json
import math
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.unit_math import Reader  # noqa: E402

SRC = sys.argv[1] if len(sys.argv) > 1 else "/repo/gemd/units"


def lines(path):
    skip = 0
    for line in open(path, encoding="utf-8"):
        line = line.split("#")[0].strip()
        if not line:
            continue
        if line.startswith("@import"):
            yield from lines(os.path.join(os.path.dirname(path), line.split()[1]))
        elif re.match(r"@(context|system|defaults)", line):
            skip = 1
        elif line.startswith("@end"):
            skip = 0
        elif line.startswith("@"):
            continue
        elif not skip and not line.startswith("["):
            yield line


prefixes, units, raw = [], [], {}
for line in lines(os.path.join(SRC, "citrine_en.txt")):
    parts = [p.strip() for p in line.split("=")]
    name, expr, rest = parts[0], parts[1], parts[2:]
    names = [name] + [r for r in rest if r != "_"]
    symbol = rest[0] if rest and rest[0] != "_" else None
    if name.endswith("-"):
        prefixes.append({"names": [n.rstrip("-") for n in names], "value": float(eval(expr))})
        continue
    expr, *mods = [p.strip() for p in expr.split(";")]
    mods = dict((k.strip(), v.strip()) for k, v in (m.split(":") for m in mods))
    raw[name] = (names, symbol, expr, mods)

names_of = {n: k for k, v in raw.items() for n in v[0]}
done = {}


def resolve(n):
    if n in names_of:
        return value(names_of[n])
    for p in prefixes:
        for q in p["names"]:
            if n.startswith(q) and n[len(q):] in names_of:
                f, d = value(names_of[n[len(q):]])
                return p["value"] * f, d
    raise KeyError(n)


def value(name):
    if name not in done:
        names, symbol, expr, mods = raw[name]
        if expr.startswith("["):
            done[name] = (1.0, {name: 1.0})
        else:
            done[name] = Reader().evaluate(expr, resolve)
    return done[name]


def span(n):
    """Decimal exponents met while expanding a definition, all added up."""
    if n not in names_of:
        for p in prefixes:
            for q in p["names"]:
                if n.startswith(q) and n[len(q):] in names_of:
                    return abs(math.log10(p["value"])) + span(n[len(q):])
        raise KeyError(n)
    expr = raw[names_of[n]][2]
    if expr.startswith("["):
        return 3.0
    tot = 0.0
    for m in re.finditer(r"(?:(\d+\.?\d*(?:[eE][-+]?\d+)?)|([^\W\d]\w*))"
                         r"(?:\s*(?:\*\*|\^)\s*([-\d.]+))?", expr):
        e = abs(float(m.group(3) or 1))
        if m.group(1):
            x = abs(math.log10(float(m.group(1)))) if float(m.group(1)) else 0
        else:
            x = span(m.group(2))
        tot += x * e
    return tot


for name, (names, symbol, expr, mods) in raw.items():
    f, d = value(name)
    units.append({"name": name, "names": names, "symbol": symbol, "factor": f, "span": round(span(name), 1),
                  "dims": {k: v for k, v in sorted(d.items()) if v},
                  "offset": float(eval(mods["offset"])) if "offset" in mods else None,
                  "log": "logbase" in mods})
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vp",
                   "unit_table.json")
with open(out, "w") as f:
    json.dump({"prefixes": prefixes, "units": units}, f, indent=0, ensure_ascii=False)
print(len(prefixes), "prefixes", len(units), "units")
