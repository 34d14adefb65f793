#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for f in sorted(glob.glob(VERIF + "/seeded/*/meta.json")):
    by.setdefault(json.load(open(f))["property"], []).append(os.path.basename(os.path.dirname(f)))
rows = "".join("| %s | %s |\n" % (p, ", ".join(by[p])) for p in sorted(by))
p = VERIF + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(\| property \| planted bugs \|\n\|[-|]+\|\n)(\| C\d\d .*\n)+", lambda m: m.group(1) + rows, s)
s = re.sub(r"`seeded/` has \d+ changes", "`seeded/` has %d changes" % sum(map(len, by.values())), s)
open(p, "w").write(s)
