"""rewrite the section of planted bugs in DESIGN.md from seeded/*/meta.json (no check uses this)"""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set(open(os.path.join(HERE, "tools", "missed_first.txt")).read().split())
fn = os.path.join(HERE, "DESIGN.md")
text = open(fn).read()
head = text[:text.index("## Planted bugs")]
n = sum(1 for x in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")) if x.startswith("fixed:"))
import re
head = re.sub(r"(%d|\d+) `fix:` commits", f"{n} `fix:` commits", head)
out = """## Planted bugs

`seeded/` has the planted bugs; each was confirmed to pass the stable tests, to fail its demonstration, and is caught by the check of its property (quick tier, seed 1).
Those marked * were missed first, and the workload or the oracle was extended.

| bug | caught by | needs |
| --- | --- | --- |
"""
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    k = os.path.basename(os.path.dirname(f))
    out += "| %s%s | %s | %s |\n" % (k, "*" if k in MISSED else "", m["property"], m["needs"].replace("|", "/"))
open(fn, "w").write(head + out)
