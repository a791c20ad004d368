"""rewrites the *Bounds* lines of DESIGN.md from the BOUNDS of the checks"""
import importlib
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
p = os.path.join(HERE, "DESIGN.md")
out, cur = [], None
for line in open(p):
    m = re.match(r"### (C\d\d) ", line)
    if m:
        cur = m.group(1)
    if line.startswith("*Bounds*: ") and cur and os.path.exists(os.path.join(HERE, "checks", cur.lower() + ".py")):
        line = "*Bounds*: %s.\n" % importlib.import_module("checks." + cur.lower()).BOUNDS.rstrip(". ")
    out.append(line)
open(p, "w").write("".join(out))
