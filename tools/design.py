#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md."""
import os
ns = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds.py")).read(), ns)
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "DESIGN.md")
t = open(p).read()
rows = "<!-- seeds -->\n| bug | caught by | needs |\n|---|---|---|\n" + "".join("| %s | %s | %s |\n" % (x["id"], x["property"], x["needs"]) for x in sorted(ns["S"], key=lambda x: x["property"])) + "<!-- /seeds -->"
if "<!-- seeds -->" in t:
    a, b = t.index("<!-- seeds -->"), t.index("<!-- /seeds -->") + len("<!-- /seeds -->")
    t = t[:a] + rows + t[b:]
else:
    t = t.replace("SEEDS\n", rows + "\n", 1)
open(p, "w").write(t)
