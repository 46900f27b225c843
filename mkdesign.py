#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re

os.chdir(os.path.dirname(os.path.abspath(__file__)))
MISSED = {"C04-first-two-coordinates", "C05-lumo-limit-2", "C07-quiet-failure", "C09-ghost-atoms", "C19-later-parse",
          "C19-short-prefix", "C01-cached-energies",
          "C21-negligible-terms", "C18-exist-remembered", "C23-nearly-tied", "C24-tiny-values", "C09-same-first-atom",
          "C01-single-precision",
          "C01-high-orbitals", "C21-square", "C11-many-columns", "C12-underflow", "C29-same-dimer-again", "C12-count", "C27-dotted-directory",
          "C19-size-default"}
rows = ["| planted bug | check | needs |", "|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    d = json.load(open(f))
    n = f.split("/")[1]
    rows.append("| %s%s | %s | %s |" % (n, "*" if n in MISSED else "", d.get("caught_by", d["property"]), d["needs"].replace("|", "/")))
s = open("DESIGN.md").read()
s = re.sub(r"(<!-- planted: begin -->\n).*(<!-- planted: end -->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2),
           s, flags=re.S)
open("DESIGN.md", "w").write(s)
