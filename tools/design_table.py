#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/DESIGN.md").read()
rows = "".join("| %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"].replace("|", "\\|").replace("\n", " "))
               for f in sorted(glob.glob(V + "/seeded/*/meta.json")) for m in [json.load(open(f))])
s, n = re.subn(r"(\| bug \| caught by \| needs \|\n\|---\|---\|---\|\n)(?:\|.*\n)*", lambda m: m.group(1) + rows, s)
assert n == 1
open(V + "/DESIGN.md", "w").write(s)
