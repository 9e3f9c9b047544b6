#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
added = {
    "extension-shortened": "names of every length and width",
    "shared-space-flag": "preemption at static data",
    "memo-by-address": "twin configurations",
    "scratch-after-long-text": "short and long texts in turn",
    "rc-empty-means-unset": "more values of CHANOMARC",
    "rc-one-extension-per-name": "larger subsets of candidates",
    "converter-256-distinct": "texts of many distinct characters",
    "table-first-entry-of-many": "large tables",
    "large-add-by-source": "structures of large tables",
    "yaml-export-dedup-case": "related entries",
    "yaml-items-list-stops-at-duplicate": "sequences of repeated entries",
}
try:
    added.update(json.load(open(os.path.join(root, "tools", "strengthened.json"))))
except FileNotFoundError:
    pass
rows = []
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    w = re.sub(r"\s+", " ", m["what_it_breaks"]).replace("|", "\\|")
    rows.append((m["property"], d, w if len(w) < 160 else w[:157] + "...", added.get(d, "")))
rows.sort()
t = "| property and check | change | what it breaks | added for it |\n|---|---|---|---|\n" + "".join("| %s | %s | %s | %s |\n" % r for r in rows)
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
s = s[: s.index("<!-- seeds -->") + 15] + t + s[s.index("<!-- /seeds -->"):]
open(p, "w").write(s)
