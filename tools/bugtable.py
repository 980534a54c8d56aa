#!/usr/bin/env python3
"""Write the table of planted bugs into DESIGN.md."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LATER = {"b06-scale-both", "b08-package-unknown-kind", "b10-package-over-element", "b12-timing-offset", "p21-types-only",
         "p13-filter-mask", "p22-alive-timeout", "p24-empty-setting", "p25-append-flag"}
rows = ["<!-- bugs -->", "| planted bug | caught by | at first | what it breaks | needs |", "|---|---|---|---|---|"]
for b in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", b, "meta.json"), encoding="utf-8"))
    rows.append(f"| {b} | {m['property']} | {'missed' if b in LATER else 'caught'} | "
                + " | ".join(" ".join(m[k].split()) for k in ("what_it_breaks", "needs")) + " |")
rows.append("<!-- /bugs -->")
p = os.path.join(HERE, "DESIGN.md")
s = open(p, encoding="utf-8").read().replace("BUGTABLE", "<!-- bugs --><!-- /bugs -->")
s = re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda _: "\n".join(rows), s, flags=re.S)
open(p, "w", encoding="utf-8").write(s)
