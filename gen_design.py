#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (between the markers)."""
import json, glob, os, re
FIRST_MISSED = {"C01-record-offset-u16": "records of 8 to 64 KiB",
 "C02-label-u16": "values of more than 65 536 words",
 "C17-fingerprint-24-bits": "(by C02, which cannot reach such widths) keyword plaintexts up to 31 bits in C17",
 "C20-matrix-restarts-at-65536": "matrices of up to 132 000 rows in the quick tier, dimensions up to 20 000",
 "C05-secret-period-4096": "LWE dimensions of 4200 and 8300",
 "C20-seed-without-zeros": "a byte-value frequency test over public seeds",
"C05-secret-expanded": "the bytes a set draws are counted against what its values hold, at lopsided shapes too",
 "C13-bucket-counter-16-bits": "filters of 66 000 to 140 000 keys (1 000 000 in the thorough tier)",
 "C16-saved-words-u16": "databases with plaintexts of 17 to 31 bits",
 "C11-line-ends-in-records": "values inside stored files altered",
 "C04-no-zero-words": "matrices whose sums hit 0, the modulus and multiples of the indicator",
 "C12-narrow-start": "scripted runs of unusable filter seeds and small maps with crafted keys",
 "C15-filler-only-for-first-half": "filler compared slot by slot between builds",
 "C16-matrix-cache-by-shape": "many parties: many databases of equal shapes, other processes derive the matrices",
 "C05-secret-pairs": "wide sets: every pair of positions of 44-260 sets",
 "C08-quarantine": "long series of misfits before and between good queries",
 "C15-fp24": "every bit of the slots that keys need must matter",
 "C16-filter-of-matrix-not-saved": "the whole restored state is examined, not only its answers",
 "C10-same-length-kept": "files of the same length and other contents are replaced",
 "C08-clock-during-response": "clocks jump at the moment they are read"}
rows = ["| planted bug | caught by | what it needs |", "|---|---|---|"]
for d in sorted(glob.glob("seeded/*/")):
    i = os.path.basename(d[:-1]); m = json.load(open(d + "meta.json"))
    extra = f" **Missed at first**; added: {FIRST_MISSED[i]}." if i in FIRST_MISSED else ""
    rows.append(f"| {i} | {m['property']} | {m['needs']}.{extra} |")
s = open("DESIGN.md").read()
s = re.sub(r"<!-- planted -->.*<!-- /planted -->", lambda _: "<!-- planted -->\n" + "\n".join(rows) + "\n<!-- /planted -->", s, flags=re.S)
open("DESIGN.md", "w").write(s)
