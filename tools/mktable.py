#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json
import os
import re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# changes the checks missed when they were planted, and what was added for them
FIRST = {
    "c25-unit-of-minutes": "time units between an hour and a day, and other odd ones",
    "c25-late-zero-filter": "records of half an hour with millisecond exposures",
    "c05-near-ties": "weights half a percent apart",
    "c12-weights-cached-on-params": "parameter objects used twice, changed in between",
    "c16-single-precision-times": "walks that start after eleven days",
    "c23-first-stage-kept": "unsteady runs whose stage changes",
    "c03-frozen-by-number": "more than 256 particles",
    "c03-missing-stage-is-level": "missing stages in wet cells",
    "c06-triangular-diffusion": "shape of the pooled spread",
    "c07-missing-values-not-kept": "missing values in tracked variables handed over",
    "c11-last-choice-rare": "frequency of every location",
    "c11-memory-order": "random seeding from many locations",
    "c15-single-precision": "long sums of odd milliseconds",
    "c21-near-whole": "shares just below whole numbers",
    "c22-whole-numbers": "integer arrays and lists of values",
    "c23-time-from-count": "unequal unsteady time steps",
    "c27-median-opacity": "opacity between the extremes",
    "c02-mask-by-shape": "mirrored domains of the same shape, used in turn",
    "c03-deep-theta": "depths, surfaces and speeds of other magnitudes",
    "c04-gentle-slopes": "surfaces of other magnitudes in the frequencies",
    "c11-refused-late": "seeding without locations",
    "c13-thin-water-still": "inputs of other magnitudes",
    "c14-capped-at-processors": "more processes than processors",
    "c14-two-processes": "more processes than processors",
    "c21-small-discharges": "discharges of other magnitudes",
    "c22-distance-floor": "coordinates of other magnitudes",
    "c24-root-handlers-count": "handlers on the root logger",
}
MORE = os.path.join(ROOT, "tools", "missed.json")
if os.path.exists(MORE):
    FIRST.update(json.load(open(MORE)))
rows = ["| change | property | what it breaks | first missed; added then |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    rows.append("| `%s` | %s | %s | %s |" % (
        d, m["property"], " ".join(m["what_it_breaks"].split()).replace("|", "/"), FIRST.get(d, "")))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
s = re.sub(r"(<!-- planted -->\n).*?(<!-- /planted -->)", lambda m: m[1] + "\n".join(rows) + "\n" + m[2], s, flags=re.S)
open(p, "w").write(s)
