#!/usr/bin/env python3
"""The text of every property.  Running it rewrites properties.jsonl and MANIFEST.json."""
import json, os, subprocess
from props import PROPS
HERE = os.path.dirname(os.path.abspath(__file__))
CORE = "subprojects/ufjfmltk-core/include/ufjfmltk/core/"
CSRC = "subprojects/ufjfmltk-core/src/"
VAL = "subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp"
CLS = "subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/"
REG = "subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/"
CLU = "subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/"
ENS = "subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/"
FS = "subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/"
VIS = "subprojects/ufjfmltk-visual/include/ufjfmltk/visual/"
SPEC, NA = [], []


def P(id, title, statement, over, text, why, files, mech, observe=None, level_note="", tech="", state=None):
    assert len(title) <= 80, (id, len(title))
    SPEC.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                     anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                                  observe_at=observe or [], hook_needed=None), _note=level_note, _tech=tech))


exec(open(os.path.join(HERE, "spec_text.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in SPEC:
            fh.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks, na = [], list(NA)
    for p in SPEC:
        i = p["id"]
        if i not in PROPS:
            if not any(x["property"] == i for x in na):
                na.append(dict(property=i, reason="check not built yet"))
            continue
        flav = sorted({u["flavor"] for u in PROPS[i]["units"]})
        checks.append(dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i,
                           thorough_cmd="python3 run.py %s --tier thorough" % i,
                           technique="runtime monitoring: " + (p["_tech"] or "online oracle over seeded workloads") + " (builds: " + ", ".join(flav) + ")",
                           level="exploration",
                           level_note=p["_note"] or "Randomised executions of the real code under sanitizers, judged by an independent oracle; no exhaustiveness.",
                           evidence_file="evidence/%s.json" % i))
    m = dict(version=1, setup_cmd="python3 run.py --setup", hooks=dict(guard="none", enable="no hooks: the monitors observe the public API; instrumentation comes from compiler flags", source_commits=[]),
             checks=checks, not_applicable=na,
             notes="See DESIGN.md. known-findings.txt lists repaired and recorded defects.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")
    print(len(SPEC), "properties,", len(checks), "checks,", len(na), "not applicable")


if __name__ == "__main__":
    main()
