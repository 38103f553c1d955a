#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run after editing; both are committed)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "src/t8_schemes/t8_default/"
SCH = [D + "t8_default_vertex/t8_default_vertex.cxx", D + "t8_default_line/t8_dline_bits.c", D + "t8_default_quad/t8_default_quad.cxx",
       D + "t8_default_quad/t8_default_quad_bits.cxx", D + "t8_default_hex/t8_default_hex.cxx", D + "t8_default_tri/t8_dtri_bits.c",
       D + "t8_default_prism/t8_dprism_bits.c", D + "t8_default_pyramid/t8_dpyramid_bits.c",
       "src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx"]
TECH = "contract-based deductive verification: extracted real code, DFCC contract enforcement, CBMC"
P = []
NA = []
def prop(id, title, statement, over, text, why, files, mech, level="proof", note="", claimed=True, reason="", observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))
    assert len(title) <= 80, title
    if claimed:
        CH.append(dict(property=id, quick_cmd="python3 check.py %s --tier quick" % id, thorough_cmd="python3 check.py %s --tier thorough" % id,
                       technique=TECH, level=level, level_note=note))
    else:
        NA.append(dict(property=id, reason=reason))
CH = []
exec(open(HERE + "/tools/properties.py").read())
def main():
    with open(HERE + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    json.dump(dict(version=1, setup_cmd="./setup.sh", checks=CH, not_applicable=NA,
                   notes="Every check takes /repo's current working tree (override: V_REPO). Contracts: contracts/*.py; specification: spec/; extraction: vlib/core.py, tools/ll2c.cpp. No hooks in /repo."),
              open(HERE + "/MANIFEST.json", "w"), indent=1)
    try:
        import jsonschema
        s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for p in P:
            jsonschema.validate(p, s)
        jsonschema.validate(json.load(open(HERE + "/MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
        print("valid", len(P), "properties,", len(CH), "checks,", len(NA), "not applicable")
    except ImportError:
        print("jsonschema missing (use python3-vt)")
main()
