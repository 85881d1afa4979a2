#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property whose test exists in harness/, the rest not_applicable."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tests = set(re.findall(r"func Test(C\d\d)_", "".join(open(f).read() for f in glob.glob(V + "/harness/*_test.go"))))
T = {
 "C01": "stateful property-based testing against a linear-scan model",
 "C02": "stateful property-based testing against a multiset model",
 "C03": "stateful property-based testing against a linear-scan model",
 "C04": "stateful property-based testing with structural invariants",
 "C05": "property-based round trip plus independent WKT parser",
 "C06": "grammar-based and mutational fuzzing with re-encode oracle",
 "C07": "property-based round trip plus independent JSON walk",
 "C08": "structure-aware JSON fuzzing against a shape oracle",
 "C09": "property-based round trip and encoding fixpoint",
 "C10": "stateful property-based testing against a map model",
 "C33": "stateful property-based testing against a sequence model",
 "C34": "randomised concurrent batches under the race detector, compared with sequential runs",
 "C32": "property-based purity testing with sentinel-filled spare capacity",
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in tests:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": T.get(i, "property-based testing against an independent oracle and metamorphic relations"),
                       "level": "exploration",
                       "level_note": "Holds on every generated case (counts in the evidence file); a sample of the input space, no proof. Trusts the oracles and tolerances in harness/ and the generators' reach (see DESIGN.md)."})
    else:
        na.append({"property": i, "reason": "no check yet"})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "Replay a stored failure with: python3 check.py ID replay FILE.fail"}, open(V + "/MANIFEST.json", "w"), indent=1)
