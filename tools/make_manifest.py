"""Writes MANIFEST.json: one check per harness/checks/cXX.py"""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]

TECH = {
    "C01": "property-based testing against a dense extended-precision reference",
    "C02": "property-based testing against a dense extended-precision reference",
    "C03": "property-based testing against a dense extended-precision reference",
    "C04": "property-based testing against exact window-averaged covariances",
    "C05": "property-based testing against exact window-averaged covariances",
    "C06": "property-based testing against exact window-averaged covariances",
    "C07": "property-based differential testing of the two solvers",
    "C08": "property-based differential testing of the two integrated solvers",
    "C09": "property-based testing against a dense per-component reference",
    "C10": "property-based testing against closed-form covariances",
    "C11": "generated kernel expressions against a dense reference, metamorphic rewriting",
    "C12": "property-based testing of algebraic laws of the discretisation",
    "C13": "property-based testing against exact integrals of the base process",
    "C14": "property-based testing against analytic and numerical Fourier transforms",
    "C15": "property-based testing against the exact periodic covariance",
    "C16": "property-based differential testing of eager, compiled, batched, differentiated runs",
    "C17": "generated models, exact operation counts of their compiled programs",
    "C18": "metamorphic property-based testing",
    "C19": "stateful property-based testing against a model",
    "C20": "property-based testing against dense posteriors of data prefixes",
    "C21": "property-based testing of extreme, integer-valued and invalid inputs",
    "C22": "generated user-defined models against a dense reference",
    "C23": "property-based testing against exact window-averaged covariances",
    "C24": "property-based testing against extended-precision integrals",
}

NOTE = (
    "Search over generated inputs: no proof of absence. Trusts the reference model in"
    " harness/oracle.py (closed forms in 80-bit arithmetic), numpy, JAX and Hypothesis."
)

checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "harness", "checks", i.lower() + ".py")):
        cmd = f"/opt/venv/bin/python harness/run.py {i}"
        checks.append(
            {
                "property": i,
                "quick_cmd": cmd + " --tier quick",
                "thorough_cmd": cmd + " --tier thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": TECH[i],
                "level": "exploration",
                "level_note": NOTE,
            }
        )
    else:
        na.append({"property": i, "reason": "check not built yet"})
man = {
    "version": 1,
    "setup_cmd": "true",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo. See DESIGN.md; known_findings.txt lists repaired and known defects.",
}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
