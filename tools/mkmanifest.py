"""Writes MANIFEST.json from nbv/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from nbv.props import LEVEL_NOTES, SPECS, NOT_APPLICABLE
checks, na = [], []
for p in sorted(SPECS):
    if SPECS[p]:
        cmd = "/opt/venv/bin/python check.py %s" % p
        checks.append(dict(property=p, quick_cmd=cmd + " --quick", thorough_cmd=cmd + " --thorough", evidence_file="evidence/%s.json" % p,
                           technique="deductive verification of the real code: contracts, inferred loop invariants and frames over a symbolic execution of /repo's functions, obligations discharged by z3 and a polynomial normal form",
                           level="proof", level_note=LEVEL_NOTES.get(p, LEVEL_NOTES["*"])))
    else:
        na.append(dict(property=p, reason=NOT_APPLICABLE.get(p, "not claimed yet: the contracts for it are still being written")))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python tools/selftest.py", checks=checks, not_applicable=na,
               hooks=dict(guard="NBKODE_NONUMBA", enable="NBKODE_NONUMBA=1 (the repository's own switch); no hook was added to /repo", source_commits=[]),
               notes="See DESIGN.md. No hooks were added to /repo: the checks instrument the source of /repo on import, in memory."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
