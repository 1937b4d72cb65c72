"""Thorough tier: a sample of the obligations that z3 discharged is given to cvc5 as well."""
import os
import random
import subprocess
import tempfile
import time

import z3

SAMPLE, TLIMIT, BUDGET = 60, 10, 240
CVC5 = next((p for p in ("/usr/bin/cvc5", "/usr/local/bin/cvc5") if os.path.exists(p)), None)


def smt2(pc, goal):
    s = z3.Solver()
    for e in pc:
        s.add(e)
    s.add(z3.Not(goal))
    text = s.to_smt2()
    return "(set-logic ALL)\n" + "\n".join(l for l in text.splitlines() if not l.startswith(("(set-info", "; ")))


def run(dump):
    """{checked, agree, unknown, disagree}: cvc5's verdict on obligations discharged by z3."""
    out = dict(discharged_by_z3=len(dump), checked=0, agree=0, unknown=0, disagree=0)
    if CVC5 is None or not dump:
        return out
    rng = random.Random(1)
    # one of every name first, then at random
    by = {}
    for x in dump:
        by.setdefault(x[0], []).append(x)
    picks = [rng.choice(v) for v in by.values()]
    rest = list(dump)
    rng.shuffle(rest)
    picks = (picks + rest)[:SAMPLE]
    t0 = time.time()
    for name, pc, goal in picks:
        if time.time() - t0 > BUDGET:
            break
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(smt2(pc, goal))
        try:
            p = subprocess.run([CVC5, "--tlimit=%d" % (TLIMIT * 1000), "--arrays-exp", f.name], capture_output=True, text=True, timeout=TLIMIT + 10)
            ans = (p.stdout.strip().splitlines() or ["error"])[0]
        except subprocess.TimeoutExpired:
            ans = "unknown"
        finally:
            os.unlink(f.name)
        out["checked"] += 1
        out["agree" if ans == "unsat" else "disagree" if ans == "sat" else "unknown"] += 1
        if ans == "sat":
            out.setdefault("_", 0)
            print("cvc5 disagrees on %s" % name)
    out.pop("_", None)
    return out
