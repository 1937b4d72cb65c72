"""Fidelity self-test: the instrumented package, run concretely, passes the repository's own tests."""
import os, sys
os.environ["NBKODE_NONUMBA"] = "1"
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get("NBV_REPO", "/repo")
from nbv import instrument, runtime
instrument.install(runtime)
import pytest
code = pytest.main(["-q", "-x", "-p", "no:cacheprovider", os.path.join(REPO, "nbkode", "testsuite")])
print("self-test of the instrumentation:", "passed" if code == 0 else "FAILED (see above)")
sys.exit(int(code) if "--strict" in sys.argv else 0)
