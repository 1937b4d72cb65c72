"""What decides each property, and what is trusted."""
SPECS = {p: [] for p in ["C%02d" % i for i in range(1, 22)]}
for p, m in dict(C01="rk", C02="rk", C12="rk", C03="multistep", C04="multistep", C05="multistep", C06="steps", C07="steps runner", C20="steps",
                 C08="runner", C09="runner", C10="runner dense", C11="dense", C13="events runner_events", C14="events", C15="events runner_events",
                 C16="runner dense", C17="runner dense", C18="registry", C19="zeros").items():
    SPECS[p] = m.split()

TRUSTED = [
    "the verification condition generator nbv/ (written for this task; its fidelity self-test runs the repository's tests through the instrumented package)",
    "contracts of numpy operations on symbolic arrays (nbv/npshim.py, nbv/sym.py)",
    "z3 4.x (linear and nonlinear real arithmetic, uninterpreted functions)",
    "the polynomial normal form nbv/ring.py and the lemmas of nbv/lin.py",
    "CPython's own semantics (the real code is executed, symbolically)",
]

COMMON = [
    "machine floats are treated as mathematical reals (no rounding, overflow, inf or nan arithmetic; coefficients are compared up to 1e-12)",
    "numba decorators are the identity (NBKODE_NONUMBA=1); compiled execution is not covered (C21)",
    "the rhs (and event functions) are deterministic, return vectors of the system's dimension and do not modify their arguments",
    "partial correctness: termination of the retry loop of adaptive methods and of user callbacks is not proved",
]

EXTRA = {}
LEVEL_NOTES = {
    "*": "Every obligation generated from the current source is discharged for all inputs, states and iterations, over the reals; "
         "trusts the VC generator nbv/, its contracts of numpy and the solvers (see assumptions in the evidence). Concrete executions only search for failing inputs.",
}
NOT_APPLICABLE = {
    "C21": "agreement of Numba-compiled and interpreted execution is a statement about the semantics of Numba and LLVM; no contract on the Python source can express or decide it",
}


def assumptions(prop):
    return COMMON + EXTRA.get(prop, [])
