BASE = [
    "z3 (the only deductive back end)",
    "pyver: the AST instrumentation of /repo's text (drops annotations, logging/print calls, docstrings and the text of "
    "exception messages; keeps every other statement), its path exploration, loop summaries and sum normaliser",
    "contracts on numpy, scipy.integrate.newton_cotes and math primitives (pyver/npops.py, arrays.py, setops.py, shims.py), "
    "cross-checked against the real libraries on random inputs by selfcheck.py",
    "contracts on the pandas subset (pyver/frames.py), cross-checked the same way",
    "textbook facts on sqrt/exp/log10/10**x and on finite sums (pyver/core.py math_axioms, pyver/sums.py)",
]
ASSUMPTIONS = [
    "machine floats are treated as reals: rounding, overflow and nan/inf are outside the proofs (the run-time layer compares "
    "with relative tolerance 1e-7)",
    "python ints are mathematical integers (exact in CPython; numpy int64 overflow is not modelled)",
    "the numba @njit decorator is identity on the function's meaning (the run-time layer runs with NUMBA_DISABLE_JIT=1)",
    "termination is not proved except for loops over finite ranges/arrays",
]
