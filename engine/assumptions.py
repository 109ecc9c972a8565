TRUSTED = [
    "CPython 3.12 (executes the real /repo source during symbolic execution and during replay)",
    "engine/terms.py, engine/prover.py: term normal form, case splitting, sum/congruence rules, translation to z3",
    "engine/symtorch.py, engine/symnn.py: symbolic semantics of the torch operations used by gconv (cross-checked on every run: the same contracts are executed on the real torch)",
    "z3 4.x (python3-vt) for arithmetic, linear and nonlinear side conditions",
    "PyTorch itself (external dependency, contracts assumed)",
]
ASSUMPTIONS = [
    "machine arithmetic is treated as real arithmetic; rounding, overflow and NaN propagation are outside the proof (float32 and float64 are exercised by the concrete cross-check)",
    "division by zero and domain errors are excluded by explicit well-definedness obligations where the contract lists them, otherwise assumed",
    "tensor sizes are unbounded symbolic integers; the number of leading batch dimensions is enumerated (0 to 2 or 3)",
    "single thread of control, CPU tensors, default device",
    "user-supplied callables passed to kernels and layers are pure functions",
]
