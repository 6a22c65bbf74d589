"""C21: CG gives the textbook iterates and reports them faithfully."""
import solve
from core import Sub

RULE = ("Hermitian positive-definite operators built from random distributed and stacked operators, random data and guess, "
        "tolerance between two of the residual norms or none, iteration limit; non-trivial: more than one rank and at "
        "least one iteration")
SUBS = [Sub("solve", lambda draw, n: solve.draw_problem(draw, n, "cg"), solve.scenario, solve.judge, quick=500, thorough=20000,
            real=6, ranks=(1, 5), nontrivial=lambda c: c["n"] > 1 and c["niter"] > 0, label=solve.labels)]
KNOWN = {}
