"""C14: the distributed second derivative is the documented finite-difference matrix along the first axis."""
from props import c13

RULE = c13.RULE.replace("kind, order, edge", "kind, edge")
SUBS = c13.subs("second")
KNOWN = {}
