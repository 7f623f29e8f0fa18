"""C06: the grid Hough transform and added points."""
from .hough import *

CONTRACTS = [Grid_(case="float pixels"), Grid_(case="integer pixels", dt="i")] + [AddPoints(case=w, what=w) for w in ("array", "hough", "list", "number")]
CONTRACTS += [Transform(case="grid")]
