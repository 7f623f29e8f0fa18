"""C02: the separation filter, and what the loader gives it."""
from .lines import *

SEP = ("separations judged", "thinned only", "blended", "not thinned", "three columns", "columns selected alike")
CONTRACTS = [FilterSeparation(case="float", dt="f"), FilterSeparation(case="int", dt="i"),
             Load(case="separation, N brightest", only=SEP), Load(case="separation, all lines, no minimum", only=SEP, mi="none", N=False),
             Load(case="separation, air", only=SEP, vac=False)]
