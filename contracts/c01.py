"""C01: line selection."""
from .lines import *

CONTRACTS = [FilterWavelengths(),
             Load(case="vacuum, file, all elements' minimum"),
             Load(case="vacuum, file, no N", N=False),
             Load(case="vacuum, file, minimum per element", mi="list"),
             Load(case="vacuum, file, no minimum", mi="none", N=False),
             Load(case="vacuum, one element, integer minimum", els="one", mi="int"),
             Load(case="vacuum, nist list", path="nist", N=False),
             Load(case="air, file", vac=False),
             Load(case="air, file, no N", vac=False, N=False)]
