"""C08: binning and ranking of the Hough points."""
from .hough import *

CONTRACTS = [Rank(), Bin()]
CONTRACTS += [Transform(case="grid", bins=True), Transform(case="every two pairs", brute=True, bins=True)]
