"""C07: the brute-force Hough transform."""
from .hough import *

CONTRACTS = [Brute(case="float pixels"), Brute(case="integer pixels", dt="i")]
CONTRACTS += [Transform(case="every two pairs", brute=True)]
