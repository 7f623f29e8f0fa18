"""C15: polynomial models, the robust fit and the derivative."""
from .poly import *

CONTRACTS = ([Polynomial(case="any degree"), Polynomial(case="any degree, list", kind="list"), Polynomial(case="any degree, integer x", xdt="i")]
             + [Polynomial(case="degree %d" % d, degree=d) for d in range(6)]
             + [Polynomial(case="degree %d, list of integers" % d, degree=d, kind="list", dt="i", xdt="i") for d in (0, 3)]
             + [Polynomial(case="degree 3, %+d coefficients" % e, degree=3, extra=e) for e in (1, -1)]
             + [Normalise()]
             + [Fit(case="any degree", degree=None)] + [Fit(case="degree %d" % d, degree=d) for d in range(1, 6)]
             + [Fit(case="any degree, start list", degree=None, x0="list"), Fit(case="degree 2, start array", degree=2, x0="nd"), Fit(case="degree 2, integers", dt="i"),
                Fit(case="degree 2, integer start list", x0="list", x0dt="i"), Fit(case="degree 3, integer start array", degree=3, x0="nd", x0dt="i")]
             + [Derivative(case="array"), Derivative(case="list", kind="list"), Derivative(case="integers", dt="i")])
