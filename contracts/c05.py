"""C05: removing a wavelength range from an atlas."""
from fractions import Fraction as F
from pyvc.contract import *
from .cal import calibrator_object, CAL, PairsStub


class Remove(Contract):
    qual = "rascal.atlas.Atlas.remove_atlas_lines_range"
    default = False

    def setup(self, c):
        d = {"self": atlas_object(c), "wavelength": c.real("wavelength")}
        if not self.default:
            d["tolerance"] = c.real("tolerance")
        return d

    def modifies(self, c):
        a = self.atlas(c)
        return [("fld", a, "atlas_lines"), ("heap", c.val(c.fld(a, "atlas_lines", c.old), c.old))]

    def atlas(self, c):
        return c.a["self"]

    def ensures(self, c):
        w = c.a["wavelength"]
        tol = c.a.get("tolerance", 10)
        old = lines_of(c, self.atlas(c), c.old)
        new = lines_of(c, self.atlas(c))
        dist = lambda r: arith("-", fieldf(c, old.at(r), "wavelength"), w)
        inside = lambda r: land(compare("<", dist(r), tol), compare("<", arith("-", 0, dist(r)), tol))
        yield from filtered(c, old, new, lambda r: lnot(inside(r)), line_eq(c), "lines left")


class CalRemove(Remove):
    """the same of the atlas of a calibrator"""
    qual = CAL + ".remove_atlas_lines_range"

    def setup(self, c):
        d = Remove.setup(self, c)
        d["self"] = calibrator_object(c, pairs=c.table("oldpairs", 2))
        return d

    def atlas(self, c):
        return c.fld(c.a["self"], "atlas", c.old)

    def modifies(self, c):
        a = self.atlas(c)
        return [("fld", c.a["self"], "pairs"), ("fld", a, "atlas_lines"), ("heap", c.val(c.fld(a, "atlas_lines", c.old), c.old))]


TABLE = [PairsStub()]
CONTRACTS = [Remove(), Remove(case="default tolerance", default=True),
             CalRemove(case="of a calibrator"), CalRemove(case="of a calibrator, default tolerance", default=True)]
