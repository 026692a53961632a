"""C17: what a helical scan can reconstruct."""
import numpy as np
from hypothesis import strategies as st
from vf.core import check, also, larger
from vf.gen import SEED, I, F, rng, pick
import algotom.prep.calculation as calc


@check(quick=1500, y0=F(-50, 50), length=F(0.1, 300), pitch=F(0.01, 40),
       pix=pick(0.001, 0.01, 0.1, 0.25, 1.0, 3.0) | F(0.005, 2),
       kind=pick("180", "360"))
def heights(ctx, y0, length, pitch, pix, kind):
    """The reconstructable range loses half a pitch (180) or a pitch (360)
    at each end, and the largest index is the last whole pixel step inside
    it."""
    y1 = y0 + 2.2 * pitch + length
    lo, hi = calc.calculate_reconstructable_height(y0, y1, pitch, kind)
    cut = pitch if kind == "360" else pitch / 2
    ctx.near([lo, hi], [y0 + cut, y1 - cut], "range", atol=1e-9)
    m = calc.calculate_maximum_index(y0, y1, pitch, pix, kind)
    ctx.true(isinstance(m, (int, np.integer)), "index is not an integer")
    # index k stands at lo + (k - 1)*pix
    ctx.true(lo + (m - 1) * pix <= hi + 1e-6 * max(1, abs(hi)),
             "index %d lies beyond the range" % m)
    ctx.true(lo + m * pix > hi - 1e-6 * max(1, abs(hi)),
             "index %d still fits" % (m + 1))
    # moving everything by the same distance changes nothing
    lo2, hi2 = calc.calculate_reconstructable_height(y0 + 7, y1 + 7, pitch,
                                                     kind)
    ctx.near([lo2 - 7, hi2 - 7], [lo, hi], "shifted scan", atol=1e-9)
    ctx.label(kind)
    ctx.nontrivial(m > 1)


@check(quick=100, y0=F(-50, 50), y1=F(60, 100), pitch=F(0.1, 4),
       pix=F(0.1, 2), kind=pick("90", "720", "", "half", 180, 360, None))
def bad_type(ctx, y0, y1, pitch, pix, kind):
    """Any other kind of scan is refused."""
    ctx.raises(ValueError, lambda: calc.calculate_reconstructable_height(
        y0, y1, pitch, kind), "height for %r" % (kind,))
    ctx.raises(ValueError, lambda: calc.calculate_maximum_index(
        y0, y1, pitch, pix, kind), "index for %r" % (kind,))
