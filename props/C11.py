"""C11: flat-field correction."""
import numpy as np
from hypothesis import strategies as st
from vf.core import check, larger
from vf.gen import SEED, I, F, KINDS, array, rng, pick
import algotom.prep.correction as corr
import algotom.prep.removal as remo
import algotom.prep.filtering as filt

DT = pick("float32", "float32", "uint16", "uint8", "float64")


def model(proj, flat, dark, ratio, use_dark):
    proj = np.asarray(proj, dtype=np.float64)
    flat = ratio * np.asarray(flat, dtype=np.float64)
    dark = np.asarray(dark, dtype=np.float64) if use_dark else 0.0
    den = flat - dark
    zero = den == 0.0
    if zero.any():
        m = den.mean()
        den = np.where(zero, m if m != 0 else 1.0, den)
    return (proj - dark) / den


@check(quick=300, seed=SEED, d=I(1, 5), h=I(1, 8), w=I(1, 8), dt=DT,
       ndim=I(2, 3), one_row=st.booleans(), ratio=pick(1.0, 1.0, 0.5, 2.0),
       use_dark=st.booleans(), zeros=pick(0, 0, 1, 5), allzero=pick(
           False, False, False, True), below=pick(0.0, 0.0, 0.1, 0.3))
def formula(ctx, seed, d, h, w, dt, ndim, one_row, ratio, use_dark, zeros,
            allzero, below):
    """(projection - dark) / (ratio*flat - dark), or projection / (ratio*flat)
    without darks; zero denominators are replaced by the mean denominator (by
    one if that is zero too); inputs stay untouched."""
    if ndim == 2:
        shape, fshape = (h, w), ((w,) if one_row else (h, w))
    else:
        shape, fshape = (d, h, w), (h, w)
    proj = array(seed, shape, dt, "noise", 1, 200)
    flat = array(seed + 1, fshape, dt, "noise", 120, 250)
    dark = array(seed + 2, fshape, dt, "noise", 0, 30)
    r = rng(seed, 5)
    if zeros:
        bad = r.random(fshape) * 10 < zeros
        if allzero:
            bad[...] = True
        if use_dark:
            v = np.round(np.where(bad, 16, 0)).astype(dt)
            dark = np.where(bad, v, dark).astype(dt)
            flat = np.where(bad, (16 / ratio), flat).astype(dt)
        else:
            flat = np.where(bad, 0, flat).astype(dt)
    if not use_dark and below and not allzero and flat.dtype.kind == "f":
        flat = np.where(r.random(fshape) < below, -flat, flat).astype(dt)
        if abs(flat.mean()) < 5:
            return ctx.nontrivial(False)
    if use_dark and below and not allzero:
        # a flat below the dark: a negative number like any other
        low = r.random(fshape) < below
        dark = np.where(low, 200, dark).astype(dt)
        flat = np.where(low, 60 / ratio, flat).astype(dt)
        den = ratio * flat.astype(float) - dark
        if abs(den.mean()) < 5:
            return ctx.nontrivial(False)
    with ctx.unchanged("flat_field_correction", proj, flat, dark):
        got = corr.flat_field_correction(proj, flat, dark, ratio=ratio,
                                         use_dark=use_dark)
    want = model(proj, flat, dark, ratio, use_dark)
    ctx.finite(got, "corrected")
    ctx.near(got, want, "corrected", rtol=2e-5)
    ctx.label("dark" if use_dark else "nodark", "zeros" if zeros else "",
              "ndim%d" % ndim)


@check(quick=200, seed=SEED, d=I(1, 5), h=I(1, 8), w=I(1, 8),
       ratio=F(0.2, 3), sino=st.booleans())
def transmission(ctx, seed, d, h, w, ratio, sino):
    """Projections made from a known transmission, flat and dark give the
    transmission back; a flat gives one and a dark zero; correcting a stack
    and its sinograms one row at a time is the same."""
    t = array(seed, (d, h, w), "float64", "noise", 0.01, 1.2)
    flat = array(seed + 1, (h, w), "float64", "noise", 400, 900) / ratio
    dark = array(seed + 2, (h, w), "float64", "noise", 1, 30)
    proj = t * (ratio * flat - dark) + dark
    got = corr.flat_field_correction(proj, flat, dark, ratio=ratio)
    ctx.near(got, t, "transmission", rtol=1e-4)
    ctx.near(corr.flat_field_correction(ratio * flat, flat, dark,
                                        ratio=ratio), np.ones((h, w)),
             "a flat", rtol=1e-4)
    ctx.near(corr.flat_field_correction(dark, flat, dark, ratio=ratio),
             np.zeros((h, w)), "a dark", atol=1e-5)
    for i in range(h):
        s = corr.flat_field_correction(proj[:, i], flat[i], dark[i],
                                       ratio=ratio)
        ctx.near(s, got[:, i], "sinogram %d" % i, rtol=1e-5)
    ctx.nontrivial(d > 1 and h > 1)


OPTS = {
    "dezinger": (["remove_zinger", 0.2, 1],
                 lambda m: remo.remove_zinger(m, 0.2, 1)),
    "norm": (["remove_stripe_based_normalization", 3],
             lambda m: remo.remove_stripe_based_normalization(m, 3)),
    "sort": (["remove_stripe_based_sorting", 3],
             lambda m: remo.remove_stripe_based_sorting(m, 3)),
    "fresnel": (["fresnel_filter", 10, 1],
                lambda m: filt.fresnel_filter(m, 10, 1)),
    "fresnel2": (["fresnel_filter", 10, 2, None, 5],
                 lambda m: filt.fresnel_filter(m, 10, 2, None, 5)),
    "bandpass": (["remove_stripe_based_filtering", 2, 5, 2],
                 lambda m: remo.remove_stripe_based_filtering(m, 2, 5, 2)),
}


@check(quick=80, seed=SEED, d=I(10, 16), h=pick(2, 3, 4, 14, 20), w=I(20, 32), ndim=I(2, 3),
       order=st.lists(pick(*sorted(OPTS)), min_size=0, max_size=3),
       use_dark=st.booleans())
def filters(ctx, seed, d, h, w, ndim, order, use_dark):
    """The filters asked for are applied to the corrected sinogram - of a
    stack, to every sinogram - in the order given; anything that is not a
    filter is refused."""
    proj = array(seed, (d, h, w), "float32", "noise", 50, 200)
    flat = array(seed + 1, (h, w), "float32", "noise", 220, 250)
    dark = array(seed + 2, (h, w), "float32", "noise", 0, 30)
    if ndim == 2:
        proj, flat, dark = proj[:, 0], flat[0], dark[0]
    kw = {}
    for i, name in enumerate(order):
        vals = OPTS[name][0]
        kw["opt%d" % ((seed + (-1) ** seed * i) % 7)] = {"method": vals[0], **{
            "para%d" % j: v for j, v in enumerate(vals[1:])}}
    if order and seed % 3 == 0:
        kw["zz"] = None
    got = corr.flat_field_correction(proj, flat, dark, use_dark=use_dark,
                                     **kw)
    want = corr.flat_field_correction(proj, flat, dark, use_dark=use_dark)
    for name in order:
        f = OPTS[name][1]
        want = f(want) if ndim == 2 else np.stack(
            [f(want[:, i]) for i in range(h)], axis=1)
    ctx.near(got, want, "filtered with %s" % order, rtol=1e-6)
    ctx.raises(ValueError, lambda: corr.flat_field_correction(
        proj, flat, dark, opt={"method": "no_such_method", "p": 1}),
        "unknown method")
    ctx.raises(ValueError, lambda: corr.flat_field_correction(
        proj, flat, dark, opt=["remove_zinger", 0, False, "", 1.0][seed % 5]),
        "option not a dictionary")
    ctx.nontrivial(len(order) > 1)
    ctx.label("n%d" % len(order))


larger(formula, d=I(5, 30), h=I(20, 100), w=I(20, 200))
larger(transmission, d=I(5, 40), h=I(20, 90), w=I(20, 200))
