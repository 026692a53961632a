"""C10: stripe detection, interpolation across stripes, sample detection."""
import numpy as np
import scipy.ndimage as ndi
from hypothesis import strategies as st
from vf.core import check, also, larger
from vf.gen import SEED, I, F, KINDS, array, rng, pick
import algotom.util.utility as util


def stripe_mask(x, snr):
    """Model; also says how close any decision was."""
    n = len(x)
    s = np.sort(np.asarray(x, dtype=np.float64))
    d = int(0.25 * n)
    xs = np.arange(n, dtype=np.float64)[d:-d - 1]
    slope, icpt = np.polyfit(xs, s[d:-d - 1], 1)
    end = icpt + slope * (n - 1)
    noise = abs(end - icpt)
    mask = np.zeros(n)
    gaps = []
    v1, v2 = abs(s[-1] - end) / noise, abs(icpt - s[0]) / noise
    gaps += [abs(v1 - snr), abs(v2 - snr)]
    if v1 >= snr:
        mask[x > end + noise * snr * 0.5] = 1
        gaps.append(np.abs(x - end - noise * snr * 0.5).min() / noise)
    if v2 >= snr:
        mask[x <= icpt - noise * snr * 0.5] = 1
        gaps.append(np.abs(x - icpt + noise * snr * 0.5).min() / noise)
    return mask, noise, min(gaps)


@check(quick=250, seed=SEED, n=I(12, 120), nhi=I(0, 4), nlo=I(0, 4),
       amp=F(0.3, 6), snr=F(1, 6), off=F(-5, 5), gain=F(0.1, 20),
       dt=pick("float64", "float32"))
def detect(ctx, seed, n, nhi, nlo, amp, snr, off, gain, dt):
    """Values far outside the spread of the middle half of a 1D array are
    flagged, above and below independently; nothing else is; the answer does
    not depend on order, offset or gain."""
    r = rng(seed)
    x = r.random(n)
    where = r.permutation(n)
    x[where[:nhi]] = 1 + amp * (1 + 0.3 * r.random(nhi)) * snr
    x[where[nhi:nhi + nlo]] = -amp * (1 + 0.3 * r.random(nlo)) * snr
    # values around the thresholds of the mask
    k = int(r.integers(0, 4))
    near = where[nhi + nlo:nhi + nlo + k]
    side = r.random(len(near)) < 0.5
    dist = r.uniform(0.1, 1.0, len(near)) * snr
    x[near] = np.where(side, 1 + dist, -dist)
    x = (x * gain + off).astype(dt)
    want, noise, gap = stripe_mask(x, snr)
    if gap < 1e-4 or noise < 1e-3:
        ctx.nontrivial(False)
        return
    with ctx.unchanged("detect_stripe", x):
        got = util.detect_stripe(x, snr)
    ctx.same(got, want, "mask")
    p = r.permutation(n)
    ctx.same(util.detect_stripe(x[p], snr), want[p], "permuted input")
    ctx.same(util.detect_stripe(x.astype("f8") * 2 + 3, snr), want,
             "scaled and shifted input")
    ctx.raises(ValueError, lambda: util.detect_stripe(np.ones(n), snr),
               "noise-free data")
    ctx.nontrivial(want.any())
    ctx.label("hi" if nhi else "", "lo" if nlo else "")


@check(quick=250, seed=SEED, h=I(5, 20), w=I(12, 40), frac=I(0, 5),
       kind=pick("linear", "linear", "cubic", "quintic"), data=KINDS,
       edge=st.booleans())
def interpolate(ctx, seed, h, w, frac, kind, data, edge):
    """Columns flagged by the mask are interpolated from the others (linear:
    exactly between the nearest unflagged columns; higher orders reproduce
    smooth polynomials), columns not flagged and the two at each edge stay as
    they are."""
    r = rng(seed)
    mask = (r.random(w) * 10 < frac).astype(np.float32)
    if edge:
        mask[[0, 1, -1, -2]] = 1
    if int((mask[2:-2] == 0).sum()) < 4:
        mask[4:w - 4:3] = 0
    mat = array(seed, (h, w), "float64", data, -1, 3)
    eff = mask.copy()
    eff[:2] = eff[-2:] = 0
    keep = eff < 1
    with ctx.unchanged("interpolate_inside_stripe", mat, mask):
        got = util.interpolate_inside_stripe(mat, mask, kind=kind)
    ctx.same(got[:, keep], mat[:, keep], "columns outside the stripes")
    xs = np.flatnonzero(keep)
    if kind == "linear":
        want = np.stack([np.interp(np.arange(w), xs, row[xs])
                         for row in mat])
        ctx.near(got, want, "interpolated", rtol=1e-9, scale=3)
    c = r.random((3, 4)) - 0.5
    deg = {"linear": 1, "cubic": 2, "quintic": 3}[kind]
    x, y = np.arange(w) / w, np.arange(h) / h
    poly = sum(c[i, j] * y[:, None] ** i * x[None] ** j
               for i in range(3) for j in range(deg + 1))
    got = util.interpolate_inside_stripe(poly, mask, kind=kind)
    ctx.near(got, poly, "polynomial image", rtol=1e-7, scale=1)
    ctx.raises(ValueError, lambda: util.interpolate_inside_stripe(
        mat, mask[1:], kind=kind), "mask of another width")
    ctx.nontrivial(eff.any())
    ctx.label(kind)


@check(quick=80, seed=SEED, h=I(40, 90), w=I(40, 90), t=pick("180", "360"),
       sample=st.booleans())
def sample_detection(ctx, seed, h, w, t, sample):
    """Whether a sinogram holds a sample is decided by where the strongest
    horizontal frequencies sit as the vertical frequency falls (the double
    wedge), whatever the gain of the data."""
    r = rng(seed)
    sino = 0.02 * r.random((h, w))
    if sample:
        a = np.linspace(0, np.pi * (1 if t == "180" else 2), h)
        pos = w / 2 + 0.35 * w * np.cos(a + r.random() * 6)
        sino += np.exp(-((np.arange(w)[None] - pos[:, None]) / 3) ** 2)
    got = util.detect_sample(sino, sino_type=t)
    full = np.vstack((sino, sino[:, ::-1])) if t == "180" else sino
    f = np.abs(np.fft.fftshift(np.fft.fft2(full)))
    nr, nc = f.shape
    rad = min(20, int(np.ceil(0.05 * min(nr // 2, nc // 2))))
    f = f[:nr // 2 - rad, :nc // 2 - rad]
    f = ndi.gaussian_filter(f, min(30, int(np.ceil(0.02 * min(nr, nc)))))
    row = int(0.8 * len(f))
    arg = [int(np.argmax(x)) for x in f[row:]]
    ratio = np.mean([p > arg[0] for p in arg])
    if abs(ratio - 0.4) > 1e-6:
        ctx.eq(bool(got), bool(ratio >= 0.4), "sample found")
    ctx.eq(bool(util.detect_sample(sino * 8.0, sino_type=t)), bool(got),
           "with a gain of 8")
    ctx.raises(ValueError, lambda: util.detect_sample(sino, "270"),
               "unknown type")
    ctx.label("sample" if got else "none")


also(sample_detection, "sample_detection_large", "The same for images large "
     "enough for the limits of smoothing and margin.", 6, 40, 20, seed=SEED,
     h=I(760, 1700), w=I(780, 1700), t=pick("180", "360"),
     sample=st.booleans())


larger(detect, n=I(500, 4000), nhi=I(0, 20), nlo=I(0, 20))
larger(interpolate, h=I(60, 300), w=I(100, 900))
