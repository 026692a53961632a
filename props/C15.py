"""C15: finding the centre of rotation of a sinogram or a projection pair."""
import numpy as np
import scipy.ndimage as ndi
from hypothesis import strategies as st
from vf.core import check, also
from vf.gen import SEED, I, F, KINDS, array, blobs, disc_sinogram, rng, pick
import algotom.prep.calculation as calc


def inv_wedge(h, w, radius, hd, vd):
    """1 inside the double wedge, 0 along the axes and outside."""
    du, dv = 1.0 / w, (h - 1.0) / (h * 2 * np.pi)
    yc, xc = h // 2, w // 2
    m = np.zeros((h, w))
    for i in range(h):
        n = abs(int(np.ceil((i - yc) * dv / radius / du)))
        m[i, max(0, min(w - 1, xc - n)):min(w - 1, xc + n) + 1] = 1
    m[max(0, yc - hd) if yc - hd >= 0 else yc - hd:yc + hd + 1] = 0
    m[:, xc - vd:xc + vd + 1] = 0
    return m


def metric(sino, c, mask):
    n = sino.shape[1]
    shift = 2 * c - (n - 1)
    comp = sino[::-1]
    if float(shift).is_integer():
        src = int(round(2 * c)) - np.arange(n)
        ok = (src >= 0) & (src < n)
        other = np.where(ok[None], sino[:, np.clip(src, 0, n - 1)], comp)
    else:
        other = ndi.shift(sino[:, ::-1], (0, shift), order=3)
        if shift >= 0:
            k = int(np.ceil(shift))
            other[:, :k] = comp[:, :k]
        else:
            k = int(np.floor(shift))
            other[:, k:] = comp[:, k:]
    f = np.fft.fftshift(np.fft.fft2(np.vstack((sino, other))))
    return np.mean(np.abs(f) * mask)


def sino_180(seed, h, w, cen, nd, noise):
    ang = np.linspace(0, np.pi, h)
    s = disc_sinogram(blobs(seed, nd, w, rad=(0.06, 0.15), within=0.4), ang,
                      w, cen)
    return s / s.max() + noise * rng(seed, 8).standard_normal((h, w))


@check(quick=60, seed=SEED, h=I(16, 40), w=I(20, 44), lo=I(0, 6), n=I(1, 8),
       ratio=F(0.2, 1), denoise=st.booleans(), hd=st.none() | I(1, 3),
       vd=st.none() | I(1, 3), ncore=pick(1, 2))
def coarse(ctx, seed, h, w, lo, n, ratio, denoise, hd, vd, ncore):
    """The coarse search returns the integer position whose completed
    360-degree sinogram has the least energy inside the double wedge; the
    metric and its mask follow their definition."""
    s = array(seed, (h, w), "float64", "noise", 0.5, 1.5)
    start = w // 2 - lo
    stop = start + n
    with ctx.unchanged("coarse_search_cor", s):
        got = calc.coarse_search_cor(s, start, stop, ratio=ratio,
                                     denoise=denoise, ncore=ncore,
                                     hor_drop=hd, ver_drop=vd)
    sm = ndi.gaussian_filter(s, (3, 1), mode="reflect") if denoise else s
    mask = inv_wedge(2 * h, w, 0.5 * ratio * w, hd if hd else
                     min(20, int(0.05 * 2 * h)), vd or 1)
    ctx.same(calc.make_inverse_double_wedge_mask(
        2 * h, w, 0.5 * ratio * w, hd, vd), mask, "mask")
    m = [metric(sm, c, mask) for c in range(start, stop + 1)]
    for i in (0, len(m) - 1):
        v = calc.calculate_center_metric(start + i, sm, sm[:, ::-1],
                                         sm[::-1], mask)
        ctx.near(v, m[i], "metric at %d" % (start + i), rtol=1e-9)
    srt = sorted(m)
    if len(m) == 1 or srt[1] - srt[0] > 1e-6 * srt[0]:
        ctx.eq(int(got), start + int(np.argmin(m)), "position")
    ctx.nontrivial(n > 1)


@check(quick=150, h=I(4, 90), w=I(4, 90), rad=F(0.5, 60),
       hd=st.none() | I(0, 40), vd=st.none() | I(0, 40))
def mask(ctx, h, w, rad, hd, vd):
    """The mask is the double wedge of the radius asked for without the rows
    and columns asked for: at least one, at most a third on each side."""
    ctx.same(calc.make_inverse_double_wedge_mask(h, w, rad, hd, vd),
             inv_wedge(h, w, rad, min(20, int(0.05 * h)) if hd is None else
                       max(1, min(hd, h // 3)),
                       1 if vd is None else max(1, min(vd, w // 3))), "mask")
    ctx.nontrivial(h > 8 and w > 8)


@check(quick=30, seed=SEED, h=I(16, 40), w=I(40, 90), lo=I(-4, 0), n=I(1, 8),
       ratio=F(0.2, 1), hd=st.none() | I(1, 9), vd=st.none() | I(1, 9),
       dsp=st.booleans(), radius=I(1, 4), step=pick(0.25, 0.5, 1.0),
       kind=pick("noise", "real"))
def stages(ctx, seed, h, w, lo, n, ratio, hd, vd, dsp, radius, step, kind):
    """The search is the coarse search, then the fine one round its result,
    with the parameters asked for."""
    if kind == "noise":
        s = array(seed, (h, w), "float32", "noise", 0.5, 1.5)
    else:
        s = sino_180(seed, h, w, (w - 1) / 2 + 1, 5, 0.05)
    start, stop = w // 2 + lo, w // 2 + lo + n
    got = calc.find_center_vo(s, start, stop, step, radius, ratio, dsp,
                              hor_drop=hd, ver_drop=vd)
    a = calc.coarse_search_cor(s, start, stop, ratio=ratio, denoise=True,
                               hor_drop=hd, ver_drop=vd)
    cand = np.clip(a + (0.5 if dsp else 0.0) + np.arange(
        -radius, radius + step, step), 0, w - 1)
    sm = ndi.gaussian_filter(s, (2, 2), mode="reflect")
    m2 = inv_wedge(2 * h, w, 0.5 * ratio * w,
                   min(20, int(0.05 * 2 * h)) if hd is None else
                   max(1, min(hd, 2 * h // 3)),
                   1 if vd is None else max(1, min(vd, w // 3)))
    m = np.asarray([metric(sm, c, m2) for c in cand])
    k = int(np.argmin(np.abs(cand - got)))
    if abs(cand[k] - got) < 1e-9:
        ctx.true(m[k] <= m.min() * (1 + 1e-6), "metric at %s is not the "
                 "least, it is at %s" % (got, cand[int(np.argmin(m))]))
    else:
        ctx.true(dsp and abs(got - a) <= radius + step + 1,
                 "%s is no candidate" % got)
    ctx.nontrivial(n > 1)


@check(quick=60, seed=SEED, h=I(16, 40), w=I(20, 44), lo=F(-3, 3),
       radius=I(1, 3), step=pick(0.25, 0.5, 1.0), ratio=F(0.2, 1),
       denoise=st.booleans(), ncore=pick(1, 2), atedge=st.booleans(),
       hd=st.none() | I(1, 9), vd=st.none() | I(1, 9))
def fine(ctx, seed, h, w, lo, radius, step, ratio, denoise, ncore, atedge,
         hd=None, vd=None):
    """The fine search does the same around a start with sub-pixel steps."""
    s = array(seed, (h, w), "float64", "noise", 0.5, 1.5)
    start = (w - 1) / 2 + round(lo * 4) / 4
    if atedge:
        start = 1.0
    with ctx.unchanged("fine_search_cor", s):
        got = calc.fine_search_cor(s, start, radius, step, ratio=ratio,
                                   denoise=denoise, ncore=ncore,
                                   hor_drop=hd, ver_drop=vd)
    sm = ndi.gaussian_filter(s, (2, 2), mode="reflect") if denoise else s
    mask = inv_wedge(2 * h, w, 0.5 * ratio * w,
                     min(hd, 2 * h // 3) if hd else min(20, int(0.05 * 2 * h)),
                     min(vd, w // 3) if vd else 1)
    cand = np.clip(start + np.arange(-radius, radius + step, step), 0, w - 1)
    m = np.asarray([metric(sm, c, mask) for c in cand])
    for i in (0, len(m) // 3):
        v = calc.calculate_center_metric(cand[i], sm, sm[:, ::-1],
                                         sm[::-1], mask)
        ctx.near(v, m[i], "metric at %.2f" % cand[i], rtol=1e-9)
    ctx.true(np.abs(cand - got).min() < 1e-9, "%s is not a candidate" % got)
    mg = m[int(np.argmin(np.abs(cand - got)))]
    ctx.true(mg <= m.min() * (1 + 1e-6), "metric at %s is not the least"
             % got)


@check(quick=40, seed=SEED, h=I(60, 120), w=I(64, 130), nd=I(6, 12),
       frac=F(-0.055, 0.055), dsp=st.booleans(), own=st.booleans(),
       half=st.booleans(), ncore=pick(1, None), cost=4)
def phantom(ctx, seed, h, w, nd, frac, dsp, own, half, ncore):
    """The centre of the sinogram of an object inside the field of view is
    found to within a pixel and a half."""
    cen = (w - 1) / 2 + frac * w
    cen = round(cen * 2) / 2 if half else cen
    s = sino_180(seed, h, w, cen, nd, 0.005)
    kw = {}
    if own:
        kw = {"start": int(cen) - 5, "stop": int(cen) + 6, "step": 0.5}
    with ctx.unchanged("find_center_vo", s):
        got = calc.find_center_vo(s, dsp=dsp, ncore=ncore, **kw)
    ctx.true(abs(got - cen) <= 1.5, "centre %.2f, true %.2f" % (got, cen))
    ctx.nontrivial(abs(frac) > 0.01)


@check(quick=6, thorough=60, seed=SEED, h=I(1010, 1900), w=I(1010, 2000),
       frac=F(-0.05, 0.05), step=pick(0.5, 0.3), radius=pick(4, 3, 6.2),
       cost=30)
def large(ctx, seed, h, w, frac, step, radius):
    """The same for sinograms large enough to be reduced first: coarse
    search of the reduced one, fine search of the full one round the middle
    of the (reduced) pixel found."""
    cen = (w - 1) / 2 + frac * w
    s = sino_180(seed, h, w, cen, 5, 0.005).astype(np.float32)
    got = calc.find_center_vo(s, start=cen - 12, stop=cen + 9, step=step,
                              radius=radius)
    dr = h // 900 if h > 1000 else 1
    dc = w // 640 if w > 1000 else 1
    small = calc.downsample_cor(ndi.gaussian_filter(s, (3, 1)), dr, dc)
    a = calc.coarse_search_cor(small, int(np.floor((cen - 12) / dc)),
                               int(np.ceil((cen + 9) / dc)), denoise=False)
    want = calc.fine_search_cor(s, a * dc + 0.5 * dc, max(radius, dc), step)
    ctx.near(float(got), float(want), "coarse and fine search", atol=1e-6,
             scale=0)
    # few views tell less
    ctx.true(abs(got - cen) <= (1.0 if h > 1000 else 3.0),
             "centre %.2f, true %.2f" % (got, cen))
    ctx.label("reduced" if w >= 1280 else "", "h%d" % (h // 900))


also(large, "wide", "The same for few views of many pixels.", 10, 100, 11,
     seed=SEED, h=I(400, 700), w=I(1010, 2000), frac=F(-0.05, 0.05))
also(large, "tall", "The same for many views of few pixels.", 10, 100, 11,
     seed=SEED, h=I(1010, 2800), w=I(64, 130), frac=F(-0.05, 0.05))


@check(quick=150, seed=SEED, h=I(2, 30), w=I(2, 30), f0=I(0, 8), f1=I(0, 8))
def downsample(ctx, seed, h, w, f0, f1):
    """Downsampling averages blocks, dropping incomplete ones at the end."""
    mat = array(seed, (h, w), "float64", "noise", 0, 3)
    got = calc.downsample_cor(mat, f0, f1)
    a, b = min(max(f0, 1), h // 2), min(max(f1, 1), w // 2)
    want = np.asarray([[mat[i * a:(i + 1) * a, j * b:(j + 1) * b].mean()
                        for j in range(w // b)] for i in range(h // a)])
    ctx.near(got, want, "block means", rtol=1e-9)
    ctx.nontrivial(a > 1 or b > 1)


@check(quick=100, seed=SEED, h=I(16, 50), w=I(16, 50), sy=I(-7, 7),
       sx=I(-7, 7), sub=F(-0.4, 0.4), grad=st.booleans())
def phase_correlation(ctx, seed, h, w, sy, sx, sub, grad):
    """The shift between two images is recovered with its sign: to a fraction
    of a pixel if one is the other moved."""
    r = rng(seed)
    base = ndi.gaussian_filter(r.random((h + 40, w + 40)), 0.7)
    f = np.fft.fft2(r.random((h, w)))
    m2 = np.real(np.fft.ifft2(f))
    m1 = np.roll(m2, (sy, sx), (0, 1))
    ty, tx = calc.find_shift_based_phase_correlation(m1, m2, gradient=False)
    ctx.true(abs(ty - sy) < 0.05 and abs(tx - sx) < 0.05,
             "rolled by %d %d, found %.3f %.3f" % (sy, sx, ty, tx))
    # between pixels, a little noise: exchanged images, opposite shift
    ky, kx = np.fft.fftfreq(h)[:, None], np.fft.fftfreq(w)[None]
    m1 = np.real(np.fft.ifft2(f * np.exp(-2j * np.pi * (
        ky * (sy + sub) + kx * (sx - sub))))) + 0.05 * r.random((h, w))
    a = calc.find_shift_based_phase_correlation(m1, m2, gradient=grad)
    b = calc.find_shift_based_phase_correlation(m2, m1, gradient=grad)
    ctx.near(np.negative(b), a, "images exchanged", atol=1e-6, scale=0)
    if not grad:
        ctx.near(a, (sy + sub, sx - sub), "between pixels", atol=0.5, scale=0)
    g = calc.complex_gradient(m1)
    want = np.zeros((h, w), complex)
    want[:, 2:-2] += m1[:, 4:] - m1[:, 2:-2]
    want[2:-2] += 1j * (m1[4:] - m1[2:-2])
    ctx.near(g, want, "gradient", rtol=1e-9)
    m2 = base[20:20 + h, 20:20 + w]
    m1 = base[20 - sy:20 - sy + h, 20 - sx:20 - sx + w]
    if min(h, w) > 30:
        with ctx.unchanged("find_shift_based_phase_correlation", m1, m2):
            ty, tx = calc.find_shift_based_phase_correlation(m1, m2,
                                                             gradient=grad)
        ctx.true(abs(ty - sy) < 0.5 and abs(tx - sx) < 0.5,
                 "moved by %d %d, found %.3f %.3f" % (sy, sx, ty, tx))
    ctx.nontrivial(sy != 0 and sx != 0)


def scene_pair(seed, h, w, cen):
    """Projections at 0 and 180 degrees of the same scene."""
    L = 8 * w
    p = ndi.gaussian_filter(rng(seed, 9).random((h, L + 1)), (2, 2))
    xs = np.arange(w)

    def samp(u):
        yy, xx = np.meshgrid(np.arange(h) * 1.0, u + L // 2, indexing="ij")
        return ndi.map_coordinates(p, (yy, xx), order=3)
    return samp(xs - cen), samp(cen - xs)


@check(quick=40, seed=SEED, h=I(30, 50), w=I(80, 130), frac=F(0.2, 0.8),
       flip=st.booleans(), norm=st.booleans(), useov=st.booleans(),
       chunk=pick(None, 0.8, 20), row=st.none() | I(0, 9), win=pick(
           None, 20, 25), cost=4)
def projections_overlap(ctx, seed, h, w, frac, flip, norm, useov, chunk, row,
                        win):
    """The centre is found to half a pixel from two projections half a turn
    apart by matching their overlap."""
    cen = frac * (w - 1)
    a, b = scene_pair(seed, h, w, cen)
    if not flip:
        b = b[:, ::-1]
    with ctx.unchanged("find_center_projection", a, b):
        got = calc.find_center_projection(
            a, b, flip=flip, win_width=win, chunk_height=chunk,
            start_row=row, norm=norm, use_overlap=useov)
    if min(cen, w - 1 - cen) * 2 < 40 or abs(cen - (w - 1) / 2) < 1:
        # too little overlap, or an overlap as wide as the images
        ctx.nontrivial(False)
        return
    ctx.true(abs(got - cen) < 0.4, "centre %.3f, true %.3f" % (got, cen))


@check(quick=40, seed=SEED, h=I(8, 40), w=I(30, 70), win=st.none() | I(6, 30),
       flip=st.booleans(), chunk=st.none() | I(1, 50) | F(0.1, 1) | st.just(
           1.0) | F(1.1, 9), row=st.none() | I(0, 9), denoise=st.booleans(),
       norm=st.booleans(), useov=st.booleans(), cost=3)
def projections_rows(ctx, seed, h, w, win, flip, chunk, row, denoise, norm,
                     useov):
    """The rows used are those asked for (the middle ones if not), and the
    overlap of the projections in these rows gives the centre."""
    a, b = array(seed, (2, h, w), "float64", "noise", 0.2, 3)
    got = calc.find_center_projection(
        a, b, flip=flip, win_width=win, chunk_height=chunk, start_row=row,
        denoise=denoise, norm=norm, use_overlap=useov)
    n = min(500, int(0.9 * h)) if chunk is None else chunk if isinstance(
        chunk, int) else int(chunk * h) if chunk <= 1 else min(
            500, int(0.5 * h))
    n = max(1, min(n, h - 1))
    mid = h // 2 - n // 2
    r = max(0, mid if row is None else min(row, mid))
    r = min(r, h - n)
    if n == h - 1:
        return ctx.nontrivial(False)        # may take the row left out too
    if flip:
        b = b[:, ::-1]
    ov, side, _ = calc.find_overlap(
        a[r:r + n], b[r:r + n], min(250, int(0.2 * w)) if win is None else
        win, denoise=denoise, norm=norm, use_overlap=useov)
    ctx.near(float(got), ov / 2 - 0.5 if side == 0 else w - ov / 2 - 0.5,
             "centre", atol=1e-4)
    ctx.nontrivial(row is not None)


@check(quick=60, seed=SEED, h=I(30, 50), w=I(60, 100), off=F(-4, 4),
       flip=st.booleans(), grad=st.booleans())
def projections_phase(ctx, seed, h, w, off, flip, grad):
    """The same by phase correlation, for an object inside the field of
    view."""
    cen = (w - 1) / 2 + off
    a, b = scene_pair(seed, h, w, cen)
    env = np.exp(-((np.arange(w) - cen) / (0.16 * w)) ** 4)
    a = a * env
    b = b * np.exp(-((cen - np.arange(w)) / (0.16 * w)) ** 4)
    if not flip:
        b = b[:, ::-1]
    with ctx.unchanged("find_center_based_phase_correlation", a, b):
        got = calc.find_center_based_phase_correlation(a, b, flip=flip,
                                                       gradient=grad)
    ctx.true(abs(got - cen) < 0.4, "centre %.3f, true %.3f" % (got, cen))
    ctx.nontrivial(abs(off) > 0.5)


also(coarse, "coarse_tall", "The same for tall sinograms, where the rows "
     "left out reach their limit.", 10, 60, 4, seed=SEED, h=I(180, 300),
     w=I(20, 44), lo=I(0, 6), n=I(1, 8), ratio=F(0.2, 1),
     denoise=st.booleans(), hd=st.none() | I(1, 3), vd=st.none(),
     ncore=st.just(1))
also(fine, "fine_tall", "The same for tall sinograms.", 10, 60, 4,
     seed=SEED, h=I(180, 300), w=I(20, 44), lo=F(-3, 3), radius=I(1, 3),
     step=pick(0.25, 0.5), ratio=F(0.2, 1), denoise=st.booleans(),
     ncore=st.just(1), atedge=st.just(False))
also(projections_rows, "projections_tall", "The same for tall projections, "
     "of which no more than 500 rows are used.", 10, 60, 6,
     h=I(540, 1300), w=I(24, 50), win=st.none() | I(6, 10),
     chunk=st.none() | F(1.1, 3), row=st.none() | I(0, 400))
also(projections_rows, "projections_wide", "The same for wide projections.",
     6, 40, 10, h=I(5, 12), w=I(1150, 1700), win=st.none())
