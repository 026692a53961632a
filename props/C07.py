"""C07: sorting, frequency and wavelet decompositions and basic filters."""
import numpy as np
import pywt
import scipy.ndimage as ndi
from hypothesis import strategies as st
from vf.core import check, also, larger
from vf.gen import SEED, I, F, KINDS, array, rng, pick
import algotom.util.utility as util

SORTKIND = pick("noise", "noise", "steps", "const", "sparse", "ramp")


@check(quick=250, seed=SEED, h=I(1, 25), w=I(1, 25), axis=I(0, 1),
       kind=SORTKIND, dt=pick("float32", "float64", "uint16"))
def sorting(ctx, seed, h, w, axis, kind, dt):
    """Sorting every column (row) gives non-decreasing lines holding the same
    values, an index saying where each value came from, and sorting back with
    it restores the image exactly - also after changing the sorted values."""
    mat = array(seed, (h, w), dt, kind, -20 if dt != "uint16" else 0, 200)
    with ctx.unchanged("sort_forward", mat):
        s, idx = util.sort_forward(mat, axis)
    ctx.shape(s, mat.shape, "sorted")
    ctx.shape(idx, mat.shape, "index")
    ctx.same(s, np.sort(mat, axis=axis), "sorted values")
    ii = np.asarray(idx).astype(int)
    ctx.same(np.sort(ii, axis=axis), np.broadcast_to(
        np.arange(mat.shape[axis])[:, None] if axis == 0 else
        np.arange(mat.shape[axis])[None], mat.shape), "index is a permutation")
    ctx.same(np.take_along_axis(mat, ii, axis), s, "index leads to the values")
    with ctx.unchanged("sort_backward", s, idx):
        back = util.sort_backward(s, idx, axis)
    ctx.same(back, mat, "sorted back")
    new = array(seed + 1, (h, w), "float32", "noise", 0, 1)
    want = np.zeros((h, w))
    np.put_along_axis(want, ii, new.astype(np.float64), axis)
    ctx.near(util.sort_backward(new, idx, axis), want,
             "other values sorted back", rtol=1e-7)
    ctx.nontrivial(h > 1 and w > 1)


def fourier_line(line, win):
    """Multiply the spectrum, zero frequency moved to position n/2, by win."""
    n = len(line)
    k = np.arange(n) - n / 2.0
    t = np.arange(n)
    ker = np.exp(-2j * np.pi * np.outer(k, t) / n)
    spec = ker @ line * win
    return np.real(np.conj(ker).T @ spec) / n


@check(quick=200, seed=SEED, h=I(2, 24), w=I(2, 24), axis=I(0, 1),
       kind=KINDS, mode=pick("default", "gauss", "kaiser", "array"),
       sigma=F(0.5, 12))
def frequency(ctx, seed, h, w, axis, kind, mode, sigma):
    """Separation into low and high frequencies along an axis: the two add up
    to the image; the low part is the reflect-padded line times the window in
    Fourier space."""
    mat = array(seed, (h, w), "float64", kind, -1, 3)
    n = mat.shape[axis]
    pad = min(150, int(0.1 * n))
    m = n + 2 * pad
    x = np.arange(m) - (m - 1) / 2.0
    if mode in ("default", "gauss"):
        sig = 5 if mode == "default" else sigma
        win = np.exp(-0.5 * (x / sig) ** 2)
        arg = None if mode == "default" else {"name": "gaussian",
                                              "sigma": sigma}
    elif mode == "kaiser":
        arg = {"name": "kaiser", "beta": sigma}
        win = np.i0(sigma * np.sqrt(np.clip(1 - (2 * x / max(m - 1, 1)) ** 2,
                                            0, 1))) / np.i0(sigma)
    else:
        arg = rng(seed, 1).random(n)
        win = np.pad(arg, (pad, pad), mode="constant", constant_values=1.0)
    with ctx.unchanged("separate_frequency_component", mat):
        smooth, sharp = util.separate_frequency_component(mat, axis=axis,
                                                          window=arg)
    ctx.shape(smooth, mat.shape, "smooth")
    ctx.near(smooth + sharp, mat, "smooth + sharp", rtol=1e-12)
    pw = [(0, 0), (0, 0)]
    pw[axis] = (pad, pad)
    padded = np.pad(mat, pw, mode="reflect")
    want = np.apply_along_axis(fourier_line, axis, padded, win)
    sl = [slice(None)] * 2
    sl[axis] = slice(pad, pad + n)
    ctx.near(smooth, want[tuple(sl)], "low-frequency part", rtol=1e-9)
    if mode == "array":
        ctx.raises(ValueError, lambda: util.separate_frequency_component(
            mat, axis=axis, window=np.ones(n + 1)), "wrong window length")
    ctx.label(mode)


WAV = pick("db1", "db3", "db9", "sym4", "coif2", "haar", "bior2.2")


@check(quick=120, seed=SEED, h=I(32, 80), w=I(32, 80), wav=WAV,
       level=st.none() | I(-1, 6), kind=KINDS)
def wavelet_roundtrip(ctx, seed, h, w, wav, level, kind):
    """Wavelet decomposition then reconstruction gives the image back (plus
    at most one extra row/column for odd sizes); the number of levels is the
    one asked for, or the largest that leaves 16 pixels, if out of range."""
    mat = array(seed, (h, w), "float64", kind, -1, 3)
    with ctx.unchanged("apply_wavelet_decomposition", mat):
        dec = util.apply_wavelet_decomposition(mat, wav, level=level)
    top = int(np.floor(np.log2(min(h, w) / 16.0)))
    want = top if level is None or not 1 <= level <= top else level
    ctx.eq(len(dec) - 1, want, "levels")
    back = util.apply_wavelet_reconstruction(dec, wav)
    ctx.true(0 <= back.shape[0] - h <= 1 and 0 <= back.shape[1] - w <= 1,
             "reconstructed shape %s" % (back.shape,))
    ctx.near(back[:h, :w], mat, "round trip", rtol=1e-9)
    if len(dec) > 1:
        ign = seed % (len(dec) - 1) + 1
        dec2 = pywt.wavedec2(mat, wav, level=want)
        dec2[-ign] = tuple(np.zeros_like(v) for v in dec2[-ign])
        got = util.apply_wavelet_reconstruction(
            util.apply_wavelet_decomposition(mat, wav, level=level), wav,
            ignore_level=ign)
        ctx.near(got, pywt.waverec2(dec2, wav), "ignored level %d" % ign,
                 rtol=1e-9, scale=4)
    for ign in (0, len(dec), None):     # no such level
        got = util.apply_wavelet_reconstruction(
            util.apply_wavelet_decomposition(mat, wav, level=level), wav,
            ignore_level=ign)
        ctx.near(got, back, "level %s ignored" % ign, rtol=1e-9)
    ctx.nontrivial(want > 0)
    ctx.label("levels%d" % want)


METH = pick("default", "gaussian", "uniform", "median", "own")


@check(quick=100, seed=SEED, h=I(64, 140), w=I(64, 140), wav=WAV,
       meth=METH, order=I(-1, 3), level=pick(None, 1, 2, [1], [2], [1, 2],
                                             [2, 1]), cost=2)
def wavelet_filter(ctx, seed, h, w, wav, meth, order, level):
    """Filtering wavelet components changes only the detail band asked for at
    the levels asked for, into the filtered band."""
    mat = array(seed, (h, w), "float64", "noise", -1, 3)
    dec = pywt.wavedec2(mat, wav, level=2)
    ref = [np.copy(dec[0])] + [tuple(np.copy(b) for b in lv)
                               for lv in dec[1:]]
    kw = {"order": order, "level": level}
    if meth == "default":
        f = lambda b: ndi.gaussian_filter(b, (1, 11))
    elif meth == "gaussian":
        kw.update(method="gaussian_filter", para=[(2, 3)])
        f = lambda b: ndi.gaussian_filter(b, (2, 3))
    elif meth == "uniform":
        kw.update(method="uniform_filter1d", para=[5, 0])
        f = lambda b: ndi.uniform_filter1d(b, 5, 0)
    elif meth == "median":
        kw.update(method="median_filter", para=(3, 1))
        f = lambda b: ndi.median_filter(b, (3, 1))
    else:
        kw.update(method="apply_gaussian_filter", para=[3, 9, 4])
        f = lambda b: util.apply_gaussian_filter(b, 3, 9, 4)
    out = util.apply_filter_to_wavelet_component(dec, **kw)
    lv = [1, 2] if level is None else ([level] if isinstance(level, int)
                                       else level)
    o = int(np.clip(order, 0, 2))
    ctx.eq(len(out), len(ref), "levels")
    ctx.same(out[0], ref[0], "approximation")
    for i in (1, 2):
        for j in range(3):
            want = f(ref[i][j]) if i in lv and j == o else ref[i][j]
            ctx.near(out[i][j], want, "level %d band %d" % (i, j),
                     rtol=1e-12)
    ctx.same(dec[1][o], ref[1][o], "input coefficients")
    for bad in (0, 3, [1, 3], "x", -1, [-1], [1, -1]):
        ctx.raises(ValueError, lambda: util.apply_filter_to_wavelet_component(
            dec, level=bad), "level %r" % (bad,))
    ctx.raises(ValueError, lambda: util.apply_filter_to_wavelet_component(
        dec, method="no_such_filter"), "unknown filter")


@check(quick=120, seed=SEED, h=I(3, 30), w=I(3, 30), sx=F(0.5, 30),
       sy=F(0.5, 30), pad=st.none() | I(0, 6), kind=KINDS,
       mode=pick(None, "reflect", ["edge", "reflect"], ["mean", "edge"],
                 ("mean", "reflect")))
def gaussian_fourier(ctx, seed, h, w, sx, sy, pad, kind, mode):
    """The Fourier Gaussian filter is the padded image times the Gaussian
    window centred on zero frequency, cropped back."""
    mat = array(seed, (h, w), "float64", kind, -1, 3)
    p = min(150, int(0.1 * min(h, w))) if pad is None else min(pad, h - 1,
                                                               w - 1)
    m1, m2 = ("edge", "mean") if mode is None else (
        (mode, mode) if isinstance(mode, str) else mode)
    with ctx.unchanged("apply_gaussian_filter", mat):
        got = util.apply_gaussian_filter(mat, sx, sy,
                                         pad=None if pad is None else p,
                                         mode=mode)
    a = np.pad(np.pad(mat, ((0, 0), (p, p)), mode=m1), ((p, p), (0, 0)),
               mode=m2)
    nr, nc = a.shape
    wx = np.exp(-0.5 * ((np.arange(nc) - (nc - 1) / 2) / sx) ** 2)
    wy = np.exp(-0.5 * ((np.arange(nr) - (nr - 1) / 2) / sy) ** 2)
    ctx.near(util.make_2d_gaussian_window(nr, nc, sx, sy),
             wy[:, None] * wx[None], "window", rtol=1e-12)
    k, t = np.arange(nc) - nc / 2.0, np.arange(nc)
    kx = np.exp(-2j * np.pi * np.outer(k, t) / nc)
    k, t = np.arange(nr) - nr / 2.0, np.arange(nr)
    ky = np.exp(-2j * np.pi * np.outer(k, t) / nr)
    spec = (ky @ a @ kx.T) * wy[:, None] * wx[None]
    want = np.real(np.conj(ky).T @ spec @ np.conj(kx)) / (nr * nc)
    ctx.shape(got, mat.shape, "filtered")
    ctx.near(got, want[p:p + h, p:p + w], "filtered", rtol=1e-8,
             scale=max(1e-3, np.abs(mat).max()))
    ctx.nontrivial(p > 0)


@check(quick=100, seed=SEED, h=I(2, 14), w=I(3, 14), alpha=F(0.001, 2),
       axis=I(0, 1), kind=KINDS, ncore=pick(None, 1, 3))
def regularization(ctx, seed, h, w, alpha, axis, kind, ncore):
    """Each line becomes the closest one with small differences (the exact
    minimiser of the regularised problem); flat lines stay as they are."""
    mat = array(seed, (h, w), "float64", kind, -1, 3)
    if axis == 0 and h < 3:
        mat = np.vstack((mat, mat[:1], mat[:1] * 2))
    n = mat.shape[axis]
    d = np.diff(np.eye(n), axis=0)
    coe = -np.linalg.inv(alpha * np.eye(n) + d.T @ d)
    ctx.near(util.calculate_regularization_coefficient(n, alpha), coe,
             "coefficients", rtol=1e-8)

    def line(x):
        g = np.zeros(n)
        g[0], g[-1] = x[0] - x[1], x[-1] - x[-2]
        for i in range(1, n - 1):
            g[i] = 2 * x[i] - x[i - 1] - x[i + 1]
        return x + coe @ g

    with ctx.unchanged("apply_regularization_filter", mat):
        got = util.apply_regularization_filter(mat, alpha, axis=axis,
                                               ncore=ncore)
    ctx.near(got, np.apply_along_axis(line, axis, mat), "filtered",
             rtol=1e-5, scale=np.abs(coe).max() * 4)
    flat = np.full((5, 6), 1.5)
    ctx.near(util.apply_regularization_filter(flat, alpha, axis=axis), flat,
             "flat image", rtol=1e-9)


@check(quick=120, seed=SEED, h=I(5, 26), w=I(5, 26), order=I(0, 3),
       axis=I(0, 1), chunk=I(1, 3), kind=KINDS)
def fitted_image(ctx, seed, h, w, order, axis, chunk, kind):
    """Every pixel becomes the value of the least-squares polynomial through
    its neighbourhood along the axis (mirrored at the ends)."""
    mat = array(seed, (h, w), "float64", kind, -1, 3)
    n = mat.shape[axis]
    size = n // chunk
    length = size if size % 2 == 1 else size - 1
    if length <= order:
        ctx.nontrivial(False)
        return
    half = length // 2
    t = np.arange(-half, half + 1) / max(1, half)
    vand = np.vander(t, order + 1, increasing=True)
    wts = np.linalg.pinv(vand)[0]

    def line(x):
        p = np.pad(x, half, mode="reflect")
        return np.asarray([p[i:i + length] @ wts for i in range(n)])

    with ctx.unchanged("generate_fitted_image", mat):
        got = util.generate_fitted_image(mat, order, axis=axis,
                                         num_chunk=chunk)
    ctx.near(got, np.apply_along_axis(line, axis, mat), "fitted", rtol=1e-7,
             scale=max(1.0, np.abs(mat).max()))


@check(quick=150, h=I(1, 30), w=I(1, 30), u=F(0.5, 20), v=I(0, 8), n=I(1, 6),
       size=F(0.5, 20), gauss=st.booleans())
def windows(ctx, h, w, u, v, n, size, gauss):
    """Butterworth and damping windows: value at every pixel by formula,
    centred on zero frequency."""
    x = np.fft.fftshift(np.fft.fftfreq(w)) * w
    b = 1 / (1 + (x / u) ** (2 * n))
    yc = h // 2
    if yc - v >= 0:
        want = np.ones((h, w))
        want[yc - v: yc + v + 1] = b
        ctx.near(util.make_2d_butterworth_window(w, h, u, v, n), want,
                 "butterworth", rtol=1e-6)
    d = 1 - np.exp(-x ** 2 / (2 * size ** 2)) if gauss else \
        1 - 1 / (1 + (x / size) ** 2)
    got = util.make_2d_damping_window(w, h, size, "gaussian" if gauss
                                      else "butter")
    ctx.near(got, np.tile(d, (h, 1)), "damping", rtol=1e-9, scale=1)
    ctx.nontrivial(w > 2)


also(frequency, "frequency_wide", """Frequency separation of lines long
    enough for the padding to stop growing (more than 1500 pixels).""",
     quick=8, thorough=80, seed=SEED, h=I(1, 2), w=I(1490, 1900),
     axis=pick(1), kind=KINDS, mode=pick("default", "gauss", "array"),
     sigma=F(0.5, 12))

also(gaussian_fourier, "gaussian_fourier_large", """The Fourier Gaussian
    filter of images with more than 1500 pixels along both axes.""",
     quick=2, thorough=16, seed=SEED, h=I(1501, 1620), w=I(1501, 1620),
     sx=F(0.5, 30), sy=F(0.5, 30), pad=st.none(), kind=KINDS,
     mode=pick(None))


larger(sorting, h=I(100, 700), w=I(100, 700))
larger(frequency, h=I(100, 500), w=I(100, 500))
larger(wavelet_roundtrip, h=I(200, 600), w=I(200, 600))
larger(wavelet_filter, h=I(200, 500), w=I(200, 500))
larger(fitted_image, h=I(60, 300), w=I(60, 300))
larger(regularization, 6, 60, h=I(40, 200), w=I(40, 200))
larger(windows, h=I(100, 900), w=I(100, 900), u=F(0.5, 60), v=I(0, 60))
