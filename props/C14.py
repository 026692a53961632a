"""C14: deconvolution, beam-hardening correction, angular upsampling."""
import numpy as np
from hypothesis import strategies as st
from vf.core import check, larger
from vf.gen import SEED, I, F, KINDS, array, blobs, disc_sinogram, rng, pick
import algotom.prep.correction as corr
import algotom.prep.filtering as filt
import algotom.prep.conversion as conv


@check(quick=150, seed=SEED, h=I(3, 16), w=I(3, 16), eh=I(0, 4), ew=I(0, 4),
       pad=I(0, 6), kind=KINDS)
def mtf(ctx, seed, h, w, eh, ew, pad, kind):
    """Dividing the spectrum of the padded image by the (centred) window;
    an image blurred by a window is restored by it; a unit window changes
    nothing."""
    mat = array(seed, (h, w), "float64", kind, 0.5, 3)
    H, W = h + eh, w + ew
    pad = min(pad, H - 1, W - 1)
    r = rng(seed, 3)
    win = 0.3 + 0.7 * r.random((H, W))
    with ctx.unchanged("mtf_deconvolution", mat, win):
        got = corr.mtf_deconvolution(mat, win, pad)
    big = np.pad(np.pad(mat, ((0, eh), (0, ew)), mode="edge"), pad,
                 mode="reflect")
    wp = np.pad(win, pad, mode="constant", constant_values=1.0)
    spec = np.fft.fftshift(np.fft.fft2(big)) / wp
    want = np.real(np.fft.ifft2(np.fft.ifftshift(spec)))
    want = want[pad:pad + h, pad:pad + w]
    ctx.near(got, want, "deconvolved", rtol=1e-9, scale=10)
    ctx.near(corr.mtf_deconvolution(mat, np.ones((H, W)), pad), mat,
             "unit window", rtol=1e-9)
    full = np.asarray(r.random((H, W)))
    sym = win + win[::-1, ::-1]
    sym = np.roll(sym, (1 - H % 2, 1 - W % 2), (0, 1)) if H % 2 == 0 or \
        W % 2 == 0 else sym
    sym = np.where(np.isfinite(sym), sym, 1.0)
    blur = np.fft.ifft2(np.fft.fft2(full) * np.fft.ifftshift(win_even(sym)))
    ctx.near(corr.mtf_deconvolution(np.real(blur), win_even(sym), 0), full,
             "blur undone", rtol=1e-8, scale=10)
    ctx.raises(ValueError, lambda: corr.mtf_deconvolution(
        mat, np.ones((h - 1, w)), 0), "window smaller than the image")
    ctx.nontrivial(h > 3)


def win_even(win):
    """Make a centred window even, so that it is the spectrum of a real
    kernel."""
    a = np.fft.ifftshift(win)
    b = np.roll(a[::-1, ::-1], (1, 1), (0, 1))
    return np.fft.fftshift((a + b) / 2)


@check(quick=200, seed=SEED, h=I(1, 12), w=I(1, 12), q=F(0.001, 5),
       n=F(2, 8), opt=st.booleans(), kind=KINDS)
def beam_hardening(ctx, seed, h, w, q, n, opt, kind):
    """The response keeps 0 and 1, never decreases, bends to the side asked
    for, and is applied to every pixel; images that are not normalised and
    exponents below two are refused."""
    mat = array(seed, (h, w), "float64", kind, 0, 1)
    with ctx.unchanged("beam_hardening_correction", mat):
        got = corr.beam_hardening_correction(mat, q, n, opt)
    x = 1 - mat if opt else mat
    y = np.log(1 - q * (x ** n - n * x)) / np.log(1 - q * (1 - n))
    ctx.near(got, 1 - y if opt else y, "corrected", atol=1e-9)
    t = np.linspace(0, 1, 21)[None]
    c = corr.beam_hardening_correction(t, q, n, opt)[0]
    ctx.near(c[[0, -1]], [0, 1], "ends of the scale", atol=1e-9)
    ctx.true(np.all(np.diff(c) >= -1e-9), "response decreases")
    ctx.raises(ValueError, lambda: corr.beam_hardening_correction(
        mat + 2.0, q, n), "image not normalised")
    spot = np.zeros((h, w))
    spot[h // 2, w // 2] = 2.0 + q
    ctx.raises(ValueError, lambda: corr.beam_hardening_correction(
        spot, q, n), "one pixel not normalised")
    ctx.raises(ValueError, lambda: corr.beam_hardening_correction(
        mat, q, 1.5), "n below 2")
    ctx.nontrivial(h * w > 1)


def reference(sino, scale, iteration, pad):
    """Zero-interleave, filter, restore the mean and the known rows, filter
    again; for each doubling."""
    for _ in range(scale // 2):
        n, w = sino.shape
        up = np.zeros((2 * n - 1, w))
        up[::2] = sino
        up = filt.double_wedge_filter(up.astype(np.float32), sino_type="360",
                                      ratio=1, iteration=iteration, pad=pad)
        up = up * np.mean(sino) / np.mean(up)
        up[::2] = sino
        sino = filt.double_wedge_filter(up, sino_type="360", ratio=1,
                                        iteration=iteration, pad=pad)
    return sino


@check(quick=60, seed=SEED, h=I(8, 24), w=I(12, 30), scale=pick(2, 4),
       t=pick("180", "360"), iteration=I(1, 3), pad=I(0, 20), off=F(-3, 3))
def upsample(ctx, seed, h, w, scale, t, iteration, pad, off):
    """Upsampling by 2 or 4 gives scale*(rows-1)+1 rows, made by interleaving
    and double-wedge filtering the 360-degree sinogram; a 180-degree one needs
    a centre."""
    sino = array(seed, (h, w), "float32", "noise", 0.5, 1.5)
    cen = (w - 1) / 2 + off
    with ctx.unchanged("upsample_sinogram", sino):
        got = corr.upsample_sinogram(sino, scale, center=cen if t == "180"
                                     else 0, sino_type=t,
                                     iteration=iteration, pad=pad)
    n = scale * (h - 1) + 1
    ctx.shape(got, (n, w), "upsampled")
    s360 = conv.convert_sinogram_180_to_360(sino, cen) if t == "180" else sino
    ctx.near(got, reference(s360, scale, iteration, pad)[:n], "upsampled",
             rtol=1e-5)
    ctx.raises(ValueError, lambda: corr.upsample_sinogram(
        sino, 2, center=0), "no centre")
    ctx.raises(ValueError, lambda: corr.upsample_sinogram(
        sino, 3, center=cen), "odd scale")
    ctx.label(t, scale)


@check(quick=30, seed=SEED, h=I(24, 40), w=I(32, 64), nd=I(1, 4))
def upsample_phantom(ctx, seed, h, w, nd):
    """For a 360-degree sinogram of an object, the upsampled sinogram
    approximates the one measured with twice as many angles (better than
    leaving the missing rows empty)."""
    n = 2 * h - 1
    ang = np.linspace(0, 2 * np.pi, n)
    dense = disc_sinogram(blobs(seed, nd, w, rad=(0.1, 0.2), within=0.3), ang,
                          w, (w - 1) / 2)
    got = corr.upsample_sinogram(dense[::2], 2, sino_type="360")
    ctx.shape(got, (n, w), "upsampled")
    err = np.sqrt(np.mean((got - dense) ** 2)) / np.sqrt(np.mean(dense ** 2))
    ctx.true(err < 0.5, "relative error %.3f" % err)


def _scale_defect():
    a = array(1, (5, 12), "float32", "noise", 0.5, 1.5)
    return any(corr.upsample_sinogram(a, s, sino_type="360", pad=5).shape[0]
               != s * 4 + 1 for s in (6, 8))


KNOWN = [{"what": "upsample_sinogram(scale=6 or 8) doubles the number of rows "
                  "scale/2 times: the result is 8 or 16 times finer, not 6 "
                  "or 8", "still_fails": _scale_defect}]


larger(mtf, h=I(60, 300), w=I(60, 300), pad=I(0, 60))
larger(beam_hardening, h=I(60, 400), w=I(60, 400))
