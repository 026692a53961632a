"""C24: Fresnel and double-wedge filters."""
import numpy as np
from hypothesis import strategies as st
from vf.core import check, larger
from vf.gen import SEED, I, F, KINDS, array, blobs, disc_sinogram, rng, pick
import algotom.prep.filtering as filt
import algotom.prep.conversion as conv


def fwin(h, w, ratio, dim):
    u = (np.arange(w) - w // 2) / w
    v = (np.arange(h) - h // 2) / h
    return 1 + ratio * (u[None] ** 2 + (v[:, None] ** 2 if dim == 2
                                        else 0 * v[:, None]))


@check(quick=200, seed=SEED, h=I(2, 16), w=I(2, 16), ratio=F(0, 300),
       dim=I(1, 2), pad=I(0, 12), log=st.booleans(), own=st.booleans(),
       kind=KINDS)
def fresnel(ctx, seed, h, w, ratio, dim, pad, log, own, kind):
    """The spectrum of the (log of the) edge-padded image - along rows for 1D,
    in both directions for 2D - divided by 1 + ratio*(u^2 [+ v^2]); ratio zero
    changes nothing; flat images stay flat."""
    mat = array(seed, (h, w), "float32", kind, 0.5, 3)
    win = fwin(h, w, ratio, dim)
    ctx.near(filt.make_fresnel_window(h, w, ratio, dim), win, "window",
             rtol=1e-9)
    if own:
        win = 1 + rng(seed, 4).random((h, w)) * 2
    with ctx.unchanged("fresnel_filter", mat, win):
        got = filt.fresnel_filter(mat, ratio, dim, window=win if own else
                                  None, pad=pad, apply_log=log)
    a = -np.log(mat.astype(np.float64)) if log else mat.astype(np.float64)
    pw = ((pad if dim == 2 else 0,) * 2, (pad, pad))
    ap, wp = np.pad(a, pw, mode="edge"), np.pad(win, pw, mode="edge")
    axes = (0, 1) if dim == 2 else (1,)
    spec = np.fft.fftn(ap, axes=axes) / np.fft.ifftshift(wp, axes=axes)
    want = np.real(np.fft.ifftn(spec, axes=axes))
    want = want[pw[0][0]:pw[0][0] + h, pad:pad + w]
    ctx.shape(got, (h, w), "filtered")
    ctx.near(got, np.exp(-want) if log else want, "filtered", rtol=1e-5)
    ctx.near(filt.fresnel_filter(mat, 0.0, dim, pad=pad, apply_log=log), mat,
             "ratio zero", rtol=1e-5)
    flat = np.full((h, w), 0.7, dtype=np.float32)
    ctx.near(filt.fresnel_filter(flat, ratio, dim, pad=pad, apply_log=log),
             flat, "flat image", rtol=1e-4)
    ctx.nontrivial(ratio > 0)
    ctx.label("dim%d" % dim)


def wedge(h, w, radius):
    """0 inside the double wedge |u| <= |v| * (h-1)/(2 pi h radius) * w."""
    du, dv = 1.0 / w, (h - 1.0) / (h * 2 * np.pi)
    yc, xc = h // 2, w // 2
    m = np.ones((h, w))
    for i in range(h):
        n = int(np.ceil((i - yc) * dv / radius / du))
        lo, hi = max(0, min(w - 1, xc - abs(n))), min(w - 1, xc + abs(n))
        m[i, lo:hi + 1] = 0
    m[max(0, yc - 1):yc + 2] = 1
    return m


@check(quick=150, seed=SEED, h=I(4, 24), w=I(6, 24), t=pick("180", "360"),
       off=F(-2, 2), iteration=I(0, 8), ratio=F(0.3, 1.5), pad=I(0, 20),
       own=st.booleans(), kind=KINDS)
def double_wedge(ctx, seed, h, w, t, off, iteration, ratio, pad, own, kind):
    """Each iteration removes the Fourier components inside the double wedge
    of the 360-degree sinogram padded left and right; a 180-degree one is
    completed first and needs a centre."""
    sino = array(seed, (h, w), "float64", kind, 0.5, 3)
    cen = (w - 1) / 2 + off
    full = conv.convert_sinogram_180_to_360(sino, cen) if t == "180" else sino
    n = len(full)
    W = w + 2 * pad
    want_mask = wedge(n, W, ratio * w / 2)
    ctx.same(filt.make_double_wedge_mask(n, W, ratio * w / 2), want_mask,
             "mask")
    mask = None
    if own:
        mask = (rng(seed, 5).random((n, W)) > 0.3) * 1.0
        want_mask = mask
    with ctx.unchanged("double_wedge_filter", sino):
        got = filt.double_wedge_filter(sino, center=cen if t == "180" else 0,
                                       sino_type=t, iteration=iteration,
                                       mask=mask, ratio=ratio, pad=pad)
    a = np.asarray(full, dtype=np.float64)
    for _ in range(iteration):
        p = np.pad(a, ((0, 0), (pad, pad)), mode="edge")
        f = np.fft.fft2(p) * np.fft.ifftshift(want_mask)
        a = np.real(np.fft.ifft2(f))[:, pad:pad + w]
    ctx.near(got, a[:h], "filtered", rtol=1e-5)
    ctx.raises(ValueError, lambda: filt.double_wedge_filter(
        sino, center=0, sino_type="180"), "no centre")
    ctx.raises(ValueError, lambda: filt.double_wedge_filter(
        sino, center=cen, sino_type="270"), "unknown type")
    ctx.raises(ValueError, lambda: filt.double_wedge_filter(
        sino, center=cen, sino_type=t, mask=np.ones((n, W + 1)), pad=pad),
        "mask of a wrong shape")
    ctx.raises(ValueError, lambda: filt.double_wedge_filter(
        sino, center=cen, sino_type=t, mask=np.ones((1, W)), pad=pad),
        "mask of a single row")
    ctx.raises(ValueError, lambda: filt.double_wedge_filter(
        sino, center=cen, sino_type=t, mask=np.ones((n, 1)), pad=pad),
        "mask of a single column")
    ctx.label(t)


@check(quick=150, h=I(2, 60), w=I(2, 60), radius=F(0.05, 60))
def wedge_mask(ctx, h, w, radius):
    """The mask is zero inside the double wedge of the radius, but one in the
    rows next to the middle."""
    ctx.same(filt.make_double_wedge_mask(h, w, radius), wedge(h, w, radius),
             "mask")
    ctx.nontrivial(True)


@check(quick=40, seed=SEED, h=I(60, 90), w=I(40, 64), nd=I(1, 3))
def wedge_keeps_object(ctx, seed, h, w, nd):
    """The sinogram of an object within the radius loses little; noise loses
    power."""
    ang = np.linspace(0, 2 * np.pi, h)
    s = disc_sinogram(blobs(seed, nd, w, rad=(0.12, 0.2), within=0.3), ang, w,
                      (w - 1) / 2)
    got = filt.double_wedge_filter(s, sino_type="360", iteration=1, pad=w)
    err = np.sqrt(np.mean((got - s) ** 2) / np.mean(s ** 2))
    ctx.true(err < 0.15, "relative change of an object %.3f" % err)
    noise = rng(seed, 6).standard_normal((h, w))
    out = filt.double_wedge_filter(noise, sino_type="360", iteration=1, pad=w)
    ctx.true(np.mean(out ** 2) < 0.98 * np.mean(noise ** 2),
             "noise power is not reduced")


larger(fresnel, h=I(60, 300), w=I(60, 300), pad=I(0, 60))
larger(double_wedge, h=I(60, 200), w=I(60, 200), pad=I(0, 60))
larger(wedge_mask, h=I(100, 600), w=I(100, 600))
