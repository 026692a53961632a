"""C30: slices reconstructed from projections of an object are the object."""
import numpy as np
from hypothesis import strategies as st
from vf.core import check, also, larger
from vf.gen import SEED, I, F, rng, pick, blobs, disc_sinogram
from vf import recmodel as rm
import algotom.rec.reconstruction as rec

HOW = pick("fbp", "bpf", "dfi")


def phantom(discs, w, mid, ss=4):
    """Image of discs, x along columns, y up, both from pixel `mid`."""
    g = (np.arange(w * ss) + 0.5) / ss - 0.5
    x, y = g[None] - mid, mid - g[:, None]
    im = np.zeros((w * ss, w * ss))
    for x0, y0, r, v in discs:
        im += v * ((x - x0) ** 2 + (y - y0) ** 2 <= r * r)
    return im.reshape(w, ss, w, ss).mean((1, 3))


def middle(how, w):
    """Where the rotation axis comes to lie: DFI has it on a pixel."""
    return w // 2 if how == "dfi" else 0.5 * (w - 1)


def reconstruct(how, sino, cen, ang, **kw):
    f = getattr(rec, how + "_reconstruction")
    if how != "dfi":
        kw["gpu"] = False
    return f(sino, cen, angles=ang, **kw)


def turn(how, n, start):
    return {"default": None, "half": np.linspace(0, np.pi, n),
            "back": np.linspace(np.pi, 0, n) + start,
            "start": np.linspace(0, np.pi, n) + start,
            "half open": start + np.arange(n) * np.pi / n,
            "full open": start + np.arange(2 * n) * np.pi / n,
            "full": np.linspace(0, 2 * np.pi, 2 * n - 1) + start,
            "full back": np.linspace(2 * np.pi, 0, 2 * n - 1) + start}[how]


def compare(ctx, rec_img, discs, w, mid, sharp, least=0.98):
    ph = phantom(discs, w, mid)
    m = rm.circle(w, 0.9) > 0
    a, b = ph[m], rec_img[m]
    cc = np.corrcoef(a, b)[0, 1]
    ctx.true(cc > (least if sharp else 0.96), "correlation with the object "
             "is %.3f" % cc)
    slope, off = np.polyfit(a, b, 1)
    ctx.true(abs(slope - 1) < (0.06 if sharp else 0.2), "values come out "
             "times %.3f" % slope)
    ctx.true(abs(off) < 0.03 * ph.max() + (0 if sharp else 0.05),
             "values come out plus %.3f" % off)
    for x0, y0, r, v in discs[:1]:      # the middle of a disc, alone there
        i, j = int(round(mid - y0)), int(round(mid + x0))
        p = slice(i - 1, i + 2), slice(j - 1, j + 2)
        ctx.near(rec_img[p].mean(), ph[p].mean(), "value in a disc",
                 atol=0.15 * ph.max(), scale=0)


@check(quick=60, seed=SEED, how=HOW, w=I(48, 90), nd=I(1, 4), off=F(-4, 4),
       ang=pick("default", "half", "back", "start", "half open", "full",
                "full back", "full open"), start=F(-3, 6),
       name=pick(None, None, "hann", "hamming"), use_log=st.booleans(),
       three=st.booleans(), cost=2)
def discs(ctx, seed, how, w, nd, off, ang, start, name, use_log, three):
    """Discs come out where they are, as large as they are and with their
    value, from angles in any order and range, with the axis off the
    middle."""
    ds = blobs(seed, nd, w, rad=(0.1, 0.2), within=0.4)
    n = int(1.6 * w)
    if how == "dfi" and ang == "half open":
        # this method takes the last angle to close the half turn: the error
        # of an open one grows with the first angle
        start = 0.1 * abs(start)
    angles = turn(ang, n, start)
    real = np.linspace(0, np.pi, n) if angles is None else angles
    cen = 0.5 * (w - 1) + off
    s = disc_sinogram(ds, real, w, cen)
    if use_log:
        s = np.exp(-s / w)
    if three:
        s = np.stack([s, s ** 2 if use_log else 2 * s], axis=1)
    out = reconstruct(how, s, cen, angles, filter_name=name,
                      apply_log=use_log)
    if use_log:
        out = out * w
    one = out[:, 0] if three else out
    compare(ctx, one, ds, w, middle(how, w), name is None,
            0.96 if how == "dfi" and ang == "half open" else 0.98)
    if three:
        ctx.near(out[:, 1], 2 * one.astype(float), "second slice",
                 rtol=0.08 if how == "dfi" and use_log else 1e-3)
    ctx.label(how, ang)
    ctx.nontrivial(abs(off) > 0.3 and nd > 1)


@check(quick=40, seed=SEED, w=I(49, 80), off=F(-3, 3), cost=2)
def agree(ctx, seed, w, off):
    """The three methods give one image."""
    w += 1 - w % 2
    ds = blobs(seed, 3, w, rad=(0.1, 0.2), within=0.4)
    ang = np.linspace(0, np.pi, int(1.6 * w))
    cen = 0.5 * (w - 1) + off
    s = disc_sinogram(ds, ang, w, cen)
    m = rm.circle(w, 0.85) > 0
    r = [reconstruct(h, s, cen, None, apply_log=False)[m]
         for h in ("fbp", "bpf", "dfi")]
    for a in r[1:]:
        ctx.true(np.corrcoef(a, r[0])[0, 1] > 0.985, "methods disagree")
        ctx.true(abs(np.polyfit(r[0], a, 1)[0] - 1) < 0.08, "gain")
    ctx.nontrivial(abs(off) > 0.5)


@check(quick=40, seed=SEED, how=HOW, w=I(40, 70), turn_by=F(0.2, 6),
       off=F(-3, 3), cost=2)
def rotation(ctx, seed, how, w, turn_by, off):
    """Telling the angles turned by some amount turns the image: what counts
    is the angle given, not the row."""
    ds = blobs(seed, 2, w, rad=(0.1, 0.18), within=0.4)
    n = int(1.6 * w)
    ang = np.linspace(0, np.pi, n)
    cen = 0.5 * (w - 1) + off
    s = disc_sinogram(ds, ang, w, cen)
    out = reconstruct(how, s, cen, ang + turn_by, filter_name=None,
                      apply_log=False)
    c, d = np.cos(turn_by), np.sin(turn_by)
    moved = [(x * c - y * d, x * d + y * c, r, v) for x, y, r, v in ds]
    compare(ctx, out, moved, w, middle(how, w), True)
    ctx.label(how)


@check(quick=40, seed=SEED, how=pick("fbp", "dfi"), w=I(41, 70), off=F(4, 8),
       cost=2)
def wrong_axis(ctx, seed, how, w, off):
    """The centre matters: a wrong one spoils the image."""
    ds = blobs(seed, 3, w, rad=(0.06, 0.12), within=0.35)
    ang = np.linspace(0, np.pi, int(1.6 * w))
    cen = 0.5 * (w - 1)
    s = disc_sinogram(ds, ang, w, cen)
    ph = phantom(ds, w, middle(how, w))
    good = reconstruct(how, s, cen, None, apply_log=False)
    bad = reconstruct(how, s, cen + off, None, apply_log=False)
    e = [np.std((x - ph)[rm.circle(w, 0.9) > 0]) for x in (good, bad)]
    ctx.true(e[1] > 1.3 * e[0], "errors %s" % e)
