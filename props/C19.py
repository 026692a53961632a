"""C19: conversion between half-turn, full-turn and extended sinograms."""
import numpy as np
from hypothesis import strategies as st
from vf.core import check, larger
from vf.gen import SEED, I, F, KINDS, array, rng, pick
import algotom.prep.conversion as conv


def bumps(seed, angles, x, reach, n=6):
    """Projections of smooth (Gaussian) objects at distances x from the
    axis."""
    r = rng(seed, 31)
    out = np.zeros((len(angles), len(x)))
    for _ in range(n):
        d, t = reach * np.sqrt(r.random()), 2 * np.pi * r.random()
        s, v = r.uniform(3, 5), r.uniform(0.5, 1.5)
        c = d * np.cos(angles - t)
        out += v * np.exp(-(x[None] - c[:, None]) ** 2 / (2 * s * s))
    return out


def full_turn(seed, half, n, ov, side, rim=18):
    cor = (ov - 1) / 2 if side == 0 else n - (ov + 1) / 2
    ang = np.linspace(0, 2 * np.pi, 2 * half + 1)
    reach = n - ov / 2 - rim
    return bumps(seed, ang, np.arange(n) - cor, reach), cor, ang, reach


@check(quick=120, seed=SEED, half=I(4, 24), n=I(50, 90), ov=F(16, 44),
       side=pick(0, 1), norm=st.booleans(), told=st.booleans(),
       extra=st.none() | I(-9, 9))
def to_180(ctx, seed, half, n, ov, side, norm, told, extra):
    """A full-turn sinogram with an off-centre axis becomes the half-turn
    sinogram of the wide field of view, about the axis returned, for any
    axis position, whole or not."""
    s, cor, ang, reach = full_turn(seed, half, n, ov, side)
    kw = {} if extra is None else {"total_width": 2 * n - round(ov) + extra}
    with ctx.unchanged("convert_sinogram_360_to_180", s):
        got, c = conv.convert_sinogram_360_to_180(
            s, (ov, side) if told else cor, norm=norm, **kw)
    want = bumps(seed, ang[:half + 1], np.arange(got.shape[1]) - c, reach)
    ctx.true(abs(got.shape[1] - (2 * n - ov) - max(0, extra or 0)) <= 1.1,
             "width %d" % got.shape[1])
    ctx.eq(got.shape[0], half + 1, "number of rows")
    # with normalisation: overlap means of both half turns, equal here
    ctx.near(got, want, "half-turn sinogram", atol=0.02 * (
        1.5 if norm else 1) + (0.02 * s.max() if norm else 0))
    ctx.label("side%d" % side)
    ctx.nontrivial(abs(ov - round(ov)) > 0.1)


@check(quick=150, seed=SEED, half=I(1, 10), n=I(8, 40), twice=I(0, 60),
       kind=KINDS, even=st.booleans(), own=pick("", "", "12", "1", "2"))
def to_180_exact(ctx, seed, half, n, twice, kind, even, own):
    """With a whole or half-pixel axis every column is a measured column, a
    blend of the two measured ones in the overlap."""
    tw = 2 + twice % (2 * n - 5)        # 2*cor
    s = array(seed, (2 * half + 1, n), "float64", kind, 1, 3)
    if even:                            # a last row short of the full turn
        s = s[1:]
    g = rng(seed, 31).random((2, n))
    got, c = conv.convert_sinogram_360_to_180(s, tw / 2, norm=False, **{
        "wei_mat" + k: np.tile(g[int(k) - 1], (half + 1, 1)) for k in own})
    top, bot = s[:half + 1], s[-half - 1:][:, ::-1]
    left = tw / 2 <= (n - 1) / 2
    ov = tw + 1 if left else 2 * n - tw - 1
    W = 2 * n - ov
    ctx.shape(got, (half + 1, W), "stitched")
    ctx.near(c, (W - 1) / 2, "axis", atol=1e-9)
    L, R = (bot, top) if left else (top, bot)
    t = np.arange(ov) / max(1, ov - 1)
    want = np.zeros((half + 1, W))
    if own == "12":                     # 1: of the first half turn
        gl, gr = (g[1], g[0]) if left else (g[0], g[1])
    else:                               # one without the other is not used
        gl, gr = np.ones((2, n))
        gl[n - ov:], gr[:ov] = 1 - t, t
    want[:, :n] = L * gl
    want[:, W - n:] += R * gr
    ctx.near(got, want, "stitched", rtol=1e-6)
    ctx.label("left" if left else "right")
    ctx.nontrivial(ov < n)


@check(quick=150, seed=SEED, h=I(2, 24), n=I(20, 90), off=F(-6, 6),
       whole=st.booleans())
def to_360(ctx, seed, h, n, off, whole):
    """The second half turn is the first mirrored about the axis, without a
    second row at half a turn."""
    c = (n - 1) / 2 + (round(2 * off) / 2 if whole else off)
    ang = np.linspace(0, np.pi, h)
    if whole:
        s = array(seed, (h, n), "float64", "noise", 0, 2)
    else:
        s = bumps(seed, ang, np.arange(n) - c, n / 4)
    with ctx.unchanged("convert_sinogram_180_to_360", s):
        got = conv.convert_sinogram_180_to_360(s, c)
    ctx.shape(got, (2 * h - 1, n), "full turn")
    ctx.same(got[:h], s, "first half turn")
    x = np.arange(n)
    src = 2 * c - x
    ok = (src >= 0) & (src <= n - 1)
    if whole and float(2 * (c - (n - 1) / 2)).is_integer():
        if float(c - (n - 1) / 2).is_integer():
            want = s[1:][:, np.clip(np.round(src).astype(int), 0, n - 1)]
            # columns without a mirror hold the nearest column
            ctx.near(got[h:], want, "mirrored", rtol=1e-6)
        else:                           # half-pixel spline interpolation
            ctx.shape(got[h:], (h - 1, n), "mirrored")
    else:
        ok &= (x > 6) & (x < n - 7) & (src > 6) & (src < n - 7)
        want = bumps(seed, ang[1:] + np.pi, x - c, n / 4)
        ctx.near(got[h:][:, ok], want[:, ok], "mirrored", atol=0.02)
    ctx.nontrivial(abs(off) > 0.5)


@check(quick=150, seed=SEED, half=I(2, 20), n=I(50, 90), ov=F(16, 44),
       side=pick(0, 1), told=st.booleans(), log=st.booleans())
def extend(ctx, seed, half, n, ov, side, told, log):
    """A full-turn sinogram is extended such that opposite views, mirrored
    about the axis returned, add up to twice the whole projection; beyond
    the measured side it repeats the (vanishing) weighted edge."""
    s, cor, ang, reach = full_turn(seed, half, n, ov, side)
    data = np.exp(-s) if log else s
    with ctx.unchanged("extend_sinogram", data):
        got, c = conv.extend_sinogram(data, (ov, side) if told else cor,
                                      apply_log=log)
    W = got.shape[1]
    ctx.true(abs(W - (2 * n - ov)) <= 0.6, "width %d" % W)
    ctx.near(c, (W - 1) / 2, "axis", atol=1e-9)
    opposite = got[half:][:, ::-1]
    both = (got[:half + 1] + opposite) / 2
    want = bumps(seed, ang[:half + 1], np.arange(W) - c, reach)
    ctx.near(both, want, "opposite views together", atol=0.03)
    far = got[:, :W - n] if side == 0 else got[:, n:]
    ctx.near(far, np.zeros_like(far), "beyond the overlap", atol=1e-9)
    ctx.label("side%d" % side)
    ctx.nontrivial(abs(ov - round(ov)) > 0.1)


@check(quick=150, seed=SEED, half=I(1, 10), n=I(8, 40), twice=I(1, 60),
       told=st.booleans(), part=pick(0.0, 0.25, 0.5, -0.3), log=st.booleans(),
       kind=KINDS)
def extend_exact(ctx, seed, half, n, twice, told, part, log, kind):
    """An extended sinogram is twice the measured one, faded linearly over
    the overlap and repeated to the side, also for objects wider than the
    detector; with the axis between pixels, rows of one grey stay so."""
    tw = 2 + twice % (2 * n - 5)        # 2*cor
    cor = tw / 2
    s = array(seed, (2 * half + 1, n), "float64", kind, 0.2, 1)
    if part:
        s[:] = s.mean(axis=1, keepdims=True)
        cor = min(max(cor + part / 2, 1), n - 2)
    left = cor <= (n - 1) / 2
    ov = 2 * cor + 1 if left else 2 * (n - cor) - 1
    data = np.exp(-s) if log else s
    with ctx.unchanged("extend_sinogram", data):
        got, c = conv.extend_sinogram(data, (ov, 0 if left else 1) if told
                                      else cor, apply_log=log)
    m = 2 * n - got.shape[1]
    ctx.true(abs(m - ov) <= 0.5 + 1e-9, "overlap %d" % m)
    ctx.near(c, (got.shape[1] - 1) / 2, "axis", atol=1e-9)
    g = np.ones(n)
    # the fade ends at 0 at the rim
    g[n - m:] = 1 - np.arange(m) / max(1, m - 1)
    want = np.pad(2 * s * (g[::-1] if left else g), (
        (0, 0), (n - m, 0) if left else (0, n - m)), mode="edge")
    if m == 1:
        return ctx.nontrivial(False)
    ctx.near(got, want, "extended", rtol=1e-6)
    ctx.label("left" if left else "right", "part" if part else "whole")
    ctx.nontrivial(m < n)


larger(to_180_exact, half=I(30, 300), n=I(100, 500), twice=I(0, 600))
larger(to_360, h=I(100, 500), n=I(200, 700))
larger(extend_exact, half=I(30, 300), n=I(100, 500), twice=I(0, 600))
larger(extend, half=I(60, 300), n=I(200, 500))
