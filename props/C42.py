"""C42: masks and phantoms."""
import numpy as np
from hypothesis import strategies as st
from vf.core import check, also, larger
from vf.gen import SEED, I, F, rng, pick
import algotom.util.simulation as sim


def frame(size, xc, yc, angle):
    """Coordinates along the axes of an object turned counter-clockwise, y
    upward, origin at the pixel size//2."""
    i, j = np.mgrid[:size, :size]
    x, y = j - size // 2 - xc, size // 2 - i - yc
    a = np.deg2rad(angle)
    return x * np.cos(a) + y * np.sin(a), -x * np.sin(a) + y * np.cos(a)


SHAPE = dict(size=I(8, 64), xc=F(-12, 12), yc=F(-12, 12), xl=F(2, 40),
             yl=F(2, 40), angle=F(-200, 200), scalar=pick(0, 1, 2, 3))


def args(xc, yc, xl, yl, scalar):
    if scalar & 1:
        yc = xc
    if scalar & 2:
        yl = xl
    return ((xc if scalar & 1 else (xc, yc)), (xl if scalar & 2 else
                                               (xl, yl)), xc, yc, xl, yl)


def inside_outside(ctx, got, size, sure_in, sure_out, msg):
    ctx.shape(got, (size, size), msg)
    ctx.true(np.all((got == 0) | (got == 1)), msg + " is not binary")
    ctx.true(np.all(got[sure_in] == 1), lambda: "%s: %d pixels inside are "
             "missing" % (msg, np.sum(got[sure_in] != 1)))
    ctx.true(np.all(got[sure_out] == 0), lambda: "%s: %d pixels outside are "
             "set" % (msg, np.sum(got[sure_out] != 0)))


@check(quick=250, **SHAPE)
def ellipse(ctx, size, xc, yc, xl, yl, angle, scalar):
    """The elliptic mask is the ellipse of the lengths given, turned
    counter-clockwise, about the centre given."""
    c, ln, xc, yc, xl, yl = args(xc, yc, xl, yl, scalar)
    got = sim.make_elliptic_mask(size, c, ln, angle)
    u, v = frame(size, xc, yc, angle)
    r = np.hypot(u / (xl / 2), v / (yl / 2))
    inside_outside(ctx, got, size, r <= 1.0 - 1e-6, r > 1.02, "ellipse")
    ctx.nontrivial(0 < got.sum() < got.size)


@check(quick=250, **SHAPE)
def rectangle(ctx, size, xc, yc, xl, yl, angle, scalar):
    """The rectangular mask likewise."""
    c, ln, xc, yc, xl, yl = args(xc, yc, xl, yl, scalar)
    got = sim.make_rectangular_mask(size, c, ln, angle)
    u, v = frame(size, xc, yc, angle)
    r = np.maximum(np.abs(u) / (xl / 2), np.abs(v) / (yl / 2))
    inside_outside(ctx, got, size, r <= 1.0 - 1e-6, r > 1.02, "rectangle")
    ctx.nontrivial(0 < got.sum() < got.size)


@check(quick=250, **dict(SHAPE, xl=F(5, 40), yl=F(5, 40)))
def triangle(ctx, size, xc, yc, xl, yl, angle, scalar):
    """The triangular mask is the isosceles triangle with its tip to the
    left and base to the right, turned and moved likewise, within the width
    of the pixels."""
    c, ln, xc, yc, xl, yl = args(xc, yc, xl, yl, scalar)
    got = sim.make_triangular_mask(size, c, ln, angle)
    u, v = frame(size, xc, yc, angle)
    # signed distances to the three sides, positive inside
    side = np.hypot(xl, yl / 2)
    d1 = ((u + xl / 2) * (yl / 2) - v * xl) / side
    d2 = ((u + xl / 2) * (yl / 2) + v * xl) / side
    d = np.minimum(np.minimum(d1, d2), xl / 2 - u)
    out = d < -1.8
    # a pixel at a corner of the rectangle may stay
    corner = np.hypot(u + xl / 2, np.abs(v) - yl / 2) < 4
    inside_outside(ctx, got, size, d > 2, out & ~corner, "triangle")
    rect = sim.make_rectangular_mask(size, c, ln, angle)
    ctx.true(np.all(got <= rect), "triangle beyond its rectangle")
    ctx.nontrivial(0 < got.sum() < got.size)


@check(quick=40, size=I(32, 200))
def line_target(ctx, size):
    """The line target: lines cut out of a disc, the same along both axes,
    each group of three lines, from one pixel on."""
    got = sim.make_line_target(size)
    ctx.shape(got, (size, size), "line target")
    ctx.true(np.all((got == 0) | (got == 1)), "line target is not binary")
    ctx.same(got, got.T, "transposed")
    c = size // 2
    half = got[c, c:]
    # runs of dark pixels to the right of the middle: widths come in threes
    d = np.diff(np.concatenate(([0], (half == 0).astype(int), [0])))
    runs = (np.flatnonzero(d == -1) - np.flatnonzero(d == 1))
    disc = np.flatnonzero(got.any(axis=0))
    edge = disc[-1] - c
    start = np.flatnonzero(d == 1)
    runs = [int(r) for r, s in zip(runs, start) if s + r <= edge]
    k = len(runs) // 3
    ctx.eq(runs, [w for w in range(1, k + 1) for _ in range(3)],
           "widths of the lines")
    ctx.nontrivial(k > 1)


@check(quick=40, size=I(32, 160))
def face(ctx, size):
    """The face phantom: within the frame, left and right alike, never
    negative, and the same picture at twice the size."""
    got = sim.make_face_phantom(size)
    ctx.shape(got, (size, size), "face")
    ctx.finite(got, "face")
    c = size // 2
    k = min(c, size - 1 - c)
    left, right = got[:, c - k:c + 1], got[:, c:c + k + 1][:, ::-1]
    ctx.true(np.mean(np.abs(left - right) > 1e-6) < 0.03, "face lop-sided")
    u, v = frame(size, 0, 0, 0)
    r = np.hypot(u / (size / 2.6), v / (0.48 * size))
    ctx.true(np.all(got[r > 1.05] == 0), "something outside of the face")
    ctx.true(got.min() > -0.31 and got.max() <= 1.2, "values %r..%r" % (
        got.min(), got.max()))
    if size > 64:
        big = sim.make_face_phantom(2 * size)[::2, ::2][:size, :size]
        ctx.true(np.mean(np.abs(big - got) > 0.1) < 0.12,
                 "another face at twice the size: %.2f" % np.mean(
                     np.abs(big - got) > 0.1))


BIG = dict(size=I(100, 400), xc=F(-60, 60), yc=F(-60, 60))
larger(ellipse, 10, 100, **BIG)
larger(rectangle, 10, 100, **BIG)
larger(triangle, 10, 100, **BIG)
