"""C39: tilt and roll from the path of a point."""
import warnings
import numpy as np
from hypothesis import strategies as st
from vf.core import check, also, larger
from vf.gen import SEED, I, F, rng, pick
import algotom.util.calibration as cal


def ellipse(roll, major, minor, xc, yc, t):
    a = np.deg2rad(roll)
    u, v = 0.5 * major * np.cos(t), 0.5 * minor * np.sin(t)
    return (u * np.cos(a) - v * np.sin(a) + xc,
            u * np.sin(a) + v * np.cos(a) + yc)


def angle_off(a, b):
    """Difference of two directions of a line, in degrees."""
    return abs((a - b + 90) % 180 - 90)


ELL = dict(seed=SEED, roll=F(-89.5, 89.5), major=F(20, 1500),
           axes=F(0.02, 0.95), xc=F(-500, 1500), yc=F(-500, 1500),
           n=I(6, 120), spread=st.booleans())


def points(seed, roll, major, axes, xc, yc, n, spread):
    r = rng(seed, 71)
    if spread:
        t = r.random() * 7 + np.arange(n) * 2 * np.pi / n
    else:
        t = np.sort(r.random(n)) * 1.9 * np.pi
    return ellipse(roll, major, major * axes, xc, yc, t), r


@check(quick=300, **ELL)
def fit(ctx, seed, roll, major, axes, xc, yc, n, spread):
    """Points on an ellipse give that ellipse: both axes, angle, centre,
    wherever it lies and in whatever order the points come."""
    (x, y), r = points(seed, roll, major, axes, xc, yc, n, spread)
    if n < 9 and not spread:
        return ctx.nontrivial(False)
    o = r.permutation(n)
    with ctx.unchanged("fit_points_to_ellipse", x, y):
        got = cal.fit_points_to_ellipse(x[o], y[o])
    tol = 5e-5
    ctx.near(got[1], major, "major axis", rtol=tol)
    ctx.near(got[2], major * axes, "minor axis", rtol=tol, scale=major)
    ctx.near(got[3:], (xc, yc), "centre", rtol=tol, scale=major)
    ctx.true(-90 <= got[0] <= 90, "angle %r" % got[0])
    ctx.true(angle_off(got[0], roll) <= 0.05 / (1 - axes),
             "angle %r, expected %r" % (got[0], roll))
    ctx.label("steep" if abs(roll) > 45 else "flat")


@check(quick=150, seed=SEED, roll=F(-40, 40), tilt=F(0.5, 40),
       major=F(100, 1500), xc=F(0, 1500), yc=F(0, 1500), n=I(30, 120),
       noise=pick(0.0, 0.0, 0.05))
def tilt_roll(ctx, seed, roll, tilt, major, xc, yc, n, noise):
    """A full turn of a point seen under a tilt of the axis gives the tilt,
    and the roll, of the system; a mirrored picture gives the opposite
    roll."""
    minor = major * np.tan(np.deg2rad(tilt))
    r = rng(seed, 73)
    t = np.arange(n) * 2 * np.pi / (n - 1)
    x, y = ellipse(roll, major, minor, xc, yc, t)
    x, y = x + noise * r.normal(size=n), y + noise * r.normal(size=n)
    if minor < 6:
        return ctx.nontrivial(False)
    with ctx.unchanged("find_tilt_roll", x, y):
        got = cal.find_tilt_roll(x, y)
    rough = 0.02 + 0.2 * (noise > 0)
    ctx.near(got[0], tilt, "tilt", atol=rough)
    ctx.near(got[1], roll, "roll", atol=rough / np.cos(np.deg2rad(
        2 * tilt if tilt < 40 else 80)))
    m = cal.find_tilt_roll(2 * xc - x, y)
    ctx.near(m, (got[0], -got[1]), "mirrored", atol=rough)
    z = cal.find_tilt_roll(x * 2, y * 2)
    ctx.near(z, got, "twice the scale", atol=rough)


@check(quick=150, seed=SEED, roll=F(-3, 3), tilt=F(0, 0.5), major=F(300, 2000),
       xc=F(0, 1500), yc=F(0, 1500), n=I(60, 180), method=pick(
           "linear", "ellipse"))
def small_angles(ctx, seed, roll, tilt, major, xc, yc, n, method):
    """Small tilts, down to none, with either method: the ellipse fit hands
    over to the linear fit where the path is nearly a line."""
    minor = major * np.tan(np.deg2rad(tilt))
    t = np.linspace(0, 2 * np.pi, n)
    x, y = ellipse(roll, major, minor, xc, yc, t)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = cal.find_tilt_roll(x, y, method=method)
    ctx.near(got[0], tilt, "tilt", atol=0.02 * tilt + 0.002)
    ctx.near(got[1], roll, "roll", atol=0.02)
    ctx.label(method, "line" if minor < 2 else "open")


@check(quick=120, seed=SEED, roll=F(-30, 30), major=F(100, 1500),
       axes=F(0.01, 0.3), n=I(20, 150), start=F(0, 6.3), span=F(1.5, 6.3),
       order=pick("on", "back", "from within"))
def part_of_turn(ctx, seed, roll, major, axes, n, start, span, order):
    """With a line, any part of a turn: its direction is the roll, the
    longest distance between two points is its length, and twice the largest
    (smoothed) distance from it its width; turned coordinates or a reversed
    scan give the same."""
    t = np.linspace(start, start + span, n)
    if order == "back":
        t = t[::-1]
    x, y = ellipse(roll, major, major * axes, 300, 200, t)
    if order == "from within":
        k = n // 3
        x, y = np.roll(x, k), np.roll(y, k)
    got = cal.find_tilt_roll(x, y, method="linear")
    u, v = x - x.mean(), y - y.mean()
    slope = (u * v).sum() / (u * u).sum()
    dist = np.abs(slope * u - v) / np.hypot(slope, 1)
    k = np.exp(-0.125 * np.arange(-8, 9) ** 2)
    d = np.convolve(np.pad(dist, 8, mode="symmetric"), k / k.sum(), "valid")
    chord = np.hypot(x[:, None] - x, y[:, None] - y).max()
    ctx.near(got[0], np.rad2deg(np.arctan2(2 * d.max(), chord)), "tilt",
             rtol=1e-5, atol=1e-6)
    ctx.near(got[1], np.rad2deg(np.arctan(slope)), "roll", atol=1e-5)
    ctx.label(order, "part" if span < 5.5 else "all")


@check(quick=60, seed=SEED, a=F(-30, 30), n=I(10, 60), gap=I(1, 5),
       what=pick("hyperbola", "length", "method"))
def refused(ctx, seed, a, n, gap, what):
    """Points of a hyperbola are no ellipse; lengths must agree; methods
    have names. The search for tilt and roll falls back on a line."""
    t = np.linspace(-1.5, 1.5, n)
    x, y = 20 * np.cosh(t), 10 * np.sinh(t)
    c, s = np.cos(np.deg2rad(a)), np.sin(np.deg2rad(a))
    x, y = c * x - s * y, s * x + c * y
    if what == "hyperbola":
        ctx.raises(ValueError, lambda: cal.fit_points_to_ellipse(x, y), what)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = cal.find_tilt_roll(x, y)
            line = cal.find_tilt_roll(x, y, method="linear")
        ctx.near(got, line, "line instead")
    elif what == "length":
        ctx.raises(ValueError, lambda: cal.find_tilt_roll(x, y[gap:]), what)
        ctx.raises(ValueError, lambda: cal.fit_points_to_ellipse(
            x[gap:], y), what)
    else:
        ctx.raises(ValueError, lambda: cal.find_tilt_roll(
            x, y, method="circle"), what)
