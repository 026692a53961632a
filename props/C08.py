"""C08: image mapping, polar transforms, masks and scan positions."""
import numpy as np
import scipy.ndimage as ndi
from hypothesis import strategies as st
from vf.core import check, larger
from vf.gen import SEED, I, F, KINDS, array, rng, smooth, pick
import algotom.util.utility as util


def bilinear(mat, x, y, mode):
    """Bilinear sampling at (x, y) with the image continued outside."""
    p = 8
    npmode = {"reflect": "symmetric", "nearest": "edge",
              "mirror": "reflect"}[mode]
    m = np.pad(np.asarray(mat, dtype=np.float64), p, mode=npmode)
    x, y = np.asarray(x, np.float64) + p, np.asarray(y, np.float64) + p
    x0, y0 = np.floor(x).astype(int), np.floor(y).astype(int)
    fx, fy = x - x0, y - y0
    x1, y1 = np.minimum(x0 + 1, m.shape[1] - 1), np.minimum(y0 + 1,
                                                            m.shape[0] - 1)
    return (m[y0, x0] * (1 - fx) * (1 - fy) + m[y0, x1] * fx * (1 - fy)
            + m[y1, x0] * (1 - fx) * fy + m[y1, x1] * fx * fy)


@check(quick=200, seed=SEED, h=I(9, 24), w=I(9, 24), oh=I(1, 12), ow=I(1, 12),
       kind=KINDS, mode=pick("reflect", "nearest", "mirror", None),
       over=pick(0, 0, 4), dt=pick("float32", "float64"))
def mapping(ctx, seed, h, w, oh, ow, kind, mode, over, dt):
    """Each output pixel is the input image sampled (bilinearly) at that
    pixel's (x, y) coordinate; integer coordinates give pixels exactly."""
    mat = array(seed, (h, w), dt, kind, -1, 3)
    r = rng(seed, 2)
    x = r.random((oh, ow)) * (w - 1 + 2 * over) - over
    y = r.random((oh, ow)) * (h - 1 + 2 * over) - over
    with ctx.unchanged("mapping", mat, x, y):
        got = util.mapping(mat, x, y, **({} if mode is None else
                                         {"order": 1, "mode": mode}))
    ctx.near(got, bilinear(mat, x, y, mode or "reflect"), "mapped", rtol=1e-5,
             scale=3)
    xi, yi = r.integers(0, w, (oh, ow)), r.integers(0, h, (oh, ow))
    for order in (0, 1):
        ctx.near(util.mapping(mat, 1.0 * xi, 1.0 * yi, order=order),
                 mat[yi, xi], "integer coordinates, order %d" % order,
                 rtol=1e-6)
    yy, xx = np.mgrid[:h, :w]
    ctx.near(util.mapping(mat, 1.0 * xx, 1.0 * yy, order=3), mat,
             "identity, order 3", rtol=1e-4, scale=3)
    ctx.nontrivial(oh * ow > 3)


@check(quick=200, w=I(1, 60), ratio=F(0, 1.6))
def circle_mask(ctx, w, ratio):
    """1 within the radius (ratio times half width) of the centre pixel, 0
    outside."""
    m = util.make_circle_mask(w, ratio)
    ctx.shape(m, (w, w), "mask")
    ctx.true(set(np.unique(m)) <= {0.0, 1.0}, "mask is not binary")
    c = w // 2
    rr = ratio * c
    for y in range(w):
        for x in range(w):
            d = (x - c) ** 2 + (y - c) ** 2
            if abs(d - rr * rr) > 1e-6 * max(1, rr * rr):
                ctx.eq(bool(m[y, x]), d < rr * rr, "pixel %d %d" % (x, y))
            elif float(rr).is_integer():
                ctx.eq(bool(m[y, x]), True, "pixel %d %d on the rim" % (x, y))
    ctx.nontrivial(0 < ratio < 1.4 and w > 3)


@check(quick=150, wr=I(3, 30), hr=I(3, 30), wp=I(2, 30), hp=I(2, 30))
def polar_grids(ctx, wr, hr, wp, hp):
    """Polar <-> rectangular coordinate grids by geometry: pixel (t, r) of a
    polar image lies at radius r of the r_max and angle t of the full turn;
    pixel (y, x) of a rectangular one has that radius and angle."""
    x, y = util.rectangular_from_polar(wr, hr, wp, hp)
    r, t = util.polar_from_rectangular(wp, hp, wr, hr)
    xc, yc = (wr - 1) / 2, (hr - 1) / 2
    rmax = np.floor(max(xc, yc))
    ctx.shape(x, (hp, wp), "x")
    ctx.shape(y, (hp, wp), "y")
    ctx.shape(r, (hr, wr), "r")
    ctx.shape(t, (hr, wr), "theta")
    for i in range(hp):
        a = 2 * np.pi * i / (hp - 1)
        for j in range(wp):
            rad = rmax * j / (wp - 1)
            ctx.true(abs(x[i, j] - np.clip(xc + rad * np.cos(a), 0, wr - 1))
                     < 1e-4 and abs(y[i, j] - np.clip(
                         yc + rad * np.sin(a), 0, hr - 1)) < 1e-4,
                     "polar pixel row %d col %d -> %s %s" % (i, j, x[i, j],
                                                             y[i, j]))
    for i in range(hr):
        for j in range(wr):
            dx, dy = j - xc, i - yc
            rad = min(np.hypot(dx, dy) * wp / rmax, wp - 1)
            ctx.true(abs(r[i, j] - rad) < 1e-4, "radius of pixel %d %d: %s, "
                     "expected %s" % (i, j, r[i, j], rad))
            if rad > 0:
                want = (np.arctan2(dy, dx) % (2 * np.pi)) / (2 * np.pi) * (
                    hp - 1)
                d = abs(t[i, j] - want)
                ctx.true(min(d, abs(d - (hp - 1))) < 1e-3,
                         "angle of pixel %d %d: %s, expected %s"
                         % (i, j, t[i, j], want))


@check(quick=80, seed=SEED, n=I(40, 90), given=st.booleans())
def polar_roundtrip(ctx, seed, n, given):
    """To polar and back reproduces a smooth image inside the circle; rings
    round the centre become stripes: columns that do not depend on angle."""
    mat = smooth(seed, (n, n), 2)
    fc = util.rectangular_from_polar(n, n, n, n) if given else None
    bc = util.polar_from_rectangular(n, n, n, n) if given else None
    pol = util.transform_slice_forward(mat, coord_mat=fc)
    ctx.shape(pol, (n, n), "polar image")
    back = util.transform_slice_backward(pol, coord_mat=bc)
    ctx.shape(back, (n, n), "image")
    yy, xx = np.mgrid[:n, :n] - (n - 1) / 2
    inside = np.hypot(xx, yy) < 0.9 * np.floor((n - 1) / 2)
    gy, gx = np.gradient(mat)
    lim = 1.6 * np.hypot(gx, gy).max() + 0.01
    err = np.abs(back - mat)[inside].max()
    ctx.true(err <= lim, "round trip off by %.3g (limit %.3g)" % (err, lim))
    rad = np.hypot(xx, yy) / n
    ring = np.cos(2 * np.pi * rad * (1 + seed % 3))
    pr = util.transform_slice_forward(ring, coord_mat=fc)
    sd = pr.std(axis=0).max()
    ctx.true(sd < 0.02, "a ring pattern varies by %.3g along the angle" % sd)
    ctx.raises(ValueError, lambda: util.transform_slice_forward(mat[1:]),
               "image not square")
    ctx.raises(ValueError, lambda: util.transform_slice_backward(mat[1:]),
               "image not square")
    for f, cs in ((util.transform_slice_forward, util.rectangular_from_polar),
                  (util.transform_slice_backward,
                   util.polar_from_rectangular)):
        a, b = cs(n, n, n, n)
        for bad in ((a[1:], b[1:]), (a[1:], b), (a, b[:, 1:]),
                    (a, b[:1, :1]), (a[:1, :1], b)):
            ctx.raises(ValueError, lambda: f(mat, coord_mat=bad),
                       "coordinates of another shape")


@check(quick=150, step=F(0.1, 12), n=I(1, 40), h=I(1, 300), w=I(1, 300),
       shape=F(0, 2))
def spiral(ctx, step, n, h, w, shape):
    """Fermat spiral: position i is step*sqrt(i) from the origin at the i-th
    multiple of the turning angle; positions outside the field of view are an
    error."""
    phi = 2 * np.pi * (1 + np.sqrt(5)) / 2 + shape * np.pi
    pos = np.asarray([[step * np.sqrt(i) * np.cos(i * phi),
                       step * np.sqrt(i) * np.sin(i * phi)]
                      for i in range(n)])
    out = (np.abs(pos[:, 0]) > w // 2) | (np.abs(pos[:, 1]) > h // 2)
    near = (np.abs(np.abs(pos[:, 0]) - w // 2) < 1e-6) | (
        np.abs(np.abs(pos[:, 1]) - h // 2) < 1e-6)
    if np.any(near & (np.hypot(*pos.T) > 0)):
        return
    if out.any():
        ctx.raises(ValueError, lambda: util.generate_spiral_positions(
            step, n, h, w, spiral_shape=shape), "position outside")
        ctx.label("outside")
        return
    got = util.generate_spiral_positions(step, n, h, w, spiral_shape=shape)
    ctx.near(got, pos, "positions", rtol=1e-5, scale=max(1, step * 7))
    ctx.nontrivial(n > 2)
    ctx.label("inside")


@check(quick=120, seed=SEED, n=I(3, 40), sym=st.booleans(),
       mode=pick("reflect", "nearest"), order=pick(1, 1, 0, 3))
def window_1d_to_2d(ctx, seed, n, sym, mode, order):
    """Each pixel holds the 1D window at the pixel's distance from the centre
    (to the left of it for rows above, to the right below)."""
    win = array(seed, (n,), "float64", "noise", 0, 1)
    if sym:
        win = (win + win[::-1]) / 2
    got = util.transform_1d_window_to_2d(win, order=order, mode=mode)
    ctx.shape(got, (n, n), "window")
    c = n // 2
    for y in range(n):
        for x in range(n):
            rad = min(np.hypot(x - c, y - c), c)
            pos = c - rad if y < c else c + rad
            if order == 1:
                want = np.interp(pos, np.arange(n), win)
            elif order == 3 and n % 2:
                want = ndi.map_coordinates(np.float64(win), [[pos]], order=3,
                                           mode=mode)[0]
            else:
                near = win[max(0, int(np.floor(pos - 1e-4))):int(np.ceil(
                    pos + 1e-4)) + 1]
                ctx.true(order == 3 or np.abs(near - got[y, x]).min() < 1e-6,
                         "pixel %d %d is no value of the window" % (x, y))
                continue
            ctx.true(abs(got[y, x] - want) < 1e-5 * (1 + n),
                     "pixel %d %d: %.6g, expected %.6g" % (x, y, got[y, x],
                                                           want))


larger(mapping, h=I(60, 400), w=I(60, 400), oh=I(60, 300), ow=I(60, 300))
larger(circle_mask, w=I(200, 1500))
larger(polar_grids, wr=I(100, 500), hr=I(100, 500), wp=I(100, 600), hp=I(100,
       600))
larger(polar_roundtrip, 4, 50, n=I(200, 400))
larger(window_1d_to_2d, n=I(100, 600))
