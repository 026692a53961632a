"""C40: correlation maps, their peaks, and the shift between two images."""
import numpy as np
import scipy.ndimage as ndi
from hypothesis import strategies as st, assume
from vf.core import check, larger
from vf.gen import SEED, I, F, KINDS, array, rng, pick
import algotom.util.correlation as corl


def speckle(seed, shape, s=1.2):
    """Smooth random texture; the last two axes are of the image."""
    r = rng(seed, 71)
    sig = (0,) * (len(shape) - 2) + (s, s)
    a = ndi.gaussian_filter(r.random(shape), sig, mode="wrap")
    return 0.3 + (a - a.min()) / np.ptp(a)


def moved(seed, shape, sx, sy, s=0.9, gain=1.0, off=0.0):
    """ref and mat with mat[y, x] = ref[y + sy, x + sx], any shift: the
    texture is a sum of waves."""
    r = rng(seed, 72)
    h, w = shape[-2:]
    y, x = np.mgrid[0:h, 0:w].astype(float)
    ref, mat = np.zeros(shape), np.zeros(shape)
    n = 24
    for k in range(shape[0] if len(shape) == 3 else 1):
        a, b = np.zeros((h, w)), np.zeros((h, w))
        for _ in range(n):
            t = r.random() * 2 * np.pi
            q = r.uniform(0.3, 1.0) / s
            u, v, p = q * np.cos(t), q * np.sin(t), r.random() * 2 * np.pi
            a += np.cos(u * x + v * y + p)
            b += np.cos(u * (x + sx) + v * (y + sy) + p)
        a, b = 6 + a / np.sqrt(n), 6 + b / np.sqrt(n)
        if len(shape) == 3:
            ref[k], mat[k] = a, b
        else:
            ref, mat = a, b
    return ref, mat * gain + off


def pearson(a, b):
    a, b = a - a.mean(), b - b.mean()
    den = np.sqrt(np.sum(a * a) * np.sum(b * b))
    return np.sum(a * b) / den if den > 0 else 0.0


@check(quick=200, seed=SEED, d=I(0, 4), h=I(2, 16), w=I(2, 16), h1=I(1, 9),
       w1=I(1, 9), kind=KINDS, dt=pick("float32", "float64"))
def coefficients(ctx, seed, d, h, w, h1, w1, kind, dt):
    """Every entry is the Pearson coefficient of the small image and the
    part of the large one at that place; zero where a part is flat."""
    h1, w1 = min(h, h1), min(w, w1)
    lead = (d,) if d else ()
    ref = array(seed, lead + (h, w), dt, kind, 0.1, 2)
    mat = array(seed + 1, lead + (h1, w1), dt, "noise", 0, 3)
    with ctx.unchanged("map", ref, mat):
        out = corl.generate_correlation_map(ref, mat)
    ctx.shape(out, (h - h1 + 1, w - w1 + 1), "map")
    exp, ok = np.zeros(out.shape), np.zeros(out.shape, bool)
    for i in range(out.shape[0]):
        for j in range(out.shape[1]):
            p = ref[..., i:i + h1, j:j + w1].astype(float)
            # nearly flat parts are a matter of rounding
            ok[i, j] = p.std() == 0 or p.std() > 1e-4
            exp[i, j] = pearson(p, mat.astype(float))
    if mat.astype(float).std() < 1e-4:      # a single pixel
        return ctx.nontrivial(False)
    flat = np.array([[np.ptp(ref[..., i:i + h1, j:j + w1]) == 0
                      for j in range(out.shape[1])]
                     for i in range(out.shape[0])])
    ctx.true(np.all(np.abs(out) <= 1 + 1e-5), "coefficient above one")
    ctx.near(np.where(ok & ~flat, out, 0), np.where(ok & ~flat, exp, 0),
             "coefficients", atol=2e-3 if dt == "float32" else 1e-6, scale=0)
    ctx.nontrivial((ok & ~flat).any() and out.size > 1)


@check(quick=150, seed=SEED, d=I(0, 3), h=I(4, 16), w=I(4, 16),
       gain=F(0.05, 20), off=F(-5, 5), y=F(0, 1), x=F(0, 1))
def same_place(ctx, seed, d, h, w, gain, off, y, x):
    """A part cut out, brightened at will, is found where it was, with a
    coefficient of one."""
    ref = speckle(seed, ((d,) if d else ()) + (h, w))
    h1, w1 = max(3, h // 2), max(3, w // 2)
    i, j = int(y * (h - h1)), int(x * (w - w1))
    mat = ref[..., i:i + h1, j:j + w1] * gain + off
    out = corl.generate_correlation_map(ref, mat)
    ctx.near(out[i, j], 1.0, "coefficient at the place", atol=1e-4)
    ctx.eq(tuple(map(int, np.unravel_index(np.argmax(out), out.shape))),
           (i, j), "place")
    ctx.nontrivial(out.size > 1)


@check(quick=60, h=I(2, 8), w=I(2, 8), dh=I(-1, 2), dw=I(-1, 2), d=I(0, 3),
       dd=I(-1, 1))
def refused(ctx, h, w, dh, dw, d, dd):
    """An image larger than the reference, or stacks of different depth,
    are refused."""
    lead = (d,) if d else ()
    ref = np.random.rand(*lead, h, w)
    d1 = max(1, d + dd)
    mat = np.random.rand(*((d1,) if d else ()), h + dh, w + dw)
    bad = dh > 0 or dw > 0 or (d > 0 and d1 != d)
    if bad:
        ctx.raises(ValueError, lambda: corl.generate_correlation_map(
            ref, mat), "sizes")
    else:
        corl.generate_correlation_map(ref, mat)
    ctx.raises(ValueError, lambda: corl.generate_correlation_map(
        np.ones(5), np.ones(3)), "1D input")
    ctx.nontrivial(bad)


@check(quick=300, h=I(5, 16), w=I(5, 16), y=F(0, 1), x=F(0, 1),
       a=F(0.3, 3), b=F(-0.25, 0.25), c=F(0.3, 3), dim=pick(1, 2),
       method=pick("diff", "poly_fit"), size=I(3, 9), top=st.booleans(),
       sub=st.booleans())
def parabola(ctx, h, w, y, x, a, b, c, dim, method, size, top, sub):
    """The top (or bottom) of a paraboloid away from the edges is located
    exactly."""
    y0, x0 = 1.5 + y * (h - 4), 1.5 + x * (w - 4)
    if dim == 1:
        b = 0.0
    b = b * np.sqrt(a * c)
    yy, xx = np.mgrid[0:h, 0:w]
    m = 5 - (a * (xx - x0) ** 2 + 2 * b * (xx - x0) * (yy - y0)
             + c * (yy - y0) ** 2)
    if not top:
        m = -m
    jj, ii = np.round(x0), np.round(y0)
    i, j = np.unravel_index(np.argmax(m if top else -m), m.shape)
    assume(0 < i < h - 1 and 0 < j < w - 1)
    with ctx.unchanged("peak", m):
        xp, yp = corl.locate_peak(m, sub, method, dim, size, top)
    if not sub:
        ctx.eq((int(xp), int(yp)), (int(j), int(i)), "pixel")
    else:
        n = 3 if method == "diff" else min(9, 2 * (size // 2) + 1)
        if n > min(h, w):       # no room for the window: to the pixel
            exp = (j, i)
        elif abs(x0 - j) >= 0.999 or abs(y0 - i) >= 0.999:
            return ctx.nontrivial(False)
        else:
            exp = (x0, y0)
        ctx.near([xp, yp], exp, "position", atol=1e-5, scale=0)
    ctx.label(method + str(dim))
    ctx.nontrivial(sub)


@check(quick=250, seed=SEED, h=I(1, 12), w=I(1, 12), dim=pick(1, 2),
       method=pick("diff", "poly_fit"), size=I(3, 9), edge=I(0, 4),
       top=st.booleans())
def peak_laws(ctx, seed, h, w, dim, method, size, edge, top):
    """The position lies in the image, around the extreme pixel; it follows
    flips and transposition of the image; its value and gain don't
    matter."""
    r = rng(seed, 73)
    m = ndi.gaussian_filter(r.random((h, w)), 1.0)
    i, j = int(r.integers(h)), int(r.integers(w))
    if edge == 1:
        i = 0
    elif edge == 2:
        j = w - 1
    elif edge == 3:
        i, j = h - 1, 0
    m[i, j] = m.max() + r.uniform(0.01, 0.5)
    if not top:
        m = -m

    def loc(a):
        return corl.locate_peak(a, True, method, dim, size, top)
    x, y = loc(m)
    n = 3 if method == "diff" else min(9, 2 * (size // 2) + 1)
    ctx.true(0 <= x <= w - 1 and 0 <= y <= h - 1, "outside the image")
    ctx.true(abs(x - j) < (1 if n == 3 and method == "diff" else n)
             and abs(y - i) < (1 if method == "diff" else n),
             lambda: "position (%s, %s) far from pixel (%d, %d)"
             % (x, y, j, i))
    if j == 0 or j == w - 1:
        ctx.eq(float(x), float(j), "column of a peak in an edge column")
    if i == 0 or i == h - 1:
        ctx.eq(float(y), float(i), "row of a peak in an edge row")
    tol = dict(atol=1e-4, scale=0)
    ctx.near(loc(m[:, ::-1]), (w - 1 - x, y), "flipped columns", **tol)
    ctx.near(loc(m[::-1]), (x, h - 1 - y), "flipped rows", **tol)
    ctx.near(loc(m.T), (y, x), "transposed", **tol)
    ctx.near(loc(3.0 * m + 1), (x, y), "scaled", **tol)
    ctx.near(corl.locate_peak(-m, True, method, dim, size, not top), (x, y),
             "bottom of the negative", **tol)
    q = np.round((m - m.min()) / np.ptp(m) * 200) if h * w > 1 else m
    if np.sum(q == (q.max() if top else q.min())) == 1:
        ctx.near(loc(q.astype(("uint8", "uint16", "int32")[seed % 3])
                     if h * w > 1 else m), loc(q), "of integers", atol=1e-9)
    if dim == 1:        # searched along the row and the column of the peak
        b = (r.random((h, w)) - 0.5) * np.ptp(m) * 0.4 + np.median(m)
        if (b.max() if top else -b.min()) < (m[i, j] if top else -m[i, j]):
            b[i], b[:, j] = m[i], m[:, j]
            ctx.near(loc(b), (x, y), "other pixels changed", **tol)
    ctx.nontrivial(h > 2 and w > 2)


@check(quick=150, seed=SEED, d=I(0, 3), h=I(20, 40), w=I(20, 40),
       margin=I(2, 6), fx=F(-1, 1), fy=F(-1, 1), axis=pick(
           None, None, 0, 1), method=pick("diff", "poly_fit"),
       whole=st.booleans(), cut=st.booleans(), gain=F(0.2, 5), dim=pick(1, 2))
def two_images(ctx, seed, d, h, w, margin, fx, fy, axis, method, whole, cut,
               gain, dim):
    """The shift between two images of one texture is found: exactly for
    whole pixels, to a fraction of a pixel otherwise, whatever the
    brightness, along one axis or both."""
    sx, sy = fx * (margin - 1), fy * (margin - 1)
    if whole:
        sx, sy = round(sx), round(sy)
    if axis == 0:
        sx = 0
    if axis == 1:
        sy = 0
    shape = ((d,) if d else ()) + (h, w)
    ref, mat = moved(seed, shape, sx, sy, gain=gain)
    if cut:
        rows = slice(None) if axis == 1 else slice(margin, -margin)
        cols = slice(None) if axis == 0 else slice(margin, -margin)
        mat = mat[..., rows, cols]
    with ctx.unchanged("images", ref, mat):
        x, y = corl.find_shift_based_correlation_map(
            ref, mat, margin, axis, True, method, dim)
        xi, yi = corl.find_shift_based_correlation_map(
            ref, mat, margin, axis, False, method, dim)
    if whole:
        ctx.eq((float(xi), float(yi)), (float(sx), float(sy)),
               "whole-pixel shift")
    ctx.near([x, y], [sx, sy], "shift", atol=0.35, scale=0)
    ctx.near([xi, yi], [sx, sy], "shift to a pixel", atol=1.0, scale=0)
    ctx.label("axis %s" % axis)
    ctx.nontrivial(abs(sx) + abs(sy) > 1)


@check(quick=150, seed=SEED, d=I(0, 3), h=I(6, 16), w=I(6, 16),
       margin=pick(1, 2, 2, 3, 4, 6, 8), axis=pick(None, 0, 1), small=I(0, 1), dh=I(0, 7),
       dw=I(0, 7))
def margins(ctx, seed, d, h, w, margin, axis, small, dh, dw):
    """A margin which leaves nothing to slide, or is wider than the images
    allow, is refused; otherwise it is the range the shift is in."""
    lead = (d,) if d else ()
    ref = speckle(seed, lead + (h, w))
    if small:
        mat = speckle(seed + 1, lead + (h, w))[..., :h - dh, :w - dw]
        assume(min(h - dh, w - dw) >= 2 and dh + dw)
        ry, rx = (dh + 1) // 2, (dw + 1) // 2
        ok = [dh >= 2 * margin, dw >= 2 * margin]
        bad = not (any(ok) if axis is None else ok[axis])
    else:
        mat = speckle(seed + 1, lead + (h, w))
        ok = [h - 2 * margin > 3, w - 2 * margin > 3]
        bad = not (all(ok) if axis is None else ok[axis])
        ry = margin if axis != 1 else 0
        rx = margin if axis != 0 else 0

    def call():
        return corl.find_shift_based_correlation_map(ref, mat, margin, axis)
    if bad:
        ctx.raises(ValueError, call, "margin %d of %s and %s" % (
            margin, ref.shape, mat.shape))
    else:
        x, y = call()
        ctx.true(abs(x) <= rx and abs(y) <= ry, lambda: "shift (%s, %s) out "
                 "of the range (%d, %d)" % (x, y, rx, ry))
        part = mat
        if not small:
            part = part if axis == 1 else part[..., margin:-margin, :]
            part = part if axis == 0 else part[..., margin:-margin]
        m = corl.generate_correlation_map(ref, part)
        for opts in ((True, "diff", 2, 3), (True, "poly_fit", 1, 5),
                     (True, "poly_fit", 2, 4), (False, "diff", 2, 3)):
            sub, method, dim, size = opts
            if axis is not None:
                dim = 1
            px, py = corl.locate_peak(m, sub, method, dim, size)
            exp = (0.0 if axis == 0 else px - m.shape[1] // 2,
                   0.0 if axis == 1 else py - m.shape[0] // 2)
            ctx.near(corl.find_shift_based_correlation_map(
                ref, mat, margin, axis, *opts), exp, "shift by %s"
                % (opts,), atol=1e-6)
    ctx.label("refused" if bad else "done")
    ctx.nontrivial(True)


@check(quick=80, seed=SEED, h=I(34, 50), w=I(34, 50), win=I(5, 12),
       margin=I(2, 4), fx=F(-0.7, 0.7), fy=F(-0.7, 0.7), n=I(1, 14),
       value=pick("median", "mixed", "mean"), norm=st.booleans(),
       own=pick(True, True, False), out=I(0, 3), sub=st.booleans(),
       method=pick("diff", "poly_fit"), size=I(3, 8))
def shared_shift(ctx, seed, h, w, win, margin, fx, fy, n, value, norm, own,
                 out, sub, method, size):
    """The global shift is the robust mean asked for of the shifts around
    the points given; points outside the searchable box are left out."""
    sx, sy = fx * margin, fy * margin
    ref, mat = moved(seed, (h, w), sx, sy)
    r = rng(seed, 74)
    radi = win // 2
    e = radi + margin
    kw = dict(norm=norm, ncore=1, sub_pixel=sub, method=method, size=size)
    with ctx.unchanged("images", ref, mat):
        if not own:
            x, y = corl.find_global_shift_based_local_shifts(
                ref, mat, 15, margin, num_point=8 + n, global_value=value,
                ncore=1)
            ctx.near([x, y], [sx, sy], "shift", atol=0.35, scale=0)
            return ctx.nontrivial(False)
        li = r.integers(e + 1, h - e, n)
        lj = r.integers(e + 1, w - e, n)
        li2, lj2 = list(map(int, li)), list(map(int, lj))
        for _ in range(out):        # next to the box, on any side
            a, b = int(r.integers(e + 1, h - e)), int(r.integers(
                e + 1, w - e))
            a, b = [(e - 1, b), (h - e, b), (a, e - 1), (a, w - e),
                    (h - 1, b), (0, b), (a, 0)][r.integers(7)]
            k = int(r.integers(len(li2) + 1))
            li2.insert(k, a), lj2.insert(k, b)
        pts = [li2, lj2]
        if n == 1 and not out and seed % 2:
            pts = [li2[0], lj2[0]]          # the form of a single point
        elif seed % 3 == 0:
            pts = np.asarray(pts)
        xs, ys = corl.find_global_shift_based_local_shifts(
            ref, mat, win, margin, list_ij=pts, return_list=True, **kw)
        x, y = corl.find_global_shift_based_local_shifts(
            ref, mat, win, margin, list_ij=pts, global_value=value, **kw)
    ctx.eq((len(xs), len(ys)), (n, n), "points used")
    a, b = (corl.normalize_image(ref), corl.normalize_image(mat)) if norm \
        else (ref, mat)
    for k in range(n):
        i, j = li[k], lj[k]
        exp = corl.find_shift_based_correlation_map(
            a[i - e:i + e + 1, j - e:j + e + 1],
            b[i - radi:i + radi + 1, j - radi:j + radi + 1], margin, None,
            sub, method, 2, size)
        ctx.near([xs[k], ys[k]], exp, "shift at point %d" % k, atol=1e-6)
    for got, lst in ((x, xs), (y, ys)):
        s = np.sort(lst)
        if value == "median":
            exp = np.median(s)
        elif value == "mixed":
            exp = s[max(0, n // 2 - 3):n // 2 + 3].mean()
        else:
            exp = s[2:-2].mean() if n > 7 else s.mean()
        ctx.near(got, exp, value, atol=1e-6)
    ctx.nontrivial(n > 1)


@check(quick=60, h=I(20, 30), w=I(20, 30), how=I(0, 11))
def bad_points(ctx, h, w, how):
    """Points in no valid form, or none inside, are refused."""
    ref = np.random.rand(h, w)
    pts = [[1], [1, 2], 3, [[8, 9], [8]], [[0], [0]], [8, [9, 10]],
           [h - 5, 8], [8, w - 5], [4, 8], [8, 4], [[h - 5, 8], [8, w - 5]],
           [[8], [4]]][how]
    ctx.raises(ValueError, lambda: corl.find_global_shift_based_local_shifts(
        ref, ref, 5, 3, list_ij=pts, ncore=1), "points %s" % (pts,))


@check(quick=100, seed=SEED, d=I(0, 3), h=I(2, 20), w=I(2, 20),
       gain=F(0.1, 10))
def normalize(ctx, seed, d, h, w, gain):
    """Normalising makes spread one and mean zero (2D), flattening sums of
    rows and columns, or minimum zero (3D); gain has no effect."""
    a = speckle(seed, ((d,) if d else ()) + (h, w))
    with ctx.unchanged("normalize", a):
        out = corl.normalize_image(a)
    if d:
        exp = (a - a.min()) / a.std()
    else:
        exp = a / a.sum(axis=0)[None] / a.sum(axis=1)[:, None]
        assume(exp.std() > 1e-6 * exp.mean())
        exp = (exp - exp.mean()) / exp.std()
    ctx.near(out, exp, "normalised", rtol=1e-6, atol=1e-6)
    ctx.near(corl.normalize_image(a * gain), out, "gain", rtol=1e-5,
             atol=1e-5)


larger(coefficients, 4, 50, h=I(30, 60), w=I(30, 60), h1=I(5, 40), w1=I(5,
       40))
larger(same_place, h=I(40, 120), w=I(40, 120))
larger(peak_laws, h=I(30, 120), w=I(30, 120))
larger(two_images, 5, 60, h=I(80, 140), w=I(80, 140), margin=I(6, 25))
larger(normalize, h=I(60, 300), w=I(60, 300))
