"""C31: finding the centre by comparing reconstructed slices."""
import os
import numpy as np
import scipy.ndimage as ndi
from PIL import Image
from scipy.signal.windows import boxcar  # noqa: F401
from hypothesis import strategies as st, assume
from vf.core import again, also, check, larger
from vf.gen import SEED, I, F, rng, pick, blobs, disc_sinogram
import algotom.rec.reconstruction as rec
import algotom.util.utility as util

METHOD = pick("fbp", "fbp", "bpf", "dfi")


def sinogram(seed, w, cen, n, use_log, bad=0, nd=4):
    ds = blobs(seed, nd, w, rad=(0.04, 0.15), within=0.4)
    s = disc_sinogram(ds, np.linspace(0, np.pi, n), w, cen)
    if use_log:
        s = np.exp(-s / w)
        if bad:
            r = rng(seed, 3)
            s[r.integers(0, n, bad), r.integers(0, w, bad)] = -0.1
    return s


def slice_of(s, c, method, angles, ratio, name, use_log):
    f = getattr(rec, method + "_reconstruction")
    kw = {} if method == "dfi" else {"gpu": False}
    return f(np.copy(s), c, angles=angles, ratio=ratio, filter_name=name,
             apply_log=use_log, **kw)


def entropy(img, lo, hi):
    v = np.floor(np.clip((img - lo) / (hi - lo), 0, 1) * 255)
    h = 1.0 + np.histogram(v, 256, (0, 255))[0]
    h = np.convolve(h, np.ones(7), "valid")
    return -np.sum(h * np.log2(h))


def sharpness(img):
    gy, gx = np.gradient(np.float32(img))
    return np.hypot(gy, gx).mean()


def model_list(s, centers, metric, method, angles, ratio, name, use_log,
               sigma, invert):
    s = np.array(s, float)
    if sigma > 0:
        s = ndi.gaussian_filter1d(s, sigma, axis=1)
    if use_log:
        s = -np.log(np.where(s <= 0, 1.0, s))

    def img(c):
        return slice_of(s, c, method, angles, ratio, name, False)
    if metric == "entropy":
        mid = img(np.mean(centers))
        v = [entropy(img(c), mid.min(), mid.max()) for c in centers]
    elif metric == "sharpness":
        v = [sharpness(img(c)) for c in centers]
    else:
        v = [metric(img(c)) for c in centers]
    v = np.asarray(v)
    return v.max() - v if invert else v


@check(quick=40, seed=SEED, w=I(20, 40), n=I(12, 30), at=F(-3, 3), lo=F(-4, 0),
       hi=F(0, 4), step=pick(0.5, 1, 1.5), metric=pick(
           "entropy", "sharpness", "own"), method=METHOD, ang=st.booleans(),
       ratio=pick(1.0, None, 0.7), name=pick("hann", None), use_log=st.
       booleans(), sigma=pick(0, 2, 1), bad=I(0, 3), invert=st.booleans(),
       ncore=pick(1, 2, None), cost=4)
def values(ctx, seed, w, n, at, lo, hi, step, metric, method, ang, ratio,
           name, use_log, sigma, bad, invert, ncore):
    """The value listed for each candidate is the metric of the slice
    reconstructed there from the smoothed sinogram; the candidate returned
    has the least."""
    mid = 0.5 * (w - 1)
    s = sinogram(seed, w, mid + at, n, use_log, bad)
    angles = np.linspace(0, np.pi, n) + 0.3 if ang else None
    a, b = mid + lo, mid + hi + step

    def own(img, k=1.0):
        return k * float(np.var(img[4:-3]))
    kw = dict(metric=metric, method=method, angles=angles, ratio=ratio,
              filter_name=name, apply_log=use_log, ncore=ncore, sigma=sigma,
              invert_metric=invert, gpu=False)
    if metric == "own":
        kw.update(metric_function=own, k=2.0)
    with ctx.unchanged("metric", s):
        cs, vs = rec._find_center_based_slice_metric(
            s, a, b, step, return_metric=True, **kw)
        best = rec._find_center_based_slice_metric(
            s, a, b, step, return_metric=False, **kw)
    exp_c = np.arange(a, b, step)
    ctx.near(cs, exp_c, "candidates", atol=1e-9)
    exp = model_list(s, exp_c, (lambda i: own(i, 2.0)) if metric == "own"
                     else metric, method, angles, ratio, name, use_log, sigma,
                     invert)
    # a grey level may fall into the next bin
    tol = 0.02 * np.ptp(exp) + 20 if metric == "entropy" else \
        1e-4 * np.abs(exp).max() + 1e-9
    ctx.near(vs, exp, "metric", atol=tol, scale=0)
    ctx.eq(float(best), float(cs[np.argmin(vs)]), "candidate returned")
    ctx.label(metric, method)
    ctx.nontrivial(len(cs) > 2)


@check(quick=40, seed=SEED, w=I(24, 40), at=F(-3, 3), lo=I(0, 4), hi=I(-1, 4),
       step=pick(0.5, 0.25, 1.0), radius=pick(0, 0.5, 1, 2, 3), zoom=pick(
           1.0, 1.0, 0.5, 0.7), sigma=pick(2, 0), bad=I(0, 2), use_log=st.
       booleans(), ang=st.booleans(), invert=st.booleans(),
       metric=pick("own", "own", "sharpness", "entropy"), method=METHOD,
       ratio=pick(1.0, None, 0.7), name=pick("hann", None), cost=4)
def two_rounds(ctx, seed, w, at, lo, hi, step, radius, zoom, sigma, bad,
               use_log, ang, invert, metric, method, ratio, name):
    """A coarse round over whole pixels of the (reduced) sinogram, then one
    around its result at the step asked for, on the full sinogram."""
    mid = 0.5 * (w - 1)
    n = w
    s = sinogram(seed, w, mid + at, n, use_log, bad)
    angles = np.linspace(0, np.pi, n) if ang else None
    a, b = np.floor(mid) - lo, np.floor(mid) + hi
    seen = []

    def own(img):
        v = float(np.abs(img).mean())
        seen.append((img.shape, v))
        return v
    with ctx.unchanged("centre", s, *([angles] if ang else [])):
        c = rec.find_center_based_slice_metric(
            s, a, b, step, radius=radius, zoom=zoom, gpu=False, sigma=sigma,
            angles=angles, apply_log=use_log, invert_metric=invert,
            ncore=1, method=method, ratio=ratio, filter_name=name,
            **({"metric_function": own} if metric == "own" else
               {"metric": metric}))
    small, ang_s = s, angles
    a1, b1 = a, b
    if zoom < 1:
        small = ndi.zoom(s, zoom, order=1, mode="nearest")
        a1, b1 = a * zoom, b * zoom
        if ang:
            ang_s = ndi.zoom(angles[None], (1, zoom))[0]

    def f(i):
        return float(np.abs(i).mean())
    f = f if metric == "own" else metric
    rounds = []
    if b > a:
        cs = np.arange(a1, b1 + 1, 1.0)
        vs = model_list(small, cs, f, method, ang_s, ratio, name, use_log,
                        sigma, invert)
        rounds.append((small.shape[1], vs))
        coarse = cs[np.argmin(vs)] / zoom
    else:
        coarse = a
    exp = coarse
    if radius:
        rad = max(radius, step + 1 / zoom)
        cs = np.arange(coarse - rad, coarse + rad + step, step)
        vs = model_list(s, cs, f, method, angles, ratio, name, use_log, sigma,
                        invert)
        rounds.append((w, vs))
        exp = cs[np.argmin(vs)]
    sizes = [k for k, vs in rounds for _ in vs]
    if metric == "own":
        ctx.eq([sh[0] for sh, _ in seen], sizes, "slices compared")
    got = np.asarray([v for _, v in seen])
    want = np.concatenate([vs for _, vs in rounds]) if rounds else got
    if not invert and rounds and metric == "own":
        ctx.near(got, want, "values compared", rtol=1e-4)
    tol = 0.04 if metric == "entropy" else 1e-4
    rest = 40 if metric == "entropy" else 1e-9
    close = any(np.sum(np.abs(vs - vs.min()) < tol * np.ptp(vs) + rest) > 1
                for _, vs in rounds)
    if not close:
        ctx.near(c, exp, "centre", atol=1e-6, scale=0)
    ctx.label(metric, "tie" if close else "clear", "zoom" if zoom < 1 else "full", "radius %s" % (radius > 0))
    ctx.nontrivial(radius > 0 and b > a)


@check(quick=24, seed=SEED, w=I(64, 90), at=F(-3, 3), zoom=pick(1.0, 0.6),
       use_log=st.booleans(), cost=8)
def truth(ctx, seed, w, at, zoom, use_log):
    """The axis of the sinogram of an object is found to a pixel (by
    sharpness; entropy may prefer another)."""
    mid = 0.5 * (w - 1)
    s = sinogram(seed, w, mid + at, int(1.5 * w), use_log, nd=8)
    c = rec.find_center_based_slice_metric(
        s, np.floor(mid) - 5, np.floor(mid) + 5, 0.5, metric="sharpness",
        zoom=zoom, gpu=False, apply_log=use_log, ratio=0.9)
    ctx.near(c, mid + at, "centre", atol=1.0, scale=0)
    ctx.nontrivial(abs(at) > 1)


def close_to(a, b, tol=1e-6):
    return abs(a - b) < tol


@check(quick=40, seed=SEED, w=I(16, 30), lo=pick(0, -0.25, -1.5, -2.75, -4), k=I(0, 4), step=pick(
    0.5, 1.0, 1.25), zoom=pick(1.0, 1.0, 0.5), ang=st.booleans(), method=METHOD,
    ratio=pick(1.0, None), use_log=st.booleans(), again=st.booleans(), cost=4)
def visual(ctx, seed, w, lo, k, step, zoom, ang, method, ratio, use_log,
           again):
    """One file for each candidate from start to stop, named by it, holding
    the slice reconstructed there; a new folder each time."""
    mid = round(0.5 * w)
    n = w + 3
    s = sinogram(seed, w, mid + 0.3, n, use_log)
    angles = np.linspace(0, np.pi, n) if ang else None
    a = mid + lo
    b = a + k * step
    base = ctx.tmpdir()
    if again:
        rec.find_center_visual_slices(s, base, mid, mid, gpu=False)
    with ctx.unchanged("visual", s, *([angles] if ang else [])):
        out = rec.find_center_visual_slices(
            s, base, a, b, step, zoom=zoom, method=method, gpu=False,
            angles=angles, ratio=ratio, apply_log=use_log)
    ctx.true(os.path.realpath(os.path.dirname(out.rstrip("/"))) ==
             os.path.realpath(base), "folder %s" % out)
    ctx.eq(len(os.listdir(base)), 2 if again else 1, "folders")
    exp = [a + i * step for i in range(k + 1)]
    files = sorted(os.listdir(out))
    ctx.eq(files, sorted("center_%.2f.tif" % c for c in exp), "files")
    small, ang_s = s, angles
    if zoom != 1:
        small = ndi.zoom(s, zoom, order=1, mode="nearest")
        if ang:
            ang_s = ndi.zoom(angles[None], (1, zoom))[0]
    for c in exp:
        img = np.asarray(Image.open(out + "/center_%.2f.tif" % c))
        want = slice_of(small, c * zoom, method, ang_s, ratio, "hann",
                        use_log)
        ctx.near(img, want, "slice at %.2f" % c, rtol=5e-5, atol=1e-6)
    ctx.label(method)
    ctx.nontrivial(k > 0)


@check(quick=30, w=I(8, 20), a=I(2, 12), d=I(-3, 0))
def refused(ctx, w, a, d):
    """No candidates at all, or empty slices, are refused."""
    s = np.ones((6, w))
    ctx.raises(ValueError, lambda: rec._find_center_based_slice_metric(
        s, a, a + d, 1, gpu=False), "no candidates")
    ctx.raises(ValueError, lambda: rec._find_center_based_slice_metric(
        s, 3, 5, 1, gpu=False, apply_log=True), "empty slice")


@check(quick=40, seed=SEED, w=I(30, 60), n=I(24, 50), lo=F(-6, 0), k=I(0, 4),
       step=pick(0.5, 1, 1.25, 3), zoom=pick(1.0, 1.0, 0.5, 1.5),
       again=st.booleans())
def visual_sinograms(ctx, seed, w, n, lo, k, step, zoom, again):
    """One file for each candidate from start to stop, named by it, holding
    the half-turn sinogram and, below, its mirror image about the
    candidate."""
    mid = (w - 1) / 2
    ang = np.linspace(0, np.pi, n)
    r = rng(seed, 5)
    objs = [(d, t, r.uniform(4, 6)) for d, t in zip(
        r.uniform(0, w / 8, 2), r.uniform(0, 2 * np.pi, 2))]

    def at(x):
        return sum(np.exp(-(x[None] - mid - d * np.cos(ang - t)[:, None]) ** 2
                          / (2 * s * s)) for d, t, s in objs)
    s = at(np.arange(w))
    a = round(mid * 8 + lo * 8) / 8
    b = a + k * step
    base = ctx.tmpdir()
    if again:
        util.find_center_visual_sinograms(s, base, mid, mid)
    with ctx.unchanged("visual", s):
        out = util.find_center_visual_sinograms(s, base, a, b, step,
                                                zoom=zoom)
    ctx.true(os.path.realpath(os.path.dirname(out.rstrip("/"))) ==
             os.path.realpath(base), "folder %s" % out)
    ctx.eq(len(os.listdir(base)), 2 if again else 1, "folders")
    found = {float(f[len("center_"):-len(".tif")]): f
             for f in os.listdir(out)}
    exp = [a + i * step for i in range(k + 1)]
    ctx.eq(len(found), k + 1, "files")
    ctx.near(sorted(found), exp, "candidates", rtol=0, atol=0.0051)
    for c, f in found.items():
        img = np.asarray(Image.open(os.path.join(out, f)))
        src = 2 * c - np.arange(w)
        if zoom != 1:
            both = np.vstack((s, at(np.clip(src, 0, w - 1))))
            ctx.near(img, ndi.zoom(both, zoom, mode="nearest"), "zoomed",
                     atol=0.15)
            continue
        ctx.shape(img, (2 * n, w), "two sinograms")
        ctx.near(img[:n], s, "half-turn sinogram", rtol=1e-5)
        ok = (src >= 2) & (src <= w - 3)
        ctx.near(img[n:, ok], at(src[ok]), "mirrored about %.2f" % c,
                 atol=0.08)
    ctx.nontrivial(k > 0)


larger(values, 3, 30, 30, w=I(60, 130), n=I(60, 120))


# paths used before
again(visual, 5, 50, 10)
