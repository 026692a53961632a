"""C38: calibration with point-like objects: flattening, segmentation,
sizes, distances."""
import numpy as np
import scipy.ndimage as ndi
from hypothesis import strategies as st
from vf.core import check, larger
from vf.gen import SEED, I, F, KINDS, array, rng, pick
import algotom.util.calibration as cal


def components(mask):
    """4-connected components by flood fill: list of lists of pixels."""
    mask = np.array(mask) != 0
    out, h, w = [], *mask.shape
    for i in range(h):
        for j in range(w):
            if not mask[i, j]:
                continue
            mask[i, j] = False
            todo, comp = [(i, j)], []
            while todo:
                a, b = todo.pop()
                comp.append((a, b))
                for p, q in ((a - 1, b), (a + 1, b), (a, b - 1), (a, b + 1)):
                    if 0 <= p < h and 0 <= q < w and mask[p, q]:
                        mask[p, q] = False
                        todo.append((p, q))
            out.append(comp)
    return out


def dots(seed, h, w, n, rad=(1.5, 4.5), gap=3):
    """Mask with discs well apart and away from the border; their parts."""
    r = rng(seed, 51)
    y, x = np.mgrid[:h, :w]
    mask, parts = np.zeros((h, w), bool), []
    for _ in range(n):
        q = r.uniform(*rad)
        cy, cx = r.uniform(7, h - 8), r.uniform(7, w - 8)
        d = np.hypot(y - cy, x - cx) <= q
        if d.any() and not (ndi.binary_dilation(d, np.ones((3, 3)),
                                                iterations=gap) & mask).any():
            mask |= d
            parts.append(d)
    return mask, parts


@check(quick=150, seed=SEED, h=I(32, 90), w=I(32, 90), n=I(1, 4),
       level=F(0, 0.45), bright=st.booleans(), denoise=st.booleans(),
       gain=F(0.1, 500))
def segmentation(ctx, seed, h, w, n, level, bright, denoise, gain):
    """Dots over a noisy background are found, all of them and nothing else,
    without a threshold given, for either contrast and any brightness."""
    mask, parts = dots(seed, h, w, n, (2.5, 4.5))
    if not 0 < mask.mean() < 0.035:
        return ctx.nontrivial(False)
    mat = mask + level * rng(seed, 5).random((h, w))
    if bright:
        mat = 3 - mat
    mat = mat * gain
    kw = dict(bgr="bright" if bright else "dark", denoise=denoise)
    with ctx.unchanged("binarize_image", mat):
        got = cal.binarize_image(mat, **kw)
    ctx.eq(str(got.dtype), "int16", "type")
    comps = components(got)
    ctx.eq(len(comps), len(parts), "number of dots found")
    if not denoise:
        ctx.same(got, mask.astype(int), "dots")
    else:
        grown = ndi.binary_dilation(mask, np.ones((3, 3)))
        ctx.true(not np.any((got != 0) & ~grown), "a dot where none is")
        ctx.true(got[mask].mean() > 0.6, "dots lost")
    pos = mat + 2 * gain
    ctx.same(cal.binarize_image(pos, norm=True, **kw), cal.binarize_image(
        cal.normalize_background_based_fft(ndi.median_filter(pos, (3, 3))
                                           if denoise else pos),
        bgr=kw["bgr"], denoise=False), "with flattening first")
    ctx.label("bright" if bright else "dark")


def model_binarize(mat, thr, denoise, invert):
    if denoise:
        p = np.pad(np.abs(mat), 1, mode="symmetric")
        h, w = mat.shape
        mat = np.median([p[i:i + h, j:j + w] for i in range(3)
                         for j in range(3)], axis=0)
    if not mat.min() <= thr <= mat.max():
        return None
    b = mat > thr
    if invert and b.mean() > 0.5:
        b = ~b
    # holes: background not connected to the border
    out = b.copy()
    for comp in components(~b):
        if not any(i in (0, b.shape[0] - 1) or j in (0, b.shape[1] - 1)
                   for i, j in comp):
            for p in comp:
                out[p] = True
    return out


@check(quick=150, seed=SEED, h=I(3, 24), w=I(3, 24), thr=F(-0.2, 1.2),
       denoise=st.booleans(), invert=st.booleans(),
       kind=pick("noise", "smooth", "steps"), sign=st.booleans())
def with_threshold(ctx, seed, h, w, thr, denoise, invert, kind, sign):
    """With a threshold given: above it, objects being the lesser part if
    inverting is on, holes filled; a threshold outside the values is
    refused."""
    mat = array(seed, (h, w), "float64", kind, -0.1 if sign else 0, 1)
    want = model_binarize(mat, thr, denoise, invert)
    run = lambda: cal.binarize_image(mat, threshold=thr, denoise=denoise,
                                     invert=invert, norm=False)
    if want is None:
        ctx.raises(ValueError, run, "threshold out of range")
        ctx.label("refused")
        return
    with ctx.unchanged("binarize_image", mat):
        got = run()
    ctx.same(got, want.astype(int), "binary image")
    ctx.nontrivial(0 < got.mean() < 1)


@check(quick=150, seed=SEED, h=I(8, 40), w=I(8, 40), bright=st.booleans(),
       gain=F(0.1, 100), off=F(-50, 50), kind=KINDS)
def threshold_laws(ctx, seed, h, w, bright, gain, off, kind):
    """The threshold depends on the histogram alone, moves and scales with
    the values, and that for a bright background is that for a dark one of
    the negative image."""
    mat = array(seed, (h, w), "float64", kind, 0, 1)
    b = "bright" if bright else "dark"
    t = cal.calculate_threshold(mat, b)
    with ctx.unchanged("calculate_threshold", mat):
        ctx.near(cal.calculate_threshold(mat * gain + off, b), t * gain + off,
                 "threshold of scaled values", rtol=1e-7,
                 scale=gain + abs(off))
    mixed = rng(seed, 4).permutation(mat.ravel()).reshape(h, w)
    ctx.near(cal.calculate_threshold(mixed, b), t, "pixels mixed", rtol=0)
    ctx.near(cal.calculate_threshold(mat.T, b), t, "transposed", rtol=0)
    ctx.near(1 - cal.calculate_threshold(1 - mat, "dark" if bright
                                         else "bright"), t, "negative image",
             rtol=1e-7, scale=2)
    lo, hi = (cal.calculate_threshold(mat, x) for x in ("bright", "dark"))
    ctx.true(lo <= hi + 1e-9, "threshold for a bright background above that "
             "for a dark one")
    ctx.nontrivial(mat.max() > mat.min())


def blobs_mask(seed, h, w, dens):
    r = rng(seed, 8)
    m = ndi.gaussian_filter(r.random((h, w)), r.uniform(0, 1.5))
    return m > np.quantile(m, 1 - dens)


@check(quick=200, seed=SEED, h=I(3, 24), w=I(3, 24), dens=F(0.05, 0.6),
       opt=pick("max", "min", "mean", "median"), ratio=pick(
           0.01, 0.1, 0.3, 0.5, 0.9), dtype=pick("int16", "bool", "float32"))
def sizes(ctx, seed, h, w, dens, opt, ratio, dtype):
    """The size of dots is that of the largest, least, mean or median
    connected part; exactly the parts within the range of sizes are kept,
    whole, wherever others lie."""
    mask = blobs_mask(seed, h, w, dens)
    comps = components(mask)
    if not comps:
        return ctx.nontrivial(False)
    mat = mask.astype(dtype)
    num = np.sort([len(c) for c in comps])
    size = {"max": num[-1], "min": num[0], "mean": num.mean(),
            "median": np.median(num)}[opt]
    with ctx.unchanged("dot sizes", mat):
        got = cal.get_dot_size(mat, size_opt=opt)
        sel = cal.select_dot_based_size(mat, size, ratio)
    ctx.near(got, size, "size of dots (%s)" % opt, rtol=1e-12)
    lo, hi = size - ratio * size, size + ratio * size
    want = np.zeros((h, w), int)
    free = np.zeros((h, w), bool)
    kept = 0
    for c in comps:
        for p in c:
            # limits are cut to whole pixels: leave those at a limit open
            free[p] = min(abs(len(c) - lo), abs(len(c) - hi)) < 1
            want[p] = lo <= len(c) <= hi
        kept += lo <= len(c) <= hi
    free &= want == 0
    ctx.same(np.where(free, 0, sel), np.where(free, 0, want), "dots kept")
    for c in comps:
        v = {int(sel[p]) for p in c}
        ctx.eq(len(v), 1, "values within a part")
    ctx.nontrivial(0 < kept < len(comps))
    ctx.label("%d kept" % min(kept, 3))


@check(quick=80, seed=SEED, h=I(40, 90), w=I(40, 90), level=F(0, 0.4),
       opt=pick("max", "min", "mean", "median"), bright=st.booleans(),
       thr=st.booleans(), denoise=st.booleans(), small=st.booleans())
def distance(ctx, seed, h, w, level, opt, bright, thr, denoise, small):
    """The distance between a dot in two images is that between the centres
    of mass; symmetric in the images; smaller or larger things around it are
    left out as the option says."""
    r = rng(seed, 61)
    y, x = np.mgrid[:h, :w]
    mats, coms = [], []
    big = r.uniform(3.5, 4.5)
    for k in range(2):
        cy, cx = r.uniform(8, h - 9), r.uniform(8, w - 9)
        d = np.hypot(y - cy, x - cx) <= big
        m = d.copy()
        if small and opt in ("max", "min"):
            for _ in range(20):
                sy, sx = r.uniform(5, h - 6), r.uniform(5, w - 6)
                if np.hypot(sy - cy, sx - cx) > 12:
                    s = np.hypot(y - sy, x - sx) <= 2.3
                    m |= s
                    d = s if opt == "min" else d
                    break
        p = np.argwhere(d)
        coms.append(p.mean(axis=0))
        v = m + level * r.random((h, w))
        mats.append(3 - v if bright else v)
    if any(np.mean((m < 1.9) if bright else (m > 1)) > 0.035 for m in mats):
        return ctx.nontrivial(False)
    kw = dict(size_opt=opt, bgr="bright" if bright else "dark",
              denoise=denoise)
    if thr:
        if level > 0.35 or any(np.ptp(m) < 1 for m in mats):
            return ctx.nontrivial(False)
        kw["threshold"] = 3 - 0.7 if bright else 0.7
    with ctx.unchanged("calculate_distance", *mats):
        got = cal.calculate_distance(mats[0], mats[1], **kw)
    want = np.hypot(*(coms[0] - coms[1]))
    ctx.near(got, want, "distance", atol=0.5 if denoise else 1e-6)
    ctx.near(cal.calculate_distance(mats[1], mats[0], **kw), got,
             "distance the other way", rtol=1e-9)
    # normalised: the same for both, whichever comes first
    shade = 1 + r.uniform(0.2, 0.6) * x / w
    pair = [mats[0], mats[1] * shade]
    res = []
    for a, b in (pair, pair[::-1]):
        try:
            res.append(cal.calculate_distance(a, b, norm=True, **kw))
        except ValueError:
            res.append(None)
    ctx.true((res[0] is None) == (res[1] is None), "refused one way")
    if res[0] is not None:
        ctx.near(res[1], res[0], "normalised, the other way", rtol=1e-9)
    ctx.label(opt, "small" if small else "one")


@check(quick=80, seed=SEED, h=I(30, 70), w=I(30, 70), level=F(0, 0.4),
       opt=pick("max", "min", "mean", "median"), bright=st.booleans(),
       dots=st.booleans(), thr=st.none() | F(0.3, 0.7), norm=st.booleans(),
       denoise=st.booleans(), invert=st.booleans(), n=I(1, 4))
def distance_steps(ctx, seed, h, w, level, opt, bright, dots, thr, norm,
                   denoise, invert, n):
    """The distance is that of the centres of mass of the dots that the
    functions for each step, given the same options, find in each image."""
    r = rng(seed, 67)
    y, x = np.mgrid[:h, :w]
    mats = []
    for _ in range(2):
        m = np.zeros((h, w))
        for _ in range(n):
            cy, cx, rad = r.uniform(6, h - 7), r.uniform(6, w - 7), r.uniform(
                2, 6)
            m[np.hypot(y - cy, x - cx) <= rad] = 1
        m = m + level * r.random((h, w))
        mats.append(m if dots else 1 + level - m)
    kw = dict(bgr="bright" if bright else "dark", norm=norm, denoise=denoise,
              invert=invert)
    if thr is not None:
        kw["threshold"] = thr * (1 + level)
    coms = []
    try:
        for m in mats:
            b = cal.binarize_image(m, **kw)
            b = cal.select_dot_based_size(b, cal.get_dot_size(
                b, size_opt=opt))
            coms.append(np.argwhere(b).mean(axis=0))
    except ValueError:
        ctx.raises(ValueError, lambda: cal.calculate_distance(
            mats[0], mats[1], size_opt=opt, **kw), "no dots")
        return ctx.nontrivial(False)
    if not np.isfinite(coms).all():
        return ctx.nontrivial(False)
    with ctx.unchanged("calculate_distance", *mats):
        got = cal.calculate_distance(mats[0], mats[1], size_opt=opt, **kw)
    ctx.near(got, np.hypot(*(coms[0] - coms[1])), "distance", atol=1e-6)
    ctx.label(opt, "inverted" if invert else "as it is")


@check(quick=80, seed=SEED, h=I(4, 30), w=I(4, 30), size=pick(3, 5, 7),
       kind=pick("noise", "smooth", "const", "sparse"), gain=F(0.1, 100))
def flatten_median(ctx, seed, h, w, size, kind, gain):
    """Every pixel is divided by the median around it, and the mean of those
    medians put back; places where that median is zero are divided by the
    mean."""
    mat = array(seed, (h, w), "float64", kind, 0 if kind == "sparse" else 1,
                3)
    with ctx.unchanged("normalize_background", mat):
        got = cal.normalize_background(mat, size)
    p = np.pad(mat, size // 2, mode="symmetric") if size // 2 <= min(
        h, w) else None
    if p is None:
        return ctx.nontrivial(False)
    bck = np.median([p[i:i + h, j:j + w] for i in range(size)
                     for j in range(size)], axis=0)
    mean = bck.mean()
    bck[bck == 0] = mean
    if mean == 0:
        return ctx.nontrivial(False)
    ctx.near(got, mean * mat / bck, "normalize_background", rtol=1e-9)
    ctx.near(cal.normalize_background(mat * gain, size), got * gain,
             "brighter image", rtol=1e-9)


@check(quick=80, seed=SEED, h=I(30, 90), w=I(30, 90), sigma=I(3, 8),
       gain=F(0.1, 100), pad=st.none() | I(5, 20))
def flatten_fft(ctx, seed, h, w, sigma, gain, pad):
    """Uneven illumination goes, structures stay; brightness scales; turning
    the image over a diagonal changes nothing."""
    light = 2 + array(seed, (h, w), "float64", "smooth", 0, 1)
    mask, _ = dots(seed, h, w, 3, (1, 2))
    mat = light * (1 - 0.3 * mask)
    run = lambda m: cal.normalize_background_based_fft(m, sigma, pad=pad)
    with ctx.unchanged("normalize_background_based_fft", mat):
        got = run(mat)
    ctx.near(run(mat * gain), got * gain, "brighter image", rtol=1e-7)
    ctx.near(run(np.ascontiguousarray(mat.T)), got.T, "transposed",
             rtol=1e-7)
    flat = run(np.full((h, w), gain))
    mid = (slice(h // 4, h - h // 4), slice(w // 4, w - w // 4))
    ctx.near(flat[mid], np.full((h, w), gain)[mid], "even image", rtol=0.05)
    pure = run(light)
    a, b = np.std(pure[mid]), np.std(light[mid])
    ctx.true(a < 0.5 * b + 0.02, "illumination left: %.3f of %.3f" % (a, b))


larger(with_threshold, h=I(60, 300), w=I(60, 300))
larger(threshold_laws, h=I(100, 300), w=I(100, 300))
larger(sizes, h=I(60, 150), w=I(60, 150))
larger(flatten_median, h=I(60, 200), w=I(60, 200))
