"""C22: stripe-removal methods against straightforward reference models."""
import numpy as np
import scipy.ndimage as ndi
from hypothesis import strategies as st, assume
from vf.core import check, also
from vf.gen import SEED, I, F, array, rng, pick
import algotom.prep.removal as remo
import algotom.util.utility as util
import pywt


def make(seed, h, w, dtype="float32", stripes=3):
    """Positive noisy sinogram without ties in a column, with stripes."""
    r = rng(seed, 41)
    x, y = np.arange(w), np.arange(h)[:, None]
    s = 2 + 0.4 * np.cos(x * 0.1 + 0.02 * y) + 0.3 * np.sin(0.05 * y) \
        + 0.1 * r.random((h, w))
    for _ in range(stripes):
        k = int(r.integers(3, max(4, w - 4)))
        s[:, k:k + int(r.integers(1, 3))] *= 1 + r.choice([-.3, .3, .5])
    return s.astype(dtype)


def smooth_by(kind, a, size):
    """The 'smoothing' step: default medians or an optional filter."""
    if kind == "1d":
        return ndi.median_filter(a, (1, size))
    if kind == "2d":
        return ndi.median_filter(a, (size, size))
    if kind == "opt":
        return ndi.gaussian_filter(a, (1, 3))
    if kind == "para":                             # of several parameters
        return ndi.uniform_filter(a, (1, 5), None, "wrap")
    if kind == "util":                             # of algotom's own
        return util.apply_gaussian_filter(a, 2, 1, 4)
    out = ndi.gaussian_filter(a, (1, 3))           # two filters, in order
    return ndi.uniform_filter(out, (1, 5))


def options(kind):
    if kind == "opt":
        return {"f1": {"method": "gaussian_filter", "para": (1, 3)}}
    if kind == "two":
        return {"f1": {"method": "gaussian_filter", "para": (1, 3)},
                "f2": {"method": "uniform_filter", "para": (1, 5)}}
    if kind == "para":
        return {"f1": {"method": "uniform_filter", "size": (1, 5),
                       "output": None, "mode": "wrap"}}
    if kind == "util":
        return {"f1": {"method": "apply_gaussian_filter", "x": 2, "y": 1,
                       "pad": 4}}
    return {"dim": 2} if kind == "2d" else {}


def sorted_do(s, func):
    order = np.argsort(s, axis=0)
    out = np.empty_like(func(np.take_along_axis(s, order, 0)))
    np.put_along_axis(out, order, func(np.take_along_axis(s, order, 0)), 0)
    return out


def rows_in_chunks(a, n, func):
    out, start = [], 0
    for k in range(n):
        m = len(a) // n + (1 if k < len(a) % n else 0)
        out.append(func(a[start:start + m]))
        start += m
    return np.vstack(out)


BASE = dict(seed=SEED, h=I(8, 40), w=I(10, 40))


@check(quick=60, size=I(1, 15),
       how=pick("1d", "2d", "opt", "two", "para", "util"), **BASE)
def sorting(ctx, seed, h, w, size, how):
    """Columns sorted, smoothed, and put back in their order."""
    s = make(seed, h, w)
    with ctx.unchanged("remove_stripe_based_sorting", s):
        got = remo.remove_stripe_based_sorting(s, size, **options(how))
    want = sorted_do(s, lambda a: smooth_by(how, a, size))
    ctx.near(got, want, "sorting", rtol=1e-5)
    ctx.label(how)


@check(quick=60, sigma=I(1, 10), size=I(1, 15), sort=st.booleans(),
       how=pick("1d", "2d", "opt", "two", "para", "util"),
       **BASE)
def filtering(ctx, seed, h, w, sigma, size, sort, how):
    """The low-frequency part along columns is smoothed (sorted or not), the
    rest stays."""
    s = make(seed, h, w)
    with ctx.unchanged("remove_stripe_based_filtering", s):
        got = remo.remove_stripe_based_filtering(s, sigma, size, sort=sort,
                                                 **options(how))
    low, high = util.separate_frequency_component(
        s, axis=0, window={"name": "gaussian", "sigma": sigma})
    f = lambda a: smooth_by(how, a, size)
    want = (sorted_do(low, f) if sort else f(low)) + high
    ctx.near(got, want, "filtering", rtol=1e-5)
    ctx.label(how)


@check(quick=60, order=I(1, 3), sigma=I(3, 20), sort=st.booleans(),
       chunk=I(1, 2), how=pick("", "", "opt", "two", "para", "util"),
       low=pick(0.0, 0.0, 0.3, 1.0), **BASE)
def fitting(ctx, seed, h, w, order, sigma, sort, chunk, how, low):
    """Divided by its polynomial fit along columns, multiplied by the
    smoothed fit of the same mean."""
    assume(h // chunk > order + 2)
    s = make(seed, h, w, "float64")
    s[:, rng(seed, 59).random(w) < low] *= -1
    with ctx.unchanged("remove_stripe_based_fitting", s):
        got = remo.remove_stripe_based_fitting(s, order, sigma, sort=sort,
                                               num_chunk=chunk,
                                               **options(how))
    def f(a):
        fit = util.generate_fitted_image(a, order, axis=0, num_chunk=chunk)
        if how:
            sm = smooth_by(how, fit, 1)
        else:
            sy = max(10, min(60, int(0.1 * w)))
            sm = util.apply_gaussian_filter(fit, sigma, sy,
                                            min(150, int(0.1 * h)))
        return a / fit * sm * (np.abs(fit).mean() / np.abs(sm).mean())
    want = sorted_do(s, f) if sort else f(s)
    ctx.near(got, want, "fitting", rtol=1e-6)
    ctx.label(how or "default")


def ratio(num, den):
    """Their ratio; one where there is nothing to divide by."""
    return np.where(den != 0, num / np.where(den != 0, den, 1), 1)


def shadow(s, n, seed):
    """Nothing outside the field of view: n columns of zeros on one side."""
    if n:
        s[:, slice(0, n) if seed % 2 else slice(-n, None)] = 0
    return s


def large_model(s, snr, size, drop, norm, how):
    h = len(s)
    n = int(0.5 * min(max(drop, 0), 0.8) * h)
    a = np.sort(s, axis=0)
    sm = smooth_by(how, a, size)
    fact = ratio(a[n:h - n].mean(0), sm[n:h - n].mean(0))
    mask = ndi.binary_dilation(util.detect_stripe(fact, snr))
    with np.errstate(all="ignore"):
        out = s / fact if norm else s.copy()
    back = np.empty_like(a)
    np.put_along_axis(back, np.argsort(s, axis=0), sm, 0)
    out[:, mask] = back[:, mask]
    return out, mask, fact


def refused(ctx, call):
    ctx.nontrivial(False)
    ctx.label("noise-free")
    ctx.raises(ValueError, call, "noise-free data")


def borderline(fact, snr):
    """A threshold so close that rounding may decide."""
    try:
        a = util.detect_stripe(fact * (1 + 1e-5), snr * (1 + 1e-4))
        b = util.detect_stripe(fact, snr * (1 - 1e-4))
        c = util.detect_stripe(fact * (1 + 1e-5 * np.cos(
            np.arange(len(fact)) * 9.1)), snr)
    except ValueError:
        return True
    return not (np.array_equal(a, b) and np.array_equal(a, c))


@check(quick=80, snr=F(1.1, 5), size=I(3, 31), drop=F(-0.2, 1.0),
       norm=st.booleans(), how=pick("1d", "opt", "two", "para", "util"),
       zeros=pick(0, 0, 1, 2, 5, 8), **BASE)
def large(ctx, seed, h, w, snr, size, drop, norm, how, zeros):
    """Each column is scaled by the ratio of smoothed to own mean of its
    sorted values (extremes dropped); flagged columns get the smoothed
    sorted values."""
    s = shadow(make(seed, h, w), zeros if how == "1d" else 0, seed)
    try:
        want, mask, fact = large_model(s, snr, size, drop, norm, how)
    except ValueError:              # refused as noise-free
        return refused(ctx, lambda: remo.remove_large_stripe(
            s, snr, size, drop, norm, **options(how)))
    if borderline(fact, snr):
        return ctx.nontrivial(False)
    with ctx.unchanged("remove_large_stripe", s):
        got = remo.remove_large_stripe(s, snr, size, drop, norm,
                                       **options(how))
    z = ~s.any(0)                   # of equal values: in any order
    ctx.near(got[:, ~z], want[:, ~z], "large", rtol=1e-5)
    ctx.near(np.sort(got[:, z], 0), np.sort(want[:, z], 0), "empty columns",
             rtol=1e-5)
    ctx.label("stripes" if mask.any() else "none")
    ctx.nontrivial(mask.any())


def dead_model(s, snr, size, strength):
    h, w = s.shape
    sm = ndi.uniform_filter1d(s, strength, axis=0)
    diff = np.abs(s - sm).sum(0)
    bck = ndi.median_filter(diff, size)
    bck = np.where(bck == 0, np.abs(bck).mean(), bck)
    fact = diff / bck
    mask = ndi.binary_dilation(util.detect_stripe(fact, snr))
    mask[:2] = mask[-2:] = False
    out = s.copy()
    if 0 < mask.sum() < w // 3:
        x = np.flatnonzero(~mask)
        for i in range(h):
            out[i, mask] = np.interp(np.flatnonzero(mask), x, s[i, x])
    return out, mask, fact


@check(quick=80, snr=F(1.1, 4), size=I(5, 31), strength=I(3, 12),
       nd=I(0, 4), residual=st.booleans(), zeros=pick(0, 0, 0, 4, 8),
       **BASE)
def dead(ctx, seed, h, w, snr, size, strength, nd, residual, zeros):
    """Columns which vary far more or less along rows than their
    surroundings are interpolated linearly, unless a third or more are; the
    others stay (or go through large-stripe removal if asked)."""
    s = shadow(make(seed, h, w, "float64"), zeros, seed)
    residual = residual and not zeros
    r = rng(seed, 3)
    for _ in range(nd):
        k = int(r.integers(2, w - 2))
        s[:, k] = 1.7 if r.random() < 0.4 else 1.7 + 2 * r.random(h)
    try:
        want, mask, fact = dead_model(s, snr, size, strength)
    except ValueError:              # refused as noise-free
        return refused(ctx, lambda: remo.remove_dead_stripe(
            s, snr, size, residual=False, smooth_strength=strength))
    if borderline(fact, snr):
        return ctx.nontrivial(False)
    if residual:
        w32 = np.float32(want)
        srt = np.sort(w32, axis=0)
        if np.any(np.diff(srt, axis=0) == 0):   # ties: order undefined
            residual = False
        else:
            try:
                want, _, fact = large_model(w32, snr, size, 0.1, True, "1d")
            except ValueError:
                return refused(ctx, lambda: remo.remove_dead_stripe(
                    s, snr, size, smooth_strength=strength))
            if borderline(fact, snr):
                return ctx.nontrivial(False)
    with ctx.unchanged("remove_dead_stripe", s):
        got = remo.remove_dead_stripe(s, snr, size, residual=residual,
                                      smooth_strength=strength)
    ctx.near(got, want, "dead", rtol=1e-5)
    if not residual:
        keep = ~mask if mask.sum() < w // 3 else slice(None)
        ctx.same(got[:, keep], s[:, keep], "columns not flagged")
    ctx.label("dead" if mask.any() else "none")
    ctx.nontrivial(mask.any())


@check(quick=50, snr=F(1.1, 5), la=I(5, 31), sm=I(1, 15), drop=F(0, 0.5),
       how=pick("1d", "2d", "opt", "two", "para", "util"),
       **BASE)
def everything(ctx, seed, h, w, snr, la, sm, drop, how):
    """All-stripe removal is dead, then large, then sorting-based removal."""
    s = make(seed, h, w, "float64")
    opt = options(how)
    dim = opt.pop("dim", 1)
    try:
        want = remo.remove_dead_stripe(s, snr, la, residual=False)
        want = remo.remove_large_stripe(want, snr, la, drop, **opt)
    except ValueError:              # refused as noise-free
        return refused(ctx, lambda: remo.remove_all_stripe(
            s, snr, la, sm, drop, dim, **opt))
    want = remo.remove_stripe_based_sorting(want, sm, dim, **opt)
    with ctx.unchanged("remove_all_stripe", s):
        got = remo.remove_all_stripe(s, snr, la, sm, drop, dim, **opt)
    ctx.near(got, want, "all", rtol=1e-6)
    ctx.label(how)


@check(quick=50, sigma=I(1, 10), size=I(1, 15), how=pick(
    "1d", "2d", "opt", "two", "para", "util"), **BASE)
def two_d(ctx, seed, h, w, sigma, size, how):
    """Sorting-based removal from what a 2D Gaussian filter takes away."""
    s = make(seed, h, w, "float64")
    with ctx.unchanged("remove_stripe_based_2d_filtering_sorting", s):
        got = remo.remove_stripe_based_2d_filtering_sorting(
            s, sigma, size, **options(how))
    low = util.apply_gaussian_filter(s, sigma, sigma,
                                     min(150, int(0.1 * min(h, w))))
    want = low + sorted_do(np.float32(s - low),
                           lambda a: smooth_by(how, a, size))
    ctx.near(got, want, "2d filtering and sorting", rtol=1e-5)
    ctx.label(how)


@check(quick=80, sigma=F(0.5, 20), chunk=I(1, 5), sort=st.booleans(),
       how=pick("", "opt", "two"), **BASE)
def normalization(ctx, seed, h, w, sigma, chunk, sort, how):
    """In each chunk of rows every column is offset such that the column
    means become their smoothed version."""
    s = make(seed, h, w, "float64")
    opt, f = {}, lambda m: ndi.gaussian_filter(m, sigma)
    if how:
        opt["f1"] = {"method": "median_filter", "para": 5}
        f = lambda m: ndi.median_filter(m, 5)
    if how == "two":
        opt["f2"] = {"method": "uniform_filter", "para": 3}
        f = lambda m: ndi.uniform_filter(ndi.median_filter(m, 5), 3)
    with ctx.unchanged("remove_stripe_based_normalization", s):
        got = remo.remove_stripe_based_normalization(s, sigma, chunk, sort,
                                                     **opt)
    model = lambda a: rows_in_chunks(a, chunk, lambda c: c + (
        f(c.mean(0)) - c.mean(0)))
    ctx.near(got, sorted_do(s, model) if sort else model(s),
             "normalization", rtol=1e-9)
    ctx.nontrivial(chunk > 1)


@check(quick=80, alpha=F(0.0005, 0.5), chunk=I(1, 4), log=st.booleans(),
       sort=st.booleans(), neg=st.booleans(), **BASE)
def regularization(ctx, seed, h, w, alpha, chunk, log, sort, neg):
    """Column means of each chunk (of the log, if asked) get their
    regularising correction; values at or below zero count as the mean."""
    s = make(seed, h, w, "float64")
    if neg and log:
        m = rng(seed, 6).random((h, w)) < 0.02
        s[m] = -0.1 * rng(seed, 7).random(int(m.sum()))
    with ctx.unchanged("remove_stripe_based_regularization", s):
        got = remo.remove_stripe_based_regularization(s, alpha, chunk, log,
                                                      sort)
    # smoothed means: the minimiser of |D x|^2 + alpha*|x - means|^2
    d = np.diff(np.eye(w), axis=0)
    smooth = np.linalg.inv(np.eye(w) + 1.0 * (d.T @ d) / alpha)

    def model(a):
        if log:
            a = -np.log(np.where(a <= 0, np.abs(a).mean(), a))
        out = rows_in_chunks(a, chunk, lambda c: c + (
            smooth @ c.mean(0) - c.mean(0)))
        return np.exp(-out) if log else out
    want = sorted_do(s, model) if sort else model(s)
    ctx.near(got, want, "regularization", rtol=1e-4)
    ctx.nontrivial(chunk > 1)


@check(quick=60, u=F(1, 30), n=I(1, 10), v=I(0, 3), sort=st.booleans(),
       **BASE)
def fourier(ctx, seed, h, w, u, n, v, sort):
    """High horizontal frequencies are damped on the lowest vertical
    frequencies of the padded sinogram."""
    s = make(seed, h, w, "float64")
    with ctx.unchanged("remove_stripe_based_fft", s):
        got = remo.remove_stripe_based_fft(s, u, n, v, sort)

    def model(a):
        p = min(150, int(0.1 * min(h, w)))
        top = np.concatenate([np.repeat(a.mean(0)[None], p, 0), a,
                              np.repeat(a.mean(0)[None], p, 0)])
        big = np.pad(top, ((0, 0), (p, p)), mode="edge")
        H, W = big.shape
        fy = np.fft.fftfreq(H) * H
        fx = np.fft.fftfreq(W) * W
        win = np.ones((H, W))
        win[np.abs(fy) <= v + 0.1] = 1 / (1 + (fx / u) ** (2 * n))
        out = np.abs(np.fft.ifft2(np.fft.fft2(big) * win))
        return out[p:H - p, p:W - p]
    ctx.near(got, sorted_do(s, model) if sort else model(s), "fft",
             rtol=1e-5)
    ctx.nontrivial(h % 2 == 0 or w % 2 == 0)


@check(quick=60, seed=SEED, h=I(34, 80), w=I(34, 80), level=I(1, 4),
       size=F(0.5, 8), name=pick("db9", "db3", "haar", "sym4"),
       window=pick("gaussian", "butter"), sort=st.booleans(),
       how=pick("", "", "opt", "two", "para", "util"))
def wavelet(ctx, seed, h, w, level, size, name, window, sort, how):
    """Low vertical frequencies of the vertical details of every wavelet
    level of the padded sinogram are damped."""
    s = make(seed, h, w, "float64")
    with ctx.unchanged("remove_stripe_based_wavelet_fft", s):
        got = remo.remove_stripe_based_wavelet_fft(
            s, level, size, name, window, sort, **options(how))

    def model(a):
        p = min(150, int(0.1 * min(h, w)))
        big = np.concatenate([np.repeat(a.mean(0)[None], p, 0), a,
                              np.repeat(a.mean(0)[None], p, 0)])
        big = np.pad(big, ((0, 0), (p, p)), mode="edge")
        top = int(np.floor(np.log2(min(big.shape) / 16)))
        co = pywt.wavedec2(big, name, level=min(level, top)
                           if level <= top else top)
        out = [co[0]]
        for (ch, cv, cd) in co[1:]:
            if how:
                cv = smooth_by(how, cv, 1)
            else:
                fy = np.fft.fftfreq(cv.shape[0]) * cv.shape[0]
                g = 1 - np.exp(-fy ** 2 / (2 * size ** 2)) if window == \
                    "gaussian" else 1 - 1 / (1 + (fy / size) ** 2)
                cv = np.real(np.fft.ifft(np.fft.fft(cv, axis=0)
                                         * g[:, None], axis=0))
            out.append((ch, cv, cd))
        return pywt.waverec2(out, name)[p:p + h, p:p + w]
    ctx.near(got, sorted_do(s, model) if sort else model(s), "wavelet",
             rtol=1e-6)
    ctx.label(how or window)


@check(quick=80, snr=F(1.1, 5), size=I(3, 31), drop=F(-0.2, 1.0),
       norm=st.booleans(), kind=pick("linear", "cubic", "quintic"),
       how=pick("1d", "opt", "two", "para", "util"),
       zeros=pick(0, 0, 1, 2, 5, 8), **BASE)
def interpolation(ctx, seed, h, w, snr, size, drop, norm, kind, how, zeros):
    """Columns flagged as in large-stripe removal are interpolated, the
    others only scaled (if asked)."""
    s = shadow(make(seed, h, w, "float64"), zeros if how == "1d" else 0, seed)
    n = int(0.5 * min(max(drop, 0), 0.8) * h)
    a = np.sort(s, axis=0)
    sm = smooth_by(how, a, size)
    top = a[n:h - n].mean(0)
    fact = ratio(np.where(top == 0, 1, top), sm[n:h - n].mean(0))
    try:
        mask = ndi.binary_dilation(util.detect_stripe(fact, snr))
        if borderline(fact, snr):
            return ctx.nontrivial(False)
    except ValueError:              # refused as noise-free
        return refused(ctx, lambda: remo.remove_stripe_based_interpolation(
            s, snr, size, drop, norm, kind, **options(how)))
    mask[:2] = mask[-2:] = False
    base = s / fact if norm else s
    with ctx.unchanged("remove_stripe_based_interpolation", s):
        got = remo.remove_stripe_based_interpolation(
            s, snr, size, drop, norm, kind, **options(how))
    ctx.near(got[:, ~mask], base[:, ~mask], "columns not flagged", rtol=1e-9)
    x = np.flatnonzero(~mask)
    if kind == "linear":
        for i in range(h):
            ctx.near(got[i, mask], np.interp(np.flatnonzero(mask), x,
                                             base[i, x]), "flagged columns",
                     rtol=1e-9, scale=3)
    ctx.finite(got, "interpolated")
    ctx.nontrivial(mask.any())


@check(quick=60, seed=SEED, which=I(0, 7), bad=pick(0, 1, 2))
def bad_options(ctx, seed, which, bad):
    """Filters that do not exist, or are not given as dictionaries, are
    refused."""
    s = make(seed, 48, 52, "float64")
    f = [remo.remove_stripe_based_sorting, remo.remove_stripe_based_filtering,
         remo.remove_stripe_based_fitting, remo.remove_large_stripe,
         remo.remove_stripe_based_normalization,
         remo.remove_stripe_based_wavelet_fft,
         remo.remove_stripe_based_interpolation,
         remo.remove_stripe_based_2d_filtering_sorting][which]
    opt = [{"method": "no_such_filter", "para": 3}, "median_filter",
           {"method": "gaussian_filter", "para": "seven"}][bad]
    ctx.raises(ValueError, lambda: f(s, f1=opt), "option %r" % (opt,))


# sizes at which limits of the code take over
FEW = dict(quick=4, thorough=40, cost=20, seed=SEED)
also(fitting, "fitting_wide", "The same for wide images.", 16, 100, 5,
     seed=SEED, h=I(10, 24), w=I(100, 760), order=I(1, 3), sigma=I(3, 20),
     sort=st.booleans(), chunk=I(1, 2), how=pick("", "", "opt"))
also(fitting, "fitting_tall", "The same for tall images.", 6, 60, 8,
     seed=SEED, h=I(1480, 1900), w=I(10, 24), order=I(1, 2), sigma=I(3, 60),
     sort=st.booleans(), chunk=I(1, 2), how=pick("", "", "opt"))
also(two_d, "two_d_large", "The same for large images.", h=I(1480, 1700),
     w=I(1480, 1700), sigma=I(1, 90), size=I(1, 4), how=pick("1d", "two"),
     **FEW)
also(fourier, "fourier_large", "The same for large images.",
     h=I(1480, 1700), w=I(1480, 1700), u=F(1, 30), n=I(1, 10), v=I(0, 3),
     sort=st.just(False), **FEW)
also(wavelet, "wavelet_large", "The same for large images.",
     h=I(1480, 1700), w=I(1480, 1700), level=I(1, 7), size=F(0.5, 8),
     name=pick("db9", "db3", "sym4"), window=pick("gaussian", "butter"),
     sort=st.just(False), how=pick("", "", "opt"), **FEW)
