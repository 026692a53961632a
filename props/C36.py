"""C36: statistics of an image and of a dataset."""
import numpy as np
import scipy.ndimage as ndi
from hypothesis import strategies as st
from vf.core import again, check, larger
from vf.gen import SEED, I, F, KINDS, array, rng, pick
from props.C34 import make_input, cropped, CROP, SUFFIX
import algotom.post.postprocessing as post

NAMES = ("gmin", "gmax", "min_percent", "max_percent", "mean", "median",
         "variance")


def percentile(sorted_, p):
    """By linear interpolation between ranks."""
    x = p / 100 * (len(sorted_) - 1)
    i = int(np.floor(x))
    j = min(i + 1, len(sorted_) - 1)
    return sorted_[i] + (x - i) * (sorted_[j] - sorted_[i])


def model(mat, pct):
    v = np.sort(np.asarray(mat, dtype=np.float64), axis=None)
    return (v[0], v[-1], percentile(v, pct[0]), percentile(v, pct[1]),
            v.sum() / len(v), percentile(v, 50),
            ((v - v.sum() / len(v)) ** 2).sum() / len(v))


@check(quick=200, seed=SEED, h=I(1, 20), w=I(1, 20), kind=KINDS,
       pct=st.tuples(F(0, 100), F(0, 100)), denoise=st.booleans(),
       skew=F(0, 3), dtype=pick("float32", "float64", "uint8", "uint16"))
def image(ctx, seed, h, w, kind, pct, denoise, skew, dtype):
    """The seven numbers of an image, each under its name."""
    mat = array(seed, (h, w), "float64", kind, 0, 1) ** (1 + skew) * 250
    mat = mat.astype(dtype)
    with ctx.unchanged("get_statistical_information", mat):
        got = post.get_statistical_information(mat, pct, denoise)
    ref = ndi.gaussian_filter(mat, 2) if denoise else mat
    ctx.eq(len(got), 7, "numbers")
    for n, a, b in zip(NAMES, got, model(ref, pct)):
        ctx.near(a, b, n, rtol=1e-4, atol=1e-3)
    ctx.nontrivial(mat.min() < mat.max())


@check(quick=160, seed=SEED, shape=st.tuples(I(1, 9), I(2, 9), I(2, 9)),
       inkind=pick("numpy", "hdf", "tif"), pct=st.tuples(F(0, 50),
                                                         F(50, 100)),
       skip=I(1, 12), denoise=st.booleans(), crop=CROP, docrop=st.booleans(),
       skew=F(0, 3), dtype=pick("float32", "uint8", "uint16"),
       insuf=SUFFIX)
def dataset(ctx, seed, shape, inkind, pct, skip, denoise, crop, docrop, skew,
            dtype, insuf):
    """Over the images looked at (each skip-th of the crop): least and
    greatest value, least lower and greatest upper percentile, mean value,
    median of the medians, mean variance; the same for the three kinds of
    input."""
    base = ctx.tmpdir()
    vol = array(seed, shape, "float64", "noise", 0, 1) ** (1 + skew)
    vol = vol * (1 + np.arange(shape[0])[:, None, None]) * 25
    vol = vol.astype(dtype)
    src, kw = make_input(base, inkind, vol, "entry/x", insuf)
    if docrop:
        kw["crop"] = crop
    part = cropped(vol, crop) if docrop else vol
    run = lambda: post.get_statistical_information_dataset(
        src, percentile=pct, skip=skip, denoise=denoise, **kw)
    if docrop and any(s - a - b <= 0 for s, a, b in zip(
            vol.shape, crop[::2], crop[1::2])):
        ctx.raises(ValueError, run, "a crop larger than the data")
        ctx.nontrivial(False)
        return
    with ctx.unchanged("get_statistical_information_dataset", vol):
        got = run()
    ctx.eq(len(got), 7, "numbers")
    step = max(1, min(skip, max(1, len(part) - 1)))
    imgs = part[::step]
    if denoise:
        imgs = [ndi.gaussian_filter(np.float32(m) if inkind == "tif" else m,
                                    2) for m in imgs]
    per = np.asarray([model(m, pct) for m in imgs])
    want = (per[:, 0].min(), per[:, 1].max(), per[:, 2].min(),
            per[:, 3].max(), per[:, 4].mean(), percentile(np.sort(per[:, 5]), 50),
            per[:, 6].mean())
    sc = np.abs(vol).max() + 1e-6
    for n, a, b in zip(NAMES, got, want):
        ctx.near(a, b, n, rtol=1e-4, atol=2e-5 * sc, scale=max(sc, b))
    ctx.label(inkind, "denoise" if denoise else "raw")
    ctx.nontrivial(len(imgs) > 1)


@check(quick=60, seed=SEED, n=I(1, 4), h=I(2, 9), w=I(2, 9),
       denoise=st.booleans(), skip=I(1, 4), skew=F(0, 3))
def equal_images(ctx, seed, n, h, w, denoise, skip, skew):
    """The statistics of a stack of equal images are those of the image."""
    mat = array(seed, (h, w), "float64", "noise", 0, 1) ** (1 + skew)
    one = post.get_statistical_information(mat, (5, 95), denoise)
    got = post.get_statistical_information_dataset(
        np.repeat(mat[None], n, axis=0), (5, 95), skip, denoise)
    for k, a, b in zip(NAMES, got, one):
        ctx.near(a, b, k, rtol=1e-6, atol=1e-9)


larger(image, h=I(60, 400), w=I(60, 400))
larger(dataset, 6, 60, shape=st.tuples(I(10, 60), I(20, 90), I(20, 90)),
       skip=I(1, 70))


# paths used before
again(dataset)
