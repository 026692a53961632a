"""C34: downsampling and rescaling, of images and of datasets."""
import os
import h5py
import numpy as np
from hypothesis import strategies as st
from vf.core import again, check, larger
from vf.gen import SEED, I, F, KINDS, array, rng, pick
import algotom.io.loadersaver as losa
import algotom.post.postprocessing as post

METHODS = pick("mean", "median", "max", "min")
REDUCE = {"mean": np.mean, "max": np.max, "min": np.min, "median": np.median}


def cells(vol, cell):
    """Iterates over (index of the cell, its voxels)."""
    n = [s // c for s, c in zip(vol.shape, cell)]
    for idx in np.ndindex(*n):
        sl = tuple(slice(i * c, (i + 1) * c) for i, c in zip(idx, cell))
        yield idx, vol[sl]


def model_downsample(vol, cell, method):
    """Returns (lower, upper) bounds of the result. They coincide, except
    for medians of cells with several sides: the median of medians is
    somewhere in the middle half of the ranks."""
    n = tuple(s // c for s, c in zip(vol.shape, cell))
    lo, hi = np.zeros(n), np.zeros(n)
    for idx, v in cells(np.asarray(vol, dtype=np.float64), cell):
        if method == "median" and sum(c > 1 for c in cell) > 1:
            lo[idx], hi[idx] = v.min(), v.max()
        else:
            lo[idx] = hi[idx] = REDUCE[method](v)
    return lo, hi


def between(ctx, got, lo, hi, msg, slack):
    got = np.asarray(got, dtype=np.float64)
    ctx.shape(got, lo.shape, msg)
    bad = ~((got >= lo - slack) & (got <= hi + slack))
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        ctx.fail("%s: %d cells wrong, first at %s: got %r, expected %r..%r"
                 % (msg, bad.sum(), tuple(map(int, i)), got[i], lo[i],
                    hi[i]))


@check(quick=250, seed=SEED, h=I(1, 24), w=I(1, 24), ch=I(1, 6), cw=I(1, 6),
       square=st.booleans(), method=METHODS, kind=KINDS,
       dtype=pick("float32", "float64", "uint8", "uint16"))
def image(ctx, seed, h, w, ch, cw, square, method, kind, dtype):
    """Every pixel of the smaller image is the mean, median, max or min of
    its cell; rest rows and columns are left out."""
    cell = ch if square else (ch, cw)
    full = (ch, ch) if square else (ch, cw)
    mat = array(seed, (h, w), dtype, kind, 0, 250)
    with ctx.unchanged("downsample", mat):
        got = post.downsample(mat, cell, method=method)
    lo, hi = model_downsample(mat, full, method)
    between(ctx, got, lo, hi, "downsample(%s)" % method, 1e-4)
    ctx.nontrivial(got.size > 1 and max(full) > 1)
    ctx.label(method)


def model_rescale(mat, nbit, lo, hi):
    top = 2 ** nbit - 1
    return np.clip((np.asarray(mat, dtype=np.float64) - lo) / (hi - lo), 0,
                   1) * top


def rounding(dtype, nbit, lo, hi, exact=False):
    """How far rounding can move a value before it is cut to an integer.
    exact: the limits are values of the data."""
    top = 2 ** nbit - 1
    if dtype != "float32":
        return 1e-7 if exact else 1e-9 * top * max(
            1, max(abs(lo), abs(hi)) / (hi - lo))
    return 1e-6 * top * (1 if exact else max(
        1, max(abs(lo), abs(hi)) / (hi - lo)))


def cut(ctx, got, lo, hi, msg, tol, top=None):
    """Integers which are the bounds without their fractions (exactly, but
    for values within tol of an integer; no doubt about 0 and top)."""
    low = np.floor(lo - tol)
    if top is not None:
        low = np.where(lo >= top, top, low)
    between(ctx, got, low, np.floor(np.where(hi <= 0, 0, hi + tol)), msg,
            0.0)


def check_rescaled(ctx, got, mat, nbit, lo, hi, msg, exact=False, dtype=None):
    top = 2 ** nbit - 1
    got = np.asarray(got)
    ctx.eq(str(got.dtype), "uint%d" % nbit, msg + " type")
    want = model_rescale(mat, nbit, lo, hi)
    m = np.asarray(mat)
    tol = rounding(dtype or str(m.dtype), nbit, lo, hi, exact)
    cut(ctx, got, want, want, msg, tol, top if exact or "float32" not in
        (dtype, str(m.dtype)) else None)
    m = m.astype(np.float64)
    if exact:
        ctx.true(np.all(got[m <= lo] == 0), msg + ": lower limit not 0")
        ctx.true(np.all(got[m >= hi] >= top - 0), msg + ": upper limit not "
                 "full scale")
        o = np.argsort(m, axis=None)
        ctx.true(np.all(np.diff(got.ravel()[o].astype(int)) >= 0),
                 msg + " is not monotonic")


@check(quick=250, seed=SEED, shape=st.lists(I(1, 12), min_size=1,
                                            max_size=3),
       nbit=pick(8, 16), kind=pick("noise", "smooth", "ramp", "steps"),
       dtype=pick("float32", "float64", "uint8", "uint16", "int16", "int32"),
       rng_=st.tuples(F(-30000, 30000), F(1, 30000)),
       limits=pick("auto", "auto", "inside", "wider"), a=F(0, .4),
       b=F(.6, 1))
def rescale_image(ctx, seed, shape, nbit, kind, dtype, rng_, limits, a, b):
    """Values map linearly from the limits to the full range of the type,
    clipped, in order, for any input type, and other depths are refused."""
    lo, span = rng_
    if dtype.startswith("u"):
        lo, span = (0, 255) if dtype == "uint8" else (abs(lo), span)
    mat = array(seed, shape, dtype, kind, lo, lo + span)
    m = mat.astype(np.float64)
    if m.max() == m.min():
        ctx.nontrivial(False)
        return
    if limits == "auto":
        mm, kw = (m.min(), m.max()), {}
    else:
        s = m.max() - m.min()
        mm = (m.min() + a * s, m.min() + b * s) if limits == "inside" else (
            m.min() - a * s, m.max() + b * s)
        kw = {"minmax": mm}
    with ctx.unchanged("rescale", mat):
        got = post.rescale(mat, nbit, **kw)
    check_rescaled(ctx, got, mat, nbit, mm[0], mm[1], "rescale",
                   exact=limits == "auto")
    for n in (7, 24, 32):
        ctx.raises(ValueError, lambda: post.rescale(mat, n), "nbit=%d" % n)
    ctx.label(dtype, limits)
    ctx.nontrivial(mat.size > 2)


SUFFIX = pick(".hdf", ".h5", ".nxs")


def make_input(base, kind, vol, key, suffix=".hdf"):
    if kind == "numpy":
        return vol, {}
    if kind == "hdf":
        p = os.path.join(base, "input" + suffix)
        with h5py.File(p, "w") as f:
            f[key] = vol
        return p, {"key_path": key}
    p = os.path.join(base, "input")
    losa.save_image_multiple(p, vol, ncore=1)
    return p, {}


def read_output(out, kind, res, key="entry/data", first=None):
    if kind == "none":
        return np.asarray(res)
    if kind == "hdf":
        if res is not None:
            res.file.close()
        with h5py.File(out, "r") as f:
            return f[key][()]
    files = sorted(f for f in os.listdir(out))
    if first is not None:
        assert files == ["img_%05d.tif" % (i + first) for i in range(len(
            files))], "names of the images: %s" % files
    from PIL import Image
    return np.asarray([np.array(Image.open(os.path.join(out, f)))
                       for f in files])


CROP = st.tuples(*[I(0, 3)] * 6)


def cropped(vol, crop):
    d, h, w = vol.shape
    return vol[crop[0]:d - crop[1], crop[2]:h - crop[3], crop[4]:w - crop[5]]


def data(seed, shape, dtype):
    """Noise over the range of the type, up to its ends."""
    if dtype == "float32":
        return array(seed, shape, dtype, "noise", 5, 250)
    top = np.iinfo(dtype).max
    vol = array(seed, shape, dtype, "noise", 0, top)
    r = rng(seed, 34)
    vol[r.random(shape) < r.choice([0, 0.1, 0.7])] = top
    vol[r.random(shape) < r.choice([0, 0, 0.2])] = 0
    return vol


IN = pick("numpy", "hdf", "tif")
OUT = pick("none", "hdf", "tif")


def out_path(base, kind, suffix=".hdf"):
    return {"none": None, "hdf": os.path.join(base, "o", "res" + suffix),
            "tif": os.path.join(base, "o", "res")}[kind]


@check(quick=160, seed=SEED, shape=st.tuples(I(1, 9), I(2, 9), I(2, 9)),
       cell=st.tuples(I(1, 3), I(1, 3), I(1, 3)), one=st.booleans(),
       method=METHODS, inkind=IN, outkind=OUT, crop=CROP,
       docrop=st.booleans(), rescaling=st.booleans(), nbit=pick(8, 16),
       limits=st.none() | st.tuples(F(0, 100), F(120, 300)),
       dtype=pick("float32", "float32", "uint8", "uint16"), insuf=SUFFIX,
       outsuf=SUFFIX)
def dataset_downsample(ctx, seed, shape, cell, one, method, inkind, outkind,
                       crop, docrop, rescaling, nbit, limits, dtype, insuf, outsuf):
    """A downsampled dataset is the crop of the data, cell by cell, whatever
    kind of input and output; with rescaling, the rescaled values of it."""
    base = ctx.tmpdir()
    vol = data(seed, shape, dtype)
    src, kw = make_input(base, inkind, vol, "entry/x", insuf)
    full = (cell[0],) * 3 if one else cell
    if docrop:
        kw["crop"] = crop
    part = cropped(vol, crop) if docrop else vol
    out = out_path(base, outkind, outsuf)
    fl = cell[0] if one else cell

    def run(**more):
        return post.downsample_dataset(src, out, fl, method=method, **more,
                                       **kw)

    if 0 in part.shape or any(s - a - b <= 0 for s, a, b in zip(
            vol.shape, crop[::2], crop[1::2])) and docrop or any(
            s < c for s, c in zip(part.shape, full)):
        ctx.raises(ValueError, run, "a crop or cell larger than the data")
        ctx.nontrivial(False)
        ctx.label("refused")
        return
    with ctx.unchanged("downsample_dataset", vol):
        if rescaling:
            got = run(rescaling=True, nbit=nbit, minmax=limits, skip=1)
        else:
            got = run()
    got = read_output(out, outkind, got, first=0)
    lo, hi = model_downsample(part, full, method)
    if not rescaling or dtype == "uint%d" % nbit:
        ctx.eq(str(got.dtype), dtype, "type of the result")
        if dtype == "float32":
            between(ctx, got, lo, hi, "downsampled", 1e-3)
        else:
            cut(ctx, got, lo, hi, "downsampled",
                1e-6 * np.iinfo(dtype).max if inkind == "tif" else 1e-6)
    else:
        if dtype == "uint8":
            mm = (0, 255)
        elif dtype == "uint16":
            mm = (0, 65535)
        elif limits is not None:
            mm = limits
        else:
            mm = (float(part.min()), float(part.max()))
        if mm[1] <= mm[0]:
            ctx.nontrivial(False)
            return
        if dtype.startswith("u") and limits is not None:
            # the limits given are not used for integers: either is fine
            return
        ctx.eq(str(got.dtype), "uint%d" % nbit, "type of the result")
        tol = rounding("float32" if inkind == "tif" else dtype, nbit, *mm)
        cut(ctx, got, model_rescale(lo, nbit, *mm),
            model_rescale(hi, nbit, *mm), "downsampled and rescaled", tol,
            2 ** nbit - 1 if dtype != "float32" else None)
    ctx.label(inkind, outkind, method)
    ctx.nontrivial(got.shape[0] > 1 and got.size > 4 and max(full) > 1)


@check(quick=140, seed=SEED, shape=st.tuples(I(1, 9), I(2, 9), I(2, 9)),
       inkind=IN, outkind=OUT, crop=CROP, docrop=st.booleans(),
       nbit=pick(8, 16, 32), skip=st.none() | I(1, 4),
       limits=st.none() | st.tuples(F(0, 100), F(120, 300)),
       dtype=pick("float32", "float32", "uint8", "uint16"), insuf=SUFFIX,
       outsuf=SUFFIX)
def dataset_rescale(ctx, seed, shape, inkind, outkind, crop, docrop, nbit,
                    skip, limits, dtype, insuf, outsuf):
    """A rescaled dataset is the crop of the data, in order, mapped with one
    common pair of limits: those given, or those of the images looked at."""
    base = ctx.tmpdir()
    vol = data(seed, shape, dtype)
    vol[:, 0, 0] = np.minimum(vol[:, 0, 0], 240) + np.arange(
        shape[0], dtype=dtype)
    if dtype == "uint16" and limits is not None:
        limits = tuple(200 * v for v in limits)
    src, kw = make_input(base, inkind, vol, "entry/x", insuf)
    if docrop:
        kw["crop"] = crop
    part = cropped(vol, crop) if docrop else vol
    out = out_path(base, outkind, outsuf)
    run = lambda: post.rescale_dataset(src, out, nbit=nbit, minmax=limits,
                                       skip=skip, **kw)
    if docrop and any(s - a - b <= 0 for s, a, b in zip(
            vol.shape, crop[::2], crop[1::2])):
        ctx.raises(ValueError, run, "a crop larger than the data")
        ctx.nontrivial(False)
        return
    if limits is not None:
        mm = limits
    else:
        n = len(part)
        step = skip if skip is not None else int(np.ceil(0.15 * n))
        step = max(1, min(step, max(1, n - 1)))
        mm = (float(part[::step].min()), float(part[::step].max()))
    if mm[1] <= mm[0]:
        ctx.nontrivial(False)
        return
    with ctx.unchanged("rescale_dataset", vol):
        got = run()
    got = read_output(out, outkind, got)
    ctx.shape(got, part.shape, "rescaled dataset")
    work = "float32" if inkind == "tif" else dtype  # as images are loaded
    if nbit == 32:
        ctx.near(got, part, "values kept", rtol=1e-6)
        if outkind != "none":
            ctx.eq(got.dtype.kind, "f" if outkind == "hdf" else
                   got.dtype.kind, "type")
    else:
        check_rescaled(ctx, got, part, nbit, mm[0], mm[1], "rescaled",
                       exact=limits is None, dtype=work)
    ctx.label(inkind, outkind, nbit)
    ctx.nontrivial(part.shape[0] > 1 and part.size > 4)


larger(image, h=I(60, 300), w=I(60, 300), ch=I(1, 40), cw=I(1, 40))
larger(rescale_image, shape=st.lists(I(20, 60), min_size=2, max_size=3))
larger(dataset_downsample, 6, 60, shape=st.tuples(I(12, 40), I(20, 130), I(20,
       130)), cell=st.tuples(I(1, 12), I(1, 12), I(1, 12)))
larger(dataset_rescale, 6, 60, shape=st.tuples(I(12, 120), I(10, 120), I(10,
       120)), skip=st.none() | I(1, 60))


# paths used before
again(dataset_downsample)
again(dataset_rescale)
