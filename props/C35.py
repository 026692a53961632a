"""C35: reslicing a dataset."""
import os
import h5py
import numpy as np
import scipy.ndimage as ndi
from hypothesis import strategies as st
from vf.core import again, check, larger
from vf.gen import SEED, I, F, array, pick
from props.C34 import (make_input, read_output, out_path, cropped,
                       check_rescaled, data, CROP, SUFFIX)
import algotom.post.postprocessing as post


def sources(h, w, rotate):
    """Where each pixel of the turned image comes from."""
    a = np.deg2rad(rotate)
    y, x = np.mgrid[:h, :w]
    yc, xc = y - (h - 1) / 2, x - (w - 1) / 2
    return (np.cos(a) * yc + np.sin(a) * xc + (h - 1) / 2,
            -np.sin(a) * yc + np.cos(a) * xc + (w - 1) / 2)


def border(shape, rotate):
    """Is the source of the pixel right on the border of the image?"""
    d, h, w = shape
    ys, xs = sources(h, w, rotate)
    on = (np.minimum(abs(ys), abs(ys - h + 1)) < 1e-6) | \
        (np.minimum(abs(xs), abs(xs - w + 1)) < 1e-6)
    return np.broadcast_to(on, shape)


def turned(vol, rotate, mode="constant"):
    """Every image of the stack turned counter-clockwise about its centre
    (bilinear), an independent model: whole quarter turns are exact."""
    d, h, w = vol.shape
    if h == w and rotate % 90 == 0:
        return np.rot90(vol, int(rotate // 90), axes=(1, 2)).astype(float)
    ys, xs = sources(h, w, rotate)
    return np.asarray([ndi.map_coordinates(v.astype(float), [ys, xs],
                                           order=1, mode=mode)
                       for v in vol])


def resliced(vol, axis):
    return np.moveaxis(vol, axis, 0) if axis == 1 else np.transpose(
        vol, (2, 0, 1))


@check(quick=160, seed=SEED, shape=st.tuples(I(1, 9), I(1, 9), I(1, 9)),
       inkind=pick("hdf", "tif"), outkind=pick("hdf", "tif"),
       axis=pick(1, 2), crop=CROP, docrop=st.booleans(), chunk=I(1, 12),
       ncore=pick(1, 1, 2), rotate=pick(0.0, 0.0, 90.0, -90.0, 180.0),
       square=st.booleans(), dtype=pick("float32", "uint8", "uint16"), insuf=SUFFIX,
       outsuf=SUFFIX, beside=st.booleans())
def reslice(ctx, seed, shape, inkind, outkind, axis, crop, docrop, chunk,
            ncore, rotate, square, dtype, insuf, outsuf, beside):
    """Slice number i of the result is row i (axis 1) or column i (axis 2)
    of every image, in order, after turning and cropping, whatever the kind
    of input and output and the size of the chunks; nothing else is left
    behind or removed."""
    if rotate or square:
        shape = (shape[0], shape[1], shape[1])
    base = ctx.tmpdir()
    vol = array(seed, shape, dtype, "noise", 5, 250)
    src, kw = make_input(base, inkind, vol, "entry/x", insuf)
    if docrop:
        kw["crop"] = crop
    out = out_path(base, outkind, outsuf)
    other = os.path.join(base, "o", "res", "notes.txt")
    if beside and outkind == "hdf":
        # a folder of the same name as the file to be written
        os.makedirs(os.path.dirname(other))
        with open(other, "w") as f:
            f.write("mine")
    run = lambda: post.reslice_dataset(
        src, out, axis=axis, rotate=rotate, chunk=chunk, ncore=ncore,
        show_progress=bool(seed % 2), **kw)
    if docrop and any(s - a - b <= 0 for s, a, b in zip(
            vol.shape, crop[::2], crop[1::2])):
        ctx.raises(ValueError, run, "a crop larger than the data")
        ctx.nontrivial(False)
        return
    run()
    full = turned(vol, rotate)
    part = cropped(full, crop) if docrop else full
    want = resliced(part, axis)
    got = read_output(out, outkind, None, kw.get("key_path", "entry/data"),
                      first=0)
    ctx.eq(str(got.dtype), dtype, "type of the result")
    ctx.near(got, want, "slices along axis %d" % axis,
             atol=(1.001 if dtype != "float32" else 1e-3) if rotate else 0.0,
             rtol=0)
    left = sorted(os.listdir(os.path.dirname(out)))
    mine = ["res"] if beside and outkind == "hdf" else []
    ctx.eq(left, sorted(mine + [os.path.basename(out)]), "files left")
    if mine:
        with open(other) as f:
            ctx.eq(f.read(), "mine", "file of another folder")
        ctx.eq(os.listdir(os.path.dirname(other)), ["notes.txt"],
               "files in another folder")
    ctx.label(inkind, outkind, "axis%d" % axis)
    ctx.nontrivial(want.size > 4 and want.shape[0] > chunk)


@check(quick=90, seed=SEED, shape=st.tuples(I(2, 9), I(3, 12), I(3, 12)),
       inkind=pick("hdf", "tif"), axis=pick(1, 2), chunk=I(1, 8),
       rotate=F(-60, 60), mode=pick("constant", "nearest", "reflect",
                                    "mirror"),
       crop=CROP, docrop=st.booleans())
def any_angle(ctx, seed, shape, inkind, axis, chunk, rotate, mode, crop,
              docrop):
    """Turning by any angle is about the middle of the image, before the
    crop."""
    base = ctx.tmpdir()
    vol = array(seed, shape, "float32", "noise", 5, 250)
    src, kw = make_input(base, inkind, vol, "e/x")
    if docrop:
        crop = tuple(min(c, (s - 1) // 2) for c, s in zip(
            crop, np.repeat(shape, 2)))
        kw["crop"] = crop = tuple(int(c) for c in crop)
    out = os.path.join(base, "o", "res.hdf")
    post.reslice_dataset(src, out, axis=axis, rotate=rotate, chunk=chunk,
                         mode=mode, ncore=1, show_progress=False, **kw)
    full = turned(vol, rotate, mode)
    part = cropped(full, crop) if docrop else full
    got = read_output(out, "hdf", None, kw.get("key_path", "entry/data"))
    want = resliced(part, axis)
    ctx.shape(got, want.shape, "resliced")
    # a sample on the very border falls inside or outside by rounding
    unsure = border(vol.shape, rotate)
    if docrop:
        unsure = cropped(unsure, crop)
    bad = (np.abs(got - want) > 0.01) & ~resliced(unsure, axis)
    ctx.true(not bad.any(), lambda: "turned slices: %d of %d values wrong, "
             "first at %s" % (bad.sum(), bad.size, np.argwhere(bad)[0]))
    ctx.label(mode, inkind)
    ctx.nontrivial(abs(rotate) > 1)


@check(quick=80, seed=SEED, shape=st.tuples(I(2, 8), I(2, 8), I(2, 8)),
       inkind=pick("hdf", "tif"), outkind=pick("hdf", "tif"),
       axis=pick(1, 2), chunk=I(1, 9), nbit=pick(8, 16),
       limits=st.none() | st.tuples(F(0, 100), F(120, 300)),
       dtype=pick("float32", "float32", "uint8", "uint16"),
       crop=CROP, docrop=st.booleans(), skip=pick(1, None, 2, 3, 9),
       outsuf=SUFFIX)
def rescaled(ctx, seed, shape, inkind, outkind, axis, chunk, nbit, limits,
             dtype, crop, docrop, skip, outsuf):
    """With rescaling all slices map with one pair of limits: those given,
    or those of the cropped data, of every few slices if asked (of the type,
    for integers)."""
    base = ctx.tmpdir()
    vol = data(seed, shape, dtype)
    src, kw = make_input(base, inkind, vol, "entry/x")
    part = vol
    if docrop:
        crop = tuple(int(min(c, (s - 1) // 2)) for c, s in zip(
            crop, np.repeat(shape, 2)))
        kw["crop"] = crop
        part = cropped(vol, crop)
    out = out_path(base, outkind, outsuf)
    if dtype.startswith("u"):
        limits = None
    post.reslice_dataset(src, out, axis=axis, chunk=chunk, ncore=1,
                         rescaling=True, nbit=nbit, minmax=limits, skip=skip,
                         show_progress=bool(seed % 2), **kw)
    got = read_output(out, outkind, None, kw.get("key_path", "entry/data"),
                      first=0)
    want = resliced(part, axis)
    ctx.shape(got, want.shape, "resliced")
    if dtype == "uint%d" % nbit:
        ctx.same(got, want, "integers of the type asked for")
    else:
        mm = limits or {"uint8": (0, 255), "uint16": (0, 65535)}.get(
            dtype)
        some = part[::min(skip or 1, max(1, len(part) - 1))]
        mm = mm or (float(some.min()), float(some.max()))
        if mm[1] <= mm[0]:
            ctx.nontrivial(False)
            return
        check_rescaled(ctx, got, want, nbit, mm[0], mm[1], "rescaled slices",
                       exact=limits is None)
    ctx.label(dtype, outkind)
    ctx.nontrivial(want.size > 8)


@check(quick=20, seed=SEED, what=pick("numpy", "none", "axis", "nbit",
                                      "key", "format", "empty", "crop"))
def refused(ctx, seed, what):
    """Inputs, outputs and options which make no sense raise ValueError."""
    base = ctx.tmpdir()
    vol = array(seed, (4, 4, 4), "float32", "noise", 5, 250)
    src, kw = make_input(base, "hdf", vol, "entry/x")
    out = os.path.join(base, "res")
    kw["show_progress"] = False
    if what == "numpy":
        src, kw = vol, {}
    elif what == "none":
        out = None
    elif what == "axis":
        kw["axis"] = 0 if seed % 2 else 3
    elif what == "nbit":
        kw.update(rescaling=True, nbit=32)
    elif what == "key":
        kw["key_path"] = "entry/y"
    elif what == "format":
        out += ".png"
    elif what == "empty":
        src = os.path.join(base, "nothing")
        os.makedirs(src)
    else:
        kw["crop"] = (0, 0, 2, 2, 0, 0)
    ctx.raises((ValueError, FileNotFoundError),
               lambda: post.reslice_dataset(src, out, **kw),
               "wrong " + what)


larger(reslice, 8, 80, shape=st.tuples(I(10, 130), I(10, 130), I(10, 130)),
       chunk=I(1, 60))
larger(rescaled, 6, 80, shape=st.tuples(I(20, 130), I(10, 130), I(10, 130)),
       chunk=I(1, 60), skip=pick(1, None, 5, 30))


# paths used before
again(reslice)
again(rescaled)
