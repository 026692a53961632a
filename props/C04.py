"""C04: conversion between tif folders and hdf files, and the tif emulator."""
import os
import h5py
import numpy as np
from hypothesis import strategies as st
from vf.core import again, check, larger
from vf.gen import SEED, I, array, pick
import algotom.io.converter as conv
import algotom.io.loadersaver as losa

DT = pick("float32", "uint8", "uint16", "float32")
CROP = st.tuples(I(0, 3), I(0, 3), I(0, 3), I(0, 3)).map(list)


def save_folder(base, vol, prefix="img", ext=".tif", digits=5):
    os.makedirs(base, exist_ok=True)
    for i, im in enumerate(vol):
        losa.save_image(os.path.join(base, "%s_%0*d.tif" % (prefix, digits,
                                                           i)), im)
        if ext not in (".tif", ".tiff"):
            src = os.path.join(base, "%s_%0*d" % (prefix, digits, i))
            os.rename(src + ".tif", src + ext)


@check(quick=120, seed=SEED, d=I(1, 12), h=I(1, 9), w=I(1, 9), dt=DT,
       crop=CROP, outdt=pick("float32", "same", None), key=pick(
           "entry/data", "k", None), pat=pick(None, "img", "mg_0"),
       other=st.booleans(), ext=pick("", ".hdf", ".h5", ".nxs", ".hdf5"))
def tif_to_hdf(ctx, seed, d, h, w, dt, crop, outdt, key, pat, other, ext):
    """Every tif of the folder (matching the pattern), cropped from the four
    edges, is one slice of the hdf dataset in name order, values unchanged;
    crops leaving nothing are refused."""
    base = ctx.tmpdir()
    tif = os.path.join(base, "tifs")
    vol = array(seed, (d, h, w), dt, "noise", 0, 250)
    save_folder(tif, vol)
    if other and pat is not None:
        losa.save_image(os.path.join(tif, "aux_1.tif"), vol[0] * 0)
    t, b, l, r = crop
    opts = {}
    if outdt is not None:
        opts["data_type"] = dt if outdt == "same" else outdt
    if key is not None:
        opts["key_path"] = key
    if pat is not None:
        opts["pattern"] = pat
    if any(crop):
        opts["crop"] = tuple(crop)
    out = os.path.join(base, "o", "data" + ext)

    def run():
        return conv.convert_tif_to_hdf(tif, out, **opts)

    if t + b >= h or l + r >= w:
        ctx.raises(ValueError, run, "a crop leaving nothing")
        ctx.nontrivial(False)
        return
    got = run()
    want_path = out if ext else out + ".hdf"
    ctx.true(os.path.isfile(want_path), "no output file")
    ctx.eq(os.path.realpath(str(got)), os.path.realpath(want_path),
           "returned path")
    with h5py.File(want_path, "r") as f:
        data = f[key or "entry/data"][()]
    want = vol[:, t:h - b, l:w - r]
    ctx.eq(data.dtype, np.dtype(opts.get("data_type", "float32")), "dtype")
    ctx.same(data, want.astype(data.dtype), "hdf content")
    ctx.nontrivial(d > 1 and (any(crop) or pat is not None))


@check(quick=150, seed=SEED, d=I(1, 7), h=I(1, 7), w=I(1, 7), dt=DT,
       crop=CROP, axis=I(0, 2), mode=pick("default", "int", "range", "step",
                                          "open", "late"),
       a=I(0, 6), b=I(0, 6), step=I(1, 3), prefix=pick("img", "rec"))
def hdf_to_tif(ctx, seed, d, h, w, dt, crop, axis, mode, a, b, step, prefix):
    """Extraction writes exactly the requested slices of the requested axis,
    cropped along the two remaining axes, named by slice index."""
    base = ctx.tmpdir()
    vol = array(seed, (d, h, w), dt, "noise", 0, 250)
    path = os.path.join(base, "v.hdf")
    with h5py.File(path, "w") as f:
        f["entry/data"] = vol
    n = vol.shape[axis]
    rest = [s for i, s in enumerate(vol.shape) if i != axis]
    t, bo, l, r = [int(c) for c in crop]
    t, l = min(t, rest[0] - 1), min(l, rest[1] - 1)
    bo, r = min(bo, rest[0] - 1 - t), min(r, rest[1] - 1 - l)
    opts = {}
    if mode == "default":
        idx = list(range(n))
    elif mode == "int":
        a = a % n
        opts["index"] = a
        idx = [a]
    elif mode == "open":                # up to the last one
        a %= n
        opts["index"] = (a, -1 if b % 2 else n + b, step)
        idx = list(range(a, n, step))
    elif mode == "late":                # starts behind the last one
        opts["index"] = (n + a, n, step)
        idx = [n - 1]
    else:
        a, b = sorted((a % n, b % n))
        st_ = step if mode == "step" else 1
        opts["index"] = (a, b + 1, st_)
        idx = list(range(a, b + 1, st_))
    if axis or seed % 2:
        opts["axis"] = axis
    if any((t, bo, l, r)):
        opts["crop"] = (t, bo, l, r)
    if prefix != "img":
        opts["prefix"] = prefix
    out = os.path.join(base, "out")
    conv.extract_tif_from_hdf(path, out, "entry/data", **opts)
    ctx.eq(sorted(os.listdir(out)),
           ["%s_%05d.tif" % (prefix, i) for i in idx], "files written")
    for i in idx:
        img = losa.load_image(os.path.join(out, "%s_%05d.tif" % (prefix, i)))
        want = np.take(vol, i, axis=axis)
        want = want[t:want.shape[0] - bo, l:want.shape[1] - r]
        ctx.same(img, want, "slice %d of axis %d" % (i, axis))
    ctx.nontrivial(len(idx) > 1 and len(set(vol.shape)) > 1)
    ctx.label("axis%d" % axis, mode)


SL = st.tuples(st.none() | I(-7, 7), st.none() | I(-7, 7),
               pick(None, 1, 2, 3)).map(list)
IDX = st.one_of(I(0, 6), SL)


def to_index(x, n):
    return x % n if isinstance(x, int) else slice(*x)


@check(quick=200, seed=SEED, d=I(1, 7), h=I(1, 7), w=I(1, 7), dt=DT,
       ext=pick(".tif", ".tif", ".tiff", ".TIF"), neg=st.booleans(),
       form=pick("int", "numpy", "slice", "tuple", "tuple", "tuple",
                 "two", "one"), z=IDX, y=IDX,
       x=IDX, ncore=pick(1, 1, 1, 2))
def emulator(ctx, seed, d, h, w, dt, ext, neg, form, z, y, x, ncore):
    """A folder of tifs opened as an emulated hdf dataset has the shape, type
    and length of the stack and answers integer, slice and (z, y, x) indexing
    exactly like the numpy stack of its images."""
    base = ctx.tmpdir()
    vol = array(seed, (d, h, w), dt, "noise", 0, 250)
    save_folder(base, vol, ext=ext)
    em = conv.HdfEmulatorFromTif(base, ncore=ncore)
    ctx.eq(tuple(em.shape), (d, h, w), "shape")
    ctx.eq(np.dtype(em.dtype), np.asarray(em[0]).dtype, "dtype")
    ctx.eq(len(em), d, "length")
    zi = to_index(z, d)
    if neg and isinstance(zi, int):
        zi -= d
    if isinstance(zi, slice) and len(range(*zi.indices(d))) == 0:
        zi = slice(None)
    if form in ("int", "numpy"):
        zi = zi if isinstance(zi, int) else d // 2
        if form == "numpy":
            zi = np.int64(zi)
        ctx.same(em[zi], vol[zi], "[%r]" % zi)
    elif form == "slice":
        zi = zi if isinstance(zi, slice) else slice(zi, None)
        ctx.same(em[zi], vol[zi], "[%r]" % zi)
    else:
        if isinstance(zi, int) and seed % 2:
            zi = np.int32(zi)
        idx = (zi, to_index(y, h), to_index(x, w))[:{
            "tuple": 3, "two": 2, "one": 1}[form]]
        ctx.same(em[idx], vol[idx], "[%r]" % (idx,))
    ctx.label(form, ext)
    ctx.nontrivial(d > 1)


@check(quick=60, seed=SEED, d=I(1, 6), h=I(1, 8), w=I(1, 8), dt=DT)
def there_and_back(ctx, seed, d, h, w, dt):
    """tif folder -> hdf -> tif folder gives the images back bit for bit."""
    base = ctx.tmpdir()
    vol = array(seed, (d, h, w), dt, "noise", 0, 250)
    save_folder(os.path.join(base, "a"), vol)
    path = conv.convert_tif_to_hdf(os.path.join(base, "a"),
                                   os.path.join(base, "d.hdf"), data_type=dt)
    conv.extract_tif_from_hdf(str(path), os.path.join(base, "b"),
                              "entry/data")
    for i in range(d):
        a = losa.load_image(os.path.join(base, "a", "img_%05d.tif" % i))
        b = losa.load_image(os.path.join(base, "b", "img_%05d.tif" % i))
        ctx.eq(a.dtype, b.dtype, "dtype")
        ctx.same(b, vol[i], "image %d" % i)
    ctx.nontrivial(d > 1)


larger(tif_to_hdf, d=I(20, 110), h=I(10, 120), w=I(10, 120))
larger(hdf_to_tif, 4, 50, d=I(2, 120), h=I(2, 120), w=I(2, 120), a=I(0, 120),
       b=I(0, 120), step=I(1, 40))
larger(emulator, 4, 50, d=I(20, 110), h=I(10, 80), w=I(10, 80))


# paths used before
again(tif_to_hdf)
again(hdf_to_tif)
again(emulator)
again(there_and_back)
