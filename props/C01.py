"""C01: saved images load back unchanged, singly or in parallel batches."""
import fnmatch
import os
from pathlib import Path
import numpy as np
from PIL import Image
from hypothesis import strategies as st
from vf.core import again, also, check, larger
from vf.gen import SEED, I, KINDS, array, pick
import algotom.io.loadersaver as losa

DT = pick("float32", "uint8", "uint16", "int32", "float64")
RANGE = {"float32": (-1e3, 1e3), "float64": (-1e3, 1e3), "uint8": (0, 255),
         "uint16": (0, 65535), "int32": (-2 ** 22, 2 ** 22)}
NAMES = pick("img", "a b", "scan.v2", "x-1", "IMG_00001", "tif", "d\u00e9j\u00e0")
SUB = pick("", "new", "new/deeper", "with space/sub")


def make(seed, shape, dt, kind):
    lo, hi = RANGE[dt]
    return array(seed, shape, dt, kind, lo, hi)


@check(quick=250, seed=SEED, h=I(1, 24), w=I(1, 24), dt=DT, kind=KINDS,
       ext=pick(".tif", ".tiff"), name=NAMES, sub=SUB, as_path=st.booleans(),
       order=pick("C", "F"))
def tiff_roundtrip(ctx, seed, h, w, dt, kind, ext, name, sub, as_path, order):
    """Any 2D array written as tif/tiff (new folders included) is read back
    with the same values as float32; non-trivial: not constant."""
    base = ctx.tmpdir()
    mat = np.array(make(seed, (h, w), dt, kind), order=order)
    path = os.path.join(base, sub, name + ext)
    with ctx.unchanged("save_image", mat):
        ret = losa.save_image(Path(path) if as_path else path, mat)
    ctx.true(os.path.isfile(path), "save_image did not create %r" % path)
    ctx.eq(os.path.realpath(str(ret)), os.path.realpath(path),
           "path returned by save_image")
    back = losa.load_image(Path(path) if as_path else path)
    ctx.eq(back.dtype, np.dtype("float32"), "dtype of the loaded image")
    ctx.same(back, mat.astype(np.float32), "tif round trip of %s" % dt)
    ctx.nontrivial(mat.min() != mat.max())
    ctx.label(dt)


@check(quick=150, seed=SEED, h=I(2, 24), w=I(2, 24),
       dt=pick("float32", "uint16", "float64"),
       kind=pick("noise", "ramp", "smooth", "sparse"),
       ext=pick(".png", ".bmp"), sub=SUB)
def eight_bit_formats(ctx, seed, h, w, dt, kind, ext, sub):
    """Other lossless formats hold the image min-max scaled to 0..255
    (truncated); order of grey values is kept."""
    base = ctx.tmpdir()
    mat = make(seed, (h, w), dt, kind)
    if mat.min() == mat.max():
        mat = make(seed, (h, w), dt, "ramp")
    path = os.path.join(base, sub, "x" + ext)
    losa.save_image(path, mat)
    back = losa.load_image(path)
    m = mat.astype(np.float64)
    exact = 255.0 * (m - m.min()) / (m.max() - m.min())
    ctx.shape(back, (h, w), "8-bit image")
    ctx.eq(float(back.min()), 0.0, "darkest grey")
    ctx.true(back.max() >= 254, "brightest grey is %s" % back.max())
    ctx.true(np.all(back <= exact + 0.01) and np.all(back > exact - 1.01),
             "8-bit grey values are not the min-max scaled input")


@check(quick=80, seed=SEED, h=I(1, 20), w=I(1, 20), nch=pick(3, 4),
       ext=pick(".tif", ".png"))
def colour_images(ctx, seed, h, w, nch, ext):
    """A colour image loads as the 2D mean over its channels."""
    base = ctx.tmpdir()
    mat = array(seed, (h, w, nch), "uint8", "noise", 0, 255)
    path = os.path.join(base, "c" + ext)
    Image.fromarray(mat).save(path)
    back = losa.load_image(path)
    ctx.near(back, mat.astype(np.float64).mean(axis=2), "colour image",
             rtol=1e-6)
    ctx.nontrivial(h > 1 and w > 1)


@check(quick=150, seed=SEED, d=I(1, 9), h=I(1, 9), w=I(1, 9), axis=I(0, 2),
       ncore=pick(1, 2, 3, 8, None), ncore2=pick(1, 2, 8, None),
       start=pick(0, 0, 1, 7, 9997, 99990, 99998, 123456), dt=DT, aslist=st.booleans(),
       kind=pick("noise", "ramp"))
def stacks(ctx, seed, d, h, w, axis, ncore, ncore2, start, dt, aslist, kind):
    """A stack saved along any axis with any number of workers gives file i =
    slice i, named img_%05d from start_idx when a folder is given, and loads
    back in order; non-trivial: at least two slices."""
    base = ctx.tmpdir()
    vol = make(seed, (d, h, w), dt, kind)
    n = vol.shape[axis]
    names = [os.path.join(base, "o", "img_%05d.tif" % i)
             for i in range(start, start + n)]
    if aslist:
        names = [os.path.join(base, "o", "p%d_%s.tif" % ((i * 7) % 11, i))
                 for i in range(n)]
        losa.save_image_multiple(names, vol, axis=axis, ncore=ncore)
    else:
        losa.save_image_multiple(os.path.join(base, "o"), vol, axis=axis,
                                 ncore=ncore, start_idx=start)
    ctx.eq(sorted(os.listdir(os.path.join(base, "o"))),
           sorted(os.path.basename(x) for x in names), "files written")
    back = losa.load_image_multiple(names, ncore=ncore2)
    ctx.same(back, np.moveaxis(vol, axis, 0).astype(np.float32),
             "stack round trip, axis %d" % axis)
    if not aslist and len(names[0]) == len(names[-1]):
        ctx.eq(losa.find_file(os.path.join(base, "o") + "/*.tif"), names,
               "find_file lists the stack in order")
    ctx.nontrivial(n > 1)
    ctx.label("axis%d" % axis, "list" if aslist else "folder")


@check(quick=60, seed=SEED, n=I(1, 4), extra=I(1, 3), axis=I(0, 2))
def bad_requests_write_nothing(ctx, seed, n, extra, axis):
    """A path list whose length differs from the stack is refused before
    anything is written; a missing file is reported as ValueError."""
    base = ctx.tmpdir()
    vol = make(seed, (n, n, n), "float32", "noise")
    names = [os.path.join(base, "o", "%d.tif" % i) for i in range(n + extra)]
    ctx.raises(ValueError, lambda: losa.save_image_multiple(names, vol,
                                                            axis=axis),
               "wrong number of paths")
    ctx.true(not os.path.exists(os.path.join(base, "o")), "files written")
    ctx.raises(ValueError, lambda: losa.load_image(
        os.path.join(base, "absent.tif")), "missing file")
    ctx.raises(ValueError, lambda: losa.save_image(
        os.path.join(base, "c.tif"), vol[0] + 1j * vol[0]), "complex tif")


@check(quick=200, seed=SEED, xc=st.floats(-1e5, 1e5), yc=st.floats(-1e5, 1e5),
       fact=st.lists(st.floats(-1e6, 1e6, allow_nan=False), min_size=1,
                     max_size=8), npf=st.booleans(),
       ext=pick(".txt", ".dat", "", ".coef"), sub=SUB)
def distortion_coefficients(ctx, seed, xc, yc, fact, npf, ext, sub):
    """Distortion coefficients written to text read back exactly."""
    base = ctx.tmpdir()
    f = [np.float64(x) for x in fact] if npf else fact
    path = os.path.join(base, sub, "coef" + ext)
    ret = str(losa.save_distortion_coefficient(path, xc, yc, f))
    want = path if ext in (".txt", ".dat") else os.path.join(base, sub,
                                                             "coef.txt")
    ctx.eq(os.path.realpath(ret), os.path.realpath(want), "returned path")
    x2, y2, f2 = losa.load_distortion_coefficient(ret)
    ctx.eq((x2, y2, list(f2)), (xc, yc, [float(x) for x in fact]),
           "distortion coefficients")


@check(quick=100, names=st.lists(st.tuples(pick("img_", "im", "IMG_", "b.c-"),
                                           I(0, 120), pick(0, 3, 5),
                                           pick(".tif", ".tif", ".tiff",
                                                ".txt")), max_size=12),
       pat=pick("*tif*", "*.tif", "img_*.tif", "*_0*", "*1?.*", "img_*"),
       sub=SUB, slash=pick("/", "/", "//"))
def found_files(ctx, names, pat, sub, slash):
    """find_file lists what matches the pattern, and only that, in the order
    of the names; no match is refused."""
    base = os.path.join(ctx.tmpdir(), sub)
    os.makedirs(base, exist_ok=True)
    have = set()
    for (a, i, z, e) in names:
        f = "%s%0*d%s" % (a, z, i, e)
        open(os.path.join(base, f), "w").close()
        have.add(f)
    want = sorted(f for f in have if fnmatch.fnmatchcase(f, pat))
    if want:
        ctx.eq(losa.find_file(base + slash + pat),
               [os.path.join(base, f) for f in want], "files found")
    else:
        ctx.raises(FileNotFoundError, lambda: losa.find_file(
            base + slash + pat), "no file matches")
    ctx.nontrivial(0 < len(want) < len(have))


larger(tiff_roundtrip, h=I(100, 600), w=I(100, 600))
larger(eight_bit_formats, h=I(80, 300), w=I(80, 300))
larger(colour_images, h=I(60, 300), w=I(60, 300))
larger(stacks, 4, 60, d=I(30, 120), h=I(1, 40), w=I(1, 40))
also(stacks, "stacks_rows_larger", "The same for larger data.", 4, 60, 10,
     d=I(1, 6), h=I(30, 300), w=I(2, 40), axis=I(1, 1))


# paths used before
again(tiff_roundtrip)
again(eight_bit_formats)
again(colour_images)
again(stacks)
again(distortion_coefficients)
again(found_files)
