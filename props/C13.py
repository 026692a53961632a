"""C13: sinograms and profiles along a tilted line."""
import h5py
import numpy as np
from hypothesis import strategies as st
from vf.core import check, larger
from vf.gen import SEED, I, F, KINDS, array, pick
from props.C08 import bilinear
import algotom.prep.correction as corr

GEO = dict(seed=SEED, h=I(9, 22), w=I(9, 22), angle=pick(
    0.0, 90.0) | F(-30, 30) | F(-3, 3) | F(-200, 200), kind=KINDS, a=I(0, 100), b=I(0, 100))


def tilted(mat, i0, i1, angle):
    """Rows i0..i1 of the image turned round its centre."""
    h, w = mat.shape
    xc, yc = (w - 1) / 2, (h - 1) / 2
    t = np.deg2rad(angle)
    y, x = np.mgrid[i0:i1 + 1, :w].astype(np.float64)
    x, y = x - xc, y - yc
    xs = np.clip(xc + x * np.cos(t) - y * np.sin(t), 0, w - 1)
    ys = np.clip(yc + x * np.sin(t) + y * np.cos(t), 0, h - 1)
    return bilinear(mat, xs, ys, "nearest")


@check(quick=200, d=I(1, 6), hdf=st.booleans(), sub=st.none() | st.tuples(
    I(0, 5), I(1, 6), I(1, 3)).map(list), **GEO)
def sinograms(ctx, d, hdf, sub, seed, h, w, angle, kind, a, b):
    """A tilted sinogram samples every projection along the line through the
    given row turned by the angle about the image centre; a chunk holds all
    of them from the first to the last row asked for; angle zero gives the
    plain sinograms."""
    vol = array(seed, (d, h, w), "float32", kind, 0.5, 3)
    i0, i1 = sorted((a * h // 101, b * h // 101))
    kw, sel = {}, list(range(d))
    if sub is not None:
        s0 = min(sub[0], d - 1)
        s1 = min(d, s0 + sub[1])
        kw = {"option": (s0, s1, sub[2])}
        sel = list(range(s0, s1, sub[2]))
    src = vol
    if hdf:
        path = ctx.tmpdir() + "/d.hdf"
        with h5py.File(path, "w") as f:
            f["d"] = vol
        fobj = h5py.File(path, "r")
        src = fobj["d"]
    want = np.stack([tilted(vol[i], i0, i1, angle) for i in sel])
    chunk = corr.generate_tilted_sinogram_chunk(src, i0, i1, angle, **kw)
    ctx.near(chunk, want, "chunk", rtol=1e-4, scale=3)
    for i in sorted({i0, i1}):
        one = corr.generate_tilted_sinogram(src, i, angle, **kw)
        ctx.near(one, want[:, i - i0], "sinogram", rtol=1e-4, scale=3)
    if hdf:
        fobj.close()
    if angle == 0.0:
        ctx.near(chunk, vol[sel][:, i0:i1 + 1], "untilted", rtol=1e-5)
    for f in (lambda: corr.generate_tilted_sinogram(vol[0], 0, angle),
              lambda: corr.generate_tilted_sinogram_chunk(vol[0], 0, 1,
                                                          angle)):
        ctx.raises(ValueError, f, "2D data")
    ctx.nontrivial(angle != 0 and i1 > i0)


@check(quick=200, **GEO)
def profiles(ctx, seed, h, w, angle, kind, a, b):
    """The same along a line of a single image."""
    mat = array(seed, (h, w), "float32", kind, 0.5, 3)
    i0, i1 = sorted((a * h // 101, b * h // 101))
    want = tilted(mat, i0, i1, angle)
    with ctx.unchanged("profiles", mat):
        ctx.near(corr.generate_tilted_profile_chunk(mat, i0, i1, angle), want,
                 "chunk", rtol=1e-4, scale=3)
        for i in sorted({i0, i1}):
            ctx.near(corr.generate_tilted_profile_line(mat, i, angle),
                     want[i - i0], "line", rtol=1e-4, scale=3)
    vol = np.stack((mat, mat))
    for f in (lambda: corr.generate_tilted_profile_line(vol, 0, angle),
              lambda: corr.generate_tilted_profile_chunk(vol, 0, 1, angle)):
        ctx.raises(ValueError, f, "3D data")
    ctx.nontrivial(angle != 0)


@check(quick=100, seed=SEED, h=I(30, 60), w=I(30, 60), angle=F(-10, 10),
       row=F(0.3, 0.7))
def straighten(ctx, seed, h, w, angle, row):
    """A linear ramp across a tilted image is seen along its own direction:
    sampling along a line on which the ramp is constant gives a constant."""
    t = np.deg2rad(angle)
    y, x = np.mgrid[:h, :w].astype(np.float64)
    xc, yc = (w - 1) / 2, (h - 1) / 2
    u = -(x - xc) * np.sin(t) + (y - yc) * np.cos(t)
    i = int(row * (h - 1))
    line = corr.generate_tilted_profile_line(u, i, angle)
    xs = (np.arange(w) - xc)
    ys = yc + xs * np.sin(t) + (i - yc) * np.cos(t)
    xx = xc + xs * np.cos(t) - (i - yc) * np.sin(t)
    ok = (ys >= 0) & (ys <= h - 1) & (xx >= 0) & (xx <= w - 1)
    ctx.near(line[ok], np.full(int(ok.sum()), i - yc), "ramp along the line",
             atol=1e-6)
    ctx.nontrivial(angle != 0)


larger(sinograms, 5, 60, d=I(5, 30), h=I(40, 160), w=I(40, 160))
larger(profiles, h=I(100, 400), w=I(100, 400))
larger(straighten, h=I(150, 400), w=I(150, 400))
