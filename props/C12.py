"""C12: distortion correction of projections and sinograms."""
import h5py
import numpy as np
from hypothesis import strategies as st
from vf.core import check, larger
from vf.gen import SEED, I, F, KINDS, array, rng, smooth, pick
from props.C08 import bilinear
import algotom.prep.correction as corr


def coefs(seed, size, strength, n):
    """Radial polynomial, near identity within the image, and one to one:
    the distance of a point from the centre (up to 1.7 times the size of the
    image) always grows with the distance it is sent to."""
    r = rng(seed, 31)
    c = (r.random(n) * 2 - 1) * strength
    c *= min(1, 0.85 / max(1e-9, strength * n))
    out = [1.0 + c[0]]
    for i in range(1, n):
        out.append(c[i] / (1.7 * size) ** i / (i + 1))
    return [float(x) for x in out]


def sample_at(h, w, xc, yc, fact):
    y, x = np.mgrid[:h, :w].astype(np.float64)
    x, y = x - xc, y - yc
    r = np.hypot(x, y)
    f = sum(c * r ** i for i, c in enumerate(fact))
    return (np.clip(xc + f * x, 0, w - 1), np.clip(yc + f * y, 0, h - 1))


GEO = dict(seed=SEED, h=I(9, 22), w=I(9, 22), cx=F(-0.2, 1.2),
           cy=F(-0.2, 1.2), strength=pick(0.0, 0.05, 0.2, 0.5, 0.8), n=I(1, 8),
           kind=KINDS)


@check(quick=200, **GEO)
def projection(ctx, seed, h, w, cx, cy, strength, n, kind):
    """Each pixel is the input sampled at the point the radial polynomial
    round the centre of distortion sends the pixel to."""
    mat = array(seed, (h, w), "float32", kind, 0.5, 3)
    xc, yc = cx * (w - 1), cy * (h - 1)
    fact = coefs(seed, max(h, w), strength, n)
    with ctx.unchanged("unwarp_projection", mat):
        got = corr.unwarp_projection(mat, xc, yc, fact)
    x, y = sample_at(h, w, xc, yc, fact)
    ctx.near(got, bilinear(mat, x, y, "nearest"), "unwarped", rtol=1e-4,
             scale=3)
    ctx.near(corr.unwarp_projection(mat, xc, yc, [1.0, 0.0]), mat,
             "no distortion", rtol=1e-5)
    ctx.nontrivial(strength > 0)


@check(quick=200, d=I(1, 6), hdf=st.booleans(), a=I(0, 100), b=I(0, 100),
       toend=st.booleans(), sub=st.none() | st.tuples(I(0, 5), I(1, 6), I(
           1, 3)).map(list), **GEO)
def sinograms(ctx, d, hdf, a, b, toend, sub, seed, h, w, cx, cy, strength, n,
              kind):
    """Correcting one sinogram, a chunk of sinograms (any range, also up to
    the last row) or whole projections gives the same rows, for arrays and
    hdf datasets, for all projections or every n-th of a range."""
    vol = array(seed, (d, h, w), "float32", kind, 0.5, 3)
    xc, yc = cx * (w - 1), cy * (h - 1)
    fact = coefs(seed, max(h, w), strength, n)
    x, y = sample_at(h, w, xc, yc, fact)
    kw, sel = {}, list(range(d))
    if sub is not None:
        s0 = min(sub[0], d - 1)
        s1 = min(d, s0 + sub[1])
        kw = {"option": [s0, s1, sub[2]]}
        sel = list(range(s0, s1, sub[2]))
    want = np.stack([bilinear(vol[i], x, y, "nearest") for i in sel])
    src = vol
    if hdf:
        path = ctx.tmpdir() + "/d.hdf"
        with h5py.File(path, "w") as f:
            f["d"] = vol
        fobj = h5py.File(path, "r")
        src = fobj["d"]
    i0, i1 = sorted((a * h // 101, b * h // 101))
    i1 += 1
    if toend:
        i1 = h
    got = corr.unwarp_sinogram_chunk(src, i0, -1 if toend and seed % 2 else
                                     i1, xc, yc, fact, **kw)
    ctx.shape(got, (len(sel), i1 - i0, w), "chunk of sinograms")
    ctx.near(got, want[:, i0:i1], "chunk of sinograms", rtol=1e-4, scale=3)
    one = corr.unwarp_sinogram(src, i0, xc, yc, fact, **kw)
    ctx.shape(one, (len(sel), w), "sinogram")
    ctx.near(one, want[:, i0], "sinogram", rtol=1e-4, scale=3)
    if hdf:
        fobj.close()
    ctx.raises(ValueError, lambda: corr.unwarp_sinogram(
        vol[0], 0, xc, yc, fact), "2D data")
    ctx.raises(ValueError, lambda: corr.unwarp_sinogram_chunk(
        vol[0], 0, 1, xc, yc, fact), "2D data")
    ctx.nontrivial(strength > 0 and d > 1)
    ctx.label("end" if i1 == h else "inside", "hdf" if hdf else "array")


@check(quick=80, seed=SEED, h=I(40, 60), w=I(40, 60), cx=F(0.3, 0.7),
       cy=F(0.3, 0.7), k=F(-0.15, 0.15))
def undo(ctx, seed, h, w, cx, cy, k):
    """An image warped with the exact inverse of the model is restored."""
    xc, yc = cx * (w - 1), cy * (h - 1)
    size = float(max(h, w))
    c = k / size
    r = rng(seed)
    ph, fx, fy = r.random() * 6, r.random() * 1.5, r.random() * 1.5

    def scene(x, y):
        return 2 + np.cos(2 * np.pi * (fx * x / size + fy * y / size) + ph)

    # warped(xd) = scene(xu) where xd = xc + (1 + c*ru)*(xu - xc)
    y, x = np.mgrid[:h, :w].astype(np.float64)
    rd = np.hypot(x - xc, y - yc)
    ru = rd if abs(c) < 1e-12 else (-1 + np.sqrt(1 + 4 * c * rd)) / (2 * c)
    s = np.where(rd > 0, ru / np.where(rd > 0, rd, 1), 1.0)
    warped = scene(xc + s * (x - xc), yc + s * (y - yc))
    got = corr.unwarp_projection(warped, xc, yc, [1.0, c])
    xs, ys = sample_at(h, w, xc, yc, [1.0, c])
    raw = 1 + c * rd
    inside = (abs(xc + raw * (x - xc) - xs) < 1e-6) & (
        abs(yc + raw * (y - yc) - ys) < 1e-6)
    err = np.abs(got - scene(x, y))[inside].max()
    ctx.true(err < 0.05, "restored image off by %.3g" % err)
    ctx.nontrivial(abs(k) > 0.01)


larger(projection, h=I(100, 300), w=I(100, 300))
larger(sinograms, 25, 150, d=I(1, 6), h=I(40, 160), w=I(40, 160))
