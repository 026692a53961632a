"""C20: sinograms out of helical scans."""
import numpy as np
from hypothesis import strategies as st
from vf.core import check, also, larger
from vf.gen import SEED, I, F, array, rng, pick
import algotom.prep.conversion as conv
import algotom.prep.calculation as calc


def setup(seed, nproj, pitch, pix, spare, extra, kind, y0, crop, width):
    """A scan which can reconstruct `extra` of height."""
    turn = pitch if kind == "360" else pitch / 2
    height = int(np.ceil(turn / pix)) + 3 + spare
    ystep = pitch / (2.0 * (nproj - 1))
    y1 = y0 + 2 * turn + extra
    depth = int(np.ceil((y1 - y0) / ystep + pix / ystep)) + 4 + (
        height if kind == "180" else height)
    ys, ye = y0 + turn, y1 - turn
    return height, ystep, y1, depth, ys, ye


@check(quick=150, seed=SEED, nproj=I(4, 12), pitch=F(1, 6), pix=pick(
    0.25, 0.5, 1.0), spare=I(0, 4), extra=F(0.3, 5), kind=pick("180", "360"),
       y0=F(-5, 5), f=F(0, 1), top=I(0, 2), bottom=I(0, 2), left=I(0, 2),
       right=I(0, 2), width=I(6, 12), flats=pick("none", "flat", "both"),
       own=st.booleans(), blob=st.booleans(), full=st.booleans())
def sinogram(ctx, seed, nproj, pitch, pix, spare, extra, kind, y0, f, top,
             bottom, left, right, width, flats, own, blob, full):
    """Every row of the sinogram is, from successive projections starting
    with the first that sees it, the detector row looking at the height of
    the slice - interpolated between detector rows, flat-fielded, cropped,
    blobs bridged - with the angles of those projections."""
    height, ystep, y1, depth, ys, ye = setup(
        seed, nproj, pitch, pix, spare, extra, kind, y0, None, width)
    fov = pix * height
    nused = (nproj if kind == "180" else 2 * nproj - 1) if not full else \
        int(np.floor(fov / ystep)) - 1
    if full:
        depth += max(0, nused)
    r = rng(seed, 9)
    # rows x columns x projections: linear in height and in column, so that
    # interpolating along either is exact
    a = 0.1 + 0.02 * np.arange(width) * r.uniform(0.5, 1)
    bx, bi = r.uniform(0.01, 0.05), r.random(depth)
    i, j = np.arange(depth)[:, None], np.arange(height)[None]
    y = ye + fov - i * ystep - (j + 1) * pix
    clean = a * y[..., None] + bx * np.arange(width) + bi[:, None, None] + 9
    H, W = height + top + bottom, width + left + right
    data = r.random((depth, H, W)) * 50 + 1
    data[:, top:top + height, left:left + width] = clean
    kw = {"crop": (top, bottom, left, right), "scan_type": kind}
    if flats != "none":
        flat = 50 + 20 * r.random((H, W))
        dark = 5 * r.random((H, W)) if flats == "both" else np.zeros((H, W))
        data = data * (flat - dark) + dark
        kw["flat"] = flat
        if flats == "both":
            kw["dark"] = dark
    arrays = [data]
    if blob:
        # a defect of its own in each row of the detector
        mask = np.zeros((H, W), np.float32)
        for row in range(H):
            if r.random() < 0.7:
                c = int(r.integers(2, width - 3))
                mask[row, left + c:left + min(
                    c + int(r.integers(1, 3)), width - 2)] = 1
        data[:, mask > 0] = 333
        kw["mask"] = mask
        arrays.append(mask)
    ang = np.arange(depth) * 180.0 / (nproj - 1)
    if own:
        ang = r.random(depth) * 360
        kw["angles"] = ang
    top_index = calc.calculate_maximum_index(y0, y1, pitch, pix, kind)
    index = int(round(f * top_index))
    ypos = ys + (index - 1) * pix
    q = (ye - ypos) / ystep
    if abs(q - round(q)) < 1e-6:        # rounding decides the first one
        return ctx.nontrivial(False)
    i0 = int(np.ceil(q))
    if i0 < 0 or i0 + nused >= depth:
        return ctx.nontrivial(False)
    rows = (ye + fov - (i0 + np.arange(nused)) * ystep - ypos) / pix - 1
    if np.any(rows < 1e-6) or np.any(rows > height - 1 + 1e-9) or nused < 1:
        ctx.label("out of reach")
        return ctx.nontrivial(False)
    func = conv.generate_full_sinogram_helical_scan if full else \
        conv.generate_sinogram_helical_scan
    with ctx.unchanged("helical", *arrays):
        got, gang = func(index, data, nproj, pix, y0, y1, pitch, **kw)
    want = a * ypos + bx * np.arange(width) + bi[i0:i0 + nused, None] + 9
    ctx.near(got, want, "sinogram", rtol=2e-5)
    ctx.near(gang, ang[i0:i0 + nused], "angles", atol=1e-9)
    ctx.label("full" if full else kind, flats)
    ctx.nontrivial(True)


@check(quick=100, pitch=F(1, 6), pix=pick(0.25, 0.5), extra=F(0.3, 5),
       kind=pick("180", "360"), below=I(1, 9), above=I(1, 9))
def out_of_range(ctx, pitch, pix, extra, kind, below, above):
    """Indices outside the reconstructable range are refused."""
    height, ystep, y1, depth, ys, ye = setup(0, 5, pitch, pix, 1, extra,
                                             kind, 0.0, None, 4)
    data = np.ones((depth, height, 4))
    m = calc.calculate_maximum_index(0.0, y1, pitch, pix, kind)
    for index in (-below, m + above):
        ctx.raises(ValueError, lambda: conv.generate_sinogram_helical_scan(
            index, data, 5, pix, 0.0, y1, pitch, scan_type=kind),
            "index %d of 0..%d" % (index, m))
    ctx.raises(ValueError, lambda: conv.generate_full_sinogram_helical_scan(
        m + 1 + int(np.ceil(2 * pitch / pix)) + above, data, 5, pix, 0.0, y1,
        pitch, scan_type=kind), "far above")
    # too few projections
    ctx.raises((ValueError, IndexError), lambda:
               conv.generate_sinogram_helical_scan(
                   0, data[:2], 5, pix, 0.0, y1, pitch, scan_type=kind),
               "missing projections")


@check(quick=40, seed=SEED, nproj=I(4, 9), pitch=F(1, 5), extra=F(0.3, 3),
       kind=pick("180", "360"), f=F(0, 1), dtype=pick(
           "uint8", "uint16", "int16", "uint32"), full=st.booleans(),
       use=pick("flat", "dark", "both"))
def integer_data(ctx, seed, nproj, pitch, extra, kind, f, dtype, full, use):
    """Projections, flat and dark images stored as integers give what the
    same numbers stored as floats give: no difference wraps around."""
    pix, y0, width = 0.5, 0.0, 7
    height, ystep, y1, depth, ys, ye = setup(
        seed, nproj, pitch, pix, 2, extra, kind, y0, None, width)
    if full:
        depth += int(np.floor(pix * height / ystep))
    r = rng(seed, 2)
    data = r.integers(5, 100, (depth, height, width)).astype(dtype)
    kw = {"scan_type": kind}
    if use in ("flat", "both"):
        kw["flat"] = r.integers(60, 100, (height, width)).astype(dtype)
    if use in ("dark", "both"):
        # now and then brighter than the projection, or than the flat image
        kw["dark"] = r.integers(10, 50, (height, width)).astype(dtype)
        if use == "both":
            kw["dark"][r.random((height, width)) < 0.05] = 101
    top_index = calc.calculate_maximum_index(y0, y1, pitch, pix, kind)
    index = int(round(f * top_index))
    func = conv.generate_full_sinogram_helical_scan if full else \
        conv.generate_sinogram_helical_scan
    fkw = {k: v * 1.0 if isinstance(v, np.ndarray) else v
           for k, v in kw.items()}
    try:
        want = func(index, data * 1.0, nproj, pix, y0, y1, pitch, **fkw)[0]
    except ValueError:
        ctx.raises(ValueError, lambda: func(
            index, data, nproj, pix, y0, y1, pitch, **kw), "refusal")
        return ctx.nontrivial(False)
    if use == "dark":
        # without flat image it is taken as 1 everywhere
        if np.any(kw["dark"] == 1):
            return ctx.nontrivial(False)
    got = func(index, data, nproj, pix, y0, y1, pitch, **kw)[0]
    ctx.near(got, want, "%s data" % dtype, rtol=1e-4)
    ctx.label(dtype, use)
    ctx.nontrivial(np.any(data.min() < 50))


larger(sinogram, 20, 200, 5, nproj=I(20, 60), pitch=F(1, 8),
       pix=pick(0.1, 0.25, 0.5), width=I(20, 60), top=I(0, 6), left=I(0, 6),
       right=I(0, 6), bottom=I(0, 6))
