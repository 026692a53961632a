"""C23: removing zingers and blobs."""
import numpy as np
import scipy.ndimage as ndi
from hypothesis import strategies as st
from vf.core import check, larger
from vf.gen import SEED, I, F, KINDS, array, rng, pick
import algotom.prep.removal as remo
import algotom.util.utility as util


def components(m):
    """Sets of pixels connected along rows and columns."""
    todo = set(map(tuple, np.argwhere(m != 0)))
    out = []
    while todo:
        comp, edge = set(), [todo.pop()]
        while edge:
            p = edge.pop()
            comp.add(p)
            for d in ((0, 1), (1, 0), (0, -1), (-1, 0)):
                q = (p[0] + d[0], p[1] + d[1])
                if q in todo:
                    todo.remove(q)
                    edge.append(q)
        out.append(comp)
    return out


def small_only(m, size):
    out = np.zeros_like(m)
    for comp in components(m):
        if len(comp) <= size:
            for p in comp:
                out[p] = m[p]
    return out


@check(quick=250, seed=SEED, h=I(1, 14), w=I(1, 14), fill=F(0, 0.7),
       size=I(0, 8), dt=pick("float32", "uint8", "float64"))
def select(ctx, seed, h, w, fill, size, dt):
    """Of a binary image exactly the connected spots of at most the given
    size are kept."""
    m = (rng(seed).random((h, w)) < fill).astype(dt)
    with ctx.unchanged("select_zinger", m):
        got = remo.select_zinger(m, size)
    ctx.same(got, small_only(m, size), "spots")
    n = int(m.sum())
    ctx.eq(bool(remo.check_zinger_size(m, size)), n <= size, "check size")
    ctx.nontrivial(m.any() and len(components(m)) > 1)


@check(quick=250, seed=SEED, h=I(3, 20), w=I(3, 20), thres=F(0.02, 1),
       size=I(1, 4), nz=I(0, 8), own=st.booleans(), amp=F(0.5, 20),
       zero=st.booleans(), kind=KINDS, dt=pick("float32", "float64"))
def zinger(ctx, seed, h, w, thres, size, nz, own, amp, zero, kind, dt):
    """Pixels exceeding the mean of their neighbours (at the given distance
    in eight directions, around the edges) by more than the threshold become
    that mean, all others stay; with a size check only small spots do."""
    r = rng(seed, 2)
    m = array(seed, (h, w), dt, kind, 1, 1.3)
    for _ in range(nz):
        m[int(r.integers(h)), int(r.integers(w))] *= 1 + amp
    if zero:
        m[r.random((h, w)) < 0.4] = 0
    with ctx.unchanged("remove_zinger", m):
        got = remo.remove_zinger(m, thres, size=size, check_size=own)
    acc = np.zeros((h, w))
    for i in (-size, 0, size):
        for j in (-size, 0, size):
            if (i, j) != (0, 0):
                acc += np.roll(m.astype(float), (i, j), (0, 1))
    ave = acc / 8
    ave[ave == 0] = 1
    rel = m / ave - 1
    if np.any(np.abs(rel - thres) < 1e-5):
        return ctx.nontrivial(False)
    hot = rel > thres
    if own:
        hot = small_only(hot.astype(int), size) > 0
    ctx.near(got, np.where(hot, ave, m), "cleaned", rtol=1e-5)
    ctx.same(got[~hot], m[~hot], "other pixels")
    ctx.nontrivial(hot.any())
    ctx.label("hot" if hot.any() else "clean")


@check(quick=150, seed=SEED, h=I(12, 40), w=I(12, 40), y=F(0, 1), x=F(0, 1),
       amp=F(0.5, 50), thres=F(0.06, 0.3), size=I(1, 3))
def single_zinger(ctx, seed, h, w, y, x, amp, thres, size):
    """One hot pixel on a gently varying image is repaired to that image;
    nothing else changes."""
    clean = array(seed, (h, w), "float32", "noise", 1, 1 + thres / 4)
    bad = clean.copy()
    p = int(y * (h - 1)), int(x * (w - 1))
    bad[p] *= 1 + amp
    got = remo.remove_zinger(bad, thres, size=size)
    ctx.near(got, clean, "repaired", atol=thres / 4 + 1e-6)
    keep = np.ones((h, w), bool)
    keep[p] = False
    ctx.same(got[keep], clean[keep], "other pixels")


@check(quick=250, seed=SEED, h=I(1, 12), w=I(5, 30), fill=F(0, 0.6),
       runs=I(1, 6), mdt=pick("float32", "bool", "uint8", "int64"),
       dt=pick("float32", "float64"), kind=KINDS)
def blob(ctx, seed, h, w, fill, runs, mdt, dt, kind):
    """Pixels under the mask, two at each end of a row excepted, are
    interpolated linearly along the row, others stay; image and mask given
    are untouched; row by row is the same."""
    m = array(seed, (h, w), dt, kind, 1, 5)
    k = np.repeat(rng(seed, 3).random((h, (w + runs - 1) // runs)) < fill,
                  runs, axis=1)[:, :w].astype(mdt)
    with ctx.unchanged("remove_blob", m, k):
        got = remo.remove_blob(m, k)
    want = m.astype(float)
    eff = k.astype(bool)
    eff[:, :2] = eff[:, -2:] = False
    for i in range(h):
        x = np.flatnonzero(~eff[i])
        want[i] = np.interp(np.arange(w), x, m[i, x].astype(float))
    ctx.near(got, want, "bridged", rtol=1e-6)
    ctx.same(got[~eff], m[~eff], "pixels outside the mask")
    for i in range(h):
        with ctx.unchanged("remove_blob_1d", m[i], k[i]):
            row = remo.remove_blob_1d(m[i], k[i])
        ctx.near(row, want[i], "one row", rtol=1e-6)
    ctx.raises(ValueError, lambda: remo.remove_blob(m, k[:, 1:]),
               "mask of another shape")
    ctx.nontrivial(eff.any())


@check(quick=120, seed=SEED, h=I(6, 30), w=I(24, 60), size=I(5, 21),
       snr=F(1.5, 5), nb=I(0, 4))
def blob_mask(ctx, seed, h, w, size, snr, nb):
    """Row by row, the mask flags the outliers of the (slightly smoothed)
    flat relative to its median along the row, one pixel wider, never the
    two pixels at the ends but for the widening."""
    r = rng(seed, 4)
    flat = 100 + 5 * array(seed, (h, w), "float64", "smooth") \
        + r.random((h, w))
    for _ in range(nb):
        y, x = int(r.integers(h)), int(r.integers(w))
        flat[max(0, y - 2):y + 3, max(0, x - 2):x + 3] *= 0.7
    a = ndi.median_filter(flat, 2)
    want = np.zeros((h, w))
    try:
        for i in range(h):
            med = ndi.median_filter(a[i], size)
            f = util.detect_stripe(a[i] / med, snr)
            f[:2] = f[-2:] = 0
            want[i] = ndi.binary_dilation(f)
    except ValueError:
        ctx.label("noise-free")
        ctx.raises(ValueError, lambda: remo.generate_blob_mask(
            flat, size, snr), "noise-free data")
        return ctx.nontrivial(False)
    with ctx.unchanged("generate_blob_mask", flat):
        got = remo.generate_blob_mask(flat, size, snr)
    ctx.same(got, want, "mask")
    ctx.nontrivial(want.any())


larger(select, h=I(40, 120), w=I(40, 120), size=I(0, 30))
larger(zinger, h=I(60, 200), w=I(60, 200), nz=I(0, 40))
larger(blob, h=I(20, 100), w=I(60, 400), runs=I(1, 30))
