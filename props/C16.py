"""C16: finding the overlap of two images, and the centre of a 360 scan."""
import numpy as np
import scipy.ndimage as ndi
from hypothesis import strategies as st
from vf.core import check, larger
from vf.gen import SEED, I, F, array, blobs, disc_sinogram, rng, pick
import algotom.prep.calculation as calc


def pearson(a, b):
    a = a.ravel() - a.mean()
    b = b.ravel() - b.mean()
    return float((a * b).sum() / np.sqrt((a * a).sum() * (b * b).sum()))


def slide(m1, m2, win, side, denoise, norm, useov):
    """Reference: one badness per window position along m1."""
    m1, m2 = m1.astype(float), m2.astype(float)
    if denoise:
        m1, m2 = (ndi.gaussian_filter(m, 2, mode="reflect") for m in (m1, m2))
    half = int(min(max(win, 6), min(m1.shape[1], m2.shape[1]) // 2 - 1)) // 2
    n = 2 * half
    ref = m2[:, :n] if side == 1 else m2[:, m2.shape[1] - n:]
    down = np.linspace(1, 0, n)
    w1, w2 = (down, 1 - down) if side == 1 else (1 - down, down)
    out = []
    for p in range(half, m1.shape[1] - half):
        roi = m1[:, p - half:p + half]
        if norm:
            roi = roi * (np.abs(ref).mean(1) / np.abs(roi).mean(1))[:, None]
        bad = abs(1 - pearson(roi, ref))
        if useov:
            mix = roi * w1 + ref * w2
            bad = (bad + abs(1 - pearson(roi, mix))
                   + abs(1 - pearson(ref, mix))) / 3
        out.append(bad)
    out = np.asarray(out)
    return out / out.min(), half


@check(quick=100, seed=SEED, h=I(2, 20), w1=I(16, 50), w2=I(16, 50),
       win=I(4, 30), side=pick(0, 1), denoise=st.booleans(),
       norm=st.booleans(), useov=st.booleans(), ncore=pick(1, 2, None),
       lo=pick(0.2, 0.2, -2.0))
def search(ctx, seed, h, w1, w2, win, side, denoise, norm, useov, ncore, lo):
    """One badness per position of the window: 1 - Pearson coefficient
    (optionally of blended and row-normalised windows), relative to the
    best."""
    m1 = array(seed, (h, w1), "float64", "noise", lo, 3)
    m2 = array(seed + 1, (h, w2), "float64", "noise", lo, 3)
    want, half = slide(m1, m2, win, side, denoise, norm, useov)
    with ctx.unchanged("search_overlap", m1, m2):
        got, off = calc.search_overlap(m1, m2, win, side, denoise=denoise,
                                       norm=norm, use_overlap=useov,
                                       ncore=ncore)
    ctx.eq(int(off), half, "half window")
    ctx.near(got, want, "metric", rtol=2e-4)
    ctx.label("side%d" % side, "norm" if norm else "plain")
    ctx.nontrivial(len(want) > 3)
    ctx.raises(ValueError, lambda: calc.search_overlap(
        m1, m2[:-1] if h > 2 else np.ones((h + 1, w2)), win, side),
        "images of different heights")


@check(quick=150, seed=SEED, n=I(5, 40), depth=F(0.05, 5), pos=F(0, 1),
       sub=F(-0.45, 0.45), noise=pick(0.0, 0.3))
def curvature(ctx, seed, n, depth, pos, sub, noise):
    """Curvature: size of the second-order coefficient of the best parabola
    through five points around the minimum; position: vertex of the parabola
    through three of them; exact for a parabola."""
    c = 2 + pos * (n - 5) if n > 5 else 2.0
    c = float(np.clip(np.round(c), 2, n - 3)) + sub
    x = np.arange(n)
    y = 1 + depth * (x - c) ** 2
    cur, p = calc.calculate_curvature(y)
    ctx.near(cur, depth, "curvature of a parabola", rtol=1e-5)
    ctx.near(p, c, "vertex of a parabola", atol=1e-3)
    if seed % 3 == 0:                   # the least value anywhere
        y = 1 + depth * (x - pos * (n - 1)) ** 2
    y = y + noise * rng(seed).random(n)
    m = int(np.clip(np.argmin(y), 2, n - 3))
    a = np.dot([2, -1, -2, -1, 2], y[m - 2:m + 3]) / 14
    l, k, r = y[m - 1:m + 2]
    v = m + (l - r) / (2 * (l - 2 * k + r)) if l - 2 * k + r != 0 else m
    cur, p = calc.calculate_curvature(y)
    ctx.near(cur, abs(a), "curvature", rtol=1e-4, atol=1e-6)
    if abs(abs(v - m) - 1) > 1e-3:
        ctx.near(p, v if abs(v - m) < 1 else m, "position", atol=1e-3)
    ctx.nontrivial(noise > 0 and n > 6)


def pair(seed, h, w1, w2, ov, side, gain, grad):
    """Two images of one scene sharing `ov` columns."""
    p = ndi.gaussian_filter(rng(seed, 5).random((h, w1 + w2 + 40)), (2, 2))
    p = (p - p.min()) / (p.max() - p.min()) + 0.5
    yy = np.arange(h) * 1.0

    def samp(x0, n):
        g = np.meshgrid(yy, x0 + np.arange(n), indexing="ij")
        return ndi.map_coordinates(p, g, order=3)
    if side == 1:
        a, b = samp(20, w1), samp(20 + w1 - ov, w2)
    else:
        b, a = samp(20, w2), samp(20 + w2 - ov, w1)
    return a, b * gain * (1 + grad * yy[:, None] / h)


@check(quick=60, seed=SEED, h=I(40, 60), w1=I(60, 110), w2=I(60, 110),
       frac=F(0, 1), side=pick(0, 1), told=st.booleans(),
       denoise=st.booleans(), norm=st.booleans(), useov=st.booleans(),
       gain=F(0.3, 3), win=I(22, 28), cost=3)
def recover(ctx, seed, h, w1, w2, frac, side, told, denoise, norm, useov,
            gain, win):
    """The overlap of two images of one scene is found to half a pixel, on
    the right side, whether or not the side is told, whatever the relative
    brightness (per row with normalisation)."""
    ov = 32 + frac * (min(w1, w2) - 38)
    if not told:                    # see KNOWN
        denoise = denoise or norm
    g = gain if norm or not useov else 1.0
    a, b = pair(seed, h, w1, w2, ov, side, g, 1.0 if norm else 0.0)
    with ctx.unchanged("find_overlap", a, b):
        got, s, p = calc.find_overlap(
            a, b, win, side=side if told else None, denoise=denoise,
            norm=norm, use_overlap=useov)
    ctx.eq(int(s), side, "side")
    ctx.true(abs(got - ov) < 0.5, "overlap %.3f, true %.3f" % (got, ov))
    half = win // 2
    ctx.near(p, w1 - ov + half if side == 1 else ov - half,
             "position of the window", atol=0.5)
    ctx.label("side%d" % side, "told" if told else "unknown")
    ctx.nontrivial(w1 != w2)


@check(quick=20, seed=SEED, h=I(20, 30), w=I(50, 70), n=I(2, 4),
       side=pick(0, 1, None), norm=st.booleans(), denoise=st.booleans(),
       useov=st.booleans(), cost=4)
def multiple(ctx, seed, h, w, n, side, norm, denoise, useov):
    """Overlaps of a row of images are those of the successive pairs."""
    p = ndi.gaussian_filter(rng(seed, 5).random((h, n * w)), (2, 2)) + 0.5
    mats, x = [], 0
    for k in range(n):
        mats.append(p[:, x:x + w])
        x += w - int(rng(seed, k).integers(24, 40))
    if side == 0:
        mats = mats[::-1]
    got = calc.find_overlap_multiple(mats, 20, side=side, denoise=denoise,
                                     norm=norm, use_overlap=useov)
    ctx.eq(len(got), n - 1, "number of overlaps")
    for k in range(n - 1):
        want = calc.find_overlap(mats[k], mats[k + 1], 20, side=side,
                                 denoise=denoise, norm=norm,
                                 use_overlap=useov)
        ctx.near(np.asarray(got[k], float), np.asarray(want, float),
                 "pair %d" % k, atol=1e-5)
    ctx.raises(ValueError, lambda: calc.find_overlap_multiple(mats[:1], 20),
               "a single image")
    ctx.nontrivial(n > 2)


@check(quick=30, seed=SEED, h=I(35, 70), w=I(90, 140), frac=F(0, 1),
       side=pick(0, 1), told=st.booleans(), norm=st.booleans(),
       useov=st.booleans(), denoise=st.booleans(), cost=4)
def centre_360(ctx, seed, h, w, frac, side, told, norm, useov, denoise):
    """In a full-turn sinogram of an object wider than the detector the axis
    is found to half a pixel on either side, and the four values returned
    agree with one another."""
    h = 2 * h + 1                   # both half turns share a row
    ov = 36 + frac * 20
    cor = (ov - 1) / 2 if side == 0 else w - (ov + 1) / 2
    r = rng(seed, 3)
    ang = np.linspace(0, 2 * np.pi, h)
    reach = w - ov / 2
    discs = []
    for _ in range(40):
        rad = 2.5 + 4 * r.random()
        d, t = (reach - rad - 2) * np.sqrt(r.random()), r.random() * 6.283
        discs.append((d * np.cos(t), d * np.sin(t), rad, 0.5 + r.random()))
    s = disc_sinogram(discs, ang, w, cor) + 0.5
    with ctx.unchanged("find_center_360", s):
        got, gov, gs, gp = calc.find_center_360(
            s, 20, side=side if told else None, denoise=denoise, norm=norm,
            use_overlap=useov)
    ctx.eq(int(gs), side, "side")
    ctx.true(abs(got - cor) < 0.5, "centre %.3f, true %.3f" % (got, cor))
    ctx.near(gov, ov, "overlap", atol=1.0)
    ctx.near(got, (gov - 1) / 2 if side == 0 else w - (gov + 1) / 2,
             "centre and overlap", atol=1e-3)
    ctx.near(gp, gov - 10 if side == 0 else w - gov + 10,
             "window position and overlap", atol=1e-3)
    ctx.nontrivial(not told)


@check(quick=40, seed=SEED, h=I(30, 50), w=I(50, 80), side=pick(0, 1),
       both=st.booleans(), useov=st.booleans(), ncore=pick(1, None), cost=3)
def untold_side(ctx, seed, h, w, side, both, useov, ncore):
    """Not telling the side gives exactly what telling the right one gives."""
    a, b = pair(seed, h, w, w, 36.3, side, 1.2, 0.0)
    kw = dict(denoise=both, norm=both, use_overlap=useov, ncore=ncore)
    want = calc.find_overlap(a, b, 22, side=side, **kw)
    got = calc.find_overlap(a, b, 22, **kw)
    ctx.near(np.asarray(got, float), np.asarray(want, float), "untold side",
             atol=1e-5)


@check(quick=50, seed=SEED, h=I(8, 31), w=I(30, 70), win=I(6, 30),
       side=pick(0, 1, None), denoise=st.booleans(), norm=st.booleans(),
       useov=st.booleans(), ncore=pick(1, None))
def halves(ctx, seed, h, w, win, side, denoise, norm, useov, ncore):
    """The overlap searched for in a full turn is that of its first half and
    its second half mirrored, both holding the row in the middle."""
    s = array(seed, (h, w), "float64", "noise", 0.2, 3)
    kw = dict(side=side, denoise=denoise, norm=norm, use_overlap=useov,
              ncore=ncore)
    n = h // 2 + 1
    want = calc.find_overlap(s[:n], s[h - n:, ::-1], win, **kw)
    cor, *got = calc.find_center_360(s, win, **kw)
    ctx.near(np.asarray(got, float), np.asarray(want, float), "overlap",
             atol=1e-5)
    ov = float(want[0])
    ctx.near(float(cor), (ov - 1) / 2 if want[1] == 0 else w - (ov + 1) / 2,
             "centre", atol=1e-4)


def _swapped():
    a, b = pair(3, 40, 60, 60, 36.3, 1, 1.0, 0.0)
    told = calc.find_overlap(a, b, 22, side=1, denoise=True, norm=False)
    free = calc.find_overlap(a, b, 22, denoise=True, norm=False)
    return abs(told[0] - free[0]) > 1e-4


KNOWN = [{
    "what": "find_overlap(side=None) runs with denoise and norm exchanged",
    "still_fails": _swapped}]


larger(search, 4, 50, h=I(20, 100), w1=I(100, 260), w2=I(100, 260), win=I(20,
       90))
larger(curvature, n=I(100, 600))
