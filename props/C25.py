"""C25: unwrapping phase images."""
import numpy as np
import scipy.ndimage as ndi
from hypothesis import strategies as st
from vf.core import check, larger
from vf.gen import SEED, I, F, rng, pick
import algotom.prep.phase as ps

PI2 = 2 * np.pi


def wrap(a):
    """Into (-pi, pi]."""
    return a - PI2 * np.round(a / PI2)


def steep(a):
    return max(np.abs(np.diff(a, axis=0)).max() if len(a) > 1 else 0,
               np.abs(np.diff(a, axis=1)).max() if a.shape[1] > 1 else 0)


def rough(seed, h, w, slope, share):
    """Any phase whose neighbours differ by no more than `slope`: waves and
    noise."""
    r = rng(seed, 51)
    y, x = np.mgrid[0:h, 0:w]
    f = np.zeros((h, w))
    for _ in range(3):
        f += r.normal() * np.cos(PI2 * (r.uniform(0, 3) * x / w
                                        + r.uniform(0, 3) * y / h
                                        + r.random()))
    f += r.normal() * x + r.normal() * y
    n = r.random((h, w))
    f = f * (1 - share) * slope / max(steep(f), 1e-9)
    return f + n * share * slope / max(steep(n), 1e-9)


def waves(seed, h, w, slope, turns=2.0):
    r = rng(seed, 52)
    y, x = np.mgrid[0:h, 0:w]
    f = np.zeros((h, w))
    for _ in range(3):
        f += r.uniform(-1, 1) * np.cos(
            PI2 * (r.uniform(0, turns) * x / w + r.uniform(0, turns) * y / h
                   + r.random()))
    return f * slope / max(steep(f), 1e-9)


@check(quick=250, seed=SEED, h=I(2, 60), w=I(2, 60), slope=F(0.1, 3.1),
       share=F(0, 1), jumps=I(0, 3), own=st.booleans())
def cosine(ctx, seed, h, w, slope, share, jumps, own):
    """Whatever multiples of 2*pi are added to its pixels, a phase whose
    neighbours differ by less than pi comes back but for its mean."""
    f = rough(seed, h, w, slope, share)
    r = rng(seed, 53)
    m = wrap(f) + PI2 * r.integers(-jumps, jumps + 1, (h, w))
    win = ps._make_cosine_window(h, w) if own else None
    with ctx.unchanged("cosine", m, *([win] if own else [])):
        out = ps.unwrap_phase_based_cosine_transform(m, win)
    ctx.near(out - out.mean(), f - f.mean(), "unwrapped phase", rtol=1e-6,
             atol=1e-6)
    wraps = np.abs(m - f).max() > 1
    ctx.label("wraps" if wraps else "no wraps")
    ctx.nontrivial(wraps)


@check(quick=150, seed=SEED, h=I(32, 80), w=I(32, 80), slope=F(0.05, 1.0),
       off=F(-3, 3), own=st.booleans())
def fourier(ctx, seed, h, w, slope, off, own):
    """A gently varying phase comes back but for its mean, to a few
    hundredths of its range."""
    f = waves(seed, h, w, slope)
    m = wrap(f + off)
    wins = (ps._make_window(2 * h, 2 * w, "forward"),
            ps._make_window(2 * h, 2 * w, "backward")) if own else ()
    with ctx.unchanged("fft", m, *wins):
        out = ps.unwrap_phase_based_fft(m, *wins)
    ctx.shape(out, (h, w), "shape")
    ctx.near(out - out.mean(), f - f.mean(), "unwrapped phase",
             atol=0.015 * max(1.0, np.ptp(f)))
    ctx.nontrivial(np.abs(m - f - off).max() > 1)


@check(quick=150, seed=SEED, h=I(32, 80), w=I(32, 80), slope=F(0.05, 1.0),
       off=F(-3, 3), it=I(2, 6), own=st.booleans(), wei=st.booleans())
def iterative(ctx, seed, h, w, slope, off, it, own, wei):
    """Iterating makes the result exact."""
    f = waves(seed, h, w, slope)
    m = wrap(f + off)
    kw = {"iteration": it}
    if own:
        kw["win_for"] = ps._make_window(2 * h, 2 * w, "forward")
        kw["win_back"] = ps._make_window(2 * h, 2 * w, "backward")
    if wei:
        kw["weight_map"] = np.ones((h, w))
    with ctx.unchanged("iterative", m, *[v for v in kw.values()
                                         if not np.isscalar(v)]):
        out = ps.unwrap_phase_iterative_fft(m, **kw)
    ctx.near(out - out.mean(), f - f.mean(), "unwrapped phase", rtol=1e-9,
             atol=1e-9)
    ctx.nontrivial(np.abs(m - f - off).max() > 1)


@check(quick=120, seed=SEED, h=I(8, 40), w=I(8, 40), it=I(0, 5),
       zero=F(0, 0.6))
def weighted(ctx, seed, h, w, it, zero):
    """Each iteration adds the unwrapped, weighted, re-wrapped rest."""
    r = rng(seed, 54)
    m = r.uniform(-3, 3, (h, w))
    wei = np.where(r.random((h, w)) < zero, 0.0, r.random((h, w)))
    fy = np.fft.fftfreq(2 * h)[:, None] * 2
    fx = np.fft.fftfreq(2 * w)[None] * 2
    k = fx ** 2 + fy ** 2

    def solve(a):
        b = np.pad(a, ((h, 0), (0, w)), mode="symmetric")
        e = np.exp(1j * b)
        lap = np.imag(np.fft.ifft2(np.fft.fft2(e) * k) / e)
        k1 = k.copy()
        k1[0, 0] = 1.0
        return np.real(np.fft.ifft2(np.fft.fft2(lap) / k1))[h:, :w]

    exp = solve(m * wei)
    for _ in range(it):
        d = m - wrap(exp)
        d = wrap(d - d.mean())
        if np.abs(np.abs(d) - np.pi).min() < 1e-7:  # may wrap either way
            return ctx.nontrivial(False)
        exp = exp + solve(d * wei)
    out = ps.unwrap_phase_iterative_fft(m, it, weight_map=wei)
    ctx.near(out, exp, "weighted iterations", rtol=1e-6, atol=1e-6)
    ctx.nontrivial(it > 0 and zero > 0)


@check(quick=60, h=I(4, 20), w=I(4, 20), dh=I(-2, 2), dw=I(-2, 2))
def window_sizes(ctx, h, w, dh, dw):
    """Windows of the wrong size are refused."""
    m = np.zeros((h, w))
    bad = dh != 0 or dw != 0

    def see(call, msg):
        if bad:
            ctx.raises(ValueError, call, msg)
        else:
            call()
    see(lambda: ps.unwrap_phase_based_cosine_transform(
        m, np.ones((h + dh, w + dw))), "cosine window")
    see(lambda: ps.unwrap_phase_based_fft(
        m, np.ones((2 * h + dh, 2 * w + dw))), "forward window")
    see(lambda: ps.unwrap_phase_based_fft(
        m, None, np.ones((2 * h + dh, 2 * w + dw))), "backward window")
    for s in ((1, w), (h, 1), (1, 1)):      # of sizes that would broadcast
        ctx.raises(ValueError, lambda: ps.unwrap_phase_based_cosine_transform(
            m, np.ones(s)), "cosine window of %r" % (s,))
    for s in ((1, 2 * w), (2 * h, 1)):
        ctx.raises(ValueError, lambda: ps.unwrap_phase_based_fft(
            m, np.ones(s)), "forward window of %r" % (s,))
        ctx.raises(ValueError, lambda: ps.unwrap_phase_based_fft(
            m, None, np.ones(s)), "backward window of %r" % (s,))
    ctx.nontrivial(bad)


def quality_model(mat, size):
    h, w = mat.shape
    r = size // 2
    p = np.pad(mat, 1, mode="reflect")
    out = np.zeros((h, w))
    for axis in (1, 0):
        d = wrap(np.diff(p, axis=axis))
        d = d[1:h + 1, :w] if axis == 1 else d[:h, 1:w + 1]
        d = np.pad(d, r, mode="symmetric")
        for i in range(h):
            for j in range(w):
                c = d[i:i + 2 * r + 1, j:j + 2 * r + 1]
                out[i, j] += np.sqrt(np.sum((c - c.mean()) ** 2))
    return out / (2 * r + 1) ** 2


@check(quick=120, seed=SEED, h=I(8, 24), w=I(8, 24), size=I(1, 7),
       slope=F(0.2, 2), share=F(0, 1))
def quality(ctx, seed, h, w, size, slope, share):
    """The quality map is the spread of the wrapped differences within the
    window around every pixel."""
    m = wrap(rough(seed, h, w, slope, share))
    with ctx.unchanged("quality", m):
        out = ps.get_quality_map(m, size)
    ctx.near(out, quality_model(m, size), "quality map", rtol=1e-4,
             atol=1e-5)
    ctx.nontrivial(size > 1)


@check(quick=80, seed=SEED, h=I(14, 30), w=I(14, 30), size=I(1, 7),
       y=F(0, 1), x=F(0, 1), amp=F(0.5, 2.5))
def quality_local(ctx, seed, h, w, size, y, x, amp):
    """An odd pixel spoils the quality of the pixels whose window sees it,
    itself included, and of no other."""
    r = size // 2
    i, j = 4 + int(y * (h - 9)), 4 + int(x * (w - 9))
    m = np.zeros((h, w))
    m[i, j] = amp
    out = ps.get_quality_map(m, size)
    yy, xx = np.mgrid[0:h, 0:w]
    far = (np.abs(yy - i) > r + 1) | (np.abs(xx - j) > r + 1)
    ctx.near(out[far], np.zeros(int(far.sum())), "pixels far away",
             atol=1e-5, scale=0)
    if r > 0:
        ctx.true(out[i, j] > 1e-3, "the odd pixel itself counts as good")
        near = (np.abs(yy - i) <= r - 1) & (np.abs(xx - j) <= r - 1)
        ctx.true(out[near].min() > 1e-4, "a pixel next to it counts as good")
    ctx.nontrivial(r > 0)


@check(quick=150, seed=SEED, h=I(12, 50), w=I(12, 50), snr=F(0.5, 5),
       gain=F(0.01, 50), off=F(-10, 10), peaks=I(0, 8))
def weight_mask(ctx, seed, h, w, snr, gain, off, peaks):
    """Pixels far above the spread of the rest are marked; neither gain,
    offset nor the order of pixels matters."""
    r = rng(seed, 55)
    a = r.random((h, w))
    hit = r.choice(h * w, peaks, replace=False)
    a.flat[hit] = 1e3
    with ctx.unchanged("weight mask", a):
        m = ps.get_weight_mask(a, snr)
    ctx.true(np.all((m == 0) | (m == 1)), "mask not of zeros and ones")
    ctx.true(np.all(m.flat[hit] == 1), "an outlier is not marked")
    if len(np.unique(a[m == 1])) and len(np.unique(a[m == 0])):
        ctx.true(a[m == 1].min() > a[m == 0].max(), "not a threshold")
    if peaks == 0:
        # the line through the middle ends at about 1
        ctx.true(m.mean() < 0.05, "pixels of plain noise are marked")
    b = a.ravel()[r.permutation(h * w)].reshape(h, w)
    ctx.eq(int(ps.get_weight_mask(b, snr).sum()), int(m.sum()),
           "marked pixels after shuffling")
    m2 = ps.get_weight_mask(a * gain + off, snr)
    ctx.same(m2, m, "mask of scaled image")
    ctx.nontrivial(peaks > 0)


@check(quick=80, seed=SEED, h=I(16, 50), w=I(16, 50), snr=F(0.2, 5),
       rel=st.one_of(F(0.2, 0.85), F(1.15, 2)), lo=F(-5, 5), span=F(0.1, 9))
def weight_threshold(ctx, seed, h, w, snr, rel, lo, span):
    """A pixel is marked from half `snr` times the spread of the others above
    their largest."""
    a = rng(seed, 56).permutation(np.linspace(0, 1, h * w))
    k = int(rng(seed, 57).integers(h * w))
    a[k] = 1 + 0.5 * snr * rel
    m = ps.get_weight_mask((a * span + lo).reshape(h, w), snr).ravel()
    near = np.abs(a - 1) < 0.02 + 0.15 * 0.5 * snr
    near[k] = False
    ctx.eq(int(m[k]), int(rel > 1), "mark of the pixel")
    ctx.eq(int(m[~near].sum()), int(rel > 1), "marked pixels")
    ctx.nontrivial(rel > 1)


larger(cosine, h=I(120, 400), w=I(120, 400))
larger(fourier, h=I(120, 400), w=I(120, 400))
larger(quality, 4, 50, h=I(50, 120), w=I(50, 120), size=I(1, 15))
