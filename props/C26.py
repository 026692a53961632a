"""C26: surfaces from their gradients."""
import numpy as np
from hypothesis import strategies as st
from vf.core import check, larger
from vf.gen import SEED, I, F, rng, pick
import algotom.prep.phase as ps

PI2 = 2 * np.pi
FC = ps.reconstruct_surface_from_gradient_FC_method
SCS = ps.reconstruct_surface_from_gradient_SCS_method


def level(a):
    a = np.asarray(a, np.float64)
    return a - a.mean()


def bumps(seed, h, w, n=3):
    """Gaussian bumps, flat at the edges, with their gradient."""
    r = rng(seed, 61)
    y, x = np.mgrid[0:h, 0:w].astype(float)
    f, gx, gy = (np.zeros((h, w)) for _ in range(3))
    for _ in range(n):
        s = r.uniform(2.5, min(h, w) / 14)
        cx = r.uniform(4.5 * s, w - 1 - 4.5 * s)
        cy = r.uniform(4.5 * s, h - 1 - 4.5 * s)
        g = r.uniform(0.5, 1.5) * r.choice([-1, 1]) * np.exp(
            -((x - cx) ** 2 + (y - cy) ** 2) / (2 * s * s))
        f += g
        gx -= (x - cx) / s ** 2 * g
        gy -= (y - cy) / s ** 2 * g
    return f, gx, gy


@check(quick=250, seed=SEED, h=I(1, 40), w=I(1, 40), rough=st.booleans(),
       own=st.booleans())
def fc_model(ctx, seed, h, w, rough, own):
    """The FC surface has, in the mirrored domain, the spectrum that fits
    both gradients best."""
    r = rng(seed, 62)
    if rough:
        gx, gy = r.normal(size=(2, h, w))
    else:
        y, x = np.mgrid[0:h, 0:w]
        gx = np.cos(0.2 * x + 0.1 * y + 6 * r.random()) * r.normal()
        gy = np.sin(0.1 * x - 0.3 * y + 6 * r.random()) * r.normal()
    m = [np.fft.fft2(np.pad(g, ((h, 0), (0, w)), mode="symmetric"))
         for g in (gx, gy)]
    fy = np.fft.fftfreq(2 * h)[:, None]
    fx = np.fft.fftfreq(2 * w)[None]
    den = PI2 * (fx ** 2 + fy ** 2)
    den[0, 0] = np.inf
    exp = np.real(np.fft.ifft2(-1j * (fx * m[0] + fy * m[1]) / den))[h:, :w]
    win = ps._make_window_FC_method(2 * h, 2 * w) if own else None
    with ctx.unchanged("FC", gx, gy, *(win or ())):
        out = FC(gx, gy, correct_negative=False, window=win)
    ctx.near(out, exp, "surface", rtol=1e-5, atol=1e-5)
    ctx.nontrivial(h != w and h > 1 and w > 1)


@check(quick=150, seed=SEED, h=I(40, 90), w=I(40, 90), fc=st.booleans(),
       pad=I(0, 20), own=st.booleans())
def bump_truth(ctx, seed, h, w, fc, pad, own):
    """Bumps on a plane come back, their height and all."""
    f, gx, gy = bumps(seed, h, w)
    if fc:
        out = FC(gx, gy, correct_negative=False)
    else:
        win = ps._make_window_SCS_method(h + 2 * pad, w + 2 * pad) if own \
            else None
        with ctx.unchanged("SCS", gx, gy, *(win or ())):
            out = SCS(gx, gy, correct_negative=False, pad=pad, window=win)
    ctx.label("FC" if fc else "SCS")
    ctx.near(level(out), level(f), "surface", atol=(0.2 if fc else 0.08) * np.ptp(f))
    ctx.nontrivial(h != w)


@check(quick=200, seed=SEED, h=I(2, 60), w=I(2, 60), modes=I(1, 4),
       own=st.booleans())
def scs_modes(ctx, seed, h, w, modes, own):
    """A periodic wave comes back with the gain the discrete operators give
    its frequency."""
    r = rng(seed, 64)
    y, x = np.mgrid[0:h, 0:w].astype(float)
    exp, gx, gy = (np.zeros((h, w)) for _ in range(3))
    for _ in range(modes):
        k, l = int(r.integers(0, (w + 1) // 2)), \
            int(r.integers(-((h - 1) // 2), (h + 1) // 2))
        if k == 0 and l == 0:
            continue
        a, b = PI2 * k / w, PI2 * l / h
        p, v = r.random() * PI2, r.uniform(0.2, 1)
        gx -= v * a * np.sin(a * x + b * y + p)
        gy -= v * b * np.sin(a * x + b * y + p)
        gain = (np.sin(a) * a + np.sin(b) * b) / (
            4 * (np.sin(a / 2) ** 2 + np.sin(b / 2) ** 2))
        exp += v * gain * np.cos(a * x + b * y + p)
    win = ps._make_window_SCS_method(h, w) if own else None
    with ctx.unchanged("SCS", gx, gy, *(win or ())):
        out = SCS(gx, gy, correct_negative=False, window=win)
    ctx.near(level(out), level(exp), "surface", rtol=1e-4, atol=1e-5)
    ctx.nontrivial(h != w and np.ptp(exp) > 0.1)


@check(quick=150, seed=SEED, h=I(2, 30), w=I(2, 30), fc=st.booleans(),
       pad=I(0, 6), mode=pick("linear_ramp", "edge", "constant"),
       c=F(-3, 3))
def laws(ctx, seed, h, w, fc, pad, mode, c):
    """Linear in the gradients, symmetric in both directions, and free of
    negative heights when asked, which moves the surface as a whole, as far
    above zero as it was below."""
    r = rng(seed, 65)
    g = [r.normal(size=(h, w)) for _ in range(4)]

    def rec(gx, gy, neg=False):
        if fc:
            return FC(gx, gy, correct_negative=neg)
        return SCS(gx, gy, correct_negative=neg, pad=pad, pad_mode=mode)
    a, b = rec(g[0], g[1]), rec(g[2], g[3])
    ctx.eq(a.dtype, np.dtype("float32"), "type")
    ctx.shape(a, (h, w), "shape")
    tol = 1e-4 * (np.abs(a).max() + abs(c) * np.abs(b).max() + 0.1)
    ctx.near(rec(g[0] + c * g[2], g[1] + c * g[3]),
             a + c * b.astype(np.float64), "linear", atol=tol)
    ctx.near(rec(g[1].T, g[0].T), a.T, "transposed", atol=tol)
    pos = rec(g[0], g[1], True)
    ctx.true(pos.min() >= 0, "negative heights are left")
    ctx.near(level(pos), level(a), "moved as a whole", atol=tol)
    ctx.near(pos.min(), abs(a.min()), "lowest point", atol=tol)
    if a.min() >= 0:
        ctx.near(pos, a, "nothing to correct", atol=tol)
    ctx.label("FC" if fc else "SCS")


@check(quick=60, h=I(3, 12), w=I(3, 12), dh=I(-2, 2), dw=I(-2, 2),
       pad=I(0, 4))
def refused(ctx, h, w, dh, dw, pad):
    """Gradients or windows of different sizes are refused."""
    gx = np.ones((h, w))
    bad = dh != 0 or dw != 0
    see = (lambda call, msg: ctx.raises(ValueError, call, msg)) if bad \
        else (lambda call, msg: call())
    gy = np.ones((h + dh, w + dw))
    see(lambda: FC(gx, gy), "FC gradients")
    see(lambda: SCS(gx, gy, pad=pad), "SCS gradients")
    win = ps._make_window_FC_method(2 * h + dh, 2 * w + dw)
    see(lambda: FC(gx, gx, window=win), "FC window")
    win = ps._make_window_SCS_method(h + 2 * pad + dh, w + 2 * pad + dw)
    see(lambda: SCS(gx, gx, window=win, pad=pad), "SCS window")
    for s in ((1, w), (h, 1)):              # of sizes that would broadcast
        if s != (h, w):
            ctx.raises(ValueError, lambda: FC(gx, np.ones(s)), "FC gradient")
            ctx.raises(ValueError, lambda: SCS(gx, np.ones(s), pad=pad),
                       "SCS gradient")
    for s in ((1, w + 2 * pad), (h + 2 * pad, 1)):
        ctx.raises(ValueError, lambda: SCS(gx, gx, window=(
            np.ones(s), np.ones(s)), pad=pad), "SCS window of %r" % (s,))
    for s in ((1, 2 * w), (2 * h, 1)):
        ctx.raises(ValueError, lambda: FC(gx, gx, window=(
            np.ones(s), np.ones(s))), "FC window of %r" % (s,))
    for m in (FC, SCS):
        ctx.raises(ValueError, lambda: m(gx, gx, window=gx), "one array")
        ctx.raises(ValueError, lambda: m(gx, gx, window=(gx, gx)), "two")
    ctx.nontrivial(bad)


larger(fc_model, h=I(80, 300), w=I(80, 300))
larger(scs_modes, h=I(80, 300), w=I(80, 300))
larger(laws, h=I(60, 200), w=I(60, 200), pad=I(0, 60))
