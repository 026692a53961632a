"""C43: simulated sinograms and artifacts."""
import numpy as np
from hypothesis import strategies as st
from vf.core import check, larger
from vf.gen import SEED, I, F, KINDS, array, rng, pick
import algotom.util.simulation as sim
import algotom.rec.reconstruction as rec


def gaussians(seed, size, n=3):
    r = rng(seed, 81)
    out = []
    for _ in range(n):
        d, t = 0.28 * size * np.sqrt(r.random()), 2 * np.pi * r.random()
        out.append((d * np.cos(t), d * np.sin(t), r.uniform(1.5, 3),
                    r.uniform(.5, 1.5)))
    return out


def picture(obj, size):
    i, j = np.mgrid[:size, :size]
    x, y = j - size // 2, size // 2 - i
    return sum(v * np.exp(-((x - a) ** 2 + (y - b) ** 2) / (2 * s * s))
               for a, b, s, v in obj)


def projections(obj, size, angles):
    x = np.arange(size) - size // 2
    out = np.zeros((len(angles), size))
    for a, b, s, v in obj:
        c = a * np.cos(angles) + b * np.sin(angles)
        out += v * np.sqrt(2 * np.pi) * s * np.exp(
            -(x[None] - c[:, None]) ** 2 / (2 * s * s))
    return out


@check(quick=80, seed=SEED, size=I(48, 90), pad=pick(0.5, 0.75, 1.0),
       n=I(1, 12), lo=F(-3.1, 3.1), mode=pick("edge", "constant"),
       listed=st.booleans())
def exact_projections(ctx, seed, size, pad, n, lo, mode, listed):
    """Projections of smooth objects are their line integrals, for any
    angles, and sizes even or odd."""
    obj = gaussians(seed, size)
    mat = picture(obj, size)
    ang = np.clip(lo + rng(seed, 2).random(n) * 6.2 - 3.1, -np.pi, np.pi)
    with ctx.unchanged("make_sinogram", mat, ang):
        got = sim.make_sinogram(mat, list(ang) if listed else ang,
                                pad_rate=pad, pad_mode=mode)
    want = projections(obj, size, ang)
    ctx.near(got, want, "projections", rtol=0.02)


@check(quick=80, seed=SEED, size=I(16, 64), kind=pick("noise", "steps",
                                                      "sparse", "smooth"),
       pad=pick(0.5, 0.8, 1.0))
def right_angles(ctx, seed, size, kind, pad):
    """At right angles projections are sums of columns and of rows, for any
    image; a half turn mirrors them about size//2; linear in the image."""
    mat = array(seed, (size, size), "float64", kind, 0, 1)
    m = size // 8 + 1
    mat[:m] = mat[-m:] = mat[:, :m] = mat[:, -m:] = 0
    ang = np.asarray([0, np.pi / 2, np.pi, -np.pi / 2])
    got = sim.make_sinogram(mat, ang, pad_rate=pad)
    c, sc = size // 2, max(mat.sum(axis=0).max(), mat.sum(axis=1).max(), .1)
    sums = [mat.sum(axis=0), mat.sum(axis=1)]
    k = min(c, size - 1 - c)
    mid = slice(c - k, c + k + 1)
    mir = lambda v: v[mid][::-1]
    for g, w, n in zip(got, (sums[0][mid], mir(sums[1]), mir(sums[0]),
                             sums[1][mid]), ("0", "90", "180", "-90")):
        ctx.near(g[mid], w, n + " degrees", atol=1e-4 * sc)
    other = array(seed + 1, (size, size), "float64", "smooth", 0, 1)
    other[:m] = other[-m:] = other[:, :m] = other[:, -m:] = 0
    a = rng(seed, 3).random(5) * np.pi
    ctx.near(sim.make_sinogram(2 * mat - other, a, pad_rate=pad),
             2 * sim.make_sinogram(mat, a, pad_rate=pad)
             - sim.make_sinogram(other, a, pad_rate=pad), "linearity",
             rtol=1e-6)


@check(quick=20, seed=SEED, size=I(48, 72), method=pick("fbp", "dfi"))
def back_again(ctx, seed, size, method):
    """Simulated, then reconstructed about the same centre: the picture."""
    size += size % 2 == 0
    obj = gaussians(seed, size)
    mat = picture(obj, size)
    ang = np.linspace(0, np.pi, 2 * size + 1)
    s = sim.make_sinogram(mat, ang)
    f = {"fbp": lambda: rec.fbp_reconstruction(
        s, size // 2, angles=ang, apply_log=False, gpu=False, ncore=1,
        filter_name=None, ratio=1.0),
        "dfi": lambda: rec.dfi_reconstruction(
        s, size // 2, angles=ang, apply_log=False, filter_name=None)}[method]
    got = f()
    i, j = np.mgrid[:size, :size] - (size - 1) / 2
    ins = np.hypot(i, j) < 0.42 * size
    ctx.near(got[ins], mat[ins], method, atol=0.08 * mat.max())


@check(quick=30, seed=SEED, h=I(4, 12), w=I(4, 12))
def square_only(ctx, seed, h, w):
    """An image which is not square is refused."""
    ctx.nontrivial(h != w)
    if h != w:
        ctx.raises(ValueError, lambda: sim.make_sinogram(
            np.ones((h, w)), np.zeros(2)), "not square")


@check(quick=200, seed=SEED, h=I(4, 40), w=I(8, 40), size=I(1, 5),
       pos=F(-0.3, 1.3), ratio=F(-0.2, 1.3), kind=pick("noise", "smooth",
                                                       "ramp"),
       what=pick("partial", "full", "dead", "fluctuating"))
def stripe(ctx, seed, h, w, size, pos, ratio, kind, what):
    """A stripe changes the columns it covers alone, as its type says: full,
    a share of the value everywhere; partial, less and less of the largest
    values of a column; dead, one value; fluctuating, noise of that
    strength; the sinogram given stays."""
    s = array(seed, (h, w), "float64", kind, 1, 3)
    p, ratio = int(round(pos * w)), ratio + 0.0
    np.random.seed(seed % 2 ** 31)
    with ctx.unchanged("add_stripe_artifact", s):
        got = sim.add_stripe_artifact(s, size, p, ratio, what)
    ctx.shape(got, (h, w), what)
    q = min(max(p, 0), w - size - 1)
    if p >= w - size:
        qs = [w - size - 1, w - size]
    else:
        qs = [q]
    ra = min(max(ratio, 0.0), 1.0)
    err = []
    for q in qs:
        cols = slice(q, q + size)
        keep = np.ones(w, bool)
        keep[cols] = False
        if not np.array_equal(got[:, keep], s[:, keep]):
            err.append("columns outside of the stripe changed")
            continue
        a, b = s[:, cols], got[:, cols]
        if what == "full":
            ok = np.allclose(b, a * (1 - ra), rtol=1e-6, atol=1e-7)
        elif what == "dead":
            ok = np.allclose(b, ra * s.max(), rtol=1e-9)
        elif what == "fluctuating":
            sd = s.mean() * ra
            d = (b - a).ravel()
            ok = (np.all(d == 0) if sd == 0 else np.abs(d).max() < 6 * sd
                  and (len(d) < 30 or 0.4 * sd < d.std() < 1.7 * sd))
        else:
            i0 = int((1 - ra) * h)
            f = np.ones(h)
            f[i0:] = np.linspace(1, 1 - ra, h - i0)
            o = np.argsort(a, axis=0, kind="stable")
            srt = np.take_along_axis(a, o, axis=0) * f[:, None]
            w_ = np.empty_like(a)
            np.put_along_axis(w_, o, srt, axis=0)
            ok = np.allclose(b, w_, rtol=1e-5)
        if ok:
            break
        err.append("%s stripe of strength %r wrong" % (what, ra))
    else:
        ctx.fail("; ".join(err))
    ctx.label(what)
    ctx.nontrivial(0 < ra)


@check(quick=100, seed=SEED, h=I(1, 20), w=I(2, 20), top=st.none() | F(.5, 9),
       kind=KINDS)
def xray(ctx, seed, h, w, top, kind):
    """X-ray images are exp(-s/max): the negative logarithm gives the
    sinogram back."""
    s = array(seed, (h, w), "float64", kind, 0, 3) + 0.1
    with ctx.unchanged("convert_to_Xray_image", s):
        got = sim.convert_to_Xray_image(s, top)
    m = s.max() if top is None else top
    ctx.near(-np.log(got) * m, s, "sinogram back", rtol=1e-9)


@check(quick=80, seed=SEED, h=I(2, 30), w=I(8, 60), ratio=F(0, 0.95),
       noise=F(0.01, 1))
def beam_and_noise(ctx, seed, h, w, ratio, noise):
    """A fluctuating beam multiplies every row by one smooth bell, at most
    1, within the shift and width of the strength given; noise has the mean
    and spread of the share given. Seeded, both come out the same."""
    s = array(seed, (h, w), "float64", "noise", 1, 3)
    outs = []
    for _ in range(2):
        np.random.seed(seed % 2 ** 31)
        with ctx.unchanged("add_background_fluctuation", s):
            beam = sim.add_background_fluctuation(s, ratio)
            np.random.seed(seed % 2 ** 31)
            outs.append((beam, sim.add_noise(s, noise)))
    ctx.same(outs[0][0], outs[1][0], "seeded beam")
    ctx.same(outs[0][1], outs[1][1], "seeded noise")
    q = outs[0][0] / s
    ctx.true(q.max() <= 1 + 1e-9 and q.min() > 0, "beam beyond 1 or dark")
    for row in q:
        k = int(np.argmax(row))
        ctx.true(abs(k - (w - 1) / 2) <= 0.25 * ratio * w + 1,
                 "bell at %d of %d" % (k, w))
        un = np.roll(row, (w - 1) // 2 - k)
        sig = 0.5 * w * np.array([1 - ratio, 1])
        x = np.arange(w)
        lo, hi = [np.exp(-0.5 * ((np.abs(x - (w - 1) / 2) + e)
                                 / max(sg, 1e-3)) ** 2)
                  for sg, e in zip(sig, (1.01, -1.01))]
        hi[np.abs(x - (w - 1) / 2) < 1.01] = 1
        ctx.true(np.all(un >= lo - 1e-9) and np.all(un <= hi + 1e-9),
                 "width of the bell")
    d = outs[0][1] - s
    m = s.mean() * noise
    n = d.size
    ctx.near(d.mean(), m, "mean of the noise", atol=m * 0.5 * 6 / np.sqrt(n))
    if n > 100:
        ctx.true(0.3 * m < d.std() < 0.7 * m, "spread of the noise")
    z = s * (rng(seed, 1).random((h, w)) > 0.5)
    if z.any():     # zeros do not count into the mean
        np.random.seed(seed % 2 ** 31)
        dz = sim.add_noise(z, noise) - z
        ctx.near(dz / z[z != 0].mean(), d / s.mean(), "noise with zeros",
                 rtol=1e-9)


larger(right_angles, size=I(120, 400))
larger(stripe, h=I(60, 300), w=I(60, 400), size=I(1, 60))
larger(xray, h=I(60, 300), w=I(60, 300))
larger(beam_and_noise, h=I(60, 300), w=I(120, 500))
