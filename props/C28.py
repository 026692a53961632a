"""C28: back-projection."""
import numpy as np
from hypothesis import strategies as st
from vf.core import check, larger
from vf.gen import SEED, I, F, array, rng, pick
from vf import recmodel as rm
import algotom.rec.reconstruction as rec

KIND = pick("noise", "smooth", "sparse", "steps", "const")


def some_angles(seed, n, how):
    r = rng(seed, 91)
    if how == "any":
        return r.uniform(-7, 7, n)
    if how == "right":
        return r.integers(-4, 5, n) * np.pi / 2
    return np.linspace(0, np.pi, n) + (0 if how == "half" else r.random())


@check(quick=250, seed=SEED, n=I(1, 40), w=I(1, 40), c=F(-0.2, 1.2),
       snap=pick(0, 0, 1, 2), how=pick("half", "any", "right", "moved"),
       edge=st.booleans(), kind=KIND, dt=pick("float32", "float32", "float64",
                                              "uint8", "uint16", "int16"))
def model(ctx, seed, n, w, c, snap, how, edge, kind, dt):
    """Every pixel is the sum over all rows of the value, linearly
    interpolated, where the pixel projects onto; beyond the ends of a row
    zero or the last value."""
    big = 1 if dt[0] == "f" else 250
    sino = array(seed, (n, w), dt, kind, 0 if dt[0] == "u" else -big, big)
    ang = np.float32(some_angles(seed, n, how))
    cen = c * (w - 1)
    cen = cen if not snap else np.round(cen * snap) / snap
    with ctx.unchanged("back-projection", sino, ang):
        out = rec.back_projection_cpu(sino, ang, np.float32(cen), edge)
    exp, doubt = rm.back_project(sino, ang, cen, edge)
    ctx.shape(out, (w, w), "shape")
    ok = doubt == 0
    # positions are off by float32 rounding of sums of size w
    tol = 1e-6 * n * max(8, w) * big
    ctx.near(out[ok], exp[ok], "back-projection", atol=tol, scale=0)
    ctx.true(np.all(np.abs(out - exp) <= doubt + tol), "at the ends of rows")
    ctx.label(how, "edge" if edge else "zero")
    ctx.nontrivial(n > 1 and w > 2 and kind != "const")


@check(quick=120, seed=SEED, n=I(1, 200), w=I(2, 60), edge=st.booleans())
def repeatable(ctx, seed, n, w, edge):
    """The same call gives the same result, however threads are scheduled."""
    r = rng(seed, 92)
    sino = r.random((n, w)).astype("float32")
    ang = np.float32(r.uniform(-4, 4, n))
    c = np.float32(r.random() * (w - 1))
    a = rec.back_projection_cpu(sino, ang, c, edge)
    for _ in range(3):
        ctx.same(rec.back_projection_cpu(sino, ang, c, edge), a, "again")
    ctx.nontrivial(n > 4)


@check(quick=120, seed=SEED, n=I(2, 20), w=I(3, 30), cut=F(0, 1), g=F(-3, 3),
       edge=st.booleans())
def laws(ctx, seed, n, w, cut, g, edge):
    """Linear in the sinogram, additive over its rows, whose order does not
    matter; a half turn later a row is its mirror image."""
    r = rng(seed, 93)
    s1, s2 = r.normal(size=(2, n, w)).astype("float32")
    ang = np.float32(r.uniform(-3, 3, n))
    c = np.float32(np.round(r.random() * (w - 1), 2) + 0.0031)

    def bp(s, a=ang, c=c):
        return rec.back_projection_cpu(np.ascontiguousarray(s),
                                       np.float32(a), c, edge)
    _, doubt = rm.back_project(s1, ang, c, edge)
    tol = 2e-5 * n * (2 + abs(g))
    a, b = bp(s1), bp(s2)
    ctx.near(bp(s1 + np.float32(g) * s2), a + np.float64(g) * b, "linear",
             atol=tol, scale=0)
    k = 1 + int(cut * (n - 2))
    ctx.near(bp(s1[:k], ang[:k]) + bp(s1[k:], ang[k:]), a, "parts",
             atol=tol, scale=0)
    p = r.permutation(n)
    ctx.near(bp(s1[p], ang[p]), a, "order of rows", atol=tol, scale=0)
    ok = doubt == 0
    m = bp(s1[:, ::-1], ang + np.pi, np.float32(w - 1 - c))
    ctx.near(m[ok], a[ok], "mirrored", atol=0.1 * tol * w, scale=0)


@check(quick=100, w=I(3, 50), x=F(-0.45, 0.45), y=F(-0.45, 0.45), n=I(40, 90),
       full=st.booleans(), c=F(0.3, 0.7))
def point(ctx, w, x, y, n, full, c):
    """The track of a point through the sinogram is gathered at that point:
    the sum is largest there."""
    rad = min(c, 1 - c) * (w - 1)
    x, y = x * rad * 1.3, y * rad * 1.3
    ang = np.linspace(0, 2 * np.pi if full else np.pi, n)
    cen = c * (w - 1)
    pos = x * np.cos(ang) + y * np.sin(ang) + cen
    sino = np.clip(1 - np.abs(np.arange(w)[None] - pos[:, None]), 0, None)
    out = rec.back_projection_cpu(np.float32(sino), np.float32(ang),
                                  np.float32(cen))
    i, j = np.unravel_index(np.argmax(out), out.shape)
    m = 0.5 * (w - 1)
    ctx.true(abs(m - i - y) <= 1.01 and abs(j - m - x) <= 1.01,
             "point at x=%s y=%s found at %s %s" % (x, y, j - m, m - i))
    ctx.nontrivial(abs(x) > 1 and abs(y) > 1)


larger(model, 6, 60, n=I(60, 200), w=I(80, 160))
larger(laws, n=I(60, 200), w=I(60, 200))
