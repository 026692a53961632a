"""C37: ring removal from reconstructed images."""
import numpy as np
from hypothesis import strategies as st
from vf.core import check, larger
from vf.gen import SEED, I, F, array, rng, pick
import algotom.post.postprocessing as post
import algotom.prep.removal as remo
import algotom.util.utility as util


def grid(n):
    y, x = np.mgrid[:n, :n] - (n - 1) / 2
    return y, x, np.hypot(x, y)


def scene(seed, n):
    """Smooth bumps well inside the circle."""
    r = rng(seed, 3)
    y, x, _ = grid(n)
    img = np.zeros((n, n))
    for _ in range(4):
        a, d = r.uniform(0, 2 * np.pi), r.uniform(0.1, 0.3) * n
        s = r.uniform(0.06, 0.12) * n
        img += r.uniform(.5, 1) * np.exp(-((x - d * np.cos(a)) ** 2 + (
            y - d * np.sin(a)) ** 2) / (2 * s * s))
    return img


def methods(sort):
    return {
        "fft": (lambda m: post.remove_ring_based_fft(m, 6, 8, 2, sort=sort),
                lambda p: remo.remove_stripe_based_fft(p, 6, 8, 2,
                                                       sort=sort)),
        "fft2": (lambda m: post.remove_ring_based_fft(m, u=20, n=4, v=1,
                                                      sort=sort),
                 lambda p: remo.remove_stripe_based_fft(p, u=20, n=4, v=1,
                                                        sort=sort)),
        "wave": (lambda m: post.remove_ring_based_wavelet_fft(
            m, 3, 2, "db5", sort=sort),
                 lambda p: remo.remove_stripe_based_wavelet_fft(
                     p, 3, 2, "db5", sort=sort)),
        "wave2": (lambda m: post.remove_ring_based_wavelet_fft(
            m, level=2, size=1, wavelet_name="db9", sort=sort),
                  lambda p: remo.remove_stripe_based_wavelet_fft(
                      p, level=2, size=1, wavelet_name="db9", sort=sort))}


M = pick("fft", "fft2", "wave", "wave2")


@check(quick=60, seed=SEED, n=I(32, 96), m=M, sort=st.booleans(),
       dtype=pick("float32", "float64"))
def through_polar(ctx, seed, n, m, sort, dtype):
    """Removing rings is removing stripes of the image in polar coordinates
    about its middle, with the options given, then going back; it is zero
    outside the circle, and the image given stays."""
    mat = (scene(seed, n) + 0.1 * rng(seed, 5).random((n, n))).astype(dtype)
    ring, stripe = methods(sort)[m]
    with ctx.unchanged(m, mat):
        got = ring(mat)
    ctx.shape(got, (n, n), m)
    polar = util.mapping(mat, *util.rectangular_from_polar(n, n, n, n))
    want = util.mapping(stripe(polar), *util.polar_from_rectangular(
        n, n, n, n))
    _, _, rad = grid(n)
    ins, out = rad < n / 2 - 2, rad > n / 2 + 1
    ctx.near(got[ins], want[ins], m, rtol=1e-5)
    ctx.true(np.all(got[out] == 0), "not zero outside the circle")
    ctx.finite(got, m)
    ctx.label(m, "sort" if sort else "plain")


RINGS = {"fft": lambda m: post.remove_ring_based_fft(m, 2, 8, 2),
         "fft4": lambda m: post.remove_ring_based_fft(m, 4, 8, 1),
         "wave": lambda m: post.remove_ring_based_wavelet_fft(
             m, 4, 1, "db5"),
         "wave3": lambda m: post.remove_ring_based_wavelet_fft(
             m, 3, 2, "db9")}


@check(quick=60, seed=SEED, n=I(64, 110), m=pick(*sorted(RINGS)),
       amp=F(0.2, 0.6), width=pick(0.7, 1.0))
def rings_go(ctx, seed, n, m, amp, width):
    """Fine rings about the middle lose most of their strength. (The methods
    are linear without sorting, so the rings' part shows alone.)"""
    r = rng(seed, 9)
    img = scene(seed, n)
    _, _, rad = grid(n)
    rings = np.zeros((n, n))
    for r0 in r.uniform(0.2, 0.40, size=2) * n:
        t = (rad - r0) / width
        rings += amp * r.choice([-1, 1]) * t * np.exp(-t ** 2)
    left = RINGS[m](img + rings) - RINGS[m](img)
    ins = (rad > 0.12 * n) & (rad < 0.46 * n)
    frac = np.sqrt(np.mean(left[ins] ** 2) / np.mean(rings[ins] ** 2))
    ctx.label(m)
    ctx.true(frac <= (0.6 if m.startswith("fft") else 0.95),
             "%s leaves %.2f of the rings" % (m, frac))


@check(quick=40, seed=SEED, n=I(32, 64), m=M, a=F(-3, 3), b=F(-3, 3))
def linear(ctx, seed, n, m, a, b):
    """Without sorting, the result is linear in the image."""
    x, y = scene(seed, n), array(seed, (n, n), "float64", "smooth", 0, 1)
    ring, _ = methods(False)[m]
    ctx.near(ring(a * x + b * y), a * ring(x) + b * ring(y), m, rtol=1e-5,
             scale=abs(a) + abs(b) + 1)


@check(quick=20, h=I(16, 40), w=I(16, 40))
def square_only(ctx, h, w):
    """An image which is not square is refused."""
    mat = np.ones((h, w))
    ctx.nontrivial(h != w)
    if h == w:
        return
    ctx.raises(ValueError, lambda: post.remove_ring_based_fft(mat),
               "not square")
    ctx.raises(ValueError, lambda: post.remove_ring_based_wavelet_fft(mat),
               "not square")


larger(through_polar, 4, 40, n=I(150, 300))
