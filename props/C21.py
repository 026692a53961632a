"""C21: laws every stripe-removal method obeys."""
import numpy as np
import scipy.ndimage as ndi
from hypothesis import strategies as st, assume
from vf.core import check, larger
from vf.gen import SEED, I, F, array, rng, pick
import algotom.prep.removal as remo
import algotom.util.utility as util

# name -> call with a few free parameters
METHODS = {
    "sorting": lambda s, k, o: remo.remove_stripe_based_sorting(
        s, k, **({"dim": 2} if o else {})),
    "filtering": lambda s, k, o: remo.remove_stripe_based_filtering(
        s, 3, k, sort=o),
    "fitting": lambda s, k, o: remo.remove_stripe_based_fitting(
        s, 2, 5 + k, sort=o),
    "large": lambda s, k, o: remo.remove_large_stripe(s, 1.5, k, 0.1, o),
    "dead": lambda s, k, o: remo.remove_dead_stripe(s, 1.5, k, residual=o),
    "all": lambda s, k, o: remo.remove_all_stripe(
        s, 1.5, k + 4, k, dim=2 if o else 1),
    "2d": lambda s, k, o: remo.remove_stripe_based_2d_filtering_sorting(
        s, 3, k),
    "norm": lambda s, k, o: remo.remove_stripe_based_normalization(
        s, k, 1, o),
    "reg": lambda s, k, o: remo.remove_stripe_based_regularization(
        s, 0.01 * k, 1, False, o),
    "reglog": lambda s, k, o: remo.remove_stripe_based_regularization(
        s, 0.01 * k, 1, True, o),
    "fft": lambda s, k, o: remo.remove_stripe_based_fft(s, k, 8, 1, o),
    "wavelet": lambda s, k, o: remo.remove_stripe_based_wavelet_fft(
        s, 3, k / 3, sort=o),
    "interp": lambda s, k, o: remo.remove_stripe_based_interpolation(
        s, 1.5, k, 0.1, o),
}
NAMES = st.sampled_from(sorted(METHODS))
# every column (sorted) is handled as a set of values
BY_COLUMN = st.sampled_from(["sorting", "large", "norm", "reg", "reglog",
                             "interp"])
# wavelets are not symmetric, nor is the 2D Gaussian window of even size
MIRROR = st.sampled_from([n for n in sorted(METHODS) if n not in (
    "wavelet", "2d", "fitting", "fft")])
LINEAR = st.sampled_from(["reg", "norm", "wavelet"])


def make(seed, h, w, dtype="float64"):
    r = rng(seed, 43)
    x, y = np.arange(w), np.arange(h)[:, None]
    s = 2 + 0.4 * np.cos(x * 0.1 + 0.02 * y) + 0.3 * np.sin(0.05 * y) \
        + 0.1 * r.random((h, w))
    for _ in range(3):
        k = int(r.integers(3, w - 4))
        s[:, k:k + int(r.integers(1, 3))] *= 1 + r.choice([-.3, .3, .5])
    return s.astype(dtype)


def run(ctx, name, s, k, o):
    try:
        return METHODS[name](s, k, o)
    except ValueError as e:
        if "noise-free" in str(e):
            ctx.label("noise-free")
            return None
        raise


@check(quick=200, seed=SEED, h=I(34, 60), w=I(34, 60), name=NAMES,
       k=pick(3, 5, 7, 9, 15, 21), o=st.booleans(),
       dt=pick("float32", "float64"))
def pure(ctx, seed, h, w, name, k, o, dt):
    """The sinogram given stays untouched; the result has its shape, is
    finite, and the same every time."""
    s = make(seed, h, w, dt)
    with ctx.unchanged(name, s):
        a = run(ctx, name, s, k, o)
        b = run(ctx, name, s, k, o)
    if a is None:
        return ctx.nontrivial(False)
    ctx.shape(a, (h, w), name)
    ctx.finite(a, name)
    ctx.same(b, a, "%s a second time" % name)
    ctx.true(not np.shares_memory(a, s), "%s returns its input" % name)
    ctx.label(name)


@check(quick=200, seed=SEED, h=I(34, 60), w=I(34, 60), name=NAMES,
       k=pick(3, 5, 7, 9, 15, 21), o=st.booleans(), gain=pick(
           0.25, 0.5, 2.0, 8.0))
def gain(ctx, seed, h, w, name, k, o, gain):
    """A sinogram of another brightness gives the same result at that
    brightness."""
    s = make(seed, h, w, "float32").astype("float64")
    a = run(ctx, name, s, k, o)
    b = run(ctx, name, s * gain, k, o)
    if a is None or b is None:
        return ctx.nontrivial(False)
    ctx.near(b, a * gain, name, rtol=1e-5)
    ctx.label(name)


@check(quick=200, seed=SEED, h=I(34, 60), w=I(34, 60),
       name=pick("sorting", "filtering", "norm", "reg", "fft", "wavelet",
                 "dead"),
       k=pick(3, 5, 7, 9, 15, 21), off=F(-6, 6))
def offset(ctx, seed, h, w, name, k, off):
    """Values of either sign are treated alike: a constant added to the
    sinogram is there in the result, nothing else changes."""
    s0 = make(seed, h, w) - 2
    a = run(ctx, name, s0, k, False)
    b = run(ctx, name, s0 + off, k, False)
    if a is None or b is None:
        return ctx.nontrivial(False)
    if name in ("dead", "sorting"):     # decisions may go either way
        bad = np.abs(b - a - off) > 1e-4
        ctx.true(bad.mean() < 0.2, "%s: offset %r not kept" % (name, off))
    else:
        ctx.near(b, a + off, name, rtol=1e-5, scale=4 + abs(off))
    ctx.label(name)
    ctx.nontrivial(abs(off) > 0.1)


@check(quick=200, seed=SEED, h=I(34, 60), w=I(34, 60), name=MIRROR,
       k=pick(3, 5, 7, 9, 15, 21), o=st.booleans())
def mirror(ctx, seed, h, w, name, k, o):
    """A mirrored sinogram gives the mirrored result."""
    s = make(seed, h, w, "float32").astype("float64")
    a = run(ctx, name, s, k, o)
    b = run(ctx, name, np.ascontiguousarray(s[:, ::-1]), k, o)
    if a is None or b is None:
        return ctx.nontrivial(False)
    diff = np.abs(b[:, ::-1] - a).max(0) > 1e-4
    # a ratio exactly at the threshold may be rounded to either side
    ctx.true(diff.sum() == 0, "%s: columns %s differ" % (
        name, np.flatnonzero(diff)[:9]))
    ctx.label(name)


@check(quick=150, seed=SEED, h=I(24, 60), w=I(30, 60), name=BY_COLUMN,
       k=pick(3, 5, 7, 9, 15, 21), o=st.booleans())
def row_order(ctx, seed, h, w, name, k, o):
    """Methods which work on sorted columns do not depend on the order of
    the rows."""
    s = make(seed, h, w, "float32").astype("float64")
    if name == "norm" or name.startswith("reg"):
        o = True
    if np.any(np.diff(np.sort(s, axis=0), axis=0) == 0):
        return ctx.nontrivial(False)    # equal values have no order
    p = rng(seed, 8).permutation(h)
    a = run(ctx, name, s, k, o if name != "sorting" else False)
    b = run(ctx, name, s[p], k, o if name != "sorting" else False)
    if a is None or b is None:
        return ctx.nontrivial(False)
    ctx.near(b, a[p], name, rtol=1e-5)
    ctx.label(name)


@check(quick=60, seed=SEED, h=I(40, 80), w=I(40, 80), name=LINEAR,
       k=pick(3, 5, 9), x=F(-2, 2))
def linear(ctx, seed, h, w, name, k, x):
    """Methods made of linear steps are linear (without sorting)."""
    s, t = make(seed, h, w), make(seed + 1, h, w)
    f = METHODS[name]
    ctx.near(f(s + x * t, k, False), f(s, k, False) + x * f(t, k, False),
             name, atol=3e-5)
    ctx.label(name)
    ctx.nontrivial(x != 0)


@check(quick=100, seed=SEED, h=I(60, 120), w=I(64, 120), name=st.
       sampled_from(["sorting", "filtering", "large", "all", "norm", "reg",
                     "fft", "wavelet", "interp", "fitting", "2d"]),
       size=F(0.1, 0.4), wide=I(1, 2), sign=pick(-1, 1), cost=2)
def works(ctx, seed, h, w, name, size, wide, sign):
    """A full stripe across a smooth sinogram mostly goes, the rest mostly
    stays. (The methods that first detect stripes may miss one: the median of
    five stripes is looked at.)"""
    left = []
    for k in range(5):
        got = one_stripe(ctx, rng(seed, 44 + k), h, w, name, size, wide, sign)
        if got is None:
            return ctx.nontrivial(False)
        left.append(got)
    limit = 0.5 if name in ("large", "interp", "all") else 0.8
    ctx.true(np.median(left) < limit, "%s: of stripes of %.3g is left a part "
             "of %s" % (name, size, np.round(left, 3)))
    ctx.label(name)


def one_stripe(ctx, r, h, w, name, size, wide, sign):
    """How much is left of a stripe; None if the method refuses."""
    x, y = np.arange(w), np.arange(h)[:, None]
    clean = 2 + 0.3 * np.cos(x * r.uniform(.02, .06) + 0.03 * y) \
        + 0.2 * np.sin(r.uniform(0.02, 0.08) * y)
    clean = clean + 0.004 * r.standard_normal((h, w))
    bad = clean.copy()
    k = int(r.integers(15, w - 16))
    bad[:, k:k + wide] += sign * size
    size_k = {"norm": 3, "reg": 4, "fft": 5, "wavelet": 15, "fitting": 0,
              "large": 15, "interp": 15, "all": 9}.get(name, 9)
    call = METHODS[name]
    if name == "reg":
        call = lambda s, k, o: remo.remove_stripe_based_regularization(
            s, 0.05, 1, False, o)
    if name == "fitting":
        call = lambda s, k, o: remo.remove_stripe_based_fitting(
            s, 3, 5, sort=False)
    try:
        out = call(bad, size_k, name not in ("fft", "wavelet"))
    except ValueError as e:
        if "noise-free" not in str(e):
            raise
        return None
    far = np.ones(w, bool)
    far[max(0, k - 12):k + wide + 12] = False
    rest = np.sqrt(np.mean((out - clean)[:, far] ** 2))
    ctx.true(rest < 0.12, "%s: rest off by %.3g" % (name, rest))
    return np.abs((out - clean)[:, k:k + wide].mean()) / size


larger(pure, h=I(120, 400), w=I(120, 400))
larger(gain, h=I(120, 400), w=I(120, 400))
larger(offset, h=I(120, 400), w=I(120, 400))
larger(mirror, h=I(120, 400), w=I(120, 400))
larger(row_order, h=I(120, 400), w=I(120, 400))
