"""Pure array builders: every array is a function of drawn arguments."""
import numpy as np
from hypothesis import strategies as st

SEED = st.integers(0, 2 ** 31 - 1)
I = st.integers


def F(lo, hi):
    """Floats with few digits: readable, and no subnormal surprises."""
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False
                     ).map(lambda x: float(np.round(x, 4)))


def pick(*xs):
    return st.sampled_from(list(xs))


def rng(seed, *extra):
    return np.random.default_rng([int(seed)] + [int(e) for e in extra])


def noise(seed, shape, lo=0.0, hi=1.0, dtype=np.float32):
    return (rng(seed).random(shape) * (hi - lo) + lo).astype(dtype)


def array(seed, shape, dtype="float32", kind="noise", lo=0.0, hi=1.0):
    """An n-d array of one of several kinds, spread over [lo, hi]."""
    r = rng(seed, 7)
    shape = tuple(int(s) for s in shape)
    if kind == "const":
        a = np.full(shape, r.random())
    elif kind == "ramp":
        n = int(np.prod(shape))
        a = (np.arange(n) / max(1, n - 1)).reshape(shape)
    elif kind == "sparse":
        a = np.zeros(shape)
        m = r.random(shape) < 0.15
        a[m] = r.random(int(m.sum()))
    elif kind == "smooth":
        a = smooth(seed, shape)
    elif kind == "steps":
        a = np.round(r.random(shape) * 3) / 3
    else:
        a = r.random(shape)
    a = lo + a * (hi - lo)
    dt = np.dtype(dtype)
    if dt.kind in "ui":
        info = np.iinfo(dt)
        a = np.clip(np.round(a), info.min, info.max)
    return a.astype(dt)


def smooth(seed, shape, waves=3):
    """Band-limited field in [0, 1], any dimension."""
    r = rng(seed, 11)
    grids = np.meshgrid(*[np.linspace(0, 1, s) for s in shape],
                        indexing="ij")
    a = np.zeros(shape)
    for _ in range(waves):
        ph = r.random() * 2 * np.pi
        arg = ph
        for g in grids:
            arg = arg + 2 * np.pi * g * (r.random() * 2 - 1) * 1.5
        a = a + np.cos(arg) * (0.3 + r.random())
    lo, hi = a.min(), a.max()
    return (a - lo) / (hi - lo) if hi > lo else np.full(shape, 0.5)


def blobs(seed, n, size, rad=(0.08, 0.2), within=0.45):
    """Discs (x, y, r, value) inside the unit circle of radius `within`,
    in units of the image width, for analytic sinograms."""
    r = rng(seed, 13)
    out = []
    for _ in range(n):
        rr = rad[0] + (rad[1] - rad[0]) * r.random()
        d = (within - rr) * np.sqrt(r.random())
        t = 2 * np.pi * r.random()
        out.append((d * np.cos(t) * size, d * np.sin(t) * size, rr * size,
                    0.5 + r.random()))
    return out


def disc_sinogram(discs, angles, width, center):
    """Exact parallel projections of discs, detector pixel j at x=j-center.

    A disc at (x0, y0) projects onto x0*cos(t) + y0*sin(t).
    """
    x = np.arange(width) - center
    sino = np.zeros((len(angles), width))
    for (x0, y0, r, v) in discs:
        s = x0 * np.cos(angles) + y0 * np.sin(angles)
        d2 = r * r - (x[None, :] - s[:, None]) ** 2
        sino += v * 2 * np.sqrt(np.clip(d2, 0, None))
    return sino


KINDS = pick("noise", "noise", "smooth", "const", "ramp", "sparse", "steps")
