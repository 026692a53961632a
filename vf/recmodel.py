"""Reference models of slice reconstruction, written from the definitions."""
import numpy as np
import scipy.ndimage as ndi
from scipy.signal import windows

WINDOWS = ["hann", "bartlett", "blackman", "hamming", "nuttall", "parzen",
           "triang", None]


def window(name, width):
    if name is None or name not in WINDOWS:
        return np.ones(width)
    return getattr(windows, name)(width)


def kernel(width):
    """Ramp (Ram-Lak) kernel, k samples from the middle."""
    k = np.arange(width) - width // 2
    out = np.zeros(width)
    out[k == 0] = 0.25
    odd = k % 2 != 0
    out[odd] = -1.0 / (np.pi * k[odd]) ** 2
    return out


def fresp(width, name):
    """Frequency response, zero frequency first, of the smoothed ramp."""
    ramp = np.fft.fft(np.fft.ifftshift(kernel(width)))
    return np.real(ramp) * np.fft.ifftshift(window(name, width))


def default_pad(width):
    return min(int(0.15 * width), 150)


def ramp_filter(sino, name, pad, mode):
    """Rows of a sinogram convolved (cyclically, after padding)."""
    n = sino.shape[-1]
    pad = default_pad(n) if pad is None else pad
    p = np.pad(np.asarray(sino, float), ((0, 0), (pad, pad)), mode=mode)
    f = np.fft.fft(p, axis=1) * fresp(p.shape[1], name)
    return np.real(np.fft.ifft(f, axis=1))[:, pad:pad + n]


def project(sino, f_pos, edge):
    """Values of each row at f_pos[row], linearly interpolated; outside, zero
    or the value at the edge. Also: where rounding may decide which."""
    n = sino.shape[-1]
    f_pos = np.asarray(f_pos, float)
    lo = np.clip(np.floor(f_pos), 0, n - 1).astype(int)
    hi = np.clip(lo + 1, 0, n - 1)
    t = np.clip(f_pos - lo, 0, 1)
    rows = np.arange(len(sino)).reshape((-1,) + (1,) * (f_pos.ndim - 1))
    val = sino[rows, lo] * (1 - t) + sino[rows, hi] * t
    eps = 2e-5 * n + 1e-5
    if edge:
        return val, np.zeros(f_pos.shape, bool)
    inside = (f_pos >= 0) & (f_pos <= n - 1)
    unsure = (np.abs(f_pos) < eps) | (np.abs(f_pos - n + 1) < eps)
    return np.where(inside, val, 0), unsure


def back_project(sino, angles, center, edge=False):
    """Sum of the rows at x*cos(angle) - y*sin(angle), x and y from the
    middle of a square image, x along columns, y along rows.

    Second output: how much rounding at the ends of a row may matter."""
    sino = np.asarray(sino, float)
    n = sino.shape[1]
    angles = np.float64(np.float32(angles))
    center = float(np.float32(center))
    g = np.arange(n) - 0.5 * (n - 1)
    rec, doubt = np.zeros((n, n)), np.zeros((n, n))
    for row, a in zip(sino, angles):
        f = g[None, :] * np.cos(a) - g[:, None] * np.sin(a) + center
        v, u = project(row[None], f[None], edge)
        rec += v[0]
        if a != 0:      # else the positions are exact
            doubt += u[0] * np.abs(row).max()
    return rec, doubt


def circle(n, ratio):
    y, x = np.mgrid[:n, :n] - n // 2
    return (x * x + y * y <= (ratio * (n // 2)) ** 2).astype(float)


def mask(n, ratio, center):
    if ratio is None:
        return np.ones((n, n))
    if ratio == 0:
        ratio = min(center, n - center) / (0.5 * n)
    return circle(n, ratio)


def log(sino, apply_log):
    if not apply_log:
        return np.asarray(sino, float)
    s = np.asarray(sino, float)
    return -np.log(np.where(s <= 0, 1.0, s))


def fbp(sino, center, angles=None, ratio=1.0, name="hann", pad=None,
        mode="edge", apply_log=True, filtered=None):
    nrow, n = sino.shape
    if angles is None:
        angles = np.linspace(0, np.pi, nrow)
    f = ramp_filter(log(sino, apply_log), name, pad, mode) \
        if filtered is None else filtered(log(sino, apply_log))
    rec, doubt = back_project(f, angles, center)
    m = mask(n, ratio, center)
    return rec * m * np.pi / (nrow - 1), doubt * np.pi / (nrow - 1)


def ramp_2d(width, name):
    """The smoothed ramp at every frequency of a square image: the response
    at that distance, taken from the positive side in the lower half, from
    the negative side in the upper half."""
    r1 = np.abs(np.real(np.fft.fftshift(np.fft.fft(np.fft.ifftshift(
        kernel(width)))))) * window(name, width)
    c = width // 2 + (0 if width % 2 else 0)
    y, x = np.mgrid[:width, :width] - c
    r = np.clip(np.hypot(x, y), 0, c)
    pos = np.where(y >= 0, r, -r) + c
    return np.interp(pos, np.arange(width), r1)


def circ_filter(img, name, pad, mode):
    n = len(img)
    pad = default_pad(n) if pad is None else pad
    p = np.pad(np.asarray(img, float), pad, mode=mode)
    w = np.fft.ifftshift(ramp_2d(len(p), name))
    return np.real(np.fft.ifft2(np.fft.fft2(p) * w))[pad:pad + n, pad:pad + n]


def bpf(sino, center, angles=None, ratio=1.0, name="hann", pad=None,
        mode="edge", apply_log=True):
    nrow, n = sino.shape
    if angles is None:
        angles = np.linspace(0, np.pi, nrow)
    rec, _ = back_project(log(sino, apply_log), angles, center, True)
    rec = circ_filter(rec, name, pad, mode)
    return rec * mask(n, ratio, center) * np.pi / (nrow - 1)


def dfi_angles(sino, angles):
    """Rows of a half turn starting at zero, from rows at given, evenly
    spaced angles."""
    nrow = len(sino)
    if abs(np.abs(np.diff(np.degrees(angles))).sum() - 360) < 10:
        nrow = nrow // 2 + 1
        sino = (sino[:nrow] + sino[-nrow:, ::-1]) / 2
    step = np.abs(np.diff(angles)).mean()
    turn = np.vstack((sino[:nrow - 1], sino[:, ::-1]))
    first = angles[0] % (2 * np.pi)
    if angles[-1] < angles[0]:
        first = -first
    out = ndi.shift(turn, (first / step, 0), mode="wrap")[:nrow]
    return out[::-1, ::-1] if angles[-1] < angles[0] else out


def dfi(sino, center, angles=None, ratio=1.0, name="hann", pad_rate=0.25,
        mode="edge", apply_log=True):
    n = sino.shape[1]
    sino = np.asarray(sino, float)
    if n % 2 == 0:
        sino = np.pad(sino, ((0, 0), (0, 1)), mode="edge")
    n1 = sino.shape[1]
    sino = ndi.shift(sino, (0, (n1 - 1) / 2 - center), mode="nearest")
    if angles is not None:
        sino = dfi_angles(sino, angles)
    pad = int(pad_rate * n1)
    sino = log(np.pad(sino, ((0, 0), (pad, pad)), mode=mode), apply_log)
    nrow, n2 = sino.shape
    c = (n2 - 1) // 2
    ft = np.fft.fftshift(np.fft.fft(np.fft.ifftshift(sino, axes=1), axis=1),
                         axes=1) * window(name, n2)
    y, x = np.mgrid[:n2, :n2] - c
    x = -x
    r, t = np.clip(np.hypot(x, y), 0, c), np.arctan2(y, x) + np.pi
    neg = t > np.pi
    r, t = np.where(neg, -r, r), np.where(neg, t - np.pi, t)
    pos = [t * (nrow - 1) / np.pi, r + c]
    pos = [np.float32(p) for p in pos]
    q = ndi.map_coordinates(ft, pos, order=5, mode="reflect")
    q = q * circle(n2, 1.0)
    rec = np.real(np.fft.fftshift(np.fft.ifft2(np.fft.ifftshift(q))))
    return rec[pad:pad + n, pad:pad + n] * mask(n, ratio, center)
