"""C29: filtered back-projection, back-projection filtering and direct
Fourier inversion equal their definitions, for slices and stacks."""
import numpy as np
from hypothesis import strategies as st, assume
from vf.core import check, also, larger
from vf.gen import SEED, I, F, array, rng, pick
from vf import recmodel as rm
import algotom.rec.reconstruction as rec

NAME = pick(*rm.WINDOWS)
MODE = pick("edge", "edge", "reflect", "constant", "symmetric", "wrap")
PAD = st.one_of(st.none(), I(0, 12))
RATIO = st.one_of(st.none(), pick(1.0, 0.0), F(0.1, 1.1))


def stack(seed, n, d, w, kind, log, dt):
    """Rows x slices x columns; with a few pixels not positive for the
    logarithm."""
    lo, hi = (0.2, 1.5) if log else (-1, 1)
    if dt == "uint16":
        lo, hi = 1, 900
    s = array(seed, (n, d, w), dt, kind, lo, hi)
    if log == 2:
        r = rng(seed, 94)
        m = r.random(s.shape) < 0.05
        s[m] = 0 if dt == "uint16" else r.choice([0.0, -0.3], int(m.sum()))
    return s


def angles_of(seed, n, how):
    if how is None:
        return None
    r = rng(seed, 95)
    if how == "any":
        return r.uniform(-4, 4, n)
    return np.linspace(0.1, 0.1 + np.pi, n)


def can_pad(w, pad, mode):
    pad = rm.default_pad(w) if pad is None else pad
    return w > 1 or mode != "reflect" or pad == 0


@check(quick=200, seed=SEED, n=I(1, 6), w=I(1, 50), name=NAME, pad=PAD,
       mode=MODE, own=pick("none", "fit", "unfit"), kind=pick(
           "noise", "smooth", "sparse", "const"))
def ramp(ctx, seed, n, w, name, pad, mode, own, kind):
    """Each row is convolved with the ramp kernel after padding, its
    spectrum weighted by the window asked for; a ready-made window of the
    right size is used, another is not."""
    assume(can_pad(w, pad, mode))
    s = array(seed, (n, w), "float32", kind, -1, 1)
    p = rm.default_pad(w) if pad is None else pad
    win = None
    if own == "fit":
        win = rec.make_2d_ramp_window(n, w + 2 * p, name)
    elif own == "unfit":
        win = np.ones((n, w + 2 * p + 2), complex)
    with ctx.unchanged("ramp filter", s, *([] if win is None else [win])):
        out = rec.apply_ramp_filter(s, win, "parzen" if own == "fit"
                                    and name != "parzen" else name, pad,
                                    mode)
    ctx.near(out, rm.ramp_filter(s, name, pad, mode), "filtered rows",
             atol=1e-6, scale=0)
    ctx.nontrivial(w > 3)
    ctx.label(name, own)


@check(quick=150, seed=SEED, w=I(1, 36), name=NAME, pad=PAD, mode=MODE,
       own=st.booleans())
def circular_ramp(ctx, seed, w, name, pad, mode, own):
    """The spectrum of the padded image is weighted by the ramp at the
    distance of each frequency."""
    assume(can_pad(w, pad, mode))
    img = rng(seed, 96).normal(size=(w, w))
    p = rm.default_pad(w) if pad is None else pad
    win = rec.make_circular_ramp_window(w + 2 * p, name) if own else None
    with ctx.unchanged("filter", img, *([win] if own else [])):
        out = rec.apply_circular_ramp_filter(img, win, name, pad, mode)
    ctx.near(out, rm.circ_filter(img, name, pad, mode), "filtered image",
             rtol=1e-5, atol=1e-5)
    ctx.nontrivial(w > 3)


@check(quick=120, seed=SEED, width=I(1, 60), name=st.one_of(
    NAME, pick("boxcar", "none")))
def smoothing(ctx, seed, width, name):
    """Windows are the textbook ones, an unknown name smooths nothing."""
    out = rec.make_smoothing_window(name, width)
    ctx.near(out, rm.window(name if name != "boxcar" else None, width),
             "window", atol=1e-12)
    ctx.near(out, out[::-1], "symmetric", atol=1e-9)


def setup(seed, n, d, w, kind, log, dt, three, how):
    s = stack(seed, n, d, w, kind, log, dt)
    if not three:
        s = np.ascontiguousarray(s[:, 0])
    return s, angles_of(seed, n, how)


ANGLES = pick(None, None, "any", "shift")
COMMON = dict(seed=SEED, n=I(2, 16), d=I(1, 4), w=I(3, 28), c=F(0, 1),
              kind=pick("noise", "smooth", "sparse"), log=pick(0, 1, 2),
              dt=pick("float32", "float32", "float64", "uint16"),
              three=st.booleans(), how=ANGLES, ratio=RATIO, name=NAME,
              pad=PAD, mode=MODE, ncore=st.one_of(st.none(), I(1, 4)))


@check(quick=150, own=st.booleans(), gpu=pick(False, False, True), **COMMON)
def fbp(ctx, seed, n, d, w, c, kind, log, dt, three, how, ratio, name, pad,
        mode, ncore, own, gpu):
    """Minus the logarithm (of values not positive: zero), ramp filter,
    back-projection times pi over the number of steps, in a circle of the
    ratio asked for (the largest one fully seen for ratio zero)."""
    s, ang = setup(seed, n, d, w, kind, log, dt, three, how)
    cen = np.round(c * (w - 1), 2)
    p = rm.default_pad(w) if pad is None else pad
    win = rec.make_2d_ramp_window(n, w + 2 * p, name) if own else None
    with ctx.unchanged("fbp", s, *([] if ang is None else [ang])):
        out = rec.fbp_reconstruction(
            s, cen, angles=ang, ratio=ratio, ramp_win=win, filter_name=name,
            pad=pad, pad_mode=mode, apply_log=log > 0, gpu=gpu,
            ncore=ncore)
    ctx.shape(out, (w, d, w) if three else (w, w), "shape")
    big = 900 if dt == "uint16" and not log else 8
    for i in range(d if three else 1):
        exp, doubt = rm.fbp(s[:, i] if three else s, cen, ang, ratio, name,
                            pad, mode, log > 0)
        got = out[:, i] if three else out
        tol = 4e-6 * big * np.pi * n / (n - 1)
        ctx.true(np.all(np.abs(got - exp) <= tol + doubt), lambda: "slice %d "
                 "off by up to %s" % (i, np.max(np.abs(got - exp) - doubt)))
    ctx.label("log" if log else "no log", dt)
    ctx.nontrivial(n > 2 and (ratio is None or ratio > 0.3))


@check(quick=120, own=st.booleans(), gpu=pick(False, False, True), **COMMON)
def bpf(ctx, seed, n, d, w, c, kind, log, dt, three, how, ratio, name, pad,
        mode, ncore, own, gpu):
    """Back-projection with the last values continued, then the ramp in two
    dimensions; the rest as for FBP."""
    s, ang = setup(seed, n, d, w, kind, log, dt, three, how)
    cen = np.round(c * (w - 1), 2)
    p = rm.default_pad(w) if pad is None else pad
    win = rec.make_circular_ramp_window(w + 2 * p, name) if own else None
    with ctx.unchanged("bpf", s, *([] if ang is None else [ang])):
        out = rec.bpf_reconstruction(
            s, cen, angles=ang, ratio=ratio, ramp_win=win, filter_name=name,
            pad=pad, pad_mode=mode, apply_log=log > 0, gpu=gpu,
            ncore=ncore)
    ctx.shape(out, (w, d, w) if three else (w, w), "shape")
    big = 8 if dt != "uint16" else 20 if log else 900
    for i in range(d if three else 1):
        exp = rm.bpf(s[:, i] if three else s, cen, ang, ratio, name, pad,
                     mode, log > 0)
        ctx.near(out[:, i] if three else out, exp, "slice %d" % i,
                 atol=4e-6 * big, scale=0)
    ctx.nontrivial(n > 2 and (ratio is None or ratio > 0.3))


@check(quick=100, seed=SEED, n=I(8, 24), d=I(1, 3), w=I(8, 30), c=F(0, 1),
       kind=pick("noise", "smooth", "sparse"), log=pick(0, 1), three=st.
       booleans(), how=pick(None, "half", "back", "full", "start"),
       ratio=RATIO, name=NAME, rate=pick(0.25, 0.0, 0.1, 0.5),
       mode=pick("edge", "constant", "symmetric"), ncore=st.one_of(
           st.none(), I(1, 3)))
def dfi(ctx, seed, n, d, w, c, kind, log, three, how, ratio, name, rate, mode,
        ncore):
    """The spectra of the rows laid out along their directions, transformed
    back."""
    if log:
        mode = "edge"
    s = stack(seed, n, d, w, kind, log, "float64")
    if log:         # splines must not overshoot to zero before the log
        s = 0.8 + 0.4 * s
    if not three:
        s = np.ascontiguousarray(s[:, 0])
    r = rng(seed, 97)
    ang = {None: None, "half": np.linspace(0, np.pi, n),
           "back": np.linspace(np.pi, 0, n),
           "full": np.linspace(0, 2 * np.pi, n),
           "start": np.linspace(0, np.pi, n) + r.uniform(-5, 5)}[how]
    cen = np.round(c * (w - 1), 2)
    with ctx.unchanged("dfi", s, *([] if ang is None else [ang])):
        out = rec.dfi_reconstruction(
            s, cen, angles=ang, ratio=ratio, filter_name=name, pad_rate=rate,
            pad_mode=mode, apply_log=log > 0, ncore=ncore)
    ctx.shape(out, (w, d, w) if three else (w, w), "shape")
    for i in range(d if three else 1):
        src = s[:, i] if three else s
        exp = rm.dfi(src, cen, ang, ratio, name, rate, mode, log > 0)
        tol = 5e-6
        ctx.near(out[:, i] if three else out, exp, "slice %d" % i,
                 rtol=tol, atol=tol)
    ctx.label(how)
    ctx.nontrivial(ratio is None or ratio > 0.3)


@check(quick=100, seed=SEED, how=pick("fbp", "bpf", "dfi"), n=I(4, 12),
       d=I(2, 5), w=I(6, 24), c=F(0.2, 0.8), g=F(-3, 3))
def linear(ctx, seed, how, n, d, w, c, g):
    """Without the logarithm reconstruction is linear, and slices of a stack
    do not mix."""
    r = rng(seed, 98)
    s1, s2 = r.normal(size=(2, n, d, w))
    cen = c * (w - 1)

    def run(s):
        f = getattr(rec, how + "_reconstruction")
        kw = {} if how == "dfi" else {"gpu": False}
        return f(s, cen, apply_log=False, **kw)
    if how == "fbp":    # a position on the border of a row may fall out
        _, doubt = rm.back_project(s1[:, 0], np.linspace(0, np.pi, n), cen)
        assume(doubt.max() == 0)
    a, b = run(s1), run(s2)
    tol = 2e-6 * (1 + abs(g))
    ctx.near(run(s1 + g * s2), a + g * b, "linear", atol=tol * n)
    k = int(r.integers(0, d))
    s3 = s1.copy()
    s3[:, k] = s2[:, k]
    e = a.copy()
    e[:, k] = b[:, k]
    ctx.near(run(s3), e, "one slice replaced", atol=1e-6 * n)
    ctx.near(run(s1[:, k]), a[:, k], "slice alone", atol=1e-6 * n)
    ctx.label(how)


@check(quick=80, how=pick("fbp", "bpf", "dfi"), n=I(3, 8), w=I(4, 10),
       d=I(0, 2), c=F(-1.5, 1.5), dn=I(-2, 2))
def refused(ctx, how, n, w, d, c, dn):
    """A centre beyond the columns, or angles not one for each row, are
    refused."""
    s = np.random.default_rng(0).random((n, d, w) if d else (n, w)) + 0.1
    f = getattr(rec, how + "_reconstruction")
    kw = {} if how == "dfi" else {"gpu": False}
    cen = c * w
    if cen < 0 or cen >= w:
        ctx.raises(ValueError, lambda: f(s, cen, **kw), "centre %s" % cen)
    else:
        ctx.shape(f(s, cen, **kw), s.shape[1:-1] and (w, d, w) or (w, w), "")
    if dn and n + dn > 1:
        ctx.raises(ValueError, lambda: f(
            s, w / 2, angles=np.linspace(0, 3, n + dn), **kw), "angles")
    ctx.nontrivial(dn != 0 or cen < 0 or cen >= w)


# widths at which the default padding reaches its limit
also(ramp, "ramp_wide", "The same for wide rows.", 12, 100, 3, seed=SEED,
     n=I(1, 4), w=I(980, 1300), name=NAME, pad=st.none(), mode=MODE,
     own=pick("none", "fit"), kind=pick("noise", "smooth"))
also(circular_ramp, "circular_ramp_wide", "The same for wide images.", 4, 30,
     20, seed=SEED, w=I(980, 1200), name=NAME, pad=st.none(), mode=MODE,
     own=st.booleans())
WIDE = dict(seed=SEED, n=I(3, 5), d=I(1, 1), w=I(980, 1200), c=F(0.3, 0.7),
            kind=pick("noise", "smooth"), log=pick(0, 1), dt=pick("float32"),
            three=st.just(False), how=pick("any"), ratio=pick(1.0, 0.0),
            name=NAME, pad=st.none(), mode=pick("edge", "reflect"),
            ncore=st.just(1), own=st.booleans(), gpu=st.just(False))
also(fbp, "fbp_wide", "The same for wide sinograms.", 4, 30, 30, **WIDE)
also(bpf, "bpf_wide", "The same for wide sinograms.", 4, 30, 30, **WIDE)


larger(dfi, 6, 60, n=I(60, 180), w=I(60, 200))
MANY = dict(n=I(60, 190), w=I(20, 90), d=I(1, 3))
larger(fbp, 6, 60, 20, **MANY)
larger(bpf, 6, 60, 20, **MANY)
also(fbp, "fbp_deep", "The same for stacks of many slices.", 6, 60, 10,
     n=I(4, 12), w=I(6, 16), d=I(5, 40), three=st.just(True))
also(bpf, "bpf_deep", "The same for stacks of many slices.", 6, 60, 10,
     n=I(4, 12), w=I(6, 16), d=I(5, 40), three=st.just(True))
also(dfi, "dfi_deep", "The same for stacks of many slices.", 6, 60, 10,
     n=I(8, 12), w=I(8, 16), d=I(5, 40), three=st.just(True))
larger(linear, 4, 40, 20, n=I(20, 90), w=I(20, 60), d=I(2, 5))
