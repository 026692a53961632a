"""C32: vertical slices equal their definition, one or many at a time."""
import numpy as np
from hypothesis import strategies as st, assume
from vf.core import check, also
from vf.gen import SEED, I, F, array, rng, pick
from vf import recmodel as rm
import algotom.rec.vertrec as vr

ALPHA = st.one_of(pick(0.0, 45.0, 90.0, 135.0, 180.0), F(0, 180))
NAME = pick("hann", "hann", *rm.WINDOWS)
MODE = pick("edge", "edge", "reflect", "constant", "symmetric")
FILT = pick("after", "before", None)


def line(k, alpha, width):
    """Points of the k-th line, in pixels from the axis: steps of one along
    (cos, sin), k - c away from it against (-sin, cos)."""
    c = int(np.ceil(0.5 * (width - 1)))
    t = np.arange(width) - c
    a = np.deg2rad(alpha)
    d = -(k - c)
    return t * np.cos(a) - d * np.sin(a), t * np.sin(a) + d * np.cos(a)


def back_project(proj, angles, xs, ys, center, edge):
    n, h, w = proj.shape
    angles = np.asarray(angles, float)
    rec, doubt = np.zeros((h, w)), np.zeros((h, w))
    for p, a in zip(np.asarray(proj, float), angles):
        f = xs * np.cos(a) + ys * np.sin(a) + center
        v, u = rm.project(p, np.tile(f, (h, 1)), edge)
        rec += v
        doubt += u * np.abs(p).max()
    return rec, doubt


def correct(proj, flat, dark, use_log):
    p = np.asarray(proj, float)
    if flat is not None or dark is not None:
        flat = np.ones(p.shape[1:]) if flat is None else np.float64(flat)
        dark = np.zeros(p.shape[1:]) if dark is None else np.float64(dark)
        fd = flat - dark
        p = (p - dark) / np.where(fd == 0, 1.0, fd)
    return rm.log(p, use_log)


def model(proj, k, alpha, center, flat=None, dark=None, angles=None,
          crop=(0, 0, 0, 0), first=0, last=-1, filt="after", name="hann",
          pad=None, mode="edge", use_log=True, masking=False):
    n, h, w = proj.shape
    t, b, l, r = crop
    box = np.s_[t:h - b, l:w - r]
    last = n if last == -1 else last
    p = correct(proj[first:last], flat, dark, use_log)[(slice(None),) + box]
    n, h, w = p.shape
    if angles is None:
        angles = np.linspace(0, np.pi, n)
    pad = rm.default_pad(w) if pad is None else pad
    if filt == "before":
        p = np.asarray([rm.ramp_filter(i, name, pad, mode) for i in p])
    xs, ys = line(k, alpha, w)
    rec, doubt = back_project(p, angles, xs, ys, center, filt != "before")
    if filt == "after":
        q = np.pad(rec, ((0, 0), (pad, pad)), mode=mode)
        f = np.abs(rm.fresp(q.shape[1], name))
        rec = np.real(np.fft.ifft(np.fft.fft(q, axis=1) * f))[:, pad:pad + w]
    if masking:
        rad = int(min(center, w - center))
        j = np.arange(w) - (w - 2 * rad) // 2
        rec = rec * ((j >= 0) & (j < 2 * rad))
    return rec * np.pi / (n - 1), doubt * np.pi / (n - 1)


@check(quick=200, w=I(1, 40), k=F(0, 1), alpha=ALPHA, whole=st.booleans(),
       step=I(1, 3))
def lines(ctx, w, k, alpha, whole, step):
    """A vertical plane is a straight line seen from above, at the distance
    and angle asked for; many lines are the single ones."""
    k = k * (w - 1)
    k = np.round(k) if whole else k
    x, y = vr._get_points_single_line(k, alpha, w)
    ex, ey = line(k, alpha, w)
    ctx.near(x, ex, "x", atol=1e-9 * w)
    ctx.near(y, ey, "y", atol=1e-9 * w)
    k = int(k)
    xm, ym = vr._get_points_multiple_lines(k, w - 1, alpha, w, step)
    idx = list(range(k, w, step))
    ctx.shape(xm, (len(idx), w), "lines")
    for i, q in enumerate(idx):
        ex, ey = line(q, alpha, w)
        ctx.near(xm[i], ex, "x of lines", atol=1e-6 * w)
        ctx.near(ym[i], ey, "y of lines", atol=1e-6 * w)
    al = [(alpha + 31 * i) % 180 for i in idx]
    xm, ym = vr._get_points_multiple_lines_different_angles(idx, al, w)
    for i, q in enumerate(idx):
        ex, ey = line(q, al[i], w)
        ctx.near(xm[i], ex, "x of lines", atol=1e-6 * w)
        ctx.near(ym[i], ey, "y of lines", atol=1e-6 * w)
    ctx.nontrivial(w > 2 and alpha % 90 != 0)


@check(quick=150, seed=SEED, n=I(1, 12), h=I(1, 6), w=I(1, 24), s=I(1, 4),
       c=F(-0.2, 1.2), edge=st.booleans(), dt=pick("float32", "float64",
                                                   "uint8", "uint16"))
def projection(ctx, seed, n, h, w, s, c, edge, dt):
    """Pixels are sums of linearly interpolated values; zero or the value at
    the edge outside."""
    r = rng(seed, 101)
    p = r.normal(size=(n, h, w))
    big = 1 if dt[0] == "f" else 100
    p = (p if big == 1 else np.clip(np.abs(p) * 100, 0, 250)).astype(dt)
    ang = np.float32(r.uniform(-4, 4, n))
    xm, ym = np.float32(r.uniform(-w, w, (2, s, w)))
    cen = np.float32(c * (w - 1))
    with ctx.unchanged("back-projection", p, ang, xm, ym):
        many = vr.vertical_back_projection_cpu_chunk(p, ang, xm, ym, cen,
                                                     edge)
    ctx.shape(many, (s, h, w), "shape")
    tol = 2e-6 * n * max(8, w) * big
    for i in range(s):
        one = vr.vertical_back_projection_cpu(p, ang, xm[i], ym[i], cen, edge)
        exp, doubt = back_project(p, ang, np.float64(xm[i]),
                                  np.float64(ym[i]), float(cen), edge)
        ctx.true(np.all(np.abs(one - exp) <= tol + doubt), "single")
        ctx.true(np.all(np.abs(many[i] - exp) <= tol + doubt), "many")
    ctx.nontrivial(n > 1 and w > 2)


CFG = dict(seed=SEED, n=I(2, 12), h=I(1, 6), w=I(4, 20), c=F(0, 1),
           alpha=ALPHA, fk=pick(None, "float32", "uint16"), dk=pick(
               None, "float32", "uint16"), dt=pick("float32", "uint16",
                                                   "float64"),
           low=st.booleans(), ang=st.booleans(), crop=st.tuples(
               I(0, 2), I(0, 2), I(0, 2), I(0, 2)), first=I(0, 3),
           last=I(0, 3), chunk=st.one_of(st.none(), I(1, 14)), filt=FILT,
           name=NAME, pad=st.one_of(st.none(), I(0, 6)), mode=MODE,
           use_log=st.booleans(), masking=st.booleans())


def scan(seed, n, h, w, c, alpha, fk, dk, dt, low, ang, crop, first, last,
         chunk, filt, name, pad, mode, use_log, masking):
    """Data, position and options of a vertical reconstruction."""
    r = rng(seed, 102)
    first = min(first, n - 2)
    last = n - min(last, n - 2 - first)
    t, b = min(crop[0], h - 1), 0
    b = min(crop[1], h - 1 - t)
    l, rt = crop[2], crop[3]
    crop = (t, b, min(l, max(0, w - 5)), 0)
    crop = crop[:3] + (min(rt, max(0, w - 5 - crop[2])),)
    w1 = w - crop[2] - crop[3]
    flat = dark = None
    if fk or dk or dt == "uint16":
        lo, hi = 100, 190
        if low:
            lo = 0
    else:
        lo, hi = (-0.1 if low else 0.2), 1.5
    p = array(seed, (n, h, w), dt, "noise", lo, hi)
    if fk:
        flat = array(seed + 1, (h, w), fk, "noise", 150, 250)
    if dk:
        dark = array(seed + 2, (h, w), dk, "noise", 0, 60)
    if fk and dk and low:
        m = r.random((h, w)) < 0.1
        dark[m] = flat[m]
    if filt is None and mode == "reflect":
        mode = "edge"
    if pad is not None and mode == "reflect":
        pad = min(pad, w1 - 1)
    cen = float(np.round(c * (w1 - 1), 3))
    k = int(r.integers(0, w1))
    m = last - first
    angles = np.sort(r.uniform(-2, 4, m)) if ang else None
    # the code warns of zeros by way of numpy's own warnings
    opts = dict(flat_field=flat, dark_field=dark, angles=angles, crop=crop,
                proj_start=first, proj_stop=last if last < n or seed % 2
                else -1, chunk_size=chunk, ramp_filter=filt,
                filter_name=name, pad=pad, pad_mode=mode, apply_log=use_log,
                gpu=False, show_progress=bool(seed % 2), masking=masking)
    mod = dict(flat=flat, dark=dark, angles=angles, crop=crop, first=first,
               last=last, filt=filt, name=name, pad=pad, mode=mode,
               use_log=use_log, masking=masking)
    size = np.abs(correct(p, flat, dark, use_log)).max() * m
    return p, k, w1, cen, opts, mod, 3e-5 * max(size, 1) * np.pi / (m - 1)


def arrays(p, opts):
    return [p] + [opts[k] for k in ("flat_field", "dark_field", "angles")
                  if opts[k] is not None]


def close(ctx, out, exp, tol, msg):
    e, doubt = exp
    # the filter spreads what is in doubt at one pixel along its row
    d = doubt + doubt.sum(axis=1, keepdims=True) * 0.3
    ctx.shape(out, e.shape, msg)
    bad = np.abs(out - e) - d
    ctx.true(bad.max() <= tol, lambda: "%s: off by %.4g, allowed %.4g" % (
        msg, bad.max(), tol))


@check(quick=150, **CFG)
def single(ctx, **kw):
    """Flat-field correction, logarithm, ramp filter before or after,
    back-projection onto the plane, scale, mask: in chunks of any size, from
    the projections and the area asked for."""
    p, k, w1, cen, opts, mod, tol = scan(**kw)
    with ctx.unchanged("vertical", *arrays(p, opts)), np.errstate(all="warn"):
        out = vr.vertical_reconstruction(p, k, cen, kw["alpha"], **opts)
    close(ctx, out, model(p, k, kw["alpha"], cen, **mod), tol, "slice")
    ctx.label(str(kw["filt"]), "log" if kw["use_log"] else "no log")
    ctx.nontrivial(kw["n"] > 4 and kw["h"] > 1)


@check(quick=100, step=I(1, 3), more=I(0, 4), end=st.booleans(), **CFG)
def multiple(ctx, step, more, end, **kw):
    """Parallel slices are the single ones."""
    p, k, w1, cen, opts, mod, tol = scan(**kw)
    stop = -1 if end else min(w1 - 1, k + more)
    with ctx.unchanged("multiple", *arrays(p, opts)), np.errstate(all="warn"):
        out = vr.vertical_reconstruction_multiple(
            p, k, stop, cen, kw["alpha"], step, **opts)
    idx = list(range(k, (w1 - 1 if end else stop) + 1, step))
    ctx.eq(len(out), len(idx), "number of slices")
    for i, q in enumerate(idx):
        close(ctx, out[i], model(p, q, kw["alpha"], cen, **mod), tol,
              "slice %d" % q)
    ctx.nontrivial(len(idx) > 1)


@check(quick=100, num=I(1, 4), **CFG)
def angles(ctx, num, **kw):
    """Slices at various angles are the single ones."""
    p, k, w1, cen, opts, mod, tol = scan(**kw)
    r = rng(kw["seed"], 103)
    idx = [k] + [int(i) for i in r.integers(0, w1, num - 1)]
    als = [kw["alpha"]] + [float(a) for a in r.uniform(0, 180, num - 1)]
    with ctx.unchanged("angles", *arrays(p, opts)), np.errstate(all="warn"):
        out = vr.vertical_reconstruction_different_angles(
            p, idx, als, cen, **opts)
    ctx.eq(len(out), num, "number of slices")
    for i in range(num):
        close(ctx, out[i], model(p, idx[i], als[i], cen, **mod), tol,
              "slice %d at %s" % (idx[i], als[i]))
    ctx.nontrivial(num > 1)


@check(quick=80, seed=SEED, n=I(3, 40), h=I(1, 5), w=I(5, 20), c1=I(1, 45),
       c2=st.one_of(st.none(), I(-1, 45)), filt=FILT, which=I(0, 2))
def chunks(ctx, seed, n, h, w, c1, c2, filt, which):
    """The chunk size, and the number of threads, do not matter."""
    p = array(seed, (n, h, w), "float32", "noise", 0.1, 1)
    cen = float(rng(seed, 104).random() * (w - 1))

    def run(c, ncore):
        kw = dict(chunk_size=c, ramp_filter=filt, gpu=False, ncore=ncore,
                  show_progress=False)
        if which == 0:
            return vr.vertical_reconstruction(p, w // 3, cen, 33.0, **kw)
        if which == 1:
            return vr.vertical_reconstruction_multiple(p, 0, 3, cen, 33.0,
                                                       **kw)
        return vr.vertical_reconstruction_different_angles(
            p, [0, w - 1], [0.0, 120.0], cen, **kw)
    ctx.near(run(c1, 2), run(c2, 1), "chunk size", atol=1e-4, rtol=1e-5)
    ctx.nontrivial(c1 < n)


@check(quick=120, w=I(5, 12), what=I(0, 9), which=I(0, 2), by=I(1, 4))
def refused(ctx, w, what, which, by):
    """Positions outside the image, angles beyond a half turn, lists that do
    not fit, crops leaving nothing, unknown filters are refused."""
    n, h = 6, 4
    p = np.random.default_rng(0).random((n, h, w)) + 0.1
    arg = dict(k=2, cen=w / 2.0, alpha=10.0)
    kw = {}
    if what == 0:
        arg["cen"] = w - 1 + 0.1 * by
    elif what == 1:
        arg["cen"] = -0.1 * by
    elif what == 2:
        arg["k"] = w - 1 + by
    elif what == 3:
        arg["k"] = -by - 1
    elif what == 4:
        arg["alpha"] = 180 + by if by % 2 else -by * 1.0
    elif what == 5:
        kw["angles"] = np.linspace(0, 3, n - by)
    elif what == 6:
        kw["crop"] = (0, 0, w - 2, 2 + by) if by % 2 else (2, 1 + by, 0, 0)
    elif what == 7:
        kw["ramp_filter"] = "in between"
    elif what == 8:
        kw["flat_field" if by % 2 else "dark_field"] = np.ones((h, w + by))
    else:
        kw["proj_start"], kw["proj_stop"] = 3, 4 - by

    def run():
        k, c, a = arg["k"], arg["cen"], arg["alpha"]
        q = dict(gpu=False, show_progress=False, **kw)
        if which == 0:
            vr.vertical_reconstruction(p, k, c, a, **q)
        elif which == 1:
            vr.vertical_reconstruction_multiple(p, k, k, c, a, **q)
        else:
            vr.vertical_reconstruction_different_angles(p, [1, k], [0.0, a],
                                                        c, **q)
    ctx.raises(ValueError, run, "case %d" % what)
    if which == 2:
        for a, b in (([1, 2], [0.0]), ((1, 2), [0.0, 1.0]),
                     ([1, 2], (0.0, 1.0))):
            ctx.raises(ValueError, lambda:
                       vr.vertical_reconstruction_different_angles(
                           p, a, b, w / 2, gpu=False), "lists")


# numbers of projections, and widths, at which limits take over
LONG = dict(CFG, n=I(110, 160), chunk=st.none(), w=I(4, 10), h=I(1, 3))
WIDE = dict(CFG, w=I(980, 1150), chunk=st.none(), h=I(1, 2), n=I(2, 5),
            pad=st.none(), crop=st.just((0, 0, 0, 0)))
also(single, "single_long", "The same for long scans.", 8, 80, 4, **LONG)
also(single, "single_wide", "The same for wide views.", 8, 80, 4, **WIDE)
also(multiple, "multiple_long", "The same for long scans.", 8, 80, 4,
     step=I(1, 2), more=I(0, 2), end=st.just(False), **LONG)
also(multiple, "multiple_wide", "The same for wide views.", 8, 80, 4,
     step=I(1, 2), more=I(0, 1), end=st.just(False), **WIDE)
also(angles, "angles_long", "The same for long scans.", 8, 80, 4,
     num=I(1, 3), **LONG)
also(angles, "angles_wide", "The same for wide views.", 8, 80, 4,
     num=I(1, 2), **WIDE)
