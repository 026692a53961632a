"""C33: vertical slices show the object, agree with horizontal slices, and
find the centre."""
import os
import numpy as np
import scipy.ndimage as ndi
from PIL import Image
from hypothesis import strategies as st, assume
from vf.core import again, also, check, larger
from vf.gen import SEED, I, F, rng, pick, disc_sinogram, array
from props.C31 import entropy, sharpness
from props.C32 import line
from vf import recmodel as rm
import algotom.rec.reconstruction as rec
import algotom.rec.vertrec as vr


@check(quick=80, seed=SEED, n=I(3, 24), h=I(1, 5), w=I(4, 15), off=F(-2, 2),
       turn=st.booleans(), ang=st.booleans(), use_log=st.booleans(),
       name=pick("hann", None, "parzen"))
def slices_agree(ctx, seed, n, h, w, off, turn, ang, use_log, name):
    """Filtered before, a vertical slice along an axis is that row or column
    of the slices reconstructed by filtered back-projection."""
    w = 2 * w + 1
    p = array(seed, (n, h, w), "float32", "noise", 0.2, 1)
    angles = np.sort(rng(seed, 105).uniform(0, 3, n)) if ang else None
    cen = 0.5 * (w - 1) + off + 0.0123
    k = seed % w
    kw = dict(angles=angles, apply_log=use_log, gpu=False, filter_name=name)
    out = vr.vertical_reconstruction(p, k, cen, 90.0 if turn else 0.0,
                                     ramp_filter="before", ncore=1,
                                     show_progress=False, **kw)
    vol = rec.fbp_reconstruction(p, cen, ratio=None, ncore=1, **kw)
    exp = vol[::-1, :, k].T if turn else vol[k]
    # a position may fall off a row by rounding
    g = np.arange(w) - 0.5 * (w - 1)
    a = np.linspace(0, np.pi, n) if angles is None else angles
    x, y = line(k, 90.0 if turn else 0.0, w)
    f = x[None] * np.cos(a)[:, None] + y[None] * np.sin(a)[:, None] + cen
    assume(np.minimum(np.abs(f), np.abs(f - w + 1)).min() > 1e-4)
    ctx.near(out, exp, "vertical slice", rtol=2e-5, atol=2e-5)
    ctx.nontrivial(n > 4 and h > 1 and len(g) > 9)


def objects(seed, w, h):
    """Upright cylinders: (x, y, radius, value, first row, last row)."""
    r = rng(seed, 106)
    out = []
    for i in range(2):
        rad = r.uniform(0.1, 0.17) * w
        d, t = r.uniform(0, 0.4 * w - rad), r.uniform(0, 2 * np.pi)
        a = int(r.integers(0, h - 1))
        out.append((d * np.cos(t), d * np.sin(t), rad, r.uniform(0.5, 1.5),
                    a, int(r.integers(a + 1, h + 1))))
    return out


def projections(objs, angles, h, w, cen):
    p = np.zeros((len(angles), h, w))
    for x, y, r, v, a, b in objs:
        p[:, a:b] += disc_sinogram([(x, y, r, v)], angles, w, cen)[:, None]
    return p


@check(quick=40, seed=SEED, h=I(2, 5), w=I(40, 64), off=F(-3, 3), alpha=F(
    0, 180), k=F(-0.25, 0.25), start=st.one_of(st.just(0.0), F(-3, 3)),
    back=st.booleans(), use_log=st.booleans(), many=I(0, 2),
    filt=pick("before", "after"), cost=3)
def truth(ctx, seed, h, w, off, alpha, k, start, back, use_log, many, filt):
    """Cylinders cut by a plane at any angle and distance come out where
    they are."""
    objs = objects(seed, w, h)
    n = int(1.6 * w)
    ang = np.linspace(0, np.pi, n) + start
    if back:
        ang = ang[::-1].copy()
    cen = 0.5 * (w - 1) + off
    p = projections(objs, ang, h, w, cen)
    if use_log:
        p = np.exp(-p / w)
    k = int(np.ceil(0.5 * (w - 1)) + k * w)
    kw = dict(angles=ang, apply_log=use_log, gpu=False, filter_name=None,
              ramp_filter=filt, ncore=1, show_progress=False)
    if many == 0:
        out = vr.vertical_reconstruction(p, k, cen, alpha, **kw)
    elif many == 1:
        out = vr.vertical_reconstruction_multiple(p, k - 2, k, cen, alpha,
                                                  2, **kw)[1]
    else:
        out = vr.vertical_reconstruction_different_angles(
            p, [k - 1, k], [0.0, alpha], cen, **kw)[1]
    if use_log:
        out = out * w
    xs, ys = line(k, alpha, w)
    exp = np.zeros((h, w))
    edge = np.zeros((h, w), bool)
    for x, y, r, v, a, b in objs:
        d = np.hypot(xs - x, ys - y)
        exp[a:b] += v * (d < r)
        edge[a:b] |= np.abs(d - r) < 1.5
    seen = np.tile(np.hypot(xs, ys) < 0.42 * w, (h, 1)) & ~edge
    if filt == "before":
        ctx.near(out[seen], exp[seen], "cut through the object", atol=0.25,
                 scale=0)
        ctx.true(np.abs(out - exp)[seen].mean() < 0.06, "mean error")
    elif seen.sum() > 20 and np.std(exp[seen]) > 0.2:
        cc = np.corrcoef(out[seen], exp[seen])[0, 1]
        ctx.true(cc > 0.7, "correlation with the object is %.3f" % cc)
    ctx.label(filt, "single" if many == 0 else "many")
    ctx.nontrivial(exp.any())


def masked(img, w, first):
    rad = int(min(first, w - first))
    j = np.arange(w) - (w - 2 * rad) // 2
    return img * ((j >= 0) & (j < 2 * rad))


def autocorrelation(img):
    """Mean over rows of the largest value of the autocorrelation, which is
    the one at zero: the energy."""
    return np.mean(np.sum(np.float64(img) ** 2, axis=1))


@check(quick=50, seed=SEED, n=I(6, 14), h=I(3, 6), w=I(12, 20), lo=F(-3, 0),
       num=I(1, 5), step=pick(0.5, 1.0, 2.0), metric=pick(
           "entropy", "sharpness", "autocorrelation", "own"), alpha=F(0, 180),
       ang=st.booleans(), chunk=st.one_of(st.none(), I(3, 20)), filt=pick(
           "after", "before", None), sigma=pick(0, 1, 3), use_log=st.
       booleans(), bad=I(0, 2), masking=st.booleans(), invert=st.booleans(),
       cost=3)
def metric_search(ctx, seed, n, h, w, lo, num, step, metric, alpha, ang, chunk,
                  filt, sigma, use_log, bad, masking, invert):
    """The value listed for each candidate is the metric of the (masked)
    slice reconstructed there from the smoothed projections; the least
    wins."""
    r = rng(seed, 107)
    p = array(seed, (n, h, w), "float64", "noise", 0.2, 1)
    if bad:
        p[r.integers(0, n, bad), r.integers(0, h, bad),
          r.integers(0, w, bad)] = -0.2
    angles = np.sort(r.uniform(0, 3, n)) if ang else None
    a = np.round(0.5 * w + lo, 2)
    num = max(1, min(num, int((w - 1.5 - a) / step)))
    b = a + (num - 1) * step - 1e-3
    k = w // 2 + seed % 3

    def own(img, q=1.0):
        return q * float(np.abs(img).max())
    kw = dict(metric=metric, alpha=alpha, angles=angles, chunk_size=chunk,
              ramp_filter=filt, sigma=sigma, apply_log=use_log, gpu=False,
              masking=masking, invert_metric=invert,
              show_progress=bool(seed % 2), ncore=1 + seed % 2)
    if metric == "own":
        kw.update(metric_function=own, q=3.0)
    with ctx.unchanged("search", p, *([angles] if ang else [])), \
            np.errstate(all="warn"):
        cs, vs = vr.find_center_vertical_slice(p, k, a, b, step,
                                               return_metric=True, **kw)
        best = vr.find_center_vertical_slice(p, k, a, b, step, **kw)
    exp_c = np.arange(a, b + step, step)
    ctx.near(cs, exp_c, "candidates", atol=1e-9)
    q = ndi.gaussian_filter(p, (0, sigma, sigma)) if sigma else p
    q = rm.log(q, use_log)

    def img(c):
        return np.float64(vr.vertical_reconstruction(
            np.copy(q), k, c, alpha, angles=angles, ramp_filter=filt
            or "after", apply_log=False, gpu=False, ncore=1,
            show_progress=False))
    lst = [masked(img(c), w, exp_c.min()) if masking else img(c)
           for c in exp_c]
    if metric == "entropy":
        m = img(np.mean(exp_c))
        exp = [entropy(i, m.min(), m.max()) for i in lst]
        tol = 40 + 0.05 * np.ptp(exp)
    else:
        f = {"sharpness": sharpness, "autocorrelation": autocorrelation,
             "own": lambda i: own(i, 3.0)}[metric]
        exp = [f(i) for i in lst]
        tol = 1e-4 * np.max(exp) + 1e-9
    exp = np.asarray(exp)
    if invert:
        exp = exp.max() - exp
    ctx.near(vs, exp, "metric", atol=tol, scale=0)
    ctx.eq(float(best), float(cs[np.argmin(vs)]), "candidate returned")
    ctx.label(metric)
    ctx.nontrivial(num > 1)


@check(quick=30, seed=SEED, n=I(5, 10), h=I(2, 5), w=I(12, 20), lo=pick(
    0, -1.5, -3), num=I(1, 4), step=pick(0.5, 1.0, 2.0), alpha=F(0, 180),
    filt=pick("after", "before", None), use_log=st.booleans(), bad=I(0, 2),
    masking=st.booleans(), chunk=st.one_of(st.none(), I(3, 12)), ang=st.
    booleans(), cost=3)
def visual(ctx, seed, n, h, w, lo, num, step, alpha, filt, use_log, bad,
           masking, chunk, ang):
    """One file per candidate from start to stop, named by it, holding the
    slice reconstructed there."""
    r = rng(seed, 109)
    p = array(seed, (n, h, w), "float32", "noise", 0.2, 1)
    if bad:
        p[r.integers(0, n, bad), r.integers(0, h, bad),
          r.integers(0, w, bad)] = -0.2
    angles = np.sort(r.uniform(0, 3, n)) if ang else None
    a = 0.5 * w + lo
    num = max(1, min(num, int((w - 1.5 - a) / step)))
    base = ctx.tmpdir()
    k = seed % w
    with ctx.unchanged("visual", p, *([angles] if ang else [])), \
            np.errstate(all="warn"):
        out = vr.find_center_visual_vertical_slices(
            p, base, k, a, a + (num - 1) * step, step, alpha, angles=angles,
            ramp_filter=filt, apply_log=use_log, gpu=False, masking=masking,
            chunk_size=chunk, prefer="threads", ncore=1, display=seed % 2)
    cs = [a + i * step for i in range(num)]
    ctx.eq(sorted(os.listdir(out)), sorted("center_%.2f.tif" % c for c in cs),
           "files")
    q = rm.log(p, use_log)
    for c in cs:
        img = np.asarray(Image.open(out + "/center_%.2f.tif" % c))
        exp = vr.vertical_reconstruction(
            np.copy(q), k, c, alpha, angles=angles, ramp_filter=filt
            or "after", apply_log=False, gpu=False, ncore=1,
            show_progress=False)
        if masking:
            exp = masked(exp, w, a)
        ctx.near(img, exp, "slice at %.2f" % c, rtol=1e-5, atol=1e-5)
    ctx.nontrivial(num > 1)


@check(quick=10, thorough=30, which=pick("entrpy", "", "Sharpness"))
def refused(ctx, which):
    """An unknown metric is refused."""
    p = np.random.default_rng(0).random((5, 4, 9)) + 0.1
    ctx.raises(ValueError, lambda: vr.find_center_vertical_slice(
        p, 4, 3, 5, metric=which, gpu=False), "metric")


larger(slices_agree, 6, 60, 10, n=I(30, 120), h=I(5, 12), w=I(15, 40))
larger(metric_search, 4, 40, 20, n=I(30, 60), h=I(6, 12), w=I(30, 50))


# paths used before
again(visual, 5, 50, 10)
