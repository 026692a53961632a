"""C27: speckle tracking - shifts between stacks, alignment, transmission and
dark signal, and the phase retrieved."""
import numpy as np
import scipy.ndimage as ndi
from hypothesis import strategies as st, assume
from vf.core import check, larger
from vf.gen import SEED, I, F, array, rng, pick
from props.C40 import moved
import algotom.prep.phase as ps
import algotom.util.correlation as corl


@check(quick=60, seed=SEED, n=I(2, 4), h=I(34, 44), w=I(34, 44),
       margin=I(3, 5), flat=st.booleans(), value=pick("median", "mixed",
                                                      "mean"))
def stack_shifts(ctx, seed, n, h, w, margin, flat, value):
    """Each pair of images gives its own shift."""
    r = rng(seed, 81)
    sh = np.round(r.uniform(-margin + 1, margin - 1, (n, 2)), 3)
    if flat:
        n, sh = 1, sh[:1]
    pairs = [moved(seed + k, (h, w), sh[k, 0], sh[k, 1]) for k in range(n)]
    ref = np.asarray([p[0] for p in pairs])
    sam = np.asarray([p[1] for p in pairs])
    if flat:
        ref, sam = ref[0], sam[0]
    pts = [[h // 2, h // 2 - 1, h // 2 + 1], [w // 2, w // 2 + 1, w // 2]]
    with ctx.unchanged("shifts", ref, sam):
        out = ps.find_shift_between_image_stacks(
            ref, sam, 15, margin, pts, value, ncore=1)
    ctx.shape(out, (n, 2), "shifts")
    ctx.near(out, sh, "shifts (x, y)", atol=0.35, scale=0)
    ctx.nontrivial(n > 1)


@check(quick=60, seed=SEED, n=I(1, 3), h=I(30, 40), w=I(30, 40),
       win=I(4, 9), margin=I(2, 4), value=pick("median", "mixed", "mean"),
       sub=st.booleans(), method=pick("diff", "poly_fit"), size=I(3, 8),
       norm=st.booleans(), m=I(1, 9), sample=st.booleans())
def as_told(ctx, seed, n, h, w, win, margin, value, sub, method, size, norm,
            m, sample):
    """The way of searching asked for is the way every pair of images is
    searched in."""
    r = rng(seed, 89)
    ref = np.asarray([moved(seed + k, (h, w), 0, 0)[0] for k in range(n)])
    sam = np.asarray([moved(seed + k, (h, w), *r.uniform(
        -margin + 1, margin - 1, 2))[1] for k in range(n)])
    sam = sam + 0.2 * r.random(sam.shape)
    sr = np.round(r.uniform(-1.9, 1.9, (n, 2)), 2)
    c = 1 + int(np.abs(sr).max()) if sample else 0
    e = win // 2 + margin + 1
    pts = [list(map(int, r.integers(e, h - 2 * c - e, m))),
           list(map(int, r.integers(e, w - 2 * c - e, m)))]
    kw = dict(global_value=value, sub_pixel=sub, method=method, size=size,
              ncore=1, norm=norm)
    with ctx.unchanged("shifts", ref, sam, sr):
        if sample:
            out = ps.find_shift_between_sample_images(
                ref, sam, sr, win, margin, pts, **kw)
        else:
            out = ps.find_shift_between_image_stacks(
                ref, sam, win, margin, pts, **kw)
    if sample:
        t = [(ndi.shift(sam[k], (sr[k, 1], sr[k, 0])) / (ref[k] + 1e-9))
             [c:-c, c:-c] for k in range(n)]
        pairs = [(t[0], t[k]) for k in range(1, n)]
        ctx.same(out[0], np.zeros(2), "first sample")
        out = out[1:]
    else:
        pairs = list(zip(ref, sam))
    exp = [corl.find_global_shift_based_local_shifts(
        a, b, win, margin, list_ij=pts, **kw) for a, b in pairs]
    ctx.near(out, np.reshape(exp, (-1, 2)), "shifts", rtol=1e-6, atol=1e-6)
    ctx.label("samples" if sample else "stacks", method)
    ctx.nontrivial(len(pairs) > 0)


@check(quick=150, seed=SEED, n=I(2, 4), h=I(6, 20), w=I(6, 20),
       whole=st.booleans(), both=st.booleans(), flat=st.booleans(),
       mode=pick("reflect", "nearest", "constant"))
def align_model(ctx, seed, n, h, w, whole, both, flat, mode):
    """References are moved back by their shift; with shifts of the samples
    given, both images of a pair are moved by it as well."""
    r = rng(seed, 82)
    ref, sam = r.random((n, h, w)) + 1, r.random((n, h, w)) + 2
    sr, ss = r.uniform(-3, 3, (2, n, 2))
    if whole:
        sr, ss = np.round(sr), np.round(ss)
    if flat:
        n, ref, sam, sr, ss = 1, ref[0], sam[0], sr[:1], ss[:1]
    with ctx.unchanged("align", ref, sam, sr, ss):
        a, b = ps.align_image_stacks(ref, sam, sr, ss if both else None, mode)
    ref, sam = ref.reshape(n, h, w), sam.reshape(n, h, w)
    ctx.shape(a, ref.shape, "references")
    ctx.shape(b, sam.shape, "samples")
    if whole:
        y, x = np.mgrid[0:h, 0:w]
        for k in range(n):
            t = ss[k] if both else np.zeros(2)
            yy, xx = y - t[1], x - t[0]             # in the sample
            y2, x2 = yy + sr[k, 1], xx + sr[k, 0]   # in the reference
            ok1 = (yy >= 0) & (yy < h) & (xx >= 0) & (xx < w)
            ok2 = ok1 & (y2 >= 0) & (y2 < h) & (x2 >= 0) & (x2 < w)
            g = sam[k][yy[ok1].astype(int), xx[ok1].astype(int)]
            ctx.near(b[k][ok1], g, "sample", atol=1e-9)
            g = ref[k][y2[ok2].astype(int), x2[ok2].astype(int)]
            ctx.near(a[k][ok2], g, "reference", atol=1e-9)
    else:
        for k in range(n):
            e1 = ndi.shift(ref[k], (-sr[k, 1], -sr[k, 0]), mode=mode)
            e2 = sam[k]
            if both:
                e1 = ndi.shift(e1, (ss[k, 1], ss[k, 0]), mode=mode)
                e2 = ndi.shift(e2, (ss[k, 1], ss[k, 0]), mode=mode)
            ctx.near(a[k], e1, "reference", rtol=1e-9)
            ctx.near(b[k], e2, "sample", rtol=1e-9)
    ctx.nontrivial(n > 1)


@check(quick=60, seed=SEED, n=I(2, 4), h=I(40, 50), w=I(40, 50), both=st.
       booleans(), vary=st.booleans())
def align_truth(ctx, seed, n, h, w, both, vary):
    """After alignment the sample over the reference is the transmission of
    the sample, at the place it has in the first image."""
    r = rng(seed, 83)
    sr = np.round(r.uniform(-2, 2, (1, 2)), 2) * np.ones((n, 1))
    if vary and not both:
        sr = np.round(r.uniform(-2, 2, (n, 2)), 2)
    ss = np.zeros((n, 2))
    if both:
        ss[1:] = r.uniform(-2, 2, (n - 1, 2))
    trans = moved(seed, (h, w), 0, 0, s=1.5)[0] / 8
    ref, sam = np.zeros((n, h, w)), np.zeros((n, h, w))
    for k in range(n):
        ref[k], m = moved(seed + 7 * k, (h, w), *sr[k], s=2.0)
        # sample k is the first one as seen at x + ss
        t = moved(seed, (h, w), *ss[k], s=1.5)[1] / 8
        sam[k] = m * t
    a, b = ps.align_image_stacks(ref, sam, sr, ss if both else None)
    c = slice(7, -7)
    ctx.near((b / a)[:, c, c], np.asarray([trans[c, c]] * n),
             "sample over reference", atol=0.03, scale=0)
    if both:
        # the search gives the shifts the alignment needs
        got = ps.find_shift_between_sample_images(
            ref, sam, sr, 19, 4, [[h // 2, h // 2 + 2], [w // 2, w // 2]],
            ncore=1)
        ctx.shape(got, (n, 2), "shifts of samples")
        ctx.near(got[0], [0, 0], "first sample", atol=0)
        ctx.near(got, ss, "shifts of samples", atol=0.5, scale=0)
    ctx.nontrivial(n > 1)


def signal_model(ref, sam, xs, ys, win, margin):
    n, h, w = ref.shape
    radi = win // 2
    e = radi + margin
    tr, dk = np.ones((h, w)), np.ones((h, w))
    for i in range(e, h - e):
        for j in range(e, w - e):
            y, x = i + int(np.round(ys[i, j])), j + int(np.round(xs[i, j]))
            t, d = [], []
            for k in range(n):
                a = ref[k, y - radi:y + radi + 1, x - radi:x + radi + 1]
                b = sam[k, i - radi:i + radi + 1, j - radi:j + radi + 1]
                if not a.any() or not b.any():      # nothing to compare
                    t.append(1.0)
                    d.append(1.0)
                    continue
                t.append(b.mean() / a.mean())
                d.append(b.std() / b.mean() / (a.std() / a.mean())
                         if a.std() else 1.0)
            tr[i, j], dk[i, j] = np.mean(t), np.mean(d)
    box = slice(e, h - e), slice(e, w - e)
    return [np.pad(m[box], e, mode="edge") for m in (tr, dk)], box


@check(quick=120, seed=SEED, n=I(0, 3), win=I(2, 8), more_h=I(1, 10),
       more_w=I(1, 10), reach=F(0, 3.9), told=st.booleans(), dt=pick(
           "float32", "float64"), dead=pick("", "", "ref", "sam", "both"))
def signal(ctx, seed, n, win, more_h, more_w, reach, told, dt, dead):
    """Transmission is the ratio of the means, dark signal the ratio of the
    relative spreads, of the window around a sample pixel and of the window
    around the place it comes from; both are one where an image is dead."""
    r = rng(seed, 84)
    win1 = 2 * (win // 2) + 1
    m = int(np.ceil(reach))
    e = win1 // 2 + m
    h, w = 2 * e + more_h, 2 * e + more_w
    lead = (n,) if n else ()
    ref = (r.random(lead + (h, w)) + 0.5).astype(dt)
    sam = (r.random(lead + (h, w)) * 0.7 + 0.3).astype(dt)
    for a, name in ((ref, "ref"), (sam, "sam")):
        if dead in (name, "both"):
            i, j = int(r.integers(0, h)), int(r.integers(0, w))
            a[..., max(0, i - win):i + win, max(0, j - win):j + win] = 0
    xs, ys = r.uniform(-reach, reach, (2, h, w))
    if reach:       # someone has to use it all
        xs[e, e] = reach
    frac = np.abs(np.concatenate([xs, ys]) % 1 - 0.5)
    assume(frac.min() > 1e-6)
    with ctx.unchanged("signal", ref, sam, xs, ys):
        tr, dk = ps.get_transmission_dark_field_signal(
            ref, sam, xs, ys, win, m if told else None, 1)
    (et, ed), _ = signal_model(ref.reshape(-1, h, w).astype(float),
                               sam.reshape(-1, h, w).astype(float), xs, ys,
                               win1, m)
    ctx.near(tr, et, "transmission", rtol=1e-4)
    ctx.near(dk, ed, "dark signal", rtol=1e-4)
    ctx.label("margin given" if told else "no margin")
    ctx.nontrivial(reach > 0.5 and n > 1)


@check(quick=60, seed=SEED, n=I(0, 3), win=I(3, 9), sx=I(-3, 3), sy=I(-3, 3),
       t=F(0.1, 2), v=F(0, 1), h=I(24, 40), w=I(24, 40))
def signal_truth(ctx, seed, n, win, sx, sy, t, v, h, w):
    """A sample that weakens the moved speckle by one factor and its
    contrast by another gives both back."""
    r = rng(seed, 85)
    lead = (n,) if n else ()
    big = r.random(lead + (h + 6, w + 6))
    big = big - ndi.uniform_filter(big, (0,) * len(lead) + (1, 1)) * 0 + 1
    ref = big[..., 3:-3, 3:-3]
    src = big[..., 3 + sy:3 + sy + h, 3 + sx:3 + sx + w]
    x, y = np.full((h, w), float(sx)), np.full((h, w), float(sy))
    tr, dk = ps.get_transmission_dark_field_signal(
        ref, t * src, x, y, win, None, 1)
    ctx.near(tr, np.full((h, w), t), "transmission", rtol=1e-4)
    ctx.near(dk, np.ones((h, w)), "dark signal", rtol=1e-3)
    # contrast lowered around a mean shared by all windows: stripes
    yy, xx = np.mgrid[0:h + 6, 0:w + 6]
    win1 = 2 * (win // 2) + 1
    a = 2 + np.cos(2 * np.pi * xx / win1)
    ref = a[3:-3, 3:-3]
    src = a[3 + sy:3 + sy + h, 3 + sx:3 + sx + w]
    tr, dk = ps.get_transmission_dark_field_signal(
        ref, t * (2 + v * (src - 2)), x, y, win, None, 1)
    ctx.near(tr, np.full((h, w), t), "transmission of stripes", rtol=1e-4)
    ctx.near(dk, np.full((h, w), v), "dark signal of stripes", atol=1e-3,
             rtol=1e-3)
    ctx.nontrivial(sx != 0 and sy != 0)


@check(quick=4, thorough=30, seed=SEED, ncore=I(2, 3), reach=F(0, 2),
       more=I(0, 9), cost=30)
def signal_workers(ctx, seed, ncore, reach, more):
    """The number of workers does not matter."""
    r = rng(seed, 86)
    m = int(np.ceil(reach))
    h, w = 2 * (2 + m) + 20 * ncore + more, 2 * (2 + m) + 3
    ref, sam = r.random((2, 2, h, w)) + 0.5
    xs, ys = r.uniform(-reach, reach, (2, h, w))
    a = ps.get_transmission_dark_field_signal(ref, sam, xs, ys, 5, m, 1)
    b = ps.get_transmission_dark_field_signal(ref, sam, xs, ys, 5, m, ncore)
    for p, q in zip(a, b):
        ctx.same(q, p, "with %d workers" % ncore)


@check(quick=30, seed=SEED, how=pick("correl", "umpa"), surf=pick("SCS",
                                                                 "FC"),
       dark=st.booleans(), shift=st.booleans(), dim=pick(1, 2), pad=I(0, 12),
       neg=st.booleans(), margin=pick(1, 2, 3, 3, 9, 11), win=I(3, 6), chunk=st.one_of(
           st.none(), I(1, 20)), norm=st.booleans(), glob=st.booleans(),
       method=pick("diff", "poly_fit"), size=I(3, 6),
       name=pick("hamming", "hann", None), cost=4)
def retrieval(ctx, seed, how, surf, dark, shift, dim, pad, neg, margin, win,
              chunk, norm, glob, method, size, name):
    """The phase is the surface whose slopes are the shifts found (its rim
    filled by reflection); what is asked for is what is returned."""
    e = max(win // 2 + margin, margin + 2)
    h, w = 2 * e + 6 + seed % 4, 2 * e + 7
    r = rng(seed, 87)
    ref, sam = moved(seed, (2, h, w), *r.uniform(-1, 1, 2) * (margin - 0.5),
                     s=0.6)
    with ctx.unchanged("retrieval", ref, sam):
        out = ps.retrieve_phase_based_speckle_tracking(
            ref, sam, find_shift=how, dark_signal=dark, dim=dim, win_size=win,
            margin=margin, ncore=1, norm=norm, norm_global=glob,
            chunk_size=chunk, method=method, size=size, filter_name=name,
            surf_method=surf, correct_negative=neg, pad=pad,
            return_shift=shift)
    if how == "umpa":
        res = corl.find_local_shifts_umpa(ref, sam, win, margin, gpu=False,
                                          ncore=1, dark_signal=dark,
                                          method=method, size=size,
                                          filter_name=name)
    else:
        res = corl.find_local_shifts(ref, sam, dim, win, margin, ncore=1,
                                     norm=norm, norm_global=glob,
                                     method=method, size=size,
                                     chunk_size=chunk)
        if dark:
            res = tuple(res) + tuple(ps.get_transmission_dark_field_signal(
                ref, sam, res[0], res[1], win, margin, 1))
    if not all(np.isfinite(s).all() for s in res):
        return ctx.nontrivial(False)    # sums of lines next to zero
    k = margin + 2
    x, y = [np.pad(s[k:-k, k:-k], k, mode="reflect") for s in res[:2]]
    if surf == "SCS":
        ph = ps.reconstruct_surface_from_gradient_SCS_method(x, y, neg,
                                                             pad=pad)
    else:
        ph = ps.reconstruct_surface_from_gradient_FC_method(x, y, neg)
    exp = ([x, y] if shift else []) + [ph] + (list(res[2:]) if dark else [])
    if not shift and not dark:
        out = [out]
    ctx.eq(len(out), len(exp), "number of results")
    for g, q in zip(out, exp):
        ctx.near(g, q, "results", rtol=1e-4, atol=1e-4)
    ctx.label(how, surf)
    ctx.nontrivial(dark or shift)


@check(quick=40, n=I(1, 3), dn=I(-1, 1), which=I(0, 3))
def refused(ctx, n, dn, which):
    """Stacks and lists of different lengths are refused."""
    r = np.random.default_rng(0)
    ref, sam = r.random((n, 20, 20)), r.random((n + dn, 20, 20))
    if n + dn == 0 or dn == 0:
        return ctx.nontrivial(False)
    z = np.zeros((n, 2))
    if which == 0:
        ctx.raises(ValueError, lambda: ps.find_shift_between_image_stacks(
            ref, sam, 5, 3, [[10], [10]], ncore=1), "stacks")
    elif which == 1:
        ctx.raises(ValueError, lambda: ps.align_image_stacks(ref, sam, z),
                   "stacks")
        ctx.raises(ValueError, lambda: ps.find_shift_between_sample_images(
            ref, sam, z, 5, 3, [[10], [10]], ncore=1), "stacks")
    elif which == 2:
        ctx.raises(ValueError, lambda: ps.align_image_stacks(
            ref, ref, np.zeros((n + dn, 2))), "shifts")
    else:
        ctx.raises(ValueError, lambda: ps.align_image_stacks(
            ref, ref, z, np.zeros((n + dn, 2))), "shifts of samples")


larger(align_model, n=I(4, 12), h=I(40, 150), w=I(40, 150))
larger(signal, 4, 50, n=I(3, 12), more_h=I(20, 50), more_w=I(20, 50))
