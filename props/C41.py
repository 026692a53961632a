"""C41: maps of local shifts, transmission and dark signal."""
import numpy as np
from hypothesis import strategies as st, assume
from vf.core import check, also, larger
from vf.gen import SEED, I, F, array, rng, pick
from props.C40 import moved, speckle
import algotom.util.correlation as corl

METHOD = pick("diff", "poly_fit")
BASE = dict(seed=SEED, win=pick(3, 4, 5, 7), margin=I(1, 3), more_h=I(1, 8),
            more_w=I(1, 8), method=METHOD, size=I(3, 5))


def close(ctx, got, exp, msg, tol=2e-3):
    """All but a few pixels agree: float32 ties can move a peak."""
    got, exp = np.asarray(got, float), np.asarray(exp, float)
    ctx.shape(got, exp.shape, msg)
    ctx.finite(got, msg)
    bad = np.abs(got - exp) > tol
    ctx.true(bad.sum() <= 0.02 * bad.size, lambda: "%s: %d of %d pixels "
             "differ, worst by %g" % (msg, bad.sum(), bad.size,
                                      np.abs(got - exp).max()))


def images(seed, d, h, w, fx, fy, margin):
    sx, sy = fx * (margin - 0.5), fy * (margin - 0.5)
    r = rng(seed, 76)
    ref, mat = moved(seed, ((d,) if d else ()) + (h, w), sx, sy, s=0.7)
    return ref, mat + 0.02 * r.normal(size=mat.shape), sx, sy


@check(quick=40, d=I(0, 3), fx=F(-1, 1), fy=F(-1, 1), norm=st.booleans(),
       glob=st.booleans(), chunk=st.one_of(st.none(), I(1, 30)), cost=3,
       **BASE)
def two_d(ctx, seed, win, margin, more_h, more_w, method, size, d, fx, fy,
          norm, glob, chunk):
    """Every pixel of the maps is the shift between the window around it
    and the reference around it; zero where no window fits."""
    radi = win // 2
    e = radi + margin
    h, w = 2 * e + more_h, 2 * e + more_w
    ref, mat, _, _ = images(seed, d, h, w, fx, fy, margin)
    if d and norm:
        glob, chunk = False, None      # the part normalised is the chunk
    with ctx.unchanged("find_local_shifts", ref, mat):
        xs, ys = corl.find_local_shifts(
            ref, mat, dim=2, win_size=win, margin=margin, method=method,
            size=size, ncore=1, norm=norm, norm_global=glob,
            chunk_size=chunk)
    a, b = (corl.normalize_image(ref), corl.normalize_image(mat)) if (
        norm or (glob and d)) else (ref, mat)
    ex, ey = np.zeros((h, w)), np.zeros((h, w))
    for i in range(e, h - e):
        for j in range(e, w - e):
            ex[i, j], ey[i, j] = corl.find_shift_based_correlation_map(
                a[..., i - e:i + e + 1, j - e:j + e + 1],
                b[..., i - radi:i + radi + 1, j - radi:j + radi + 1],
                margin, None, True, method, 2, size)
    close(ctx, xs, ex, "x-shifts")
    close(ctx, ys, ey, "y-shifts")
    ctx.label("%dD" % (3 if d else 2), method)
    ctx.nontrivial(more_h > 1 and more_w > 1)


@check(quick=40, d=I(2, 5), fx=F(-1, 1), fy=F(-1, 1), norm=st.booleans(),
       glob=st.booleans(), chunk=st.one_of(st.none(), I(1, 30)), cost=3,
       **BASE)
def one_d(ctx, seed, win, margin, more_h, more_w, method, size, d, fx, fy,
          norm, glob, chunk):
    """Searched along rows and along columns, every pixel is the shift of
    the line window around it; zero where no window fits."""
    radi = win // 2
    e = radi + margin
    h, w = 2 * e + more_h, 2 * e + more_w
    ref, mat, _, _ = images(seed, d, h, w, fx, fy, margin)
    if norm:
        chunk = None            # the part normalised is the chunk
    with ctx.unchanged("find_local_shifts", ref, mat):
        xs, ys = corl.find_local_shifts(
            ref, mat, dim=1, win_size=win, margin=margin, method=method,
            size=size, ncore=1, norm=norm, norm_global=glob,
            chunk_size=chunk)
    a, b = (corl.normalize_image(ref), corl.normalize_image(mat)) if glob \
        else (ref, mat)
    nrm = corl.normalize_image if norm else (lambda m: m)
    ex, ey = np.zeros((h, w)), np.zeros((h, w))

    def line(p, q):
        p, q = nrm(p), nrm(q)
        return [corl.find_shift_based_correlation_map(
            p[:, j - e:j + e + 1], q[:, j - radi:j + radi + 1], margin, 1,
            True, method, 1, size)[0] for j in range(e, p.shape[1] - e)]
    for i in range(h):
        ex[i, e:w - e] = line(a[:, i], b[:, i])
    for j in range(w):
        ey[e:h - e, j] = line(a[:, :, j], b[:, :, j])
    if glob and norm:
        # sums of a normalised stack can be anything: only laws hold
        if not (np.isfinite(ex).all() and np.isfinite(ey).all()):
            return ctx.nontrivial(False)
    close(ctx, xs, ex, "x-shifts")
    close(ctx, ys, ey, "y-shifts")
    ctx.label(method)
    ctx.nontrivial(more_h > 1 and more_w > 1)


@check(quick=30, seed=SEED, which=pick("2d", "1d", "3d", "umpa"),
       margin=I(2, 4), fx=F(-1, 1), fy=F(-1, 1), norm=st.booleans(), cost=3)
def truth(ctx, seed, which, margin, fx, fy, norm):
    """A texture moved as a whole gives its shift everywhere."""
    d = {"2d": 0, "1d": 7, "3d": 3, "umpa": 6}[which]
    win = {"2d": 13, "1d": 9, "3d": 9, "umpa": 9}[which]
    e = win // 2 + margin
    h = w = 2 * e + 4
    sx, sy = fx * (margin - 1), fy * (margin - 1)
    if which == "1d":       # looks along one direction at a time
        if seed % 2:
            sx = 0.0
        else:
            sy = 0.0
    ref, mat = moved(seed, ((d,) if d else ()) + (h, w), sx, sy, s=0.8)
    if which == "umpa":
        res = corl.find_local_shifts_umpa(ref, mat, win, margin, gpu=False,
                                          ncore=1)
    else:
        res = corl.find_local_shifts(ref, mat, 1 if which == "1d" else 2,
                                     win, margin, ncore=1, norm=norm)
    box = slice(e, -e), slice(e, -e)
    if which != "1d" or sy == 0:
        ctx.near(np.median(res[0][box]), sx, "x-shift", atol=0.3, scale=0)
        ctx.true(np.mean(np.abs(res[0][box] - sx) > 0.6) < 0.15, "x-shifts")
    if which != "1d" or sx == 0:
        ctx.near(np.median(res[1][box]), sy, "y-shift", atol=0.3, scale=0)
        ctx.true(np.mean(np.abs(res[1][box] - sy) > 0.6) < 0.15, "y-shifts")
    ctx.label(which)
    ctx.nontrivial(abs(sx) + abs(sy) > 0.5)


@check(quick=40, d=I(2, 4), t=F(0.3, 1), v=F(0.2, 1), sx=I(-2, 2),
       sy=I(-2, 2), dark=st.booleans(), chunk=st.one_of(st.none(), I(1, 30)),
       cost=4, **{**BASE, "margin": I(2, 3)})
def umpa_truth(ctx, seed, win, margin, more_h, more_w, method, size, d, t, v,
               sx, sy, dark, chunk):
    """An image made by moving the reference, weakening it and blurring it
    towards its mean gives the shift, transmission and dark signal back."""
    sx, sy = max(-margin + 1, min(margin - 1, sx)), \
        max(-margin + 1, min(margin - 1, sy))
    win = max(win, 5)
    radi = win // 2
    e = radi + margin
    h, w = 2 * e + more_h + 3, 2 * e + more_w + 3
    if method == "poly_fit":
        size = 3
    big = moved(seed, (d, h + 6, w + 6), 0, 0, s=0.5)[0] - 4
    ref = big[:, 3:-3, 3:-3]
    ref1 = big[:, 3 + sy:3 + sy + h, 3 + sx:3 + sx + w]
    mean = ref.mean()
    mat = t * (1 - v) * mean + t * v * ref1 if dark else t * ref1
    with ctx.unchanged("umpa", ref, mat):
        res = corl.find_local_shifts_umpa(
            ref, mat, win, margin, method, size, False, ncore=1,
            chunk_size=chunk, dark_signal=dark)
    ctx.eq(len(res), 4 if dark else 2, "number of results")
    box = slice(e, h - e), slice(e, w - e)
    lim = 0.45
    for r, s, n in ((res[0], sx, "x-shift"), (res[1], sy, "y-shift")):
        ctx.shape(r, (h, w), n)
        ctx.near(np.median(r[box]), s, n, atol=lim, scale=0)
        ctx.true(np.mean(np.abs(r[box] - s) > 1) < 0.3, n + "s")
        z = np.array(r)
        z[box] = 0
        ctx.true(not z.any(), n + " outside")
    if dark:
        good = (np.abs(res[0] - sx) < lim) & (np.abs(res[1] - sy) < lim)
        inner = np.zeros((h, w), bool)
        inner[box] = True
        g = good & inner
        ctx.near(res[2][g], np.full(g.sum(), t), "transmission", atol=3e-3,
                 scale=0)
        ctx.near(res[3][g], np.full(g.sum(), v), "dark signal", atol=1e-2,
                 scale=0)
        for k in (2, 3):
            ctx.same(res[k], np.pad(res[k][box], e, mode="edge"), "edges")
    ctx.label("dark" if dark else "plain")
    ctx.nontrivial(sx != 0 and sy != 0)


@check(quick=25, d=I(1, 4), fx=F(-1, 1), fy=F(-1, 1), dark=st.booleans(),
       chunk=st.one_of(st.none(), I(1, 30)), name=pick(
           "hamming", "hann", "shepp-logan", "none", "cosine"), cost=5,
       **BASE)
def umpa_model(ctx, seed, win, margin, more_h, more_w, method, size, d, fx,
               fy, dark, chunk, name):
    """Every pixel of the maps is the place where the weighted squared
    distance, the other unknowns fitted, is least."""
    radi = max(win, 5) // 2
    n = win = 2 * radi + 1
    e = radi + margin
    h, w = 2 * e + min(3, more_h), 2 * e + min(3, more_w)
    ref, mat, _, _ = images(seed, d, h, w, fx, fy, margin)
    ref, mat = ref - 4, (mat - 4) * 0.8
    res = corl.find_local_shifts_umpa(
        ref, mat, win, margin, method, size, False, ncore=1,
        chunk_size=chunk, dark_signal=dark, filter_name=name)
    f = corl.make_smoothing_window(name, n)
    wei = np.outer(f, f)
    wei = wei / wei.sum()
    mean = ref.mean()
    out = [np.zeros((h, w)) for _ in range(4)]
    skip = np.zeros((h, w), bool)
    for i in range(e, h - e):
        for j in range(e, w - e):
            b = mat[:, i - radi:i + radi + 1, j - radi:j + radi + 1]
            m = 2 * margin + 1
            cost, tr, dk = np.zeros((m, m)), np.ones((m, m)), np.ones((m, m))
            for u in range(m):
                for v in range(m):
                    a = ref[:, i - e + u:i - e + u + n,
                            j - e + v:j - e + v + n]
                    sw = np.sqrt(np.broadcast_to(wei, a.shape)).ravel()
                    cols = [a.ravel() * sw]
                    if dark:
                        cols.append(np.full(a.size, mean) * sw)
                    q = np.stack(cols, 1)
                    c = np.linalg.lstsq(q, b.ravel() * sw, rcond=None)[0]
                    cost[u, v] = np.sum((q @ c - b.ravel() * sw) ** 2)
                    if dark:
                        tr[u, v] = abs(c[0] + c[1])
                        dk[u, v] = abs(c[0] / (c[0] + c[1]))
            x, y = corl.locate_peak(cost, True, method, 2, size, False)
            s = np.sort(cost.ravel())
            skip[i, j] = s[1] - s[0] < 1e-4 * s[-1]
            iy, ix = int(np.round(y)), int(np.round(x))
            if dark and (abs(x - ix) > 0.495 or abs(y - iy) > 0.495):
                skip[i, j] = True
            out[0][i, j], out[1][i, j] = x - margin, y - margin
            out[2][i, j], out[3][i, j] = tr[iy, ix], dk[iy, ix]
    box = slice(e, h - e), slice(e, w - e)
    for k, msg in enumerate(("x-shift", "y-shift", "transmission", "dark")):
        if k < 2 or dark:
            g, x = np.array(res[k], float)[box], out[k][box]
            close(ctx, np.where(skip[box], 0, g), np.where(skip[box], 0, x),
                  msg, 0.02)
    ctx.label("dark" if dark else "plain")


@check(quick=36, thorough=200, seed=SEED, which=pick(
    "2d", "2d", "1d", "1d of 2d", "3d", "umpa", "global"), ncore=I(2, 3),
    method=pick("diff", "poly_fit", "poly_fit"), size=pick(3, 5, 5), margin=I(2, 4), norm=st.booleans(),
    sub=pick(True, True, False), cost=40)
def workers(ctx, seed, which, ncore, method, size, margin, norm, sub):
    """The number of workers does not matter, whatever the options."""
    d = {"3d": 2, "umpa": 2, "1d": 2}.get(which, 0)
    ref, mat, _, _ = images(seed, d, 13, 14, 0.5, 0.5, 2)
    kw = dict(method=method, size=size)

    def run(n):
        if which == "umpa":
            return corl.find_local_shifts_umpa(
                ref, mat, 5, margin, gpu=False, ncore=n, dark_signal=norm,
                method=method, size=size)
        if which == "global":
            return corl.find_global_shift_based_local_shifts(
                ref, mat, 5, 3, list_ij=[[6, 7], [6, 7]], ncore=n,
                return_list=True, norm=norm,
                sub_pixel=sub, **kw)
        return corl.find_local_shifts(ref, mat, 1 + (which[:2] != "1d"), 5,
                                      margin, ncore=n, norm=norm, **kw)
    for a, b in zip(run(1), run(ncore)):
        ctx.same(b, a, "with %d workers" % ncore)
    ctx.label(which, method)


@check(quick=60, win=I(3, 9), margin=I(1, 4), dh=I(-2, 2), dw=I(-2, 2),
       which=pick("2d", "3d", "umpa", "global"), other=I(0, 1))
def refused(ctx, win, margin, dh, dw, which, other):
    """Images too small for window and margin, or of different shapes, are
    refused."""
    e = win // 2 + margin
    shape = (2 * e + 1 + dh, 2 * e + 1 + dw)
    if which in ("3d", "umpa"):
        shape = (2,) + shape
    r = np.random.default_rng(0)
    ref = r.random(shape) + 1
    mat = r.random(shape[:-1] + (shape[-1] + other,)) + 1
    call = {
        "2d": lambda: corl.find_local_shifts(ref, mat, 2, win, margin,
                                             ncore=1, norm=False),
        "3d": lambda: corl.find_local_shifts(ref, mat, 2, win, margin,
                                             ncore=1, norm=False),
        "umpa": lambda: corl.find_local_shifts_umpa(
            ref, mat, win, margin, gpu=False, ncore=1),
        "global": lambda: corl.find_global_shift_based_local_shifts(
            ref, mat, win, margin, num_point=2, ncore=1)}[which]
    if dh < 0 or dw < 0 or other:
        ctx.raises(ValueError, call, "%s of %s" % (which, shape))
        ctx.nontrivial(True)
    else:
        call()
        ctx.nontrivial(False)


larger(two_d, 3, 30, 30, more_h=I(20, 60), more_w=I(4, 20))
larger(one_d, 3, 30, 30, more_h=I(20, 60), more_w=I(4, 20))
