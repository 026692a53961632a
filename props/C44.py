"""C44: the GPU code gives what the CPU code gives (kernels run by the CUDA
simulator of numba, thread by thread, so images are tiny)."""
import numpy as np
from hypothesis import strategies as st
from vf.core import check
from vf.gen import SEED, I, F, array, rng, pick
from vf import recmodel as rm
from props import C32, C40, C41
from props.C28 import some_angles
import algotom.rec.reconstruction as rec
import algotom.rec.vertrec as vr
import algotom.util.correlation as corl

SIM = {"NUMBA_ENABLE_CUDASIM": "1"}
BLOCK = st.tuples(I(1, 5), I(1, 5))


def within(ctx, got, exp, tol, doubt, msg):
    got, exp = np.asarray(got, float), np.asarray(exp, float)
    ctx.shape(got, exp.shape, msg)
    bad = np.abs(got - exp) - doubt
    ctx.true(np.isfinite(got).all() and (not bad.size or bad.max() <= tol),
             lambda: "%s: off by %g, allowed %g" % (msg, bad.max(), tol))


@check(quick=70, thorough=800, env=SIM, cost=4, seed=SEED, n=I(1, 6), m=I(1, 3),
       w=I(1, 9), c=F(-0.2, 1.2), snap=pick(0, 0, 1, 2), edge=st.booleans(),
       how=pick("half", "any", "right", "moved"), block=BLOCK,
       dt=pick("float32", "float64", "uint16"))
def back_projection(ctx, seed, n, m, w, c, snap, edge, how, block, dt):
    """Back-projection, of one sinogram and of a stack, for any shape of the
    blocks of threads."""
    big = 1 if dt[0] == "f" else 250
    s = array(seed, (n, m, w), dt, "noise", 0 if big > 1 else -1, big)
    ang = np.float32(some_angles(seed, n, how))
    cen = c * (w - 1)
    cen = np.float32(cen if not snap else np.round(cen * snap) / snap)
    with ctx.unchanged("back-projection", s, ang):
        many = rec.back_projection_gpu_chunk(s, ang, cen, block, edge)
    ctx.shape(many, (w, m, w), "stack")
    tol = 2e-6 * n * max(8, w) * big
    for i in range(m):
        one = np.ascontiguousarray(s[:, i])
        cpu = rec.back_projection_cpu(one, ang, cen, edge)
        _, doubt = rm.back_project(one, ang, cen, edge)
        within(ctx, rec.back_projection_gpu(one, ang, cen, block, edge), cpu,
               tol, doubt, "one")
        within(ctx, many[:, i], cpu, tol, doubt, "stack")
    ctx.label(how, "stack" if m > 1 else "one")
    ctx.nontrivial(n > 1 and w > 2)


@check(quick=60, thorough=800, env=SIM, cost=4, seed=SEED, n=I(2, 6), m=I(0, 3), w=I(4, 9),
       c=F(0.1, 0.9), method=pick("fbp", "bpf"), block=BLOCK,
       ratio=pick(1.0, None, 0.0, 0.7), name=pick("hann", "parzen", None),
       pad=st.one_of(st.none(), I(0, 3)), use_log=st.booleans(),
       ncore=pick(1, 2, None), turn=st.booleans())
def reconstruction(ctx, seed, n, m, w, c, method, block, ratio, name, pad,
                   use_log, ncore, turn):
    """FBP and BPF of a slice and of a stack."""
    shape = (n, w) if m == 0 else (n, m, w)
    s = array(seed, shape, "float32", "noise", 0.2, 1.5)
    ang = rng(seed, 201).uniform(-3, 3, n) if turn else None
    f = {"fbp": rec.fbp_reconstruction, "bpf": rec.bpf_reconstruction}[method]
    kw = dict(angles=ang, ratio=ratio, filter_name=name, pad=pad,
              apply_log=use_log, ncore=ncore)
    cen = float(np.round(c * (w - 1), 3)) + 0.0013
    with ctx.unchanged(method, s):
        a = f(s, cen, gpu=True, block=block, **kw)
    b = f(s, cen, gpu=False, **kw)
    doubt = 0
    if method == "fbp":
        flat = s[:, None] if m == 0 else s
        _, doubt = rm.back_project(np.ones((n, w)), np.linspace(
            0, np.pi, n) if ang is None else ang, cen)
        doubt = doubt * 3 * np.abs(rm.log(flat, use_log)).max()
        doubt = doubt if m == 0 else np.repeat(doubt[:, None], m, 1)
        doubt = doubt * np.pi / (n - 1)
    within(ctx, a, b, 1e-4 * n, doubt, method)
    ctx.label(method, "%dD" % s.ndim)
    ctx.nontrivial(n > 2)


@check(quick=70, thorough=800, env=SIM, cost=4, seed=SEED, n=I(1, 5), h=I(1, 5), w=I(1, 9),
       m=I(1, 3), c=F(-0.2, 1.2), edge=st.booleans(), block=BLOCK,
       dt=pick("float32", "float64", "uint16"))
def vertical_projection(ctx, seed, n, h, w, m, c, edge, block, dt):
    """Back-projection onto vertical planes, one and many."""
    r = rng(seed, 202)
    big = 1 if dt[0] == "f" else 250
    p = array(seed, (n, h, w), dt, "noise", 0 if big > 1 else -1, big)
    ang = np.float32(r.uniform(-4, 4, n))
    xm, ym = np.float32(r.uniform(-w, w, (2, m, w)))
    cen = np.float32(c * (w - 1))
    with ctx.unchanged("back-projection", p, ang, xm, ym):
        many = vr.vertical_back_projection_gpu_chunk(p, ang, xm, ym, cen,
                                                     edge, block)
    ctx.shape(many, (m, h, w), "many")
    tol = 2e-6 * n * max(8, w) * big
    for i in range(m):
        exp, doubt = C32.back_project(p, ang, np.float64(xm[i]), np.float64(
            ym[i]), float(cen), edge)
        cpu = vr.vertical_back_projection_cpu(p, ang, xm[i], ym[i], cen, edge)
        one = vr.vertical_back_projection_gpu(p, ang, xm[i], ym[i], cen,
                                              edge, block)
        within(ctx, one, cpu, tol, doubt, "one")
        within(ctx, many[i], cpu, tol, doubt, "many")
    ctx.nontrivial(n > 1 and w > 2)


@check(quick=70, thorough=800, env=SIM, cost=4, seed=SEED, n=I(2, 6), h=I(1, 4),
       w=I(4, 8), c=F(0.1, 0.9), alpha=F(0, 180), block=BLOCK,
       what=pick("one", "many", "angles"), chunk=st.one_of(st.none(),
                                                           I(1, 7)),
       filt=pick("after", "before"), use_log=st.booleans(),
       masking=st.booleans(), flat=st.booleans(), step=I(1, 2))
def vertical(ctx, seed, n, h, w, c, alpha, block, what, chunk, filt, use_log,
             masking, flat, step):
    """Vertical slices: one, many, at different angles."""
    r = rng(seed, 203)
    p = array(seed, (n, h, w), "float32", "noise", 0.2, 1.5)
    k0, k1 = sorted(int(k) for k in r.integers(0, w, 2))
    cen = float(np.round(c * (w - 1), 3)) + 0.0017
    kw = dict(chunk_size=chunk, ramp_filter=filt, apply_log=use_log,
              masking=masking, show_progress=False, block=block, ncore=1)
    if flat:
        kw["flat_field"] = array(seed + 1, (h, w), "float32", "noise", 1, 2)
    if what == "one":
        def f(gpu):
            return vr.vertical_reconstruction(p, k0, cen, alpha, gpu=gpu,
                                              **kw)
    elif what == "many":
        def f(gpu):
            return vr.vertical_reconstruction_multiple(
                p, k0, k1, cen, alpha, step, gpu=gpu, **kw)
    else:
        al = [alpha, (alpha + 77) % 180]

        def f(gpu):
            return vr.vertical_reconstruction_different_angles(
                p, [k0, k1], al, cen, gpu=gpu, **kw)
    with ctx.unchanged("vertical reconstruction", p):
        a = f(True)
    b = f(False)
    ctx.shape(a, b.shape, "shape")
    tol = 1e-4 * n
    bad = np.abs(a - b) > tol
    if bad.any():       # rounding at the ends of a row spreads along rows
        planes = [(k0, alpha)] if what == "one" else [
            (k, alpha) for k in range(k0, k1 + 1, step)] \
            if what == "many" else [(k0, al[0]), (k1, al[1])]
        unsure = False
        for k, q in planes:
            x, y = C32.line(k, q, w)
            for t in np.linspace(0, np.pi, n):
                pos = x * np.cos(t) + y * np.sin(t) + cen
                unsure |= bool((np.minimum(np.abs(pos), np.abs(
                    pos - w + 1)) < 1e-3).any())
        if unsure and filt == "after":
            return ctx.nontrivial(False)
    ctx.near(a, b, what, atol=tol, scale=0)
    ctx.label(what, filt)
    ctx.nontrivial(n > 2)


@check(quick=70, thorough=800, env=SIM, cost=4, seed=SEED, d=I(0, 3), h=I(1, 5), w=I(1, 5),
       more_h=I(0, 5), more_w=I(0, 5), block=BLOCK, kind=pick(
           "noise", "steps", "sparse", "const"))
def correlation(ctx, seed, d, h, w, more_h, more_w, block, kind):
    """Correlation maps of images and of stacks, zero where an image is
    flat."""
    lead = (d,) if d else ()
    ref = array(seed, lead + (h + more_h, w + more_w), "float32", kind)
    mat = array(seed + 1, lead + (h, w), "float32", kind)
    with ctx.unchanged("correlation", ref, mat):
        a = corl.generate_correlation_map(ref, mat, gpu=True, block=block)
    b = corl.generate_correlation_map(ref, mat, gpu=False)
    tie = False
    if kind in ("const", "sparse", "steps"):
        # the variance of a flat image is zero but for rounding
        for i in range(more_h + 1):
            for j in range(more_w + 1):
                box = ref[..., i:i + h, j:j + w]
                tie |= np.ptp(box) < 1e-6
        tie |= np.ptp(mat) < 1e-6
    if h * w * max(1, d) == 1:
        tie = True
    if tie:
        ctx.shape(a, b.shape, "map")
        return ctx.nontrivial(False)
    ctx.near(a, b, "map", atol=2e-4, scale=0)
    ctx.nontrivial(more_h + more_w > 0)


LOCAL = dict(seed=SEED, win=pick(2, 3, 4, 5), margin=I(1, 2), more_h=I(1, 4),
             more_w=I(1, 4), fx=F(-1, 1), fy=F(-1, 1), block=BLOCK,
             chunk=st.one_of(st.none(), I(1, 14)))


@check(quick=60, thorough=800, env=SIM, cost=6, d=I(0, 3), dim=pick(1, 2),
       norm=pick("none", "none", "norm", "global"), **LOCAL)
def shifts(ctx, seed, win, margin, more_h, more_w, fx, fy, block, chunk, d,
           dim, norm):
    """Maps of local shifts along one axis and along both."""
    d = d if dim == 2 else d + 2
    e = win // 2 + margin
    h, w = 2 * e + more_h, 2 * e + more_w
    ref, mat, _, _ = C41.images(seed, d, h, w, fx, fy, margin)
    if norm == "norm" and (d == 0 or dim == 1) and chunk:
        chunk = None        # the part normalised is the chunk
    kw = dict(dim=dim, win_size=win, margin=margin, norm=norm == "norm",
              norm_global=norm == "global", chunk_size=chunk, ncore=1)
    with ctx.unchanged("find_local_shifts", ref, mat):
        a = corl.find_local_shifts(ref, mat, gpu=True, block=block, **kw)
    b = corl.find_local_shifts(ref, mat, gpu=False, **kw)
    C41.close(ctx, a[0], b[0], "x-shifts", 5e-3)
    C41.close(ctx, a[1], b[1], "y-shifts", 5e-3)
    ctx.label("%d axes" % dim, "%dD" % ref.ndim, norm)
    ctx.nontrivial(more_h > 1 and more_w > 1)


@check(quick=12, thorough=120, env=SIM, cost=20, d=I(1, 2), method=pick(
    "diff", "poly_fit"), norm=st.booleans(), **LOCAL)
def hybrid(ctx, seed, win, margin, more_h, more_w, fx, fy, block, chunk, d,
           method, norm):
    """With the GPU for the correlation and the CPU for the peaks."""
    e = win // 2 + margin
    h, w = 2 * e + more_h, 2 * e + more_w
    ref, mat, _, _ = C41.images(seed, d, h, w, fx, fy, margin)
    kw = dict(dim=2, win_size=win, margin=margin, method=method, norm=False,
              norm_global=norm, chunk_size=chunk, ncore=1)
    a = corl.find_local_shifts(ref, mat, gpu="hybrid", block=block, **kw)
    b = corl.find_local_shifts(ref, mat, gpu=False, **kw)
    C41.close(ctx, a[0], b[0], "x-shifts", 5e-3)
    C41.close(ctx, a[1], b[1], "y-shifts", 5e-3)
    ctx.nontrivial(more_h > 1 and more_w > 1)


@check(quick=70, thorough=800, env=SIM, cost=5, seed=SEED, win=pick(2, 3, 4, 5),
       margin=I(1, 2), more_h=I(2, 6), more_w=I(2, 6), fx=F(-1, 1),
       fy=F(-1, 1), num=I(1, 12), block=I(1, 6), norm=st.booleans(),
       value=pick("median", "mixed", "mean"))
def points(ctx, seed, win, margin, more_h, more_w, fx, fy, num, block, norm,
           value):
    """The shift between two images from that at points, and the list of
    it."""
    e = win // 2 + margin
    h, w = 2 * e + more_h, 2 * e + more_w
    ref, mat, _, _ = C41.images(seed, 0, h, w, fx, fy, margin)
    r = rng(seed, 204)
    ij = [r.integers(e + 1, h - e, num), r.integers(e + 1, w - e, num)]

    def f(gpu, lst):
        return corl.find_global_shift_based_local_shifts(
            ref, mat, win, margin, list_ij=ij, global_value=value, gpu=gpu,
            block=block, ncore=1, norm=norm, return_list=lst)
    with ctx.unchanged("shifts", ref, mat, *ij):
        a = f(True, True)
    b = f(False, True)
    C41.close(ctx, a[0], b[0], "x-shifts", 5e-3)
    C41.close(ctx, a[1], b[1], "y-shifts", 5e-3)
    if np.allclose(a, b, atol=5e-3):
        ctx.near(f(True, False), f(False, False), value, atol=6e-3, scale=0)
    ctx.label(value)
    ctx.nontrivial(num > 1)


@check(quick=60, thorough=800, env=SIM, cost=6, d=I(1, 3), dark=st.booleans(),
       name=pick("hamming", "hann", "parzen", None), **LOCAL)
def umpa(ctx, seed, win, margin, more_h, more_w, fx, fy, block, chunk, d,
         dark, name):
    """Shift, transmission and dark signal of the UMPA method."""
    # the dark signal is a third unknown: enough pixels to tell it
    win = max(win, 7 if dark and d == 1 else 4)
    e = win // 2 + margin
    h, w = 2 * e + more_h, 2 * e + more_w
    ref, mat, _, _ = C41.images(seed, d, h, w, fx, fy, margin)
    kw = dict(win_size=win, margin=margin, chunk_size=chunk,
              filter_name=name, dark_signal=dark, ncore=1)
    with ctx.unchanged("umpa", ref, mat):
        a = corl.find_local_shifts_umpa(ref, mat, gpu=True, block=block, **kw)
    b = corl.find_local_shifts_umpa(ref, mat, gpu=False, **kw)
    ctx.eq(len(a), 4 if dark else 2, "results")
    for i, nm in enumerate(("x-shifts", "y-shifts", "transmission",
                            "dark signal")[:len(a)]):
        loose(ctx, a[i], b[i], nm)
    ctx.label("dark" if dark else "no dark")
    ctx.nontrivial(more_h > 1 and more_w > 1)


def loose(ctx, a, b, msg):
    """Float32 costs tie now and then."""
    ctx.shape(a, b.shape, msg)
    ctx.finite(a, msg)
    bad = np.abs(a - b) > 2e-2 * np.maximum(1, np.abs(b))
    ctx.true(bad.mean() <= 0.15, lambda: "%s: %d of %d differ, worst by %g" % (
        msg, bad.sum(), bad.size, np.abs(a - b).max()))
