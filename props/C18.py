"""C18: stitching overlapping images and joining images with a gap."""
import numpy as np
from hypothesis import strategies as st
from vf.core import check, larger
from vf.gen import SEED, I, F, KINDS, array, rng, pick
import algotom.prep.conversion as conv


def scene(seed, h, x):
    """Smooth positive rows over positions x (any shape)."""
    r = rng(seed, 21)
    out = np.zeros((h, len(x)))
    for i in range(h):
        out[i] = 3.0
        for _ in range(3):
            out[i] += np.cos(x * r.uniform(0.02, 0.12) + 6 * r.random()) \
                * r.uniform(0.1, 0.6)
    return out


def weights(n1, n2, ov, side):
    """Linear blending weights of the left and right image, by column."""
    t = np.arange(ov) / (ov - 1.0) if ov > 1 else np.zeros(ov)
    left, right = np.ones(n1 if side == 1 else n2), \
        np.ones(n2 if side == 1 else n1)
    left[len(left) - ov:] = 1 - t
    right[:ov] = t
    return (left, right) if side == 1 else (right, left)


@check(quick=150, seed=SEED, h=I(1, 6), n1=I(2, 30), n2=I(2, 30),
       f=F(0, 1), side=pick(0, 1), dt=pick("float32", "float64", "uint8",
                                           "uint16", "int32"),
       part=pick(0, 0, 0.3, 0.9))
def weight(ctx, seed, h, n1, n2, f, side, dt, part):
    """Weights are 1 outside the (whole columns of the) overlap, run linearly
    through it, and add up to one, whatever the type of the images."""
    ov = 2 + int(f * (min(n1, n2) - 2))
    m1, m2 = array(seed, (h, n1), dt, "noise", 1, 200), \
        array(seed, (h, n2), dt, "noise", 1, 200)
    w1, w2 = conv.make_weight_matrix(m1, m2, ov + part, side)
    e1, e2 = weights(n1, n2, ov, side)
    ctx.near(w1, np.tile(e1, (h, 1)), "weight 1", atol=1e-6)
    ctx.near(w2, np.tile(e2, (h, 1)), "weight 2", atol=1e-6)
    ctx.label(dt)
    ctx.nontrivial(ov > 2)


@check(quick=250, seed=SEED, h=I(1, 6), n1=I(4, 30), n2=I(4, 30),
       f=F(0, 1), side=pick(0, 1), norm=st.booleans(), extra=st.none()
       | I(-10, 20), own=pick("", "", "both", "both", "1", "2"), kind=KINDS,
       dt=pick("float32", "float64", "uint16", "uint8"))
def stitch_model(ctx, seed, h, n1, n2, f, side, norm, extra, own, kind, dt):
    """Whole-pixel overlap: each image keeps its place, the overlap is the
    weighted sum, brightness follows the first image, extra width repeats
    the last column."""
    ov = 2 + int(f * (min(n1, n2) - 2))
    a = array(seed, (h, n1), dt, kind, 20, 120)
    b = array(seed + 1, (h, n2), dt, kind, 20, 120)
    w1, w2 = weights(n1, n2, ov, side)
    kw = {}
    if own:
        g1, g2 = (rng(seed, k).random(n) for k, n in ((1, n1), (2, n2)))
        kw = {"wei_mat1": np.tile(g1, (h, 1)), "wei_mat2": np.tile(
            g2, (h, 1))}
        if own == "both":
            w1, w2 = g1, g2
        else:                   # one without the other is not used
            del kw["wei_mat" + own]
    full = n1 + n2 - ov
    if extra is not None:
        kw["total_width"] = full + extra
    with ctx.unchanged("stitch_image", a, b):
        got = conv.stitch_image(a, b, ov, side, norm=norm, **kw)
    fa, fb = a.astype(float), b.astype(float)
    if norm:
        if side == 1:
            fb = fb * fa[:, -ov:].mean() / fb[:, :ov].mean()
        else:
            fb = fb * fa[:, :ov].mean() / fb[:, -ov:].mean()
    want = np.zeros((h, full))
    pa, pb = (0, full - n2) if side == 1 else (full - n1, 0)
    want[:, pa:pa + n1] += fa * w1
    want[:, pb:pb + n2] += fb * w2
    if extra is not None and extra > 0:
        want = np.concatenate([want, np.repeat(want[:, -1:], extra, 1)], 1)
    ctx.near(got, want, "stitched", rtol=1e-5)
    ctx.raises(ValueError, lambda: conv.stitch_image(
        a, np.ones((h + 1, n2)), ov, side), "images of different heights")
    ctx.label("side%d" % side)
    ctx.nontrivial(n1 != n2)


@check(quick=150, seed=SEED, h=I(2, 6), n1=I(40, 80), n2=I(40, 80),
       ov=F(8, 36), side=pick(0, 1), gain=F(0.3, 3))
def stitch_truth(ctx, seed, h, n1, n2, ov, side, gain):
    """Two images cut out of one scene with any overlap, whole or not, are
    put together into that scene; half the sub-pixel part shifts each."""
    first = np.arange(n1) if side == 1 else np.arange(n1) + n2 - ov
    second = np.arange(n2) + n1 - ov if side == 1 else np.arange(n2)
    a, b = scene(seed, h, first), scene(seed, h, second) * gain
    for norm in (True, False):
        got = conv.stitch_image(a, b if norm else b / gain, ov, side,
                                norm=norm)
        whole = n1 + n2 - got.shape[1]
        ctx.true(abs(whole - ov) <= 0.51, "overlap %s cut to %d" % (
            ov, whole))
        d = (ov - whole) / 2
        x = np.arange(got.shape[1]) - d
        want = scene(seed, h, x)
        ctx.near(got[:, 6:-6], want[:, 6:-6], "scene, norm=%s" % norm,
                 atol=0.012)
        if d == 0:
            ctx.near(got, want, "scene to the edges", rtol=1e-5)
    ctx.label("side%d" % side)
    ctx.nontrivial(abs(ov - round(ov)) > 0.1)


@check(quick=80, seed=SEED, h=I(2, 5), n=I(2, 4), side=pick(0, 1),
       norm=st.booleans(), extra=st.none() | I(-5, 9), join=st.booleans(),
       whole=st.booleans(), mixed=st.booleans())
def multiple(ctx, seed, h, n, side, norm, extra, join, whole, mixed):
    """A row of images is put together one after the other."""
    r = rng(seed, 4)
    mats, seams = [], []
    for k in range(n):
        w = int(r.integers(20, 32))
        mats.append(scene(seed, h, np.arange(w) + 20 * k) * (1 + 0.2 * k))
        x = float(r.integers(4, 9)) + (0 if whole else r.uniform(-.4, .4))
        at = int(r.integers(0, 2)) if mixed else side
        seams.append((x, at, 0.0)[:3 if r.random() < 0.5 else 2])
    seams = seams[:n - 1]
    many = conv.join_image_multiple if join else conv.stitch_image_multiple
    one = conv.join_image if join else conv.stitch_image
    want = mats[0]
    for k in range(1, n):
        want = one(want, mats[k], *seams[k - 1][:2], norm=norm)
    kw = {}
    if extra is not None:
        kw["total_width"] = want.shape[1] + extra
        want = np.pad(want, ((0, 0), (0, max(0, extra))), mode="edge")
    with ctx.unchanged("multiple", *mats):
        got = many(mats, seams, norm=norm, **kw)
    ctx.near(got, want, "put together", rtol=1e-6)
    ctx.raises(ValueError, lambda: many(mats[:1], seams), "a single image")
    ctx.label("join" if join else "stitch")
    ctx.nontrivial(n > 2)


@check(quick=200, seed=SEED, h=I(2, 6), n1=I(6, 30), n2=I(6, 30),
       gap=I(0, 15), side=pick(0, 1), norm=st.booleans(),
       extra=st.none() | I(-9, 15), kind=KINDS)
def join_model(ctx, seed, h, n1, n2, gap, side, norm, extra, kind):
    """Whole-pixel gap: each image keeps its place and, up to a few columns
    from the gap, its values; the gap is bridged linearly, row by row."""
    a = array(seed, (h, n1), "float64", kind, 1, 5)
    b = array(seed + 1, (h, n2), "float64", kind, 1, 5)
    kw = {} if extra is None else {"total_width": n1 + n2 + gap + extra}
    with ctx.unchanged("join_image", a, b):
        got = conv.join_image(a, b, gap, side, norm=norm, **kw)
    left, right, nl = (a, b, n1) if side == 1 else (b, a, n2)
    if norm:
        k = left[:, -3:].mean() / right[:, :3].mean()
        left, right = (left, right * k) if side == 1 else (left / k, right)
    full = n1 + n2 + gap
    pad = max(0, extra or 0)
    ctx.shape(got, (h, full + pad), "joined")
    ctx.near(got[:, :nl - 4], left[:, :-4], "left image", rtol=1e-5)
    ctx.near(got[:, nl + gap + 4:full], right[:, 4:], "right image",
             rtol=1e-5)
    ctx.near(got[:, full:], np.repeat(got[:, full - 1:full], pad, 1),
             "extra width", rtol=1e-6)
    mid = got[:, nl - 1:nl + gap + 1].astype(float)
    if gap > 0:
        ctx.near(np.diff(mid, 2, axis=1), np.zeros((h, gap)),
                 "straight across the gap", atol=1e-5 * np.abs(got).max())
    ctx.near(got[:, nl - 4], left[:, -4], "left of the gap",
             atol=1e-5 * np.abs(got).max())
    lo = np.minimum(left[:, -6:].min(1), right[:, :6].min(1))
    hi = np.maximum(left[:, -6:].max(1), right[:, :6].max(1))
    ctx.true(np.all(mid >= lo[:, None] - 1e-4) and np.all(
        mid <= hi[:, None] + 1e-4), "gap beyond the values next to it")
    ctx.raises(ValueError, lambda: conv.join_image(
        a, np.ones((h + 1, n2)), gap, side), "images of different heights")
    ctx.label("side%d" % side)
    ctx.nontrivial(gap > 0)


@check(quick=150, seed=SEED, h=I(2, 5), n1=I(40, 70), n2=I(40, 70),
       gap=F(0, 12), side=pick(0, 1))
def join_truth(ctx, seed, h, n1, n2, gap, side):
    """Two images cut out of a scene straight across the gap are joined into
    that scene, for any gap, whole or not."""
    first = np.arange(n1) if side == 1 else np.arange(n1) + n2 + gap
    second = np.arange(n2) + n1 + gap if side == 1 else np.arange(n2)
    k = rng(seed).uniform(0.02, 0.05, (h, 1)) * rng(seed, 2).choice(
        [-1, 1], (h, 1))

    def sc(x):                      # curved away from the gap only
        mid = (n1 if side == 1 else n2) + gap / 2
        return 5 + k * (x - mid)[None] + 0.3 * np.sin(np.sign(x - mid) * np.
                                                      clip(np.abs(x - mid) - 9 - gap,
                                                           0, None) ** 2 / 300)
    got = conv.join_image(sc(first), sc(second), gap, side, norm=False)
    whole = got.shape[1] - n1 - n2
    ctx.true(abs(whole - gap) <= 0.51, "gap %s made %d" % (gap, whole))
    x = np.arange(got.shape[1]) + (gap - whole) / 2
    # where a shifted image ran out of columns the bridge may start late
    bad = np.abs(got - sc(x))[:, 7:-7]
    ctx.true(bad.max() < 0.02, "scene off by %.3g" % bad.max())
    ctx.label("side%d" % side)
    ctx.nontrivial(abs(gap - round(gap)) > 0.1)


larger(weight, h=I(10, 60), n1=I(60, 600), n2=I(60, 600))
larger(stitch_model, h=I(10, 100), n1=I(60, 500), n2=I(60, 500))
larger(join_model, h=I(10, 100), n1=I(60, 500), n2=I(60, 500), gap=I(0, 200))
