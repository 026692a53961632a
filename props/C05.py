"""C05: assembling corrected image stacks from several datasets."""
import os
import h5py
import numpy as np
from hypothesis import strategies as st
from vf.core import again, check, larger
from vf.gen import SEED, I, array, rng, pick
import algotom.io.loadersaver as losa

CROP = st.tuples(I(0, 2), I(0, 2), I(0, 2), I(0, 2)).map(list)
DT = pick("float32", "uint16", "uint8", "float64")
FIELD = pick(None, "2d", "2d", "3d", "2du16")


def field(seed, kind, h, w, lo, hi, n):
    """A flat or dark image as given to the function, and as a float image."""
    if kind is None:
        return None, None
    if kind == "3d":
        a = array(seed, (n, h, w), "float32", "noise", lo, hi)
        return a, a.astype(np.float64).mean(axis=0)
    dt = "uint16" if kind == "2du16" else "float32"
    a = array(seed, (h, w), dt, "noise", lo, hi)
    return a, a.astype(np.float64)


def fields(seed, fk, dk, h, w, top, nf):
    """Flat and dark, as given and as floats; now and then the dark image is
    as bright as the flat image, or brighter."""
    flat, flat_m = field(seed + 1, fk, h, w, 200, 300, nf)
    dark, dark_m = field(seed + 2, dk, h, w, 0, top, nf)
    if fk and dk and fk[0] == dk[0] == "2" and seed % 3 == 0:
        r = rng(seed, 71)
        for more in (0, 3):
            i, j = int(r.integers(0, h)), int(r.integers(0, w))
            flat[i, j] = np.round(flat[i, j])
            dark[i, j] = flat[i, j] + more
        flat_m, dark_m = flat.astype(np.float64), dark.astype(np.float64)
    return flat, flat_m, dark, dark_m


def zeros(seed, vols):
    if seed % 4 == 1:
        vols[rng(seed, 73).random(vols.shape) < 0.1] = 0
    return vols


def correct(img, flat, dark, c, no_flat=False):
    """Model: crop, subtract dark, divide by flat-dark with its zeros set to
    its mean."""
    t, b, l, r = c
    h, w = img.shape[-2:]
    s = np.s_[..., t:h - b, l:w - r]
    img = np.asarray(img, dtype=np.float64)[s]
    dark = np.zeros((h, w)) if dark is None else dark
    if flat is None:
        return img - dark[s]
    fd = flat[s] - dark[s]
    fd = np.where(fd == 0.0, fd.mean(), fd)
    return (img - dark[s]) / fd


def fixz(stack, flag):
    if not flag:
        return stack
    return np.where(stack == 0.0, stack.mean(), stack)


def safe(stack):
    """No value so close to zero that rounding decides whether it is zero."""
    a = np.abs(stack)
    return not np.any((a > 0) & (a < 1e-6 * max(1e-30, a.max())))


def crop_of(crop, h, w):
    t, b, l, r = crop
    return (min(t, h - 1), min(b, max(0, h - 1 - t)), min(l, w - 1),
            min(r, max(0, w - 1 - l)))


@check(quick=160, seed=SEED, d=I(1, 6), h=I(2, 7), w=I(2, 7), crop=CROP,
       fk=FIELD, dk=FIELD, idx=st.none() | I(-6, 5), nuse=st.none() | I(1, 8),
       fz=st.booleans(), via=st.booleans(), nf=I(1, 5), zero=st.booleans())
def tif_stack(ctx, seed, d, h, w, crop, fk, dk, idx, nuse, fz, via, nf, zero):
    """One image (index, negative from the end) or the first num_use images of
    a tif folder, cropped, dark/flat corrected, zeros replaced by the mean of
    the stack."""
    base = ctx.tmpdir()
    vol = array(seed, (d, h, w), "float32", "noise", 50, 200)
    if zero:
        vol[rng(seed, 3).random(vol.shape) < 0.1] = 0
    for i in range(d):
        losa.save_image(base + "/p_%03d.tif" % i, vol[i])
    flat, flat_m, dark, dark_m = fields(seed, fk, dk, h, w, 20, nf)
    c = crop_of(crop, h, w)
    if idx is not None:
        idx = max(-d, min(idx, d - 1))
    kw = dict(crop=c, flat_field=flat, dark_field=dark, num_use=nuse,
              fix_zero_div=fz)
    if via:
        got = losa.get_image_stack(idx, base, **kw)
    else:
        got = losa.get_tif_stack(base, idx=idx, **kw)
    sel = vol[[idx]] if idx is not None else \
        vol[:(d if nuse is None else min(nuse, d))]
    want = correct(sel, flat_m, dark_m, c)
    if not safe(want):
        ctx.nontrivial(False)
        return
    ctx.near(got, fixz(want, fz), "stack", rtol=2e-5)
    for k in (d, d + 3, -d - 1, -2 * d):
        if not -d <= k < d:
            ctx.raises(ValueError, lambda: losa.get_tif_stack(base, idx=k),
                       "index %d of %d images" % (k, d))
    ctx.raises(ValueError, lambda: losa.get_tif_stack(
        base, crop=(h, 0, 0, 0)), "crop leaving nothing")
    ctx.nontrivial(d > 1 and (fk is not None or dk is not None))


def names(seed, n, name):
    """n file names, in an order that is not the alphabetical one."""
    return [name % k for k in rng(seed, 77).permutation(n)]


def write_hdf(path, **data):
    with h5py.File(path, "w") as f:
        for k, v in data.items():
            f[k.replace("__", "/")] = v


@check(quick=160, seed=SEED, n=I(1, 4), d=I(1, 5), h=I(2, 7), w=I(2, 7),
       dt=DT, fmt=pick("hdf", "hdf2d", "tif"), avg=st.booleans(), crop=CROP,
       fk=FIELD, dk=FIELD, idx=I(0, 4), nuse=st.none() | I(1, 6),
       fz=st.booleans(), nf=I(1, 5))
def image_stack(ctx, seed, n, d, h, w, dt, fmt, avg, crop, fk, dk, idx, nuse,
                fz, nf):
    """The same image (or the average image) of several hdf/tif datasets."""
    base = ctx.tmpdir()
    vols = zeros(seed, array(seed, (n, d, h, w), dt, "noise", 30, 200))
    idx %= d
    paths = []
    name = names(seed, n, "/f%d")
    for i in range(n):
        if fmt == "tif":
            p = base + name[i]
            for j in range(d):
                losa.save_image(p + "/i_%02d.tif" % j,
                                np.float32(vols[i, j]))
        else:
            p = base + name[i] + ".hdf"
            write_hdf(p, e__data=vols[i] if fmt == "hdf" else vols[i, 0])
        paths.append(p)
    flat, flat_m, dark, dark_m = fields(seed, fk, dk, h, w, 60, nf)
    c = crop_of(crop, h, w)
    got = losa.get_image_stack(
        idx, paths, data_key=None if fmt == "tif" else "e/data", average=avg,
        crop=c, flat_field=flat, dark_field=dark, num_use=nuse,
        fix_zero_div=fz)
    if fmt != "hdf2d" and not avg:
        for k in (d, d + 2):
            ctx.raises((ValueError, IndexError), lambda: losa.get_image_stack(
                k, paths, data_key=None if fmt == "tif" else "e/data"),
                "image %d of %d" % (k, d))
    m = n if nuse is None else min(n, nuse)
    f64 = vols[:m].astype(np.float64)
    if fmt == "hdf2d":
        sel = f64[:, 0]
    else:
        sel = f64.mean(axis=1) if avg else f64[:, idx]
    want = correct(sel, flat_m, dark_m, c)
    if not safe(want):
        ctx.nontrivial(False)
        return
    ctx.near(got, fixz(want, fz), "stack", rtol=2e-5)
    ctx.label(fmt)
    ctx.nontrivial(n > 1)


@check(quick=120, seed=SEED, n=I(1, 4), d=I(1, 4), nref=I(1, 4), h=I(2, 7),
       w=I(2, 7), dt=DT, ref2d=st.booleans(), crop=CROP, fk=FIELD, dk=FIELD,
       idx=I(0, 3), nuse=st.none() | I(1, 6), fz=st.booleans(), nf=I(1, 5))
def ref_sam_stacks(ctx, seed, n, d, nref, h, w, dt, ref2d, crop, fk, dk, idx,
                   nuse, fz, nf):
    """Averaged references and the chosen projection of each dataset pair."""
    base = ctx.tmpdir()
    sam = zeros(seed, array(seed, (n, d, h, w), dt, "noise", 70, 200))
    ref = zeros(seed, array(seed + 5, (n, nref, h, w), dt, "noise", 90, 220))
    idx %= d
    rp, sp = [], []
    rname = names(seed, n, "/r%d.nxs")
    sname = names(seed + 1, n, "/s%d.nxs")
    for i in range(n):
        rp.append(base + rname[i])
        sp.append(base + sname[i])
        write_hdf(rp[-1], a__r=ref[i, 0] if ref2d else ref[i])
        write_hdf(sp[-1], s=sam[i])
    flat, flat_m, dark, dark_m = fields(seed, fk, dk, h, w, 60, nf)
    c = crop_of(crop, h, w)
    r1, s1 = losa.get_reference_sample_stacks(
        idx, rp, sp, "a/r", "s", crop=c, flat_field=flat, dark_field=dark,
        num_use=nuse, fix_zero_div=fz)
    m = n if nuse is None else min(n, nuse)
    rsel = ref[:m].astype(np.float64)
    want_r = correct(rsel[:, 0] if ref2d else rsel.mean(axis=1), flat_m,
                     dark_m, c)
    want_s = correct(sam[:m, idx], flat_m, dark_m, c)
    if not (safe(want_r) and safe(want_s)):
        ctx.nontrivial(False)
        return
    ctx.near(r1, fixz(want_r, fz), "reference stack", rtol=2e-5)
    ctx.near(s1, fixz(want_s, fz), "sample stack", rtol=2e-5)
    ctx.nontrivial(n > 1)


KEYS = st.lists(pick(0, 0, 0, 1, 2), min_size=1, max_size=9)


@check(quick=200, seed=SEED, n=I(1, 3), keys=KEYS, h=I(2, 7), w=I(2, 7),
       dt=DT, crop=CROP, fk=pick(None, "2d", "2du16"),
       dk=pick(None, None, "2d", "2du16"), idx=I(0, 8),
       nuse=st.none() | I(1, 5), fz=st.booleans(),
       keyway=pick("auto", "path", "list", "array"), roll=pick(0, 0, 1, 2))
def dls_stacks(ctx, seed, n, keys, h, w, dt, crop, fk, dk, idx, nuse, fz,
               keyway, roll):
    """From datasets mixing projections, references and darks told apart by
    image keys in any order: references are the mean of the frames keyed 1,
    darks of those keyed 2, the sample is the idx-th frame keyed 0."""
    base = ctx.tmpdir()
    if 0 not in keys:
        keys = keys + [0]
    if keyway in ("list", "array"):
        roll = 0                        # one for all the files
    kas = [np.roll(keys, roll * i) for i in range(n)]
    vols = zeros(seed, array(seed, (n, len(keys), h, w), dt, "noise", 70,
                             200))
    for v, ka in zip(vols, kas):
        v[ka == 2] = array(seed + 9, v[ka == 2].shape, dt, "noise", 1, 60)
    ka = kas[0]
    nproj = int((ka == 0).sum())
    idx %= nproj
    paths = []
    name = names(seed, n, "/d%d.nxs")
    for i in range(n):
        paths.append(base + name[i])
        write_hdf(paths[-1], entry__data__data=vols[i],
                  entry__instrument__image_key=kas[i])
    flat, flat_m, dark, dark_m = fields(seed, fk, dk, h, w, 60, 2)
    c = crop_of(crop, h, w)
    kw = {}
    if keyway != "auto":
        kw["data_key"] = "entry/data/data"
        kw["image_key"] = {"path": "entry/instrument/image_key",
                           "list": keys, "array": ka}[keyway]
    try:
        got = losa.get_reference_sample_stacks_dls(
            idx, paths, crop=c, flat_field=flat, dark_field=dark,
            num_use=nuse, fix_zero_div=fz, **kw)
    except ValueError:
        if not roll:
            raise
        return ctx.nontrivial(False)    # frames seen as out of step
    m = n if nuse is None else min(n, nuse)
    v = vols[:m].astype(np.float64)
    if dark_m is None and np.any(ka == 2):
        darks = [v[i, kas[i] == 2].mean(axis=0) for i in range(m)]
    else:
        darks = [dark_m] * m
    want_s = np.asarray([correct(v[i, np.flatnonzero(kas[i] == 0)[idx]],
                                 flat_m, darks[i], c) for i in range(m)])
    has_ref = bool(np.any(ka == 1))
    if not safe(want_s):
        ctx.nontrivial(False)
        return
    if has_ref:
        want_r = np.asarray([correct(v[i, kas[i] == 1].mean(axis=0), flat_m,
                                     darks[i], c) for i in range(m)])
        if not safe(want_r):
            ctx.nontrivial(False)
            return
        ctx.true(isinstance(got, tuple) and len(got) == 2,
                 "references exist but only one stack came back")
        ctx.near(got[0], fixz(want_r, fz), "reference stack", rtol=2e-5)
        ctx.near(got[1], fixz(want_s, fz), "sample stack", rtol=2e-5)
    else:
        ctx.near(got, fixz(want_s, fz), "sample stack", rtol=2e-5)
    runs = 1 + int(np.sum(np.diff(ka) != 0))
    ctx.label("runs%d" % min(runs, 6), keyway)
    ctx.nontrivial(len(set(keys)) > 1)


larger(tif_stack, d=I(10, 30), h=I(40, 150), w=I(40, 150), idx=st.none() |
       I(-30, 29), nuse=st.none() | I(1, 30))
larger(image_stack, n=I(5, 12), d=I(2, 9), h=I(40, 150), w=I(40, 150),
       nuse=st.none() | I(1, 12))
larger(ref_sam_stacks, n=I(4, 12), d=I(4, 20), nref=I(4, 20), h=I(20, 150),
       w=I(20, 150), idx=I(0, 19), nuse=st.none() | I(1, 12))


# paths used before
again(tif_stack)
again(image_stack)
again(ref_sam_stacks)
again(dls_stacks)
