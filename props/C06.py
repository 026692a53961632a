"""C06: parallel slice processing equals serial processing."""
import threading
import time
import h5py
import numpy as np
import scipy.ndimage as ndi
from hypothesis import strategies as st
from vf.core import check, larger
from vf.gen import SEED, I, F, array, rng, pick
import algotom.util.utility as util
import algotom.prep.calculation as calc
import algotom.prep.removal as remo
import algotom.prep.filtering as filt
import algotom.rec.reconstruction as reco

DT = pick("float32", "uint16", "float64", "uint8")


class Tagged:
    """A slice method recording what it was called with, finishing in a
    scrambled order."""

    def __init__(self, seed, shape_mode):
        self.seed, self.mode = seed, shape_mode
        self.lock = threading.Lock()
        self.calls = 0

    def __call__(self, mat, a, b=1.0, c=0.0):
        with self.lock:
            self.calls += 1
        time.sleep(((int(mat.sum()) * 7 + self.seed) % 5) * 0.0004)
        out = np.asarray(mat, dtype=np.float64) * a + b * np.arange(
            mat.shape[1]) - c
        if self.mode == "wider":
            out = np.hstack((out, out[:, :1], out))
        elif self.mode == "taller":
            out = np.vstack((out, out[::-1]))
        elif self.mode == "row":
            out = out.sum(axis=0)
        elif self.mode == "transpose":
            out = out.T
        return out


@check(quick=150, seed=SEED, d=I(1, 6), h=I(1, 6), w=I(1, 6), dt=DT,
       axis=I(0, 2), ncore=pick(None, 1, 2, 3, 8, 0, -1), prefer=pick(
           "threads"), mode=pick("same", "wider", "taller", "transpose"),
       nolist=st.booleans(), kw=st.booleans(), hdf=st.booleans())
def schedule(ctx, seed, d, h, w, dt, axis, ncore, prefer, mode, nolist, kw,
             hdf):
    """Applying a method to the slices along an axis gives, in float32, the
    stack along the same axis of the method applied to each slice in turn,
    whatever the number of workers, the order they finish in, the input being
    an array or an hdf dataset, and the way parameters are given."""
    vol = array(seed, (d, h, w), dt, "noise", 0, 200)
    meth = Tagged(seed, mode)
    para = 2.0 if nolist else [2.0] + ([] if kw else [3.0])
    kws = {"c": 5.0} if kw else {}
    src = vol
    if hdf:
        path = ctx.tmpdir() + "/d.hdf"
        with h5py.File(path, "w") as f:
            f["d"] = vol
        fobj = h5py.File(path, "r")
        src = fobj["d"]
    with ctx.unchanged("parallel_process_slices", vol):
        got = util.parallel_process_slices(src, meth, para, axis=axis,
                                           ncore=ncore, prefer=prefer, **kws)
    if hdf:
        fobj.close()
    n = vol.shape[axis]
    ctx.eq(meth.calls, n, "number of slices processed")
    ref = Tagged(seed, mode)
    plist = [2.0] if nolist else para
    want = np.stack([ref(np.take(vol, i, axis=axis), *plist, **kws)
                     for i in range(n)], axis=axis).astype(np.float32)
    ctx.same(got, want, "processed volume")
    ctx.eq(got.dtype, np.dtype("float32"), "dtype")
    ctx.nontrivial(n > 1 and ncore not in (1, 0, -1))
    ctx.label("axis%d" % axis, mode)


@check(quick=25, seed=SEED, d=I(12, 20), h=I(2, 5), w=I(24, 40), axis=pick(
    0, 1), ncore=I(1, 6), which=pick("sort", "filter", "norm", "fit",
                                     "fresnel", "tuple", "number", "array"))
def library_methods(ctx, seed, d, h, w, axis, ncore, which):
    """The same with methods of the library itself."""
    vol = array(seed, (d, h, w) if axis == 1 else (h, d, w), "float32",
                "noise", 0.5, 1.5)
    meth, para = {
        "sort": (remo.remove_stripe_based_sorting, [5]),
        "filter": (remo.remove_stripe_based_filtering, [3, 5]),
        "norm": (remo.remove_stripe_based_normalization, [7]),
        "fit": (remo.remove_stripe_based_fitting, [2, 5]),
        "fresnel": (filt.fresnel_filter, [20]),
        "tuple": (ndi.median_filter, (3, 3)),       # one parameter, no list
        "number": (np.fft.fftshift, 1),
        "array": (ndi.correlate, array(seed, (3, 3), "float64", "noise", 0,
                                       1)),
    }[which]
    got = util.parallel_process_slices(vol, meth, para, axis=axis,
                                       ncore=ncore)
    one = para if isinstance(para, list) else [para]
    want = np.stack([meth(np.take(vol, i, axis=axis), *one)
                     for i in range(vol.shape[axis])], axis=axis)
    ctx.near(got, want, which, rtol=1e-6)
    ctx.label(which)


@check(quick=40, seed=SEED, h=I(8, 20), w=I(20, 40), ncore=I(2, 7),
       which=pick("regular", "coarse", "overlap", "shift", "fbp", "dfi",
                  "gridless", "stack"), cost=2)
def worker_count(ctx, seed, h, w, ncore, which):
    """Functions taking a number of cores return the same with any number."""
    mat = array(seed, (h, w), "float32", "noise", 0.5, 1.5)
    mat2 = array(seed, (h, w + 10), "float32", "smooth", 0.5, 1.5)
    if which == "regular":
        fn = lambda n: util.apply_regularization_filter(mat, 0.05,
                                                        axis=seed % 2,
                                                        ncore=n)
    elif which == "coarse":
        fn = lambda n: calc.coarse_search_cor(mat2, w // 2, w // 2 + 4,
                                              ncore=n)
    elif which == "overlap":
        fn = lambda n: calc.search_overlap(mat2, np.fliplr(mat2), 7, 1,
                                           ncore=n)
    elif which == "shift":
        fn = lambda n: calc.find_overlap(mat2, np.fliplr(mat2), 7, ncore=n)
    elif which == "fbp":
        fn = lambda n: reco.fbp_reconstruction(mat, w / 2.0, ncore=n,
                                               gpu=False)
    elif which == "dfi":
        vol = np.stack((mat, mat[::-1], mat * 0.5), axis=1)
        fn = lambda n: reco.dfi_reconstruction(vol, w / 2.0, ncore=n)
    elif which == "gridless":
        vol = np.stack((mat, mat[::-1], mat * 0.5), axis=1)
        fn = lambda n: reco.fbp_reconstruction(vol, w / 2.0, ncore=n,
                                               gpu=False)
    else:
        vol = np.stack((mat, mat[::-1], mat * 0.5), axis=1)
        fn = lambda n: util.parallel_process_slices(
            vol, remo.remove_stripe_based_normalization, [3], axis=1, ncore=n)
    a = fn(1)
    b = fn(ncore)
    for x, y in zip(np.atleast_1d(np.asarray(a, dtype=object))
                    if isinstance(a, tuple) else [a],
                    np.atleast_1d(np.asarray(b, dtype=object))
                    if isinstance(b, tuple) else [b]):
        ctx.near(y, x, which, rtol=2e-6)
    ctx.label(which)


larger(schedule, d=I(20, 300), h=I(2, 40), w=I(2, 40))
