"""C47: reconstructions left to other packages. Stand-ins for tomopy and astra
take the place of the packages: they record what they are handed and return
numbers that depend on all of it."""
import os
import sys
import types
import warnings
import zlib
from unittest import mock

import numpy as np
import scipy.ndimage as ndi
from numba import cuda
from hypothesis import strategies as st
from vf.core import also, check, larger
from vf.gen import SEED, I, F, array, rng, pick
import algotom.io.loadersaver as losa
import algotom.rec.reconstruction as rec

METHODS = ["BP", "FBP", "SIRT", "SART", "ART", "CGLS"]


def mix(sino, angles, extra=0.0):
    """Square of numbers depending on each entry of the sinogram, each angle
    and on where they are."""
    n, w = sino.shape
    i, j = np.mgrid[0:w, 0:w]
    out = np.zeros((w, w))
    for k in range(n):
        out += sino[k][(5 * i + 3 * j + 2 * k) % w] * (1 + angles[k]) * (
            1 + 0.01 * (i - 2 * j))
    return out + extra


def digest(name):
    """A number for the name of a filter."""
    return zlib.crc32(str(name).encode()) % 97 / 7


class Tomopy(types.ModuleType):
    def __init__(self):
        super().__init__("tomopy")
        self.calls = []

    def recon(self, tomo, theta, center=None, sinogram_order=False,
              algorithm=None, init_recon=None, ncore=None, nchunk=None,
              **kw):
        assert not sinogram_order
        self.calls.append(dict(kw, tomo=np.array(tomo), theta=np.array(
            theta), center=center, algorithm=algorithm, ncore=ncore))
        more = digest(kw.get("filter_name"))
        return np.asarray([mix(tomo[:, k], theta, more) for k in range(
            tomo.shape[1])], np.float32)


class Astra(types.ModuleType):
    """The calls of the toolbox needed for a 2D reconstruction."""

    def __init__(self):
        super().__init__("astra")
        self.runs, self.objs, self.algs, self.n = [], {}, {}, 0
        self.data2d = types.SimpleNamespace(
            create=self.create, get=lambda i: self.objs[i]["data"],
            delete=self.drop, store=self.store)
        self.algorithm = types.SimpleNamespace(
            create=self.make, run=self.run, delete=self.drop)
        self.projector = types.SimpleNamespace(delete=self.drop)

    def new(self, obj):
        self.n += 1
        self.objs[self.n] = obj
        return self.n

    def drop(self, ids):
        for i in np.atleast_1d(ids):
            del self.objs[int(i)]

    def store(self, i, data):
        self.objs[i]["data"] = np.array(data)

    def create_proj_geom(self, kind, width, n, angles):
        assert kind == "parallel"
        return {"kind": kind, "width": width, "n": n,
                "angles": np.array(angles)}

    def create_vol_geom(self, *size):
        size = size[0] if len(size) == 1 else size
        h, w = (size, size) if np.isscalar(size) else size
        return {"h": h, "w": w}

    def create_projector(self, kind, proj, vol):
        return self.new({"proj": proj, "vol": vol})

    def create(self, kind, geom, data=0.0):
        if kind == "-sino":
            shape = (len(geom["angles"]), geom["n"])
        else:
            shape = (geom["h"], geom["w"])
        d = np.zeros(shape) + data
        assert d.shape == shape
        return self.new({"geom": geom, "data": d})

    def astra_dict(self, method):
        return {"type": method}

    def make(self, cfg):
        if cfg["type"].replace("_CUDA", "") not in METHODS:
            raise RuntimeError("no such algorithm")
        if "CUDA" not in cfg["type"]:
            self.objs[cfg["ProjectorId"]]
        return self.new(dict(cfg))

    def run(self, i, iterations=1):
        cfg = self.objs[i]
        s = self.objs[cfg["ProjectionDataId"]]
        self.runs.append(dict(
            method=cfg["type"], filter=cfg.get("FilterType"),
            sino=s["data"].copy(), angles=s["geom"]["angles"],
            width=s["geom"]["width"], it=iterations))
        v = self.objs[cfg["ReconstructionDataId"]]
        v["data"] = mix(s["data"], s["geom"]["angles"], digest(
            cfg.get("FilterType")) if "FBP" in cfg["type"] else 0)


class standing_in:
    def __init__(self, name, obj):
        self.name, self.obj = name, obj

    def __enter__(self):
        self.old = sys.modules.get(self.name)
        sys.modules[self.name] = self.obj
        return self.obj

    def __exit__(self, *a):
        if self.old is None:
            sys.modules.pop(self.name, None)
        else:
            sys.modules[self.name] = self.old


def circle(w, ratio):
    i = np.arange(w) - w // 2
    r = np.hypot(*np.meshgrid(i, i))
    sure = r < ratio * (w / 2) - 1.0, r > ratio * (w / 2) + 1.0
    return sure


def logged(s, on):
    if not on:
        return s
    with np.errstate(all="ignore"):
        return -np.log(np.where(s <= 0, 1.0, s))


def masked(ctx, got, full, ratio, cen, w, msg):
    """Inside the circle all is there, outside is nothing."""
    if ratio is None:
        return ctx.near(got, full, msg, rtol=2e-4)
    if ratio == 0.0:
        ratio = min(cen, w - cen) / (0.5 * w)
    inner, outer = circle(w, ratio)
    ctx.near(got[inner], full[inner], msg, rtol=2e-4,
             scale=np.abs(full).max() + 1e-9)
    ctx.near(got[outer], 0 * full[outer], msg + " outside the circle",
             scale=1)
    part = ~inner & ~outer
    ctx.true(np.all(np.minimum(np.abs(got - full), np.abs(got))[part]
                    <= 1e-3 * np.abs(full).max() + 1e-9), msg + " on the rim")


BASE = dict(seed=SEED, n=I(2, 9), w=I(5, 20), d=I(0, 3), c=F(0, 0.999),
            told=st.booleans(), ratio=st.one_of(
                st.none(), st.just(0.0), F(0.3, 1.2)),
            log=st.booleans(), zeros=st.booleans())


def given(seed, n, w, d, c, told, zeros):
    shape = (n, d, w) if d else (n, w)
    s = array(seed, shape, "float32", "smooth", 0.1, 1.5)
    if zeros:
        s[rng(seed, 1).random(shape) < 0.1] = 0
    ang = np.sort(rng(seed, 2).random(n)) * 3 if told else None
    return s, c * (w - 1), ang


@check(quick=150, pad=pick(None, True, False, 0, 3, 11),
       name=pick(None, "shepp", "hann", "parzen"), par=F(0.1, 1), **BASE)
def gridrec(ctx, seed, n, w, d, c, told, ratio, log, zeros, pad, name, par):
    """The package gets the logarithm (of a sinogram without zeros), padded
    by its edges to a power of two, the centre moved along, the angles in
    radian and the filter; the part belonging to the sinogram comes back,
    inside the circle."""
    s, cen, ang = given(seed, n, w, d, c, told, zeros)
    kw = {} if pad is None else {"pad": pad}
    with standing_in("tomopy", Tomopy()) as tp, \
            ctx.unchanged("gridrec", s), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = rec.gridrec_reconstruction(
            s, cen, angles=ang, ratio=ratio, filter_name=name,
            apply_log=log, filter_par=par, ncore=2, **kw)
    ctx.shape(out, (w, d, w) if d else (w, w), "reconstruction")
    a = logged(s.astype(float), log).reshape(n, max(d, 1), w)
    theta = np.deg2rad(np.linspace(0, 180, n)) if ang is None else ang
    slices = []
    for k in tp.calls:
        ctx.eq(k["algorithm"], "gridrec", "algorithm")
        ctx.near(k["theta"], theta, "angles")
        ctx.eq(k.get("filter_name"), name or "shepp", "filter")
        ctx.near(k.get("filter_par"), par, "strength of the filter")
        m = k["tomo"].shape[-1]
        if pad is False:
            ctx.eq(m, w, "width without padding")
        else:
            least = w + 2 * (0 if pad is True else 100 if pad is None
                             else pad)
            ctx.true(m & (m - 1) == 0 and least <= m < 2 * least, lambda:
                     "padded to %d, from %d" % (m, least))
        left = int(round(float(k["center"] - cen)))
        ctx.near(k["center"], cen + left, "centre", atol=1e-4)
        ctx.true(0 <= left <= m - w and abs(2 * left - (m - w)) <= 1,
                 "padded on one side")
        slices += [(k["tomo"][:, i], left) for i in range(
            k["tomo"].shape[1])]
    ctx.eq(len(slices), max(d, 1), "sinograms handed over")
    for i, (t, left) in enumerate(slices):
        m = t.shape[1]
        ctx.near(t, np.pad(a[:, i], ((0, 0), (left, m - w - left)),
                           mode="edge"), "sinogram handed over", rtol=1e-5)
        full = mix(t, theta, digest(name or "shepp"))[left:left + w, left:left + w]
        masked(ctx, out[:, i] if d else out, full, ratio, cen, w,
               "reconstruction")
    ctx.label("3D" if d else "2D")
    ctx.nontrivial(d != 1 and n > 2)


@check(quick=150, pad=pick(None, 0, 3, 11), name=pick(None, "hann", "parzen"),
       method=pick(*METHODS, "FBP_CUDA", "SIRT_CUDA", "CGLS_CUDA", "FBP", "BP_CUDA",
                   "FBP_CUDA"), it=I(1, 30), cores=pick(1, 2, None),
       gpu=st.booleans(), **BASE)
def astra(ctx, seed, n, w, d, c, told, ratio, log, zeros, pad, name, method,
          it, cores, gpu):
    """The package gets each sinogram (its logarithm), padded by its edges,
    moved until the centre is in the middle, the angles, the method, the
    filter and the number of iterations; the part belonging to the sinogram
    comes back, inside the circle, and nothing stays in the package."""
    s, cen, ang = given(seed, n, w, d, c, told, zeros)
    with standing_in("astra", Astra()) as tb, \
            ctx.unchanged("astra", s), warnings.catch_warnings(), \
            mock.patch.object(cuda, "is_available", lambda: gpu):
        warnings.simplefilter("ignore")
        out = rec.astra_reconstruction(
            s, cen, angles=ang, ratio=ratio, method=method, num_iter=it,
            filter_name=name, pad=pad, apply_log=log, ncore=cores)
    ctx.shape(out, (w, d, w) if d else (w, w), "reconstruction")
    a = logged(s.astype(float), log).reshape(n, max(d, 1), w)
    theta = np.deg2rad(np.linspace(0, 180, n)) if ang is None else ang
    p = min(int(0.15 * w), 150) if pad is None else pad
    ctx.eq(len(tb.runs), max(d, 1), "runs")
    # without a GPU its methods are replaced by those of the CPU
    kind = method if gpu else method.replace("_CUDA", "")
    left = list(tb.runs)
    for i in range(max(d, 1)):
        e = np.pad(a[:, i], ((0, 0), (p, p)), mode="edge")
        e = ndi.shift(e, (0, (w + 2 * p - 1) / 2 - (cen + p)),
                      mode="nearest")
        # workers may take them in any order
        k = min(range(len(left)), key=lambda q: np.abs(
            left[q]["sino"] - e).max() if left[q]["sino"].shape == e.shape
            else np.inf)
        run = left.pop(k)
        ctx.near(run["sino"], e, "sinogram handed over", rtol=1e-4)
        ctx.near(run["angles"], theta, "angles")
        ctx.eq((run["method"], run["it"], run["width"]), (kind, it, 1),
               "method, iterations, width of a pixel")
        if kind in ("FBP", "FBP_CUDA"):
            ctx.eq(run["filter"], name or "ram-lak", "filter")
        full = mix(e, theta, digest(name or "ram-lak")
                   if "FBP" in kind else 0)[p:p + w, p:p + w]
        masked(ctx, out[:, i] if d else out, full, ratio, cen, w,
               "reconstruction")
    kept = [o for o in tb.objs.values() if "data" in o or "type" in o]
    ctx.true(not kept, "%d objects stay in the package" % len(kept))
    ctx.label(kind, "3D" if d else "2D")
    ctx.nontrivial(d != 1 and n > 2)


@check(quick=80, which=pick("gridrec", "astra"), how=I(0, 4), n=I(2, 9),
       w=I(5, 20), dn=pick(-1, 1), off=F(0, 5))
def refused(ctx, which, how, n, w, dn, off):
    """A centre outside, the wrong number of angles, unknown methods and a
    package which is not there are refused."""
    s = np.full((n, w), 0.5)
    f = rec.gridrec_reconstruction if which == "gridrec" else \
        rec.astra_reconstruction
    fake = {"gridrec": ("tomopy", Tomopy()), "astra": ("astra", Astra())}

    def call(c=w / 2, **kw):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return f(s, c, **kw)
    name, obj = fake[which]
    if how == 4:        # importing None is an ImportError
        with standing_in(name, None):
            ctx.raises(ValueError, call, "no " + name)
        return ctx.nontrivial(True)
    with standing_in(name, obj):
        if how == 0:
            ctx.raises(ValueError, lambda: call(w + off), "centre")
        elif how == 1:
            ctx.raises(ValueError, lambda: call(-0.01 - off), "centre")
        elif how == 2:
            ctx.raises(ValueError, lambda: call(angles=np.zeros(n + dn)),
                       "angles")
        elif which == "astra":
            for m in ("EM", "EM_CUDA", "fbp", "XYZ", "XYZ_CUDA", "ART2"):
                ctx.raises(ValueError, lambda: call(method=m), m)
        else:
            return ctx.nontrivial(False)
    ctx.nontrivial(True)


@check(quick=30, seed=SEED, which=pick("gridrec", "astra"), n=I(3, 8),
       w=I(15, 20), log=st.booleans(), told=st.booleans(), lo=I(4, 6),
       num=I(1, 4), step=pick(0.5, 1.0), name=pick(None, "hann", "parzen"),
       ratio=F(0.5, 1), cost=3)
def centers(ctx, seed, which, n, w, log, told, lo, num, step, name, ratio):
    """Looking for a centre with these packages: each centre in the range is
    reconstructed with the options given, and written to its file."""
    s = array(seed, (n, w), "float32", "smooth", 0.2, 1.5)
    ang = np.sort(rng(seed, 2).random(n)) * 3 if told else None
    cens = [lo + k * step for k in range(num + 1)]
    out = ctx.tmpdir()
    kw = dict(method=which, angles=ang, ratio=ratio, filter_name=name,
              apply_log=log, ncore=1, gpu=False)
    with standing_in("tomopy", Tomopy()), standing_in("astra", Astra()), \
            ctx.unchanged("centres", s):
        folder = rec.find_center_visual_slices(
            s, out, lo, lo + num * step, step=step, zoom=1.0, **kw)
        got = {}
        for f in os.listdir(str(folder)):
            got[float(f.split("_")[-1][:-4])] = losa.load_image(
                os.path.join(str(folder), f))
        one = rec.gridrec_reconstruction if which == "gridrec" else \
            (lambda *a, **k: rec.astra_reconstruction(*a, method="FBP", **k))
        exp = {c: one(s, c, angles=ang, ratio=ratio, filter_name=name,
                      apply_log=log, ncore=1) for c in cens}
    ctx.eq(sorted(got), sorted(exp), "centres")
    for c in cens:
        ctx.near(got[c], exp[c], "slice at %s" % c, rtol=1e-4)
    seen = []

    def value(m, k=3.0):
        seen.append(k * float(np.abs(m).sum()))
        return seen[-1]
    hi = lo + num
    with standing_in("tomopy", Tomopy()), standing_in("astra", Astra()):
        c = rec.find_center_based_slice_metric(
            s, lo, hi, step=step, sigma=0, metric_function=value,
            radius=1, **kw)

        def metric(x):
            return float(np.abs(one(s, x, angles=ang, ratio=ratio,
                                    filter_name=name, apply_log=log,
                                    ncore=1)).sum())
        cs = np.arange(lo, hi + 1, 1.0)
        vs = [metric(x) for x in cs]
        mid = cs[np.argmin(vs)]
        cs2 = np.arange(mid - step - 1, mid + step + 1 + step, step)
        vs2 = [metric(x) for x in cs2]
    ctx.near(np.array(seen), 3.0 * np.array(vs + vs2), "metrics compared",
             rtol=1e-4)
    ctx.true(c in cs2, "centre %s not among those tried" % c)
    ctx.near(vs2[list(cs2).index(c)], min(vs2), "metric of the centre",
             rtol=1e-4)
    ctx.label(which)
    ctx.nontrivial(num > 1)


larger(gridrec, n=I(40, 180), w=I(60, 300))
larger(astra, n=I(40, 180), w=I(60, 300))


also(astra, "astra_wide", "The same where the default padding reaches its "
     "limit.", 4, 30, 30, w=I(930, 1100), n=I(2, 3), d=st.just(0),
     pad=st.none(), cores=st.just(1))
